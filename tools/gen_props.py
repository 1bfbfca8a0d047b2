#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that the statements are readable and editable)"""
import json, os
S = 'src/ppocr/'
P = []


def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': [S + f for f in files], 'mechanism': [{'name': n, 'where': S + w} for n, w in mech]}})


prop('P01', 'Rotating, cropping and cloning an image keep every pixel',
     'A quarter turn of an image swaps its dimensions and puts the pixel of column x, row y at column y, row width-1-x; a crop has the requested size and its pixel (i,j) is the source pixel (x+i,y+j); a clone has the same size and pixels in storage of its own. The source image is left unchanged and nothing outside the source and destination pixels is read or written.',
     ['inputs'], 'every image size and content, every crop rectangle inside the image',
     'The unit test crops and rotates one 5x6 picture; a defect that needs another shape (very wide, one row, crop touching an edge, larger than a threshold) passes it.',
     ['image/image.cpp', 'image/image.hpp'], [('rotate90 / Image::rotate90', 'image/image.cpp'), ('section / Image::section', 'image/image.cpp'), ('Image::clone', 'image/image.cpp')])
prop('P02', 'Image equality and image ordering agree and form a total order',
     'Two images compare equal exactly when they have the same width, the same height and the same pixels. The three-way comparison is zero exactly for equal images, reverses its sign when the operands are exchanged, and is transitive, so that it can key a cache of recognised images. Neither comparison reads outside the two images.',
     ['inputs'], 'every pair (triple) of images of any sizes and contents',
     'Tests compare a handful of pictures; the order laws quantify over all pairs and triples, and an asymmetric comparison only shows when a cache lookup silently misses.',
     ['image/image.cpp', 'utils/image_compare.cpp', 'utils/image_compare.hpp', 'ocr2/cache.hpp'], [('operator==(Image,Image)', 'image/image.cpp'), ('image_compare', 'utils/image_compare.cpp')])
prop('P03', 'Picture files decode to exactly the pixels they describe or are rejected',
     'Loading a binary or ASCII bitmap/pixmap file yields an image with the width and height of the header whose every pixel is ink or background exactly as the file encodes it for the given luminance threshold. A file with a malformed header, a wrong amount of pixel data, an unsupported type or an empty or oversized picture is rejected with an error. Whatever the bytes of the file, nothing outside the file contents and the image is accessed and no pixel is left undefined.',
     ['inputs'], 'every file content, every header, every luminance threshold',
     'The tests load a few well-formed files; malformed, truncated and overflowing ones are unbounded in number and lead to memory errors that no sampled file shows.',
     ['image/image_from_file.cpp'], [('PnmHeader::parse', 'image/image_from_file.cpp'), ('image_from_file', 'image/image_from_file.cpp')])
prop('P04', 'Character segmentation returns a box inside the picture that fits the ink',
     'The box returned for the next character lies inside the picture and is never empty when there is ink at or to the right of the starting column. No ink is left between the starting column and the left edge of the box, the columns of the box cover every column up to the detected gap, and the top and bottom rows of the box are the first and last rows that contain ink between its edges. Only pixels of the picture are read.',
     ['inputs'], 'every picture, every starting position',
     'The segmentation test walks one picture; the geometry of gaps, of ink touching the right or bottom edge and of one-column glyphs cannot be enumerated by samples.',
     ['box_char/make_box_character.cpp', 'box_char/box.hpp'], [('make_box_character', 'box_char/make_box_character.cpp'), ('horizontal_empty / vertical_empty', 'box_char/make_box_character.cpp')])
prop('P05', 'Horizontal balance features are exact and stay in their range',
     'The four horizontal balance features of a glyph (upper against lower ink, plain and weighted by the distance to the middle, each relative to the ink or to the area) equal the integer value of their defining formula over all pixels, the middle row of an odd height being ignored. The ink-relative ones are between 0 and 200 (100 without ink), the area-relative ones between 0 and 100 (50 for a single row).',
     ['inputs'], 'every glyph image of any size and content',
     'The feature tests check a few hand-made glyphs; parity of the height, one-row images, full and empty images and arithmetic wrap-around need all sizes and contents.',
     ['strategies/hdirection.cpp', 'strategies/hdirection2.cpp', 'strategies/hgravity.cpp', 'strategies/hgravity2.cpp', 'strategies/utils/horizontal_direction.hpp', 'strategies/utils/horizontal_gravity.hpp'],
     [('hdirection::load', 'strategies/hdirection.cpp'), ('hdirection2::load', 'strategies/hdirection2.cpp'), ('hgravity::load', 'strategies/hgravity.cpp'), ('hgravity2::load', 'strategies/hgravity2.cpp')])
prop('P06', 'Diagonal features read only the glyph and stay in their range',
     'The diagonal features of a glyph (balance inside the two vertical cones, plain and weighted, relative to the ink or to the cone area, and the density inside the diagonal band) equal their defining formula over exactly the pixels of the cones or band. They never read outside the image, never divide by zero, and stay between 0 and 200 (ink-relative) or 0 and 100 (density), whatever the size of the image.',
     ['inputs'], 'every glyph image of any size and content',
     'The cone and band borders depend on integer divisions of width and height; tests cover a few sizes, an out-of-range border or a zero area needs others.',
     ['strategies/dvdirection.cpp', 'strategies/dvdirection2.cpp', 'strategies/dvgravity.cpp', 'strategies/dvgravity2.cpp', 'strategies/dzdensity.cpp', 'strategies/utils/diagonal_vertical_direction.hpp', 'strategies/utils/diagonal_vertical_gravity.hpp'],
     [('dvdirection::load / dvdirection2::load', 'strategies/dvdirection.cpp'), ('dvgravity::load / dvgravity2::load', 'strategies/dvgravity.cpp'), ('dzdensity::load', 'strategies/dzdensity.cpp')])
prop('P07', 'Ink density, proportions and bar count equal their definitions',
     'The ink density of a glyph is the percentage of its pixels that are ink, rounded down and between 0 and 100; its proportion is width*100/(width+height) and below 100; its bar count is the number of separate groups of consecutive rows that are entirely ink. Only pixels of the glyph are read.',
     ['inputs'], 'every glyph image of any size and content',
     'The tests check single glyphs; counting and rounding over all contents, and rows that are almost full, are out of their reach.',
     ['strategies/density.cpp', 'strategies/proportionality.cpp', 'strategies/hbar.cpp'],
     [('density::load', 'strategies/density.cpp'), ('proportionality::load', 'strategies/proportionality.cpp'), ('hbar::load', 'strategies/hbar.cpp')])
prop('P08', 'Alternation features count the ink runs along seven scan lines and bands',
     'Each of the seven alternation features of a glyph says whether its scan line (or band, where a column is ink when any of its pixels in the band is) starts with ink and counts exactly the maximal runs of equal colour along it. The lines and bands are the documented ones at the thirds and the middle of the image and of its quarter turn, an image of one row has an empty first line, and only pixels of the image and its quarter turn are read.',
     ['inputs'], 'every glyph image of any size and content',
     'The test checks a few glyphs; positions of lines and bands for all heights, very small images and all colour sequences are not sampled.',
     ['strategies/alternations.cpp', 'image/image.hpp'], [('alternations::load', 'strategies/alternations.cpp'), ('HorizontalRange / AnyPixelGet / next_alternation', 'image/image.hpp')])
prop('P09', 'Background zone analysis stays in bounds, ends, and counts consistently',
     'Analysing the background zones of a glyph terminates for every image and never reads or writes outside the image and its working buffers, also when one analyser is reused for images of different sizes. The corner flags are exact, the number of zones touching each border and the number of enclosed zones never exceed the number of zones, and a side without background pixels touches no zone.',
     ['inputs', 'histories'], 'every image of any size and content, every sequence of images analysed with one analyser',
     'The tests analyse a few glyphs; the work stack and the reused buffers overflow only for particular shapes and orders of sizes.',
     ['strategies/utils/count_zone.hpp', 'strategies/zone.cpp', 'strategies/proportionality_zone.cpp'], [('count_zone_fn::compute', 'strategies/utils/count_zone.hpp'), ('Buffer::alloc_and_init_to_zero', 'strategies/utils/count_zone.hpp'), ('zone::load', 'strategies/zone.cpp')])
prop('P10', 'Feature similarity is symmetric, between 0 and 100, and 100 for equal values',
     'For every feature the similarity of two possible feature values is between 0 and 100 (0 or 1 for features compared by equality), does not depend on the order of the two values (up to two rounding units for the zone-proportion feature, which averages rounded shares), and is maximal for equal values; for the array features it is the percentage of equal components. The tolerance test used to discard candidates agrees with the difference of the two values: for interval features it holds exactly when they differ by more than the tolerance, for array features exactly when the similarity reaches it.',
     ['inputs'], 'every pair of feature values the features can produce, every tolerance',
     'The tests compare a few pairs; symmetry and range are statements about all pairs, including extreme ones where unsigned arithmetic wraps.',
     ['strategies/utils/relationship.hpp', 'strategies/relationship/interval.hpp', 'strategies/relationship/equal.hpp', 'strategies/relationship/array_compare.hpp', 'strategies/proportionality_zone.cpp'],
     [('compute_relationship', 'strategies/utils/relationship.hpp'), ('interval_relationship', 'strategies/relationship/interval.hpp'), ('array_compare_relationship', 'strategies/relationship/array_compare.hpp'), ('proportionality_zone::relationship_type::compute', 'strategies/proportionality_zone.cpp')])
prop('P11', 'Shared feature contexts never leak a previous image into the next one',
     'Features that share intermediate results through a common context give, for each image, the same value as when computed alone with a fresh context, whatever images were processed before and in whatever order the features are evaluated, provided the context is reset between images. The loader performs that reset for every image it adds.',
     ['histories', 'inputs'], 'every history of images processed with one context, every image',
     'A test computes one image with one context; stale data shows only when two different images follow each other through the same shared context.',
     ['strategies/utils/context.hpp', 'loader2/datas_loader.hpp'], [('cache_context::compute / reset', 'strategies/utils/context.hpp'), ('contexts_t::reset', 'strategies/utils/context.hpp'), ('Datas::load', 'loader2/datas_loader.hpp')])
prop('P12', 'Range queries on indexed feature data return exactly the matching entries',
     'Given an index that orders the entries of a feature column, a range query returns exactly the consecutive index positions whose entry lies between the two bounds, for any bounds; the query around a value with a tolerance covers exactly the entries that differ by at most the tolerance. Nothing outside the index and the column is read.',
     ['inputs'], 'every column of any length with any duplicates, every pair of bounds',
     'Off-by-one errors of the two binary searches appear only for particular patterns of duplicates and boundary values.',
     ['ocr2/indexes_ordered.hpp', 'ocr2/data_indexes_ordered.hpp'], [('range_bounds', 'ocr2/indexes_ordered.hpp'), ('DataIndexesOrdered::get_range', 'ocr2/data_indexes_ordered.hpp')])
prop('P13', 'Reducing the candidate set keeps exactly the candidates that qualify, in order',
     'Discarding candidates by tolerance keeps exactly those whose feature value is within the tolerance of the observed one, each with its probability unchanged and in the original order. Discarding by similarity keeps exactly those whose similarity reaches the limit, in the original order and with their probability multiplied by that similarity. No candidate is duplicated or invented and no memory outside the list is touched.',
     ['inputs'], 'every candidate list, every feature column, every tolerance or limit',
     'The pipeline tests recognise a few glyphs; losing or duplicating a candidate shows only for particular patterns of kept and dropped entries.',
     ['ocr2/reduce_universe.hpp', 'ocr2/probabilities.hpp'], [('reduce_universe_with_distance', 'ocr2/reduce_universe.hpp'), ('reduce_universe_and_update_probability', 'ocr2/reduce_universe.hpp'), ('Probabilities', 'ocr2/probabilities.hpp')])
prop('P14', 'Line and font filtering only remove candidates and never lose a whole position',
     'Filtering the candidates of a text line by their vertical position never adds or reorders candidates, removes only whole words that are known to lie elsewhere, and never removes all candidates of a position. Filtering by font leaves positions with at most one candidate alone and reduces the others to one of their own candidates, preferring the dominant font. Neither reads or writes outside its inputs, whatever the boxes of the line are.',
     ['inputs'], 'every candidate list, every set of boxes, every word table',
     'The tests filter one line; boxes whose first element is extreme, equal words in different fonts and positions where every word is misplaced are not sampled.',
     ['ocr2/filter_by_lines.cpp', 'ocr2/filter_by_font.cpp'], [('filter_line / MinMaxBox / filter_by_lines', 'ocr2/filter_by_lines.cpp'), ('filter_by_font', 'ocr2/filter_by_font.cpp')])
prop('P15', 'UTF-8 iteration visits every code point once and stays inside the string',
     'Iterating over a NUL-terminated valid UTF-8 string yields its code points (or their packed bytes) one after the other, each exactly once, and a zero exactly at the terminator. Every advance moves by the length of the encoding it consumed and never beyond the terminator, and the packed form determines the encoded bytes uniquely.',
     ['inputs'], 'every code point and every valid string',
     'The tests decode a few characters; the four length classes and all bit patterns cannot be sampled exhaustively in context.',
     ['utils/utf.hpp'], [('UTF8toUnicodeIterator::operator++', 'utils/utf.hpp'), ('UTF8Iterator::operator++', 'utils/utf.hpp')])
prop('P16', 'Dictionary lookup finds exactly the words put into it',
     'Searching the children of a dictionary node finds a child with a given symbol exactly when there is one and returns that child, for any number of children. A dictionary built from a list of words accepts exactly these words.',
     ['inputs'], 'every word list, every searched word',
     'The tests use a fixed list of words; the searches depend on the number and order of siblings at every node.',
     ['container/trie.hpp', 'spell/dictionary.cpp'], [('flat_trie::range::lower_bound', 'container/trie.hpp'), ('trie::insert_after', 'container/trie.hpp'), ('Dictionary::Dictionary', 'spell/dictionary.cpp')])
prop('P17', 'Stored images read back identically',
     'Writing an image to a stream and reading it back yields an image with the same dimensions and the same pixels, and leaves the stream positioned right after it. A stream that ends early or contains no dimensions never yields a complete image.',
     ['inputs'], 'every image of any size and content',
     'Round trips are sampled on a few glyphs; pixels equal to separators or digits and single-row images need all contents.',
     ['loader2/image_io.cpp'], [('write_img / read_img', 'loader2/image_io.cpp')])
prop('P18', 'Word tables find exactly the stored word',
     'Looking up a word in the table of learned words returns the position of that word if it is stored and reports absence otherwise, also when one word is a prefix of another or longer than every stored word. Looking up the line information of a word returns the entry of exactly that word or nothing. Neither reads outside its table.',
     ['inputs'], 'every table of words, every searched word',
     'Tests look up existing short words; prefixes, multi-byte words at the end of the table and absent words are not sampled.',
     ['ocr2/glyphs.hpp', 'ocr2/words_infos.hpp'], [('Glyphs::word_index_of', 'ocr2/glyphs.hpp'), ('WordsInfos::get', 'ocr2/words_infos.hpp')])
prop('P19', 'The reused image buffer holds exactly the current glyph and its quarter turn',
     'A reusable image context returns, for each glyph, an image of the requested size whose pixels are those the caller filled in, and a quarter turn of exactly that glyph. This holds for every sequence of glyph sizes, growing or shrinking, without reading or writing outside the buffer and without releasing it twice.',
     ['histories', 'inputs'], 'every sequence of glyph sizes and contents',
     'Only particular orders of sizes (growing after shrinking) exercise the buffer reuse.',
     ['ocr2/image_context.hpp'], [('ImageContext::img / img90 / reserve', 'ocr2/image_context.hpp')])
prop('P20', 'Text assembly emits every position once and terminates',
     'Turning the candidates of a line into text with the help of the dictionary emits exactly one entry per position in order (the chosen candidate, or a question mark for an unrecognised position), separates words by single spaces at the given boundaries, and returns the number of unrecognised positions. It terminates for every input.',
     ['inputs'], 'every candidate list, every set of word boundaries, every dictionary',
     'Tests assemble a few lines; leading unrecognised positions, punctuation at word ends and dictionary dead ends are not sampled.',
     ['ocr2/disambiguous_with_dict.cpp', 'spell/word_disambiguouser.hpp'], [('disambiguous_with_dict', 'ocr2/disambiguous_with_dict.cpp'), ('WordDisambiguouser', 'spell/word_disambiguouser.hpp')])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
