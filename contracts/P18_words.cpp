// sources: image/image.cpp
// under: WordsInfos::get Glyphs::word_index_of Glyphs::get_word_
// assumes: the entries of the line table are sorted by word, as the constructor leaves them (std::sort is trusted); the words of the word table are stored in increasing order and each once, as std::map hands them out
// flags: -fno-access-control
// opts: words_infos_get lin3=1
// opts: word_index_of memcmp=e hto=20000
#include "vp.hpp"
#include <algorithm>
#include "ppocr/ocr2/words_infos.hpp"
using namespace ppocr;

// a vector over an input block
template<class T> inline void as_vector(std::vector<T> & v, T * p, long n) { v._M_impl._M_start = p; v._M_impl._M_finish = v._M_impl._M_end_of_storage = p + n; }

// the entry for a word is found exactly when there is one
VP_CONTRACT(P18, words_infos_get)
{
  long n = vp_input("n", 0, 65536), m = vp_input("m", 0, 65536);      // m: how many entries are below the word
  unsigned word = vp_input("word", 0, 4294967295);
  vp_assume(m <= n);
  static_assert(sizeof(ocr2::WordInfos) == 8);
  ocr2::WordInfos * e = static_cast<ocr2::WordInfos *>(vp_block("entries", n * 2, 4, ""));
  ocr2::WordsInfos * t = static_cast<ocr2::WordsInfos *>(vp_block("table", 3, 8, ""));
  as_vector(t->words_infos, e, n);
  auto sorted = [e, word, m](long k) { return (e[k].word < word) == (k < m) && (k <= m || e[k].word > word); };
  vp_each("entries", 8, sorted, n);
  ocr2::WordInfos const * r = t->get(word);
  long i = vp_any("i", 0, 65535);   // any entry
  if (r) {
    vp_assert(r >= e && r < e + n && r->word == word, "the entry returned is one of the word");
  }
  else if (i < n) {
    vp_assert(e[i].word != word, "no entry of the word exists when none is returned");
  }
}

// the position of a word is returned exactly when it is stored
VP_CONTRACT(P18, word_index_of)
{
  long m = vp_input("m", 0, 65536), p = vp_input("p", 0, 65536);      // m words, p of them below the one asked for
  long size = vp_input("size", 0, 1 << 20), len = vp_input("len", 0, 8);
  long e = vp_any("e", 0, 7);       // any byte of the word
  vp_assume(p <= m);
  unsigned * start = static_cast<unsigned *>(vp_block("start", m + 1, 4, ""));      // ghost: where each word begins
  unsigned * tab = static_cast<unsigned *>(vp_block("tab", size, 4, ""));
  char * s = static_cast<char *>(vp_block("s", len, 1, "ab"));
  ocr2::Glyphs * g = static_cast<ocr2::Glyphs *>(vp_block("glyphs", 5, 8, ""));
  static_assert(sizeof(ocr2::Glyphs) == 40);
  *reinterpret_cast<unsigned **>(&g->buf_word) = tab;
  g->buf_word_sz = size;
  auto word = [=](long k) { return std::string_view(reinterpret_cast<char *>(tab + start[k] + 1), tab[start[k]]); };
  auto setup = [=]{
    unsigned at = 0;
    for (long k = 0; k < m; ++k) {
      long room = size - at - 2 * (m - k - 1);
      if (room < 2) return;
      if (k + 1 < m) room = vp_rand(2, room < 3 ? room : 3);
      start[k] = at;
      unsigned l = (room - 2) * 4 + vp_rand(0, 3);
      tab[at] = l;
      for (unsigned j = 0; j < l; ++j) reinterpret_cast<char *>(tab + at + 1)[j] = (j == 0 ? (k < p ? 'a' : 'b') : 'a') + (j == 0 && k > p) ;
      at += room;
    }
    start[m] = at;
    if (len) s[0] = 'b';
  };
  vp_setup(setup);
  auto stored = [=](long k) {
    if (!(start[k] < size && start[k + 1] <= size && start[k + 1] == start[k] + (tab[start[k]] + 2 * sizeof(unsigned)) / sizeof(unsigned)  && tab[start[k]] <= 65536)) return false;
    int c = std::string_view(s, len).compare(word(k));
    return k < p ? c > 0 : k == p ? c <= 0 : c < 0;
  };
  vp_each("start", 4, stored, m);
  vp_assume(start[0] == 0 && start[m] == size);
  auto begin = [start](long k) { return (long)start[k]; };
  vp_fn("begin:n", begin);
  unsigned r = g->word_index_of({s, (std::size_t)len});
  long i = vp_any("i", 0, 65535);   // any word
  if (r != ocr2::Glyphs::no_index) {
    vp_assert(p < m && r == start[p], "the position returned is that of a stored word");
    vp_assert(tab[r] == len, "the word found has the length of the one asked for");
    if (e < len) vp_assert(s[e] == reinterpret_cast<char *>(tab + r + 1)[e], "the word found is the one asked for");
  }
  else if (i < m) {
    vp_assert(std::string_view(s, len).compare(word(i)) != 0, "no such word is stored when none is found");
  }
}
