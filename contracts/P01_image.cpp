// sources: image/image.cpp
// under: Image::Image, Image::rotate90, rotate90, Image::section, section, Image::clone, Image::operator[], Image::data, Image::data_end, Image::to_size_t, Bounds::area, Bounds::contains
#include "img.hpp"

// rotate90: out(y, w-1-x) == in(x, y) for every pixel, dimensions swapped, source untouched
VP_CONTRACT(P01, rotate90)
{
  unsigned w = vp_input("w", 1, 4096), h = vp_input("h", 1, 4096);
  Image img = vp_image("px", w, h);
  long x = vp_any("x", 0, 4095), y = vp_any("y", 0, 4095);
  vp_assume(x < w && y < h);
  char v = img.data()[y * w + x];
  vp_cell("out", (w - 1 - x) * (long)h + y, v);
  Image r = img.rotate90();
  vp_assert(r.width() == h && r.height() == w, "dimensions of the rotated image are swapped");
  vp_assert(r[Index(y, w - 1 - x)] == v, "every source pixel lands at its quarter-turn position");
  vp_assert(img.width() == w && img.height() == h && img.data()[y * w + x] == v, "the source image is unchanged");
}

// section: out(i, j) == in(x+i, y+j)
VP_CONTRACT(P01, section)
{
  unsigned w = vp_input("w", 1, 4096), h = vp_input("h", 1, 4096);
  Image img = vp_image("px", w, h);
  unsigned x = vp_input("x", 0, 4095), y = vp_input("y", 0, 4095);
  unsigned sw = vp_input("sw", 0, 4096), sh = vp_input("sh", 0, 4096);
  vp_assume(x < w && y < h && x + sw <= w && y + sh <= h);
  long i = vp_any("i", 0, 4095), j = vp_any("j", 0, 4095);
  vp_assume(i < sw && j < sh);
  char v = img.data()[(y + j) * w + x + i];
  vp_cell("out", j * (long)sw + i, v);
  Image r = img.section(Index(x, y), Bounds(sw, sh));
  vp_assert(r.width() == sw && r.height() == sh, "the crop has the requested dimensions");
  vp_assert(r.data()[j * (long)sw + i] == v, "every pixel of the crop equals the source pixel at the shifted position");
  vp_assert(img.data()[(y + j) * w + x + i] == v, "the source image is unchanged");
}

VP_CONTRACT(P01, clone)
{
  unsigned w = vp_input("w", 1, 4096), h = vp_input("h", 1, 4096);
  Image img = vp_image("px", w, h);
  long x = vp_any("x", 0, 4095), y = vp_any("y", 0, 4095);
  vp_assume(x < w && y < h);
  char v = img.data()[y * w + x];
  vp_cell("out", y * (long)w + x, v);
  Image r = img.clone();
  vp_assert(r.width() == w && r.height() == h, "the clone has the same dimensions");
  vp_assert(r[Index(x, y)] == v, "every pixel of the clone equals the source pixel");
  vp_assert(r.data() != img.data(), "the clone does not share storage");
}

// four quarter turns are the identity; a quarter turn of a crop: derived from the pixel law alone (lemma over the contract)
VP_CONTRACT(P01, rotate_lemma)
{
  long w = vp_any("w", 1, 4096), h = vp_any("h", 1, 4096), x = vp_any("x", 0, 4095), y = vp_any("y", 0, 4095);
  vp_assume(x < w && y < h);
  long x1 = y, y1 = w - 1 - x, w1 = h, h1 = w;
  long x2 = y1, y2 = w1 - 1 - x1, w2 = h1, h2 = w1;
  long x3 = y2, y3 = w2 - 1 - x2, w3 = h2, h3 = w2;
  long x4 = y3, y4 = w3 - 1 - x3, w4 = h3, h4 = w3;
  vp_assert(x4 == x && y4 == y && w4 == w && h4 == h, "four quarter turns are the identity");
  vp_assert(x1 >= 0 && x1 < w1 && y1 >= 0 && y1 < h1, "positions stay inside the rotated image");
}
