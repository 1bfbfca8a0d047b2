// sources: image/image.cpp box_char/make_box_character.cpp
// under: make_box_character (and its gap test), utils::vertical_empty, utils::horizontal_empty, Image::data, Image::to_size_t, Box::Box
// assumes: picture sides are at most 4096 pixels; the start is in the top row and the given bounds are those of the picture, as in every caller
// calls: left_edge utils14vertical_empty=vps_column utils16horizontal_empty=vps_row_any clEPKcjj=vps_gap
// calls: right_edge utils14vertical_empty=vps_column utils16horizontal_empty=vps_row_any clEPKcjj=vps_gap
// calls: top_edge utils14vertical_empty=vps_column_known utils16horizontal_empty=vps_row clEPKcjj=vps_gap_known
// calls: not_empty utils14vertical_empty=vps_column_known utils16horizontal_empty=vps_row clEPKcjj=vps_gap_known
// opts: not_empty nruns=160 nolaws=bu hto=1000
// calls: nothing utils14vertical_empty=vps_column_known utils16horizontal_empty=vps_row clEPKcjj=vps_gap_known
// calls: bottom_edge utils14vertical_empty=vps_column_known utils16horizontal_empty=vps_row clEPKcjj=vps_gap_known
// opts: left_edge nruns=160 nolaws=bu hto=1000
// opts: right_edge nruns=160 nolaws=bu hto=1000
// opts: top_edge nruns=160 nolaws=bu hto=1000
// opts: bottom_edge nruns=160 nolaws=bu hto=1000
// calls: gap vpx_gap=clEPKcjj
#include "img.hpp"
#include "ppocr/box_char/make_box_character.hpp"
using namespace ppocr;
#pragma clang diagnostic ignored "-Wreturn-type-c-linkage"

// ---- one column, one row, two neighbouring columns
// the column that starts at c has ink among its first n pixels, which lie w apart
VP_SPEC vpspecbu_col(Pixel const * c, long w, long n) { return n <= 0 ? 0 : (c[(n - 1) * w] == 'x' ? 1 : vpspecbu_col(c, w, n - 1)); }
// ink among the n pixels from p
VP_SPEC vpspecbu_row(Pixel const * p, long n) { return n <= 0 ? 0 : (p[n - 1] == 'x' ? 1 : vpspecbu_row(p, n - 1)); }
// an ink pixel among the first n rows (of h) of the column at c touches an ink pixel of the next column
VP_SPEC vpspecbu_joined(Pixel const * c, long w, long h, long n)
{
  return n <= 0 ? 0 : (c[(n - 1) * w] == 'x' && (c[(n - 1) * w + 1] == 'x' || (n > 1 && c[(n - 2) * w + 1] == 'x') || (n < h && c[n * w + 1] == 'x'))) ? 1
    : vpspecbu_joined(c, w, h, n - 1);
}

VP_CONTRACT(P04, column)
{
  unsigned w = vp_input("w", 1, 4096), h = vp_input("h", 1, 4096), x = vp_input("x", 0, 4095);
  vp_assume(x < w);
  Image img = vp_image("px", w, h);
  Pixel const * c = img.data() + x;
  long lw = w;
  auto col = [c, lw](long n) { return vpspecbu_col(c, lw, n); };
  vp_fn("col:n", col);
  vp_assert(utils::vertical_empty(c, img.bounds()) == (vpspecbu_col(c, lw, h) == 0), "a column is empty when none of its pixels is ink");
}
VP_STUB bool vps_column(Pixel const * d, Bounds const & b)
{
  long w = b.width(), h = b.height();
  vp_assert(w >= 1 && w <= 4096 && h >= 1 && h <= 4096, "callee precondition: vertical_empty");
  vp_readable(d, (h - 1) * w + 1);
  return vpspecbu_col(d, w, h) == 0;
}

VP_CONTRACT(P04, row)
{
  unsigned n = vp_input("n", 0, 4096);
  Pixel const * p = static_cast<Pixel *>(vp_block("px", n, 1, "x-o"));
  auto row = [p](long k) { return vpspecbu_row(p, k); };
  vp_fn("row:p", row);
  vp_assert(utils::horizontal_empty(p, n) == (vpspecbu_row(p, n) == 0), "a row is empty when none of its pixels is ink");
}
VP_STUB bool vps_row(Pixel const * d, unsigned n)
{
  vp_assert(n <= 4096, "callee precondition: horizontal_empty");
  if (n) vp_readable(d, n);
  return vpspecbu_row(d, n) == 0;
}

// the gap test is a local function of make_box_character: it has a gap when the two columns are not joined
#ifdef VP_NATIVE
extern "C" bool vpx_gap(void const * self, Pixel const * d, unsigned w, unsigned h)
{
  PtrImageData two(new Pixel[h * 2ul]);
  bool any = false;
  for (unsigned y = 0; y < h; ++y) {
    two[y * 2] = d[(unsigned long)y * w];
    two[y * 2 + 1] = d[(unsigned long)y * w + 1];
    any |= two[y * 2] == 'x';
  }
  Image img(Bounds(2, h), std::move(two));
  return !any || make_box_character(img, {0, 0}, img.bounds()).width() == 1;
}
#else
extern "C" bool vpx_gap(void const * self, Pixel const * d, unsigned w, unsigned h);
#endif
VP_CONTRACT(P04, gap)
{
  unsigned w = vp_input("w", 2, 4096), h = vp_input("h", 1, 4096), x = vp_input("x", 0, 4094);
  vp_assume(x + 1 < w);
  Image img = vp_image("px", w, h);
  Image const * self = &img;       // what it captures
  Pixel const * c = img.data() + x;
  long lw = w, lh = h;
  auto joined = [c, lw, lh](long n) { return vpspecbu_joined(c, lw, lh, n); };
  vp_fn("joined:n", joined);
  vp_assert(vpx_gap(&self, c, w, h) == (vpspecbu_joined(c, lw, lh, lh) == 0), "a gap is where no ink touches ink of the next column");
}
VP_STUB bool vps_gap(void const *, Pixel const * d, unsigned w, unsigned h)
{
  long lw = w, lh = h;
  vp_assert(w >= 2 && w <= 4096 && h >= 1 && h <= 4096, "callee precondition: gap test");
  vp_readable(d, (lh - 1) * lw + 2);
  return vpspecbu_joined(d, lw, lh, lh) == 0;
}

// ---- the box
// ink in one of the n columns from x on
VP_SPEC vpspec_ink(Pixel const * p, long w, long h, long x, long n) { return n <= 0 || x + n > w ? 0 : (vpspecbu_col(p + (x + n - 1), w, h) != 0 ? 1 : vpspec_ink(p, w, h, x, n - 1)); }
// a gap behind an ink column among the n columns from x on
VP_SPEC vpspec_gaps(Pixel const * p, long w, long h, long x, long n) { return n <= 0 ? 0 : (vpspecbu_col(p + (x + n - 1), w, h) != 0 && vpspecbu_joined(p + (x + n - 1), w, h, h) == 0 ? 1 : vpspec_gaps(p, w, h, x, n - 1)); }
// ink in the first n rows between the columns x and x+bw
VP_SPEC vpspecbu_above(Pixel const * p, long w, long x, long bw, long n) { return n <= 0 ? 0 : (vpspecbu_row(p + (x + (n - 1) * w), bw) != 0 ? 1 : vpspecbu_above(p, w, x, bw, n - 1)); }
// ink in the last n of h rows between the columns x and x+bw
VP_SPEC vpspecbu_below(Pixel const * p, long w, long h, long x, long bw, long n) { return n <= 0 ? 0 : (vpspecbu_row(p + (x + (h - n) * w), bw) != 0 ? 1 : vpspecbu_below(p, w, h, x, bw, n - 1)); }

// the columns of the box do not depend on its rows (these are searched with any result; what they read is verified below)
VP_STUB bool vps_row_any(Pixel const * d, unsigned n) { return vpspecbu_row(d, n) == 0; }

struct Picture
{
  unsigned w = vp_input("w", 1, 4096), h = vp_input("h", 1, 4096), x = vp_any("x", 0, 4096);
  Image img = vp_image("px", w, h);
  Pixel const * p = img.data();
  long lw = w, lh = h, lx = x;
};
// concrete runs: leave t rows above, b below and l columns without ink around the rest
static inline void frame(Picture const & g)
{
  long t = vp_rand(0, g.lh - 1), b = vp_rand(0, g.lh - 1 - t), l = g.lx < g.lw ? vp_rand(0, g.lw - g.lx - 1) : 0;
  for (long y = 0; y < g.lh; ++y)
    for (long c = 0; c < g.lw; ++c)
      if (y < t || y >= g.lh - b || (c >= g.lx && c < g.lx + l)) const_cast<Pixel *>(g.p)[y * g.lw + c] = '-';
}

VP_CONTRACT(P04, left_edge)
{
  Picture g;
  vp_assume(g.x <= g.w);
  auto setup = [&g] { frame(g); };
  vp_setup(setup);
  Pixel const * p = g.p;
  long lw = g.lw, lh = g.lh, lx = g.lx;
  auto ink = [p, lw, lh, lx](long e) { return vpspec_ink(p, lw, lh, lx, e - lx); };
  vp_fn("ink:p", ink);
  Box b = make_box_character(g.img, {g.x, 0}, g.img.bounds());
  long bx = b.x(), bw = b.width();
  vp_assert(bx >= lx && bx + bw <= lw, "the box lies between the start and the right edge");
  vp_assert(vpspec_ink(p, lw, lh, lx, bx - lx) == 0, "no ink is left between the start and the box");
  vp_assert(bw >= 1 ? vpspecbu_col(p + bx, lw, lh) != 0 : bx == lw, "the first column of the box has ink; without ink there is no column");
}
VP_CONTRACT(P04, right_edge)
{
  Picture g;
  vp_assume(g.x <= g.w);
  auto setup = [&g] { frame(g); };
  vp_setup(setup);
  Pixel const * p = g.p;
  long lw = g.lw, lh = g.lh, lx = g.lx;
  auto gaps = [p, lw, lh, lx](long e) { return vpspec_gaps(p, lw, lh, lx, e - lx); };
  vp_fn("gaps:p", gaps);
  Box b = make_box_character(g.img, {g.x, 0}, g.img.bounds());
  long bx = b.x(), bw = b.width();
  if (bw) {
    vp_assert(vpspec_gaps(p, lw, lh, lx, bx + bw - 1 - lx) == 0, "the box does not end before nor contain a gap");
    if (bx + bw < lw) vp_assert(vpspecbu_joined(p + (bx + bw - 1), lw, lh, lh) == 0, "the box ends at a gap or at the edge");
  }
}

// ---- its rows: the columns found are named bx and bx+bw-1 in advance; the tests of
// columns and gaps answer in every run as if it had been known (what they answer and read: above)
static Pixel const * gp;
static long gbx, gend;
VP_STUB bool vps_column_known(Pixel const * d, Bounds const &) { return d - gp < gbx; }
VP_STUB bool vps_gap_known(void const *, Pixel const * d, unsigned, unsigned) { return d - gp == gend - 1; }
struct Columns : Picture
{
  unsigned bx = vp_any("bx", 0, 4096), end = vp_any("end", 0, 4096), bw = end - bx;
  Columns()
  {
    vp_assume(x <= bx && bx <= end && end <= w);
    gp = p;
    gbx = bx;
    gend = end;
  }
};
// concrete runs: a picture with these columns
static inline void shape(Columns const & g, long inked = -1)
{
  frame(g);
  Pixel * p = const_cast<Pixel *>(g.p);
  for (long y = 0; y < g.lh; ++y)
    for (long c = g.lx; c <= g.bx + g.bw && c < g.lw; ++c)
      if (c < g.bx || c == g.bx + g.bw) p[y * g.lw + c] = '-';
  long y = inked < 0 ? vp_rand(0, g.lh - 1) : inked;
  for (long c = g.bx; c < g.bx + g.bw; ++c) p[y * g.lw + c] = 'x';
}

VP_CONTRACT(P04, top_edge)
{
  Columns g;
  vp_assume(g.bx < g.end);
  auto setup = [&g] { shape(g); };
  vp_setup(setup);
  Pixel const * p = g.p;
  long lw = g.lw, lh = g.lh, bx = g.bx, bw = g.bw;
  auto above = [p, lw, bx, bw](long n) { return vpspecbu_above(p, lw, bx, bw, n); };
  vp_fn("above:n", above);
  Box b = make_box_character(g.img, {g.x, 0}, g.img.bounds());
  vp_assume(b.x() == bx && b.width() == bw);
  long by = b.y(), bh = b.height();
  vp_assert(by + bh <= lh, "the box lies inside the picture");
  vp_assert(vpspecbu_above(p, lw, bx, bw, by) == 0, "no ink of the box's columns is above it");
  if (bh) vp_assert(vpspecbu_row(p + (bx + by * lw), bw) != 0, "the first row of the box has ink");
}
VP_CONTRACT(P04, bottom_edge)
{
  Columns g;
  vp_assume(g.bx < g.end);
  auto setup = [&g] { shape(g); };
  vp_setup(setup);
  Pixel const * p = g.p;
  long lw = g.lw, lh = g.lh, bx = g.bx, bw = g.bw;
  auto below = [p, lw, lh, bx, bw](long n) { return vpspecbu_below(p, lw, lh, bx, bw, n); };
  vp_fn("below:n", below);
  Box b = make_box_character(g.img, {g.x, 0}, g.img.bounds());
  vp_assume(b.x() == bx && b.width() == bw);
  long by = b.y(), bh = b.height();
  vp_assert(by + bh <= lh, "the box lies inside the picture");
  if (bh) {
    vp_assert(vpspecbu_below(p, lw, lh, bx, bw, lh - by - bh) == 0, "no ink of the box's columns is below it");
    if (bh > 1) vp_assert(vpspecbu_row(p + (bx + (by + bh - 1) * lw), bw) != 0, "the last row of the box has ink");
  }
}
VP_CONTRACT(P04, nothing)
{
  Columns g;
  vp_assume(g.bx == g.w && g.end == g.w);
  auto setup = [&g] { shape(g); };
  vp_setup(setup);
  Box b = make_box_character(g.img, {g.x, 0}, g.img.bounds());
  vp_assume(b.x() == g.bx);
  vp_assert(!b, "without ink the box is empty");
}
// every ink pixel of the box's columns lies in its rows; so with ink in its first column (above) the box has rows
VP_CONTRACT(P04, covers)
{
  unsigned w = vp_input("w", 1, 4096), h = vp_input("h", 1, 4096);
  long bx = vp_any("bx", 0, 4095), end = vp_any("end", 1, 4096), by = vp_any("by", 0, 4096), bh = vp_any("bh", 0, 4096), c = vp_any("c", 0, 4095), r = vp_any("r", 0, 4095);
  Pixel const * p = static_cast<Pixel *>(vp_block("px", (unsigned long)w * h, 1, "x-o"));
  long lw = w, lh = h, bw = end - bx;
  vp_assume(bx <= c && c < end && end <= lw && r < lh && p[c + r * lw] == 'x' && by + bh <= lh);
  vp_assume(vpspecbu_above(p, lw, bx, bw, by) == 0 && vpspecbu_below(p, lw, lh, bx, bw, lh - by - bh) == 0);
  Pixel const * q = p + (bx + r * lw);
  auto inked = [=](long k) { return k <= c - bx || vpspecbu_row(q, k) != 0; };
  vp_lemma("inked", inked, bw);
  vp_assert(vpspecbu_above(p, lw, bx, bw, r + 1) != 0, "ink above the next row");
  vp_assert(by <= r, "the pixel is not above the box");
  vp_assert(vpspecbu_below(p, lw, lh, bx, bw, lh - r) != 0, "ink below the previous row");
  vp_assert(r < by + bh, "the pixel is not below the box");
}
VP_CONTRACT(P04, not_empty)
{
  Columns g;
  unsigned r = vp_any("r", 0, 4095);       // a row with ink
  vp_assume(g.bx < g.end && r < g.h);
  long lr = r;
  auto setup = [&g, lr] { shape(g, lr); };
  vp_setup(setup);
  long bw = g.bw;
  vp_assume(vpspecbu_row(g.p + (g.bx + lr * g.lw), bw) != 0);
  Box b = make_box_character(g.img, {g.x, 0}, g.img.bounds());
  vp_assume(b.x() == g.bx && b.width() == bw);
  vp_assert(b.height() >= 1, "with ink in its columns the box is not empty");
  vp_assert(b.y() <= r, "the box starts no later than that row");
}
