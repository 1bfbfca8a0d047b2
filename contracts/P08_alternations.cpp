// sources: image/image.cpp
// under: alternations::load, make_alternations (line and band), hrange, HorizontalRange, NormalPixelGet, AnyPixelGet::operator(), rng::next_alternation
// assumes: glyph sides are at most 4096 pixels
// flags: -fno-access-control
// calls: band AnyPixelGetclE=vps_any
// calls: load_one_row make_alternationsIjE=vps_line make_alternationsINS_6BoundsEE=vps_band
// calls: load make_alternationsIjE=vps_line make_alternationsINS_6BoundsEE=vps_band
#include "img.hpp"
#include "ppocr/strategies/alternations.cpp"      // the real source: its make_alternations is local to it
using namespace ppocr;
using strategies::alternations;
using Alt = alternations::alternations_type;
#pragma clang diagnostic ignored "-Wreturn-type-c-linkage"

// ---- ink along a line: the pixel itself
// number of maximal runs of equal colour among the n pixels from s on
VP_SPEC vpspecnuc_runs(Pixel const * p, long s, long n)
{ return n <= 0 ? 0 : vpspecnuc_runs(p, s, n - 1) + (n == 1 || (p[s + n - 1] == 'x') != (p[s + n - 2] == 'x')); }

VP_CONTRACT(P08, line)
{
  unsigned w = vp_input("w", 1, 4096), h = vp_input("h", 1, 4096), y = vp_input("y", 0, 4095);
  vp_assume(y < h);
  Image img = vp_image("px", w, h);
  Pixel const * p = img.data();
  long s = (long)y * w;
  auto runs = [p, s](long e) { return vpspecnuc_runs(p, s, e - s + 1); };
  vp_fn("runs:p", runs);
  // inside a run that starts at q: counted already, and of one colour up to e
  auto inside = [p, s](long e, long q) { return e == q ? vpspecnuc_runs(p, s, q - s + 1) : vpspecnuc_runs(p, s, e - s) + ((p[e - 1] == 'x') == (p[q] == 'x') ? 0 : 8192); };
  vp_fn2("inside:pp", inside);
  Alt r = strategies::make_alternations(img, {0, y}, w);
  vp_assert(r.start_contains_letter == (p[s] == 'x'), "says whether the line starts with ink");
  vp_assert(r.count == vpspecnuc_runs(p, s, w), "counts the runs of the line");
}
VP_STUB Alt vps_line(Image const & img, Index const & idx, unsigned const & w)
{
  Pixel const * p = img.data();
  long s = (long)idx.y() * img.width() + idx.x();
  vp_assert(idx.x() == 0 && idx.y() < img.height() && w == img.width() && w <= 4096 && img.height() <= 4096, "callee precondition: make_alternations on a line");
  vp_readable(p + s, w);
  return {p[s] == 'x', (unsigned)vpspecnuc_runs(p, s, w)};
}

// ---- ink along a band: any pixel of the column
// the column that starts at c has ink among its first n pixels, which lie step apart
VP_SPEC vpspecbu_col(Pixel const * c, long step, long n) { return n <= 0 ? 0 : (c[(n - 1) * step] == 'x' ? 1 : vpspecbu_col(c, step, n - 1)); }
// number of maximal runs of equal columns among the first n columns of the band of hb rows at pixel s
VP_SPEC vpspecnuc_bruns(Pixel const * p, long s, long step, long hb, long n)
{ return n <= 0 ? 0 : vpspecnuc_bruns(p, s, step, hb, n - 1) + (n == 1 || vpspecbu_col(p + (s + n - 1), step, hb) != vpspecbu_col(p + (s + n - 2), step, hb)); }

VP_CONTRACT(P08, any_pixel)
{
  unsigned step = vp_input("step", 1, 4096), hb = vp_input("hb", 0, 4096), c = vp_input("c", 0, 4095);
  vp_assume(c < step);
  Pixel const * p = static_cast<Pixel *>(vp_block("px", (unsigned long)step * hb, 1, "x-o"));
  long ls = step;
  Pixel const * q = p + c;
  auto col = [q, ls](long n) { return vpspecbu_col(q, ls, n); };
  vp_fn("col:n", col);
  bool r = AnyPixelGet(hb, step)(p + c);
  vp_assert(r == (vpspecbu_col(q, ls, hb) != 0), "a column is ink when any of its pixels is");
}
VP_STUB bool vps_any(AnyPixelGet const * self, Pixel const * c)
{
  long n = self->h_, step = self->step_;
  if (n) vp_readable(c, (n - 1) * step + 1);
  return vpspecbu_col(c, step, n) != 0;
}

VP_CONTRACT(P08, band)
{
  unsigned w = vp_input("w", 1, 4096), h = vp_input("h", 1, 4096), y = vp_input("y", 0, 4096), hb = vp_input("hb", 0, 4096);
  vp_assume(y + hb <= h);
  Image img = vp_image("px", w, h);
  Pixel const * p = img.data();
  long s = (long)y * w, lw = w, lhb = hb;
  auto runs = [p, s, lw, lhb](long e) { return vpspecnuc_bruns(p, s, lw, lhb, e - s + 1); };
  vp_fn("runs:p", runs);
  auto inside = [p, s, lw, lhb](long e, long q) { return e == q ? vpspecnuc_bruns(p, s, lw, lhb, q - s + 1) : vpspecnuc_bruns(p, s, lw, lhb, e - s) + (vpspecbu_col(p + (e - 1), lw, lhb) == vpspecbu_col(p + q, lw, lhb) ? 0 : 8192); };
  vp_fn2("inside:pp", inside);
  Alt r = strategies::make_alternations(img, {0, y}, Bounds(w, hb));
  vp_assert(r.start_contains_letter == (vpspecbu_col(p + s, lw, lhb) != 0), "says whether the band starts with ink");
  vp_assert(r.count == vpspecnuc_bruns(p, s, lw, lhb, lw), "counts the runs of the band");
}
VP_STUB Alt vps_band(Image const & img, Index const & idx, Bounds const & b)
{
  Pixel const * p = img.data();
  long s = (long)idx.y() * img.width() + idx.x(), w = img.width();
  vp_assert(idx.x() == 0 && (unsigned long)idx.y() + b.height() <= img.height() && b.width() == img.width() && w >= 1 && w <= 4096 && img.height() <= 4096, "callee precondition: make_alternations on a band");
  if (b.height()) vp_readable(p + s, w * b.height());
  return {vpspecbu_col(p + s, w, b.height()) != 0, (unsigned)vpspecnuc_bruns(p, s, w, b.height(), w)};
}

// ---- the seven lines and bands
static inline bool line(Alt const & a, Pixel const * p, long w, long y) { return a.start_contains_letter == (p[y * w] == 'x') && a.count == vpspecnuc_runs(p, y * w, w); }
static inline bool band(Alt const & a, Pixel const * p, long w, long y, long hb) { return a.start_contains_letter == (vpspecbu_col(p + y * w, w, hb) != 0) && a.count == vpspecnuc_bruns(p, y * w, w, hb, w); }

VP_CONTRACT(P08, load)
{
  unsigned w = vp_input("w", 1, 4096), h = vp_input("h", 2, 4096);
  Image img = vp_image("px", w, h), img90 = vp_image("px90", h, w);
  Pixel const * p = img.data(), * q = img90.data();
  long lw = w, lh = h;
  alternations::ctx_type ctx;
  auto const r = alternations::load(img, img90, ctx);
  vp_assert(line(r[0], p, lw, (lh - 2) / 3), "first line: a third down");
  vp_assert(line(r[1], p, lw, (lh * 2 - 1) / 3), "second line: two thirds down");
  vp_assert(band(r[2], p, lw, 0, lh / 3), "first band: the upper third");
  vp_assert(band(r[3], p, lw, lh - lh / 3, lh / 3), "second band: the lower third");
  vp_assert(line(r[4], q, lh, (lw - 1) / 2), "third line: the middle column");
  vp_assert(band(r[5], q, lh, lw - lw / 3, lw / 3), "third band: the left third");
  vp_assert(band(r[6], q, lh, 0, lw / 3), "fourth band: the right third");
}
VP_CONTRACT(P08, load_one_row)
{
  unsigned w = vp_input("w", 1, 4096);
  Image img = vp_image("px", w, 1), img90 = vp_image("px90", 1, w);
  Pixel const * p = img.data(), * q = img90.data();
  long lw = w;
  alternations::ctx_type ctx;
  auto const r = alternations::load(img, img90, ctx);
  vp_assert(!r[0].start_contains_letter && r[0].count == 0, "first line: empty");
  vp_assert(line(r[1], p, lw, 0), "second line: the row");
  vp_assert(band(r[2], p, lw, 0, 0) && band(r[3], p, lw, 1, 0), "the bands of the row are empty");
  vp_assert(line(r[4], q, 1, (lw - 1) / 2), "third line: the middle column");
  vp_assert(band(r[5], q, 1, lw - lw / 3, lw / 3), "third band: the left third");
  vp_assert(band(r[6], q, 1, 0, lw / 3), "fourth band: the right third");
}
