// sources: image/image.cpp strategies/dvdirection.cpp strategies/dvdirection2.cpp strategies/dvgravity.cpp strategies/dvgravity2.cpp strategies/dzdensity.cpp
// under: dvdirection::load, dvdirection2::load, dvgravity::load, dvgravity2::load, dzdensity::load, dzdensity_load_impl, count_diagonal_vertical_direction, count_diagonal_vertical_gravity, diagonal_vertical_direction_area, diagonal_vertical_gravity_area, cache_context::compute
// assumes: glyph sides are at most 4096 pixels (256 wide and 512 high for the weighted features), so that the 32-bit intermediate products cannot wrap
// bounded: dzdensity random images up to 24 x 24
// calls: dvdirection count_diagonal_vertical_directionE=vps_count_dvd
// calls: dvdirection2 count_diagonal_vertical_directionE=vps_count_dvd diagonal_vertical_direction_areaE=vps_area_dvd
// calls: dvgravity count_diagonal_vertical_gravityE=vps_count_dvg
// calls: dvgravity2 count_diagonal_vertical_gravityE=vps_count_dvg diagonal_vertical_gravity_areaE=vps_area_dvg
#include "diagonal.hpp"
#include "ppocr/strategies/dvdirection.hpp"
#include "ppocr/strategies/dvdirection2.hpp"
#include "ppocr/strategies/dvgravity.hpp"
#include "ppocr/strategies/dvgravity2.hpp"
#include "ppocr/strategies/dzdensity.hpp"
using namespace ppocr;

VP_CONTRACT(P06, count_direction_top)
{
  unsigned w = vp_input("w", 1, 4096), hb = vp_input("hb", 0, 2048);
  Pixel const * p = static_cast<Pixel *>(vp_block("px", (unsigned long)w * hb, 1, "x-o"));
  long lw = w;
  auto top = [p, lw](long n) { return vpspecnuc12_top(p, lw, n); };
  vp_fn("top:n", top);
  auto topq = [p, lw](long e, long n) { return vpspecnuc12_top(p, lw, n) + vpspecnuc_row(p, lw * n + border(lw, n + 1), e - (lw * n + border(lw, n + 1))); };
  vp_fn2("topq:pc", topq);
  unsigned r = strategies::utils::details_::count_diagonal_vertical_direction(Bounds(w, hb), p, p + lw * hb, true);
  vp_assert(r == vpspecnuc12_top(p, lw, hb), "ink of the upper cone");
}
VP_CONTRACT(P06, count_direction_bottom)
{
  unsigned w = vp_input("w", 1, 4096), hb = vp_input("hb", 0, 2048);
  Pixel const * p = static_cast<Pixel *>(vp_block("px", (unsigned long)w * hb, 1, "x-o"));
  long lw = w, lh = hb;
  auto bot = [p, lw, lh](long n) { return vpspecnuc12_bot(p, lw, lh, n); };
  vp_fn("bot:n", bot);
  auto botq = [p, lw, lh](long e, long n) { return vpspecnuc12_bot(p, lw, lh, n) + vpspecnuc_row(p, lw * n + border(lw, lh - n), e - (lw * n + border(lw, lh - n))); };
  vp_fn2("botq:pc", botq);
  unsigned r = strategies::utils::details_::count_diagonal_vertical_direction(Bounds(w, hb), p, p + lw * hb, false);
  vp_assert(r == vpspecnuc12_bot(p, lw, lh, lh), "ink of the lower cone");
}
VP_CONTRACT(P06, area_direction)
{
  unsigned w = vp_input("w", 1, 4096), half = vp_input("half", 0, 2048), odd = vp_input("odd", 0, 1);
  vp_assume(2 * half + odd > 0);
  Image img = vp_image("px", w, 2 * half + odd);
  long lw = w;
  auto area = [lw](long n) { return vpspecnuc12_area(lw, n); };
  vp_fn("area:n", area);
  auto some = [lw](long n) { return n <= 0 || vpspecnuc12_area(lw, n) >= lw; };
  vp_lemma("the base of a cone is as broad as the image", some, half);
  unsigned r = strategies::utils::diagonal_vertical_direction_area(img);
  vp_assert(r == 2 * vpspecnuc12_area(lw, half), "area of the two cones");
  vp_assert((r > 0) == (half > 0), "the area is empty for a single row only");
}
VP_CONTRACT(P06, area_lemmas)
{
  long w = vp_input("w", 1, 4096), hb = vp_input("half", 0, 2048);
  Pixel const * p = static_cast<Pixel *>(vp_block("px", w * hb, 1, "x-o"));
  auto toplem = [p, w](long n) { return vpspecnuc12_top(p, w, n) <= vpspecnuc12_area(w, n); };
  vp_lemma("the ink of the upper cone is at most its area", toplem, hb);
  auto botlem = [p, w, hb](long n) { return vpspecnuc12_bot(p, w, hb, n) <= vpspecnuc12_area(w, hb) - vpspecnuc12_area(w, hb - n); };
  vp_lemma("the ink of the lower cone is at most its area", botlem, hb);
  vp_assert(vpspecnuc12_top(p, w, hb) <= vpspecnuc12_area(w, hb), "the ink of the upper cone is at most its area (used)");
  vp_assert(vpspecnuc12_bot(p, w, hb, hb) <= vpspecnuc12_area(w, hb), "the ink of the lower cone is at most its area (used)");
}

VP_CONTRACT(P06, dvdirection)
{
  unsigned w = vp_input("w", 1, 4096), half = vp_input("half", 0, 2048), odd = vp_input("odd", 0, 1);
  unsigned h = 2 * half + odd;   // any height
  vp_assume(h > 0);
  Image img = vp_image("px", w, h);
  Pixel const * p = img.data();
  long lw = w, hb = half, s = lw * (half + odd);
  long t = vpspecnuc12_top(p, lw, hb), b = vpspecnuc12_bot(p + s, lw, hb, hb);
  strategies::dvdirection::ctx_type ctx;
  unsigned r = strategies::dvdirection::load(img, img, ctx);
  vp_assert(r == (t + b == 0 ? 100 : 2 * t * 100 / (t + b)), "dvdirection is 200*top/(top+bottom), or 100 without ink");
  vp_assert(r <= 200, "dvdirection is between 0 and 200");
}

VP_CONTRACT(P06, dvdirection2)
{
  unsigned w = vp_input("w", 1, 4096), half = vp_input("half", 0, 2048), odd = vp_input("odd", 0, 1);
  unsigned h = 2 * half + odd;   // any height
  vp_assume(h > 0);
  Image img = vp_image("px", w, h);
  Pixel const * p = img.data();
  long lw = w, hb = half, s = lw * (half + odd);
  long t = vpspecnuc12_top(p, lw, hb), b = vpspecnuc12_bot(p + s, lw, hb, hb), area = 2 * vpspecnuc12_area(lw, hb);
  vp_assume(2 * t <= area && 2 * b <= area);    // proved for every image by area_lemmas
  strategies::dvdirection2::ctx_type ctx;
  unsigned r = strategies::dvdirection2::load(img, img, ctx);
  vp_assert(r == (area == 0 ? 50 : 2 * t * 100 / area), "dvdirection2 is twice the ink of the upper cone relative to the area of both, or 50 without area");
  vp_assert(r <= 100, "dvdirection2 is between 0 and 100");
}

VP_CONTRACT(P06, count_gravity_top)
{
  unsigned w = vp_input("w", 1, 256), hb = vp_input("hb", 0, 256);
  Pixel const * p = static_cast<Pixel *>(vp_block("px", (unsigned long)w * hb, 1, "x-o"));
  long lw = w, lh = hb;
  auto top = [p, lw, lh](long n) { return vpspecnuc16_gtop(p, lw, lh, n); };
  vp_fn("top:n", top);
  auto topq = [p, lw, lh](long e, long n) { return vpspecnuc16_gtop(p, lw, lh, n) + vpspecnuc8m_wrow(p, lw * n + border(lw, n + 1), lh - n, e - (lw * n + border(lw, n + 1))); };
  vp_fn2("topq:pc", topq);
  unsigned r = strategies::utils::details_::count_diagonal_vertical_gravity(Bounds(w, hb), p, p + lw * hb, true);
  vp_assert(r == vpspecnuc16_gtop(p, lw, lh, lh), "weighted ink of the upper cone");
}
VP_CONTRACT(P06, count_gravity_bottom)
{
  unsigned w = vp_input("w", 1, 256), hb = vp_input("hb", 0, 256);
  Pixel const * p = static_cast<Pixel *>(vp_block("px", (unsigned long)w * hb, 1, "x-o"));
  long lw = w, lh = hb;
  auto bot = [p, lw, lh](long n) { return vpspecnuc16_gbot(p, lw, lh, n); };
  vp_fn("bot:n", bot);
  auto botq = [p, lw, lh](long e, long n) { return vpspecnuc16_gbot(p, lw, lh, n) + vpspecnuc8m_wrow(p, lw * n + border(lw, lh - n), n + 1, e - (lw * n + border(lw, lh - n))); };
  vp_fn2("botq:pc", botq);
  unsigned r = strategies::utils::details_::count_diagonal_vertical_gravity(Bounds(w, hb), p, p + lw * hb, false);
  vp_assert(r == vpspecnuc16_gbot(p, lw, lh, lh), "weighted ink of the lower cone");
}
VP_CONTRACT(P06, area_gravity)
{
  unsigned hw = vp_input("hw", 0, 128), ow = vp_input("ow", 0, 1), w = 2 * hw + ow,   // any width
     half = vp_input("half", 0, 256), odd = vp_input("odd", 0, 1);
  vp_assume(2 * half + odd > 0 && w > 0 && w <= 256);
  Image img = vp_image("px", w, 2 * half + odd);
  long lw = w, lh = half;
  auto area = [lw, lh](long n) { return vpspecnuc16_garea(lw, lh, n); };
  vp_fn("area:n", area);
  unsigned r = strategies::utils::diagonal_vertical_gravity_area(img);
  vp_assert(r == 2 * vpspecnuc16_garea(lw, lh, lh), "weighted area of the two cones");
  vp_assert((r > 0) == (half > 0), "the weighted area is empty for a single row only");
}
VP_CONTRACT(P06, gravity_lemmas)
{
  long hw = vp_input("hw", 0, 128), ow = vp_input("ow", 0, 1), w = 2 * hw + ow,   // any width
     hb = vp_input("half", 0, 256);
  vp_assume(w > 0 && w <= 256);
  Pixel const * p = static_cast<Pixel *>(vp_block("px", w * hb, 1, "x-o"));
  auto toplem = [p, w, hb](long n) { return vpspecnuc16_gtop(p, w, hb, n) <= vpspecnuc16_gareat(w, hb, n); };
  vp_lemma("the weighted ink of the upper cone is at most its weighted area", toplem, hb);
  auto rev = [w, hb](long n) { return vpspecnuc16_gareat(w, hb, hb - n) + vpspecnuc16_garea(w, hb, n) == vpspecnuc16_gareat(w, hb, hb); };
  vp_lemma("the weighted areas of the two cones are equal", rev, hb);
  vp_assert(vpspecnuc16_gtop(p, w, hb, hb) <= vpspecnuc16_garea(w, hb, hb), "the weighted ink of the upper cone is at most its weighted area (used)");
}
VP_CONTRACT(P06, gravity_lemmas_bottom)
{
  long w = vp_input("w", 1, 256), hb = vp_input("half", 0, 256);
  Pixel const * p = static_cast<Pixel *>(vp_block("px", w * hb, 1, "x-o"));
  auto botlem = [p, w, hb](long n) { return vpspecnuc16_gbot(p, w, hb, n) <= vpspecnuc16_garea(w, hb, n); };
  vp_lemma("the weighted ink of the lower cone is at most its weighted area", botlem, hb);
}

VP_CONTRACT(P06, dvgravity)
{
  unsigned w = vp_input("w", 1, 256), half = vp_input("half", 0, 256), odd = vp_input("odd", 0, 1);
  unsigned h = 2 * half + odd;   // any height
  vp_assume(h > 0);
  Image img = vp_image("px", w, h);
  Pixel const * p = img.data();
  long lw = w, hb = half, s = lw * (half + odd);
  long t = vpspecnuc16_gtop(p, lw, hb, hb), b = vpspecnuc16_gbot(p + s, lw, hb, hb);
  vp_assume(t <= vpspecnuc16_garea(lw, hb, hb) && b <= vpspecnuc16_garea(lw, hb, hb));    // proved for every image by gravity_lemmas
  strategies::dvgravity::ctx_type ctx;
  unsigned r = strategies::dvgravity::load(img, img, ctx);
  vp_assert(r == (t + b == 0 ? 100 : 2 * t * 100 / (t + b)), "dvgravity is 200*top/(top+bottom), or 100 without ink");
  vp_assert(r <= 200, "dvgravity is between 0 and 200");
}

VP_CONTRACT(P06, dvgravity2)
{
  unsigned w = vp_input("w", 1, 256), half = vp_input("half", 0, 256), odd = vp_input("odd", 0, 1);
  unsigned h = 2 * half + odd;   // any height
  vp_assume(h > 0);
  Image img = vp_image("px", w, h);
  Pixel const * p = img.data();
  long lw = w, hb = half, s = lw * (half + odd);
  long t = vpspecnuc16_gtop(p, lw, hb, hb), b = vpspecnuc16_gbot(p + s, lw, hb, hb), area = 2 * vpspecnuc16_garea(lw, hb, hb);
  vp_assume(2 * t <= area && 2 * b <= area);    // proved for every image by gravity_lemmas
  strategies::dvgravity2::ctx_type ctx;
  unsigned r = strategies::dvgravity2::load(img, img, ctx);
  vp_assert(r == (area == 0 ? 50 : 2 * t * 100 / area), "dvgravity2 is twice the weighted ink of the upper cone relative to the weighted area of both, or 50 without area");
  vp_assert(r <= 100, "dvgravity2 is between 0 and 100");
}

// ---- density inside the diagonal band: row y covers the columns [left, right)
inline long left(long w, long h, long y) { long r = (3 * w + 3 * w * y - w * h + 3 * h - 1) / (3 * h); return r < 0 ? 0 : r; }
inline long right(long w, long h, long y) { long r = (3 * w * y + w * h) / (3 * h); return r > w ? w : r; }
// ink inside the band and size of the band, first n rows
inline long band_row(Pixel const * p, long w, long h, long y) { long r = vpspecnuc_row(p, w * y + left(w, h, y), right(w, h, y) - left(w, h, y)); return r > 4096 ? 4096 : r; }
inline long band_size(long w, long h, long y) { long r = right(w, h, y) - left(w, h, y); return r < 0 ? 0 : r > 4096 ? 4096 : r; }
VP_SPEC vpspecnuc12_band(Pixel const * p, long w, long h, long n) { return n <= 0 ? 0 : vpspecnuc12_band(p, w, h, n - 1) + band_row(p, w, h, n - 1); }
VP_SPEC vpspecnuc12_size(long w, long h, long n) { return n <= 0 ? 0 : vpspecnuc12_size(w, h, n - 1) + band_size(w, h, n - 1); }

VP_CONTRACT(P06, dzdensity)
{
  unsigned w = vp_input("w", 1, 4096), h = vp_input("h", 1, 4096);
  Image img = vp_image("px", w, h);
  Pixel const * p = img.data();
  long lw = w, lh = h;
  auto inside = [lw, lh](long y) { return lw < 3 || lh < 3 || (left(lw, lh, y) <= right(lw, lh, y) && (y > 0 || (left(lw, lh, y) == 0 && right(lw, lh, y) >= 1))); };
  vp_forall("the borders of the band are in order", inside, lh);
  auto band = [p, lw, lh](long n) { return vpspecnuc12_band(p, lw, lh, n); };
  vp_fn("band:n", band);
  auto size = [lw, lh](long n) { return vpspecnuc12_size(lw, lh, n); };
  vp_fn("size:n", size);
  auto bandq = [p, lw, lh](long e, long n) { return vpspecnuc12_band(p, lw, lh, n) + vpspecnuc_row(p, lw * n + left(lw, lh, n), e - (lw * n + left(lw, lh, n))); };
  vp_fn2("bandq:pc", bandq);
  strategies::dzdensity::ctx_type ctx;
  unsigned r = strategies::dzdensity::load(img, img, ctx);
  vp_assert(r == (w < 3 || h < 3 ? 0 : vpspecnuc12_band(p, lw, lh, lh) * 100 / vpspecnuc12_size(lw, lh, lh)), "dzdensity is the percentage of ink inside the band, or 0 for an image smaller than 3 x 3");
  vp_assert(r <= 100, "dzdensity is between 0 and 100");
}
