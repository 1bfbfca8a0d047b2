// sources: image/image.cpp strategies/hdirection.cpp strategies/hdirection2.cpp strategies/hgravity.cpp strategies/hgravity2.cpp
// under: hdirection::load, hdirection2::load, hgravity::load, hgravity2::load, horizontal_direction_fn::compute, horizontal_gravity_fn::compute, horizontal_box_gravity, cache_context::compute
// assumes: glyph sides are at most 4096 pixels (256 wide and 512 high for the weighted features), so that the 32-bit intermediate products cannot wrap
// opts: hgravity2 nolaws=m
// opts: hgravity nolaws=m
#include "horizontal.hpp"
#include "ppocr/strategies/hdirection.hpp"
#include "ppocr/strategies/hdirection2.hpp"
#include "ppocr/strategies/hgravity.hpp"
#include "ppocr/strategies/hgravity2.hpp"
using namespace ppocr;

VP_CONTRACT(P05, hdirection)
{
  unsigned w = vp_input("w", 1, 4096), half = vp_input("half", 0, 2048), odd = vp_input("odd", 0, 1);
  unsigned h = 2 * half + odd;   // any height
  vp_assume(h > 0);
  Image img = vp_image("px", w, h);
  Pixel const * p = img.data();
  auto ink = [p](long e) { return vpspecnuc_ink(p, e); };
  vp_fn("ink:p", ink);
  long top = between(p, 0, (long)w * (h / 2));
  long bottom = between(p, (long)w * (h - h / 2), (long)w * h);
  strategies::hdirection::ctx_type ctx;
  unsigned r = strategies::hdirection::load(img, img, ctx);
  vp_assert(r == (top + bottom == 0 ? 100 : 2 * top * 100 / (top + bottom)), "hdirection is 200*top/(top+bottom), or 100 without ink");
  vp_assert(r <= 200, "hdirection is between 0 and 200");
}

VP_CONTRACT(P05, hdirection2)
{
  unsigned w = vp_input("w", 1, 4096), half = vp_input("half", 0, 2048), odd = vp_input("odd", 0, 1);
  unsigned h = 2 * half + odd;   // any height
  vp_assume(h > 0);
  Image img = vp_image("px", w, h);
  Pixel const * p = img.data();
  auto ink = [p](long e) { return vpspecnuc_ink(p, e); };
  vp_fn("ink:p", ink);
  long top = between(p, 0, (long)w * (h / 2));
  long bottom = between(p, (long)w * (h - h / 2), (long)w * h);
  long area = (long)w * (h / 2);
  strategies::hdirection2::ctx_type ctx;
  unsigned r = strategies::hdirection2::load(img, img, ctx);
  vp_assert(r == (h == 1 ? 50 : (area + top - bottom) * 100 / (area * 2)), "hdirection2 is the balance relative to the area, or 50 for one row");
  vp_assert(r <= 100, "hdirection2 is between 0 and 100");
}

VP_CONTRACT(P05, hgravity)
{
  unsigned w = vp_input("w", 1, 256), half = vp_input("half", 0, 256), odd = vp_input("odd", 0, 1);
  unsigned h = 2 * half + odd;   // any height
  vp_assume(h > 0);
  Image img = vp_image("px", w, h);
  Pixel const * p = img.data();
  long lw = w, hb = half, s = lw * (half + odd);
  auto top = [p, lw, hb](long n) { return vpspecnuc16_gtop(p, lw, hb, n); };
  vp_fn("top:n", top);
  auto bot = [p, lw, s](long n) { return vpspecnuc16_gbot(p, lw, s, n); };
  vp_fn("bot:n", bot);
  auto topq = [p, lw, hb](long e, long n) { return vpspecnuc16_gtop(p, lw, hb, n) + vpspecnuc8m_row(p, lw * n, hb - n, e - lw * n); };
  vp_fn2("topq:pn", topq);
  auto botq = [p, lw, s](long e, long n) { return vpspecnuc16_gbot(p, lw, s, n) + vpspecnuc8m_row(p, s + lw * n, n + 1, e - s - lw * n); };
  vp_fn2("botq:pn", botq);
  long t = vpspecnuc16_gtop(p, lw, hb, hb), b = vpspecnuc16_gbot(p, lw, s, hb);
  strategies::hgravity::ctx_type ctx;
  unsigned r = strategies::hgravity::load(img, img, ctx);
  vp_assert(r == (t + b == 0 ? 100 : 2 * t * 100 / (t + b)), "hgravity is 200*top/(top+bottom), or 100 without ink");
  vp_assert(r <= 200, "hgravity is between 0 and 200");
}

// 1 + 2 + ... + n (n <= 256)
VP_SPEC vpspecnuc8_tri(long n) { return n <= 0 ? 0 : vpspecnuc8_tri(n - 1) + (n > 256 ? 256 : n); }

VP_CONTRACT(P05, gravity_lemmas)
{
  unsigned w = vp_input("w", 1, 256), half = vp_input("half", 0, 256), odd = vp_input("odd", 0, 1);
  Pixel const * p = static_cast<Pixel *>(vp_block("px", (2ul * half + odd) * w, 1, "x-o"));
  long lw = w, hb = half, s = lw * (half + odd);
  long t = vpspecnuc16_gtop(p, lw, hb, hb), b = vpspecnuc16_gbot(p, lw, s, hb);
  long area = vpspecnuc8_tri(hb) * lw;
  auto tri = [](long n) { return 2 * vpspecnuc8_tri(n) == n * n + n; };
  vp_lemma("the triangular numbers are n(n+1)/2", tri, hb);
  auto area2 = [lw](long n) { return 2 * vpspecnuc8_tri(n) * lw == lw * (n * n + n); };
  vp_lemma("the weighted area is w*n(n+1)/2", area2, hb);
  auto topmax = [p, lw, hb](long n) { return 2 * vpspecnuc16_gtop(p, lw, hb, n) <= lw * (2 * hb * n - n * n + n); };
  vp_lemma("the upper weighted ink is at most the weighted area", topmax, hb);
  auto botmax = [p, lw, s](long n) { return 2 * vpspecnuc16_gbot(p, lw, s, n) <= lw * (n * n + n); };
  vp_lemma("the lower weighted ink is at most the weighted area", botmax, hb);
  vp_assert(2 * vpspecnuc8_tri(hb) == hb * hb + hb, "the triangular numbers are n(n+1)/2 (used)");
  vp_assert(t <= area && b <= area, "the weighted ink is at most the weighted area (used)");
}

VP_CONTRACT(P05, hgravity2)
{
  unsigned w = vp_input("w", 1, 256), half = vp_input("half", 0, 256), odd = vp_input("odd", 0, 1);
  unsigned h = 2 * half + odd;   // any height
  vp_assume(h > 0);
  Image img = vp_image("px", w, h);
  Pixel const * p = img.data();
  long lw = w, hb = half, s = lw * (half + odd);
  auto top = [p, lw, hb](long n) { return vpspecnuc16_gtop(p, lw, hb, n); };
  vp_fn("top:n", top);
  auto bot = [p, lw, s](long n) { return vpspecnuc16_gbot(p, lw, s, n); };
  vp_fn("bot:n", bot);
  auto topq = [p, lw, hb](long e, long n) { return vpspecnuc16_gtop(p, lw, hb, n) + vpspecnuc8m_row(p, lw * n, hb - n, e - lw * n); };
  vp_fn2("topq:pn", topq);
  auto botq = [p, lw, s](long e, long n) { return vpspecnuc16_gbot(p, lw, s, n) + vpspecnuc8m_row(p, s + lw * n, n + 1, e - s - lw * n); };
  vp_fn2("botq:pn", botq);
  long t = vpspecnuc16_gtop(p, lw, hb, hb), b = vpspecnuc16_gbot(p, lw, s, hb);
  long area = vpspecnuc8_tri(hb) * lw;
  vp_assume(2 * vpspecnuc8_tri(hb) == hb * hb + hb);   // proved for every argument by the contract gravity_lemmas,
  vp_assume(t <= area && b <= area);               // and so are these
  strategies::hgravity2::ctx_type ctx;
  unsigned r = strategies::hgravity2::load(img, img, ctx);
  vp_assert(r == (h == 1 ? 50 : (area + t - b) * 100 / (area * 2)), "hgravity2 is the weighted balance relative to the weighted area, or 50 for one row");
  vp_assert(r <= 100, "hgravity2 is between 0 and 100");
}
