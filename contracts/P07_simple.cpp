// sources: image/image.cpp strategies/density.cpp strategies/proportionality.cpp strategies/hbar.cpp
// under: density::load, proportionality::load, hbar::load, is_pix_letter, is_pix_letter_fn::operator()
#include "img.hpp"
#include "ppocr/strategies/density.hpp"
#include "ppocr/strategies/proportionality.hpp"
#include "ppocr/strategies/hbar.hpp"
using namespace ppocr;

VP_CONTRACT(P07, density)
{
  unsigned w = vp_input("w", 1, 4096), h = vp_input("h", 1, 4096);
  Image img = vp_image("px", w, h);
  Pixel const * p = img.data();
  auto ink = [p](long e) { return vpspecnuc_ink(p, e); };
  vp_fn("ink", ink);
  strategies::density::ctx_type ctx;
  unsigned r = strategies::density::load(img, img, ctx);
  vp_assert(r == vpspecnuc_ink(p, (long)w * h) * 100 / ((long)w * h), "density is the percentage of ink pixels, rounded down");
  vp_assert(r <= 100, "density is between 0 and 100");
}

VP_CONTRACT(P07, proportionality)
{
  unsigned w = vp_input("w", 1, 4096), h = vp_input("h", 1, 4096);
  Image img = vp_image("px", w, h);
  strategies::proportionality::ctx_type ctx;
  unsigned r = strategies::proportionality::load(img, img, ctx);
  vp_assert(r == (long)w * 100 / ((long)w + h), "proportionality is width*100/(width+height)");
  vp_assert(r < 100, "proportionality is below 100");
}

// the n pixels at p are all ink
VP_SPEC vpspecbd_full(Pixel const * p, long n) { return n <= 0 ? 1 : (p[n - 1] == 'x' && vpspecbd_full(p, n - 1)) ? 1 : 0; }
// number of maximal groups of full rows among the rows that make up the first e pixels (e a multiple of w)
VP_SPEC vpspec_bars(Pixel const * p, long w, long e)
{
  if (e <= 0) return 0;
  long cur = vpspecbd_full(p + (e - w), w);
  long prev = e <= w ? 0 : vpspecbd_full(p + (e - 2 * w), w);
  return vpspec_bars(p, w, e - w) + ((cur != 0 && prev == 0) ? 1 : 0);
}

VP_CONTRACT(P07, hbar)
{
  unsigned w = vp_input("w", 1, 4096), h = vp_input("h", 1, 4096);
  Image img = vp_image("px", w, h);
  Pixel const * p = img.data();
  long lw = w;
  auto bars = [p, lw](long e) { return vpspec_bars(p, lw, e); };
  vp_fn("bars", bars);
  auto prev = [p, lw](long e) { return e <= 0 ? 0 : vpspecbd_full(p + (e - lw), lw); };
  vp_fn("prev", prev);
  auto full = [p](long e, long s) { return vpspecbd_full(p + s, e - s); };
  vp_fn2("full", full);
  strategies::hbar::ctx_type ctx;
  unsigned r = strategies::hbar::load(img, img, ctx);
  vp_assert(r == vpspec_bars(p, w, (long)w * h), "hbar is the number of separate groups of fully inked rows");
}
