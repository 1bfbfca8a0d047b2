// sources: image/image.cpp strategies/dvdirection.cpp strategies/dvdirection2.cpp strategies/dvgravity.cpp strategies/dvgravity2.cpp
// under: diagonal_vertical_direction_fn::compute, diagonal_vertical_gravity_fn::compute, dvdirection::load, dvdirection2::load, dvgravity::load, dvgravity2::load
// assumes: glyph sides are at most 4096 pixels (256 wide and 512 high for the weighted features); count_diagonal_vertical_direction, count_diagonal_vertical_gravity and the two area functions satisfy the contracts P06 establishes for them
// flags: -fno-access-control
// opts: share_dvdirection nolaws=uds wrapall=1 absdiv=1
// opts: share_dvdirection_pixel nolaws=uds wrapall=1 absdiv=1
// opts: share_dvgravity nolaws=uds wrapall=1 absdiv=1
// opts: share_dvgravity_pixel nolaws=uds wrapall=1 absdiv=1
// calls: compute_dvdirection count_diagonal_vertical_directionE=vps_count_dvd
// calls: compute_dvgravity count_diagonal_vertical_gravityE=vps_count_dvg
// calls: share_dvdirection diagonal_vertical_direction_fn7compute=vps_dvdirection diagonal_vertical_direction_areaE=vps_darea
// calls: share_dvdirection_pixel diagonal_vertical_direction_fn7compute=vps_dvdirection diagonal_vertical_direction_areaE=vps_noarea
// calls: share_dvgravity diagonal_vertical_gravity_fn7compute=vps_dvgravity diagonal_vertical_gravity_areaE=vps_warea
// calls: share_dvgravity_pixel diagonal_vertical_gravity_fn7compute=vps_dvgravity diagonal_vertical_gravity_areaE=vps_noarea
#include "diagonal.hpp"
#include "share.hpp"

// the areas, as P06 establishes them: positive, and at most 2^25, for more than one row
VP_SPEC vpspecnuc24_darea(long w, long h, long n) { return n <= 0 ? 0 : vpspecnuc24_darea(w, h, n - 1) + upto24(2 * vpspecnuc12_area(w, h / 2) - 1); }
VP_STUB unsigned vps_darea(Image const & img) { vp_assert(img.height() >= 2, "more than one row"); return 1 + (vpspecnuc24_darea(img.width(), img.height(), 1) & 0x1ffffff); }
VP_STUB unsigned vps_noarea(Image const & img) { vp_assert(img.height() == 1, "one row"); return 0; }
VP_SPEC vpspecnuc24_warea(long w, long h, long n) { return n <= 0 ? 0 : vpspecnuc24_warea(w, h, n - 1) + upto24(2 * vpspecnuc16_garea(w, h / 2, h / 2) - 1); }
VP_STUB unsigned vps_warea(Image const & img) { vp_assert(img.height() >= 2, "more than one row"); return 1 + (vpspecnuc24_warea(img.width(), img.height(), 1) & 0x1ffffff); }

#define COMPUTE(fn, maxw, maxhalf, ctop, cbot) \
{ \
  unsigned w = vp_input("w", 1, maxw), half = vp_input("half", 0, maxhalf), odd = vp_input("odd", 0, 1), h = 2 * half + odd; \
  vp_assume(h > 0); \
  Image img = vp_image("px", w, h); \
  Pixel const * p = img.data(); \
  long lw = w, hb = half, s = lw * (half + odd); \
  auto & f = *static_cast<strategies::utils::fn *>(vp_block("held", 1, 8, "")); \
  f.compute(img); \
  vp_assert(f.value().top == ctop, "the ink of the upper cone is that of the image"); \
  vp_assert(f.value().bottom == cbot, "the ink of the lower cone is that of the image"); \
}
#define STUB(fn, maxw, maxh, ctop, cbot) \
{ \
  Pixel const * p = img.data(); \
  long lw = img.width(), h = img.height(); \
  vp_assert(lw >= 1 && lw <= maxw && h >= 1 && h <= maxh + 1, "callee precondition: " #fn "::compute"); \
  vp_readable(p, lw * h); \
  f->top_bottom.top = ctop; \
  f->top_bottom.bottom = cbot; \
}
VP_CONTRACT(P11, compute_dvdirection)
COMPUTE(diagonal_vertical_direction_fn, 4096, 2048, vpspecnuc12_top(p, lw, hb), vpspecnuc12_bot(p + s, lw, hb, hb))
// the values just established, as one function of the image (n = 1) with values between 0 and 2^24
VP_SPEC vpspecnuc24_dtop(Pixel const * p, long w, long h, long n) { return n <= 0 ? 0 : vpspecnuc24_dtop(p, w, h, n - 1) + upto24(vpspecnuc12_top(p, w, h / 2)); }
VP_SPEC vpspecnuc24_dbot(Pixel const * p, long w, long h, long n) { return n <= 0 ? 0 : vpspecnuc24_dbot(p, w, h, n - 1) + upto24(vpspecnuc12_bot(p + w * (h - h / 2), w, h / 2, h / 2)); }
VP_STUB void vps_dvdirection(strategies::utils::diagonal_vertical_direction_fn * f, Image const & img)
STUB(diagonal_vertical_direction_fn, 4096, 4096, vpspecnuc24_dtop(p, lw, h, 1), vpspecnuc24_dbot(p, lw, h, 1))
SHARE2(dvdirection, strategies::dvdirection, strategies::dvdirection2, 4096, 4096)

VP_CONTRACT(P11, compute_dvgravity)
COMPUTE(diagonal_vertical_gravity_fn, 256, 256, vpspecnuc16_gtop(p, lw, hb, hb), vpspecnuc16_gbot(p + s, lw, hb, hb))
VP_SPEC vpspecnuc24_wtop(Pixel const * p, long w, long h, long n) { return n <= 0 ? 0 : vpspecnuc24_wtop(p, w, h, n - 1) + upto24(vpspecnuc16_gtop(p, w, h / 2, h / 2)); }
VP_SPEC vpspecnuc24_wbot(Pixel const * p, long w, long h, long n) { return n <= 0 ? 0 : vpspecnuc24_wbot(p, w, h, n - 1) + upto24(vpspecnuc16_gbot(p + w * (h - h / 2), w, h / 2, h / 2)); }
VP_STUB void vps_dvgravity(strategies::utils::diagonal_vertical_gravity_fn * f, Image const & img)
STUB(diagonal_vertical_gravity_fn, 256, 512, vpspecnuc24_wtop(p, lw, h, 1), vpspecnuc24_wbot(p, lw, h, 1))
SHARE2(dvgravity, strategies::dvgravity, strategies::dvgravity2, 256, 512)
