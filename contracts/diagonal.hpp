// ghost functions of the diagonal features (P06, P11)
#pragma once
#include "img.hpp"
using namespace ppocr;

// ink of the j pixels from s on
VP_SPEC vpspecnuc_row(Pixel const * p, long s, long j) { return j <= 0 ? 0 : vpspecnuc_row(p, s, j - 1) + (p[s + j - 1] == 'x'); }
// left border of the cone in the k-th row (k >= 1) from its base, the row of full width; the cone's part of that row is [border, w - border)
inline long border(long w, long k) { return w / 2 - w / k / 2; }
inline long breadth(long w, long k) { long r = w - 2 * border(w, k); return r < 0 ? 0 : r > 4096 ? 4096 : r; }
// ink of the cone's part of a row, at most its breadth
inline long row(Pixel const * p, long s, long w, long k) { long r = vpspecnuc_row(p, s + border(w, k), w - 2 * border(w, k)); return r > breadth(w, k) ? breadth(w, k) : r; }
// ink of the first n rows of the upper cone; of the lower cone of hb rows
VP_SPEC vpspecnuc12_top(Pixel const * p, long w, long n) { return n <= 0 ? 0 : vpspecnuc12_top(p, w, n - 1) + row(p, w * (n - 1), w, n); }
VP_SPEC vpspecnuc12_bot(Pixel const * p, long w, long hb, long n) { return n <= 0 ? 0 : vpspecnuc12_bot(p, w, hb, n - 1) + row(p, w * (n - 1), w, hb - n + 1); }
// area of the n rows of a cone nearest to its base
VP_SPEC vpspecnuc12_area(long w, long n) { return n <= 0 ? 0 : vpspecnuc12_area(w, n - 1) + breadth(w, n); }

// contract of count_diagonal_vertical_direction for its callers, established by the entries count_direction_top and count_direction_bottom of P06
VP_STUB unsigned vps_count_dvd(Bounds const & bnd, Pixel const * p, Pixel const * ep, bool is_top)
{
  long w = bnd.width(), hb = bnd.height();
  vp_assert(w >= 1 && w <= 4096 && hb <= 2048 && ep == p + w * hb, "callee precondition: count_diagonal_vertical_direction");
  vp_readable(p, w * hb);
  return is_top ? vpspecnuc12_top(p, w, hb) : vpspecnuc12_bot(p, w, hb, hb);
}

VP_STUB unsigned vps_area_dvd(Image const & img)
{
  vp_assert(img.width() >= 1 && img.width() <= 4096 && img.height() >= 1 && img.height() <= 4097, "callee precondition: diagonal_vertical_direction_area");
  return 2 * vpspecnuc12_area(img.width(), img.height() / 2);
}
// ---- weighted by the distance to the middle: at most 256 wide, 512 high
// ink of the j pixels from s on, each counted g times (0 <= g <= 256)
VP_SPEC vpspecnuc8m_wrow(Pixel const * p, long s, long g, long j)
{ return j <= 0 ? 0 : vpspecnuc8m_wrow(p, s, g, j - 1) + (p[s + j - 1] != 'x' || g < 0 ? 0 : g > 256 ? 256 : g); }
inline long weight(Pixel const * p, long s, long g, long w, long k)
{ long r = vpspecnuc8m_wrow(p, s + border(w, k), g, w - 2 * border(w, k)); return r > 65536 ? 65536 : r; }
// the first n rows of the upper cone of hb rows, weighted hb, hb-1, ...; of the lower cone, weighted 1, 2, ...
VP_SPEC vpspecnuc16_gtop(Pixel const * p, long w, long hb, long n) { return n <= 0 ? 0 : vpspecnuc16_gtop(p, w, hb, n - 1) + weight(p, w * (n - 1), hb - (n - 1), w, n); }
VP_SPEC vpspecnuc16_gbot(Pixel const * p, long w, long hb, long n) { return n <= 0 ? 0 : vpspecnuc16_gbot(p, w, hb, n - 1) + weight(p, w * (n - 1), n, w, hb - n + 1); }

VP_STUB unsigned vps_count_dvg(Bounds const & bnd, Pixel const * p, Pixel const * ep, bool is_top)
{
  long w = bnd.width(), hb = bnd.height();
  vp_assert(w >= 1 && w <= 256 && hb <= 256 && ep == p + w * hb, "callee precondition: count_diagonal_vertical_gravity");
  vp_readable(p, w * hb);
  return is_top ? vpspecnuc16_gtop(p, w, hb, hb) : vpspecnuc16_gbot(p, w, hb, hb);
}

// breadth of the k-th row times a weight (at most 65536: neither exceeds 256)
inline long weighted(long w, long k, long g) { long r = (w - 2 * border(w, k)) * g; return r < 0 ? 0 : r > 65536 ? 65536 : r; }
// weighted area of the lower cone of hb rows, its first n rows from the narrow end
VP_SPEC vpspecnuc16_garea(long w, long hb, long n) { return n <= 0 ? 0 : vpspecnuc16_garea(w, hb, n - 1) + weighted(w, hb - n + 1, n); }
// weighted area of the upper cone of hb rows, its first n rows from the base
VP_SPEC vpspecnuc16_gareat(long w, long hb, long n) { return n <= 0 ? 0 : vpspecnuc16_gareat(w, hb, n - 1) + weighted(w, n, hb - n + 1); }

VP_STUB unsigned vps_area_dvg(Image const & img)
{
  vp_assert(img.width() >= 1 && img.width() <= 256 && img.height() >= 1 && img.height() <= 513, "callee precondition: diagonal_vertical_gravity_area");
  return 2 * vpspecnuc16_garea(img.width(), img.height() / 2, img.height() / 2);
}
