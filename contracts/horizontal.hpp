// ghost functions of the horizontal features (P05, P11)
#pragma once
#include "img.hpp"
using namespace ppocr;

// ink between pixel positions a and b
static long between(Pixel const * p, long a, long b) { return vpspecnuc_ink(p, b) - vpspecnuc_ink(p, a); }

// ink of the j pixels from s on, each counted g times (0 <= g <= 256)
VP_SPEC vpspecnuc8m_row(Pixel const * p, long s, long g, long j)
{ return j <= 0 ? 0 : vpspecnuc8m_row(p, s, g, j - 1) + (p[s + j - 1] != 'x' || g < 0 ? 0 : g > 256 ? 256 : g); }
inline long row_weight(Pixel const * p, long s, long g, long w)
{ long r = vpspecnuc8m_row(p, s, g, w); return r > 65536 ? 65536 : r; }   // 256 pixels at most, weights at most 256
// ink of the first n rows of width w, each pixel weighted by hb minus its row
VP_SPEC vpspecnuc16_gtop(Pixel const * p, long w, long hb, long n)
{ return n <= 0 ? 0 : vpspecnuc16_gtop(p, w, hb, n - 1) + row_weight(p, w * (n - 1), hb - (n - 1), w); }
// ink of the n rows starting at pixel s, each pixel weighted by 1 plus its row
VP_SPEC vpspecnuc16_gbot(Pixel const * p, long w, long s, long n)
{ return n <= 0 ? 0 : vpspecnuc16_gbot(p, w, s, n - 1) + row_weight(p, s + w * (n - 1), n, w); }

