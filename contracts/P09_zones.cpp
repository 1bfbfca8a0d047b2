// sources: image/image.cpp strategies/zone.cpp strategies/proportionality_zone.cpp
// under: Buffer::alloc_and_init_to_zero, ZoneInfo::alloc, ZoneInfo::top/right/bottom/left, MappingZoneView::count_used_zone, ZoneInfo::count_total_used_zone, zone::load
// assumes: at most 65536 zones; glyph sides are at most 4096 pixels
// calls: zone_load count_used_zoneEv=vps_used count_total_used_zoneEv=vps_total
// bounded: flood random sequences of up to 6 images of up to 14 x 14 pixels on one analyser, against a reference that merges neighbouring pixels until nothing changes
// flags: -fno-access-control
#include "img.hpp"
#include <algorithm>
#include <vector>
#include "ppocr/strategies/zone.hpp"
#include "ppocr/strategies/proportionality_zone.hpp"
using namespace ppocr;
using namespace ppocr::strategies::utils;

// a buffer in any state earlier images may have left
static inline void used_buffer(Buffer<unsigned> & b, char const * name, unsigned long cap)
{
  b._buffer.reset(static_cast<unsigned *>(vp_block(name, cap, 4, "")));
  b._capacity = cap;
}

VP_CONTRACT(P09, alloc_first)
{
  unsigned long n = vp_input("n", 1, 1 << 20), i = vp_any("i", 0, (1 << 20) - 1);
  vp_assume(i < n);
  Buffer<unsigned> b;
  vp_cell("zero", i, 0);
  unsigned * p = b.alloc_and_init_to_zero(n);
  vp_assert(p == b.data() && b._capacity >= n, "the buffer is large enough");
  vp_assert(p[i] == 0, "every element handed out is zero");
}
VP_CONTRACT(P09, alloc_again)
{
  unsigned long n = vp_input("n", 1, 1 << 20), i = vp_any("i", 0, (1 << 20) - 1), cap = vp_input("cap", 0, 1 << 21);
  vp_assume(i < n);
  Buffer<unsigned> b;
  used_buffer(b, "held", cap);
  unsigned * p = b.alloc_and_init_to_zero(n);
  vp_assert(p == b.data() && b._capacity >= n, "the buffer is large enough");
  vp_assert(p[i] == 0, "every element handed out is zero");
}

// how many of the first n elements are not zero
VP_SPEC vpspecnuc_used(unsigned const * p, long n) { return n <= 0 ? 0 : vpspecnuc_used(p, n - 1) + (p[n - 1] != 0); }
// how many of the first n zones touch a side, z zones in all
VP_SPEC vpspecnuc_total(unsigned const * p, long z, long n) { return n <= 0 ? 0 : vpspecnuc_total(p, z, n - 1) + (p[n - 1] != 0 || p[z + n - 1] != 0 || p[2 * z + n - 1] != 0 || p[3 * z + n - 1] != 0); }

static inline ZoneInfo & used_zones(ZoneInfo & zi, unsigned n)
{
  used_buffer(zi._buffer, "zones", 4ul * n);
  zi._count_zone = n;
  return zi;
}
VP_CONTRACT(P09, count_used)
{
  unsigned n = vp_input("n", 0, 65536), side = vp_input("side", 0, 3);
  ZoneInfo zi;
  used_zones(zi, n);
  unsigned const * p = zi._buffer.data();
  p += (long)n * side;
  auto used = [p](long k) { return vpspecnuc_used(p, k); };
  vp_fn("used:n", used);
  MappingZoneView v = side == 0 ? zi.top() : side == 1 ? zi.right() : side == 2 ? zi.bottom() : zi.left();
  vp_assert(v.count_used_zone() == vpspecnuc_used(p, n), "counts the zones that touch the side");
}
VP_CONTRACT(P09, count_total)
{
  unsigned n = vp_input("n", 0, 65536);
  ZoneInfo zi;
  used_zones(zi, n);
  unsigned const * p = zi._buffer.data();
  long z = n;
  auto total = [p, z](long k) { return vpspecnuc_total(p, z, k); };
  vp_fn("total:n", total);
  vp_assert(zi.count_total_used_zone() == vpspecnuc_total(p, z, z), "counts the zones that touch any side, once each");
}
VP_STUB unsigned vps_used(MappingZoneView const * v)
{
  vp_readable(v->zones, 4ul * v->len);
  return vpspecnuc_used(v->zones, v->len);
}
VP_STUB unsigned vps_total(ZoneInfo const * zi)
{
  vp_readable(zi->_buffer.data(), 16ul * zi->_count_zone);
  return vpspecnuc_total(zi->_buffer.data(), zi->_count_zone, zi->_count_zone);
}

// the feature, from any result of the analysis
VP_CONTRACT(P09, zone_load)
{
  using Z = strategies::zone;
  unsigned w = vp_input("w", 1, 4096), h = vp_input("h", 1, 4096), n = vp_input("n", 0, 65536);
  Image img = vp_image("px", w, h);
  Pixel const * px = img.data();
  Z::ctx_type ctx;
  ctx.is_loaded = true;
  used_zones(ctx.zone, n);
  unsigned const * p = ctx.zone._buffer.data();
  long z = n;
  Z::value_type r = Z::load(img, img, ctx);
  vp_assert(r[Z::top_left_is_letter] == (px[0] == 'x'), "the first corner flag is exact");
  vp_assert(r[Z::bottom_right_is_letter] == (px[(long)w * h - 1] == 'x'), "the second corner flag is exact");
  vp_assert(r[Z::number_top_alternations] == vpspecnuc_used(p, z) && r[Z::number_top_alternations] <= n, "zones touching the top");
  vp_assert(r[Z::number_right_alternations] == vpspecnuc_used(p + z, z) && r[Z::number_right_alternations] <= n, "zones touching the right");
  vp_assert(r[Z::number_bottom_alternations] == vpspecnuc_used(p + 2 * z, z) && r[Z::number_bottom_alternations] <= n, "zones touching the bottom");
  vp_assert(r[Z::number_left_alternations] == vpspecnuc_used(p + 3 * z, z) && r[Z::number_left_alternations] <= n, "zones touching the left");
  vp_assert(r[Z::number_internal_alternations] == z - vpspecnuc_total(p, z, z) && r[Z::number_internal_alternations] <= n, "enclosed zones");
}

// the analysis itself
VP_CONTRACT(P09, flood)
{
  long n = vp_input("n", 1, 6);
  unsigned char * pix = static_cast<unsigned char *>(vp_block("px", 1200, 1, "x-"));
  unsigned char * num = static_cast<unsigned char *>(vp_block("num", 4 * 6, 1, ""));
  strategies::zone::ctx_type ctx;
  for (long k = 0; k < n; ++k) {
    unsigned w = num[k * 4] % 14 + 1, h = num[k * 4 + 1] % 14 + 1;
    PtrImageData d(new Pixel[w * h]);
    for (unsigned i = 0; i < w * h; ++i) {
      bool a = pix[(k * 173 + num[k * 4 + 2] + i) % 1200] == 'x', b = pix[(k * 173 + num[k * 4 + 2] + 3 * i + 1) % 1200] == 'x';
      int kind = num[k * 4 + 3] % 4;       // no ink, little, half, much
      d[i] = (kind == 0 ? false : kind == 1 ? a && b : kind == 2 ? a : a || b) ? 'x' : '-';
    }
    Image img(Bounds(w, h), std::move(d));
    // reference: the least pixel of each zone, by merging until nothing changes
    std::vector<unsigned> rep(w * h);
    for (unsigned i = 0; i < w * h; ++i) rep[i] = i;
    auto bg = [&](unsigned x, unsigned y) { return img.data()[y * w + x] != 'x'; };
    for (bool again = true; again;) {
      again = false;
      auto merge = [&](unsigned a, unsigned b) { if (rep[a] != rep[b]) { rep[a] = rep[b] = std::min(rep[a], rep[b]); again = true; } };
      for (unsigned y = 0; y < h; ++y)
        for (unsigned x = 0; x < w; ++x) {
          if (x + 1 < w && bg(x, y) && bg(x + 1, y)) merge(y * w + x, y * w + x + 1);
          if (y + 1 < h && bg(x, y) && bg(x, y + 1)) merge(y * w + x, y * w + x + w);
        }
    }
    std::vector<unsigned> id;      // zones in the order of their least pixel
    for (unsigned i = 0; i < w * h; ++i) if (img.data()[i] != 'x' && rep[i] == i) id.push_back(i);
    ctx.reset();
    ZoneInfo const & zi = ctx.compute(img);
    vp_assert(zi.count_zone() == id.size(), "the number of zones");
    unsigned enclosed = 0, used[4] = {};
    for (unsigned j = 0; j < id.size(); ++j) {
      unsigned c[4] = {};
      for (unsigned x = 0; x < w; ++x) {
        c[0] += bg(x, 0) && rep[x] == id[j];
        c[2] += bg(x, h - 1) && rep[(h - 1) * w + x] == id[j];
      }
      for (unsigned y = 0; y < h; ++y) {
        c[3] += bg(0, y) && rep[y * w] == id[j];
        c[1] += bg(w - 1, y) && rep[y * w + w - 1] == id[j];
      }
      vp_assert(zi.top()[j] == c[0] && zi.right()[j] == c[1] && zi.bottom()[j] == c[2] && zi.left()[j] == c[3], "the pixels of each zone along each border");
      for (int s = 0; s < 4; ++s) used[s] += c[s] != 0;
      enclosed += !(c[0] || c[1] || c[2] || c[3]);
    }
    auto const r = strategies::zone::load(img, img, ctx);
    using Z = strategies::zone;
    vp_assert(r[Z::number_top_alternations] == used[0] && r[Z::number_right_alternations] == used[1] && r[Z::number_bottom_alternations] == used[2] && r[Z::number_left_alternations] == used[3], "the number of zones along each border");
    vp_assert(r[Z::number_internal_alternations] == enclosed, "the number of enclosed zones");
    auto const shares = strategies::proportionality_zone::load(img, img, ctx);
    vp_assert(shares.size() == id.size() - enclosed, "one share for each zone that touches a border");
    unsigned sum = 0;
    for (unsigned v : shares) sum += v;
    vp_assert(sum <= 100 && std::is_sorted(shares.begin(), shares.end()), "the shares are in order and no more than the whole");
  }
}
