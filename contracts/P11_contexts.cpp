// sources: image/image.cpp strategies/hdirection.cpp strategies/hdirection2.cpp strategies/hgravity.cpp strategies/hgravity2.cpp
// under: contexts_t::reset, cache_context::compute, cache_context::reset, horizontal_direction_fn::compute, horizontal_gravity_fn::compute, Strategy::load, Data::load, Datas::load, hdirection::load, hdirection2::load, hgravity::load, hgravity2::load
// assumes: glyph sides are at most 4096 pixels (256 wide and 512 high for the weighted features)
// flags: -fno-access-control
// opts: share_hdirection nolaws=uds wrapall=1 absdiv=1
// opts: share_hdirection_row nolaws=uds wrapall=1 absdiv=1
// opts: share_hdirection_column nolaws=uds wrapall=1 absdiv=1
// opts: share_hdirection_pixel nolaws=uds wrapall=1 absdiv=1
// opts: share_hgravity nolaws=uds wrapall=1 absdiv=1
// opts: share_hgravity_row nolaws=uds wrapall=1 absdiv=1
// opts: share_hgravity_column nolaws=uds wrapall=1 absdiv=1
// opts: share_hgravity_pixel nolaws=uds wrapall=1 absdiv=1
// opts: compute_hgravity nolaws=m
// calls: share_hdirection horizontal_direction_fn7compute=vps_hdirection
// calls: share_hdirection_row horizontal_direction_fn7compute=vps_hdirection
// calls: share_hdirection_column horizontal_direction_fn7compute=vps_hdirection
// calls: share_hdirection_pixel horizontal_direction_fn7compute=vps_hdirection
// calls: share_hgravity horizontal_gravity_fn7compute=vps_hgravity
// calls: share_hgravity_row horizontal_gravity_fn7compute=vps_hgravity
// calls: share_hgravity_column horizontal_gravity_fn7compute=vps_hgravity
// calls: share_hgravity_pixel horizontal_gravity_fn7compute=vps_hgravity
// calls: load_resets Image8rotate90=vps_turn
#include "horizontal.hpp"
#include "share.hpp"

// ---- every context of the loader forgets what it holds
static inline void forgotten_one(no_context const &) {}
template<class C> static inline void forgotten_one(cache_context<C> const & c) { vp_assert(!c.is_loaded, "every context is empty after the reset"); }
template<class... C> static inline void forgotten(PpOcrDataCtxs const & c, details_::contexts_t<C...> *)
{ (..., forgotten_one(static_cast<C const &>(c))); }

VP_CONTRACT(P11, reset)
{
  PpOcrDataCtxs & c = used_contexts("ctx");
  c.reset();
  forgotten(c, static_cast<PpOcrDataCtxs *>(nullptr));
}

// ---- a context computes once, when and only when it is empty, and hands out what it computed
struct toy { unsigned long calls, seen; void compute(Image const & img) { ++calls; seen = img.width(); } unsigned long value() const { return seen; } };

VP_CONTRACT(P11, compute_once)
{
  unsigned w1 = vp_input("w1", 1, 4096), w2 = vp_input("w2", 1, 4096);
  long loaded = vp_input("loaded", 0, 1), before = vp_input("before", 0, 1000), held = vp_input("held", 0, 4096);
  Image a = vp_image("a", w1, 1), b = vp_image("b", w2, 1);
  cache_context<toy> c;
  vp_assert(!c.is_loaded, "a new context is empty");
  c.is_loaded = loaded;
  c.calls = before;
  c.seen = held;
  unsigned long v = c.compute(a);
  vp_assert(v == (unsigned long)(loaded ? held : w1) && (long)c.calls == before + (loaded ? 0 : 1), "a context computes exactly when it is empty");
  vp_assert(c.compute(b) == v && (long)c.calls == before + (loaded ? 0 : 1), "a context hands out what it computed");
  c.reset();
  vp_assert(c.compute(b) == w2, "a context that was reset computes again");
}

// ---- what a context computes does not depend on what it held
VP_CONTRACT(P11, compute_hdirection)
{
  unsigned w = vp_input("w", 1, 4096), half = vp_input("half", 0, 2048), odd = vp_input("odd", 0, 1), h = 2 * half + odd;
  vp_assume(h > 0);
  Image img = vp_image("px", w, h);
  Pixel const * p = img.data();
  auto ink = [p](long e) { return vpspecnuc_ink(p, e); };
  vp_fn("ink:p", ink);
  auto & f = *static_cast<strategies::utils::horizontal_direction_fn *>(vp_block("held", 1, 8, ""));
  f.compute(img);
  vp_assert(f.value().top == between(p, 0, (long)w * half), "the upper ink is that of the image");
  vp_assert(f.value().bottom == between(p, (long)w * (half + odd), (long)w * h), "the lower ink is that of the image");
}
// the values just established, as one function of the image (n = 1) with values between 0 and 2^24
VP_SPEC vpspecnuc24_htop(Pixel const * p, long w, long h, long n) { return n <= 0 ? 0 : vpspecnuc24_htop(p, w, h, n - 1) + upto24(between(p, 0, w * (h / 2))); }
VP_SPEC vpspecnuc24_hbot(Pixel const * p, long w, long h, long n) { return n <= 0 ? 0 : vpspecnuc24_hbot(p, w, h, n - 1) + upto24(between(p, w * (h - h / 2), w * h)); }
VP_STUB void vps_hdirection(strategies::utils::horizontal_direction_fn * f, Image const & img)
{
  Pixel const * p = img.data();
  long w = img.width(), h = img.height();
  vp_assert(w >= 1 && w <= 4096 && h >= 1 && h <= 4097, "callee precondition: horizontal_direction_fn::compute");
  vp_readable(p, w * h);
  f->top_bottom.top = vpspecnuc24_htop(p, w, h, 1);
  f->top_bottom.bottom = vpspecnuc24_hbot(p, w, h, 1);
}
SHARE(hdirection, strategies::hdirection, strategies::hdirection2, 4096, 4096)

VP_CONTRACT(P11, compute_hgravity)
{
  unsigned w = vp_input("w", 1, 256), half = vp_input("half", 0, 256), odd = vp_input("odd", 0, 1), h = 2 * half + odd;
  vp_assume(h > 0);
  Image img = vp_image("px", w, h);
  Pixel const * p = img.data();
  long lw = w, hb = half, s = lw * (half + odd);
  auto top = [p, lw, hb](long n) { return vpspecnuc16_gtop(p, lw, hb, n); };
  vp_fn("top:n", top);
  auto bot = [p, lw, s](long n) { return vpspecnuc16_gbot(p, lw, s, n); };
  vp_fn("bot:n", bot);
  auto topq = [p, lw, hb](long e, long n) { return vpspecnuc16_gtop(p, lw, hb, n) + vpspecnuc8m_row(p, lw * n, hb - n, e - lw * n); };
  vp_fn2("topq:pn", topq);
  auto botq = [p, lw, s](long e, long n) { return vpspecnuc16_gbot(p, lw, s, n) + vpspecnuc8m_row(p, s + lw * n, n + 1, e - s - lw * n); };
  vp_fn2("botq:pn", botq);
  auto & f = *static_cast<strategies::utils::horizontal_gravity_fn *>(vp_block("held", 1, 8, ""));
  f.compute(img);
  vp_assert(f.value().top == vpspecnuc16_gtop(p, lw, hb, hb), "the upper weighted ink is that of the image");
  vp_assert(f.value().bottom == vpspecnuc16_gbot(p, lw, s, hb), "the lower weighted ink is that of the image");
}
VP_SPEC vpspecnuc24_wtop(Pixel const * p, long w, long h, long n) { return n <= 0 ? 0 : vpspecnuc24_wtop(p, w, h, n - 1) + upto24(vpspecnuc16_gtop(p, w, h / 2, h / 2)); }
VP_SPEC vpspecnuc24_wbot(Pixel const * p, long w, long h, long n) { return n <= 0 ? 0 : vpspecnuc24_wbot(p, w, h, n - 1) + upto24(vpspecnuc16_gbot(p, w, w * (h - h / 2), h / 2)); }
VP_STUB void vps_hgravity(strategies::utils::horizontal_gravity_fn * f, Image const & img)
{
  Pixel const * p = img.data();
  long w = img.width(), h = img.height();
  vp_assert(w >= 1 && w <= 256 && h >= 1 && h <= 513, "callee precondition: horizontal_gravity_fn::compute");
  vp_readable(p, w * h);
  f->top_bottom.top = vpspecnuc24_wtop(p, w, h, 1);
  f->top_bottom.bottom = vpspecnuc24_wbot(p, w, h, 1);
}
SHARE(hgravity, strategies::hgravity, strategies::hgravity2, 256, 512)

// ---- the loader resets its contexts for every image, and hands each feature the image of its policy
struct seen_size
{
  using value_type = unsigned;
  using relationship_type = strategies::hdirection::relationship_type;
  using ctx_type = cache_context<toy>;
  static value_type load(Image const & img, Image const & img90, ctx_type & ctx) { return ctx.compute(img) * 8192 + img90.width(); }
};
#pragma clang diagnostic ignored "-Wreturn-type-c-linkage"
VP_STUB Image vps_turn(Image const & img)
{ return Image(Bounds(img.height(), img.width()), PtrImageData(new Pixel[img.area()])); }    // its dimensions, established by P01

VP_CONTRACT(P11, load_resets)
{
  using S = Strategy<seen_size, PolicyLoader::img>;
  using T = Strategy<seen_size, PolicyLoader::img90>;
  using D = loader2::Datas<S, T>;
  unsigned w = vp_input("w", 1, 4096), h = vp_input("h", 1, 4096);
  long n = vp_input("n", 0, 1000), loaded = vp_input("loaded", 0, 1), loaded90 = vp_input("loaded90", 0, 1);
  Image img = vp_image("px", w, h);
  D & d = *static_cast<D *>(vp_block("datas", sizeof(D) / 8, 8, ""));
  unsigned * a = static_cast<unsigned *>(vp_block("a", n + 1, 4, "")), * b = static_cast<unsigned *>(vp_block("b", n + 1, 4, ""));
  auto room = [n](std::vector<unsigned> & v, unsigned * p) { v._M_impl._M_start = p; v._M_impl._M_finish = p + n; v._M_impl._M_end_of_storage = p + n + 1; };
  room(d.get<S>().data_.values, a);
  room(d.get<T>().data_.values, b);
  static_cast<S::ctx_type &>(d.ctx).is_loaded = loaded;
  static_cast<T::ctx_type &>(d.ctx).is_loaded = loaded90;
  d.load(img);
  vp_assert(d.get<S>().size() == n + 1ul && d.get<T>().size() == n + 1ul, "one value is added for each feature");
  vp_assert(a[n] == w * 8192 + h, "the value added is that of the image just loaded");
  vp_assert(b[n] == h * 8192 + w, "the value added is that of the quarter turn of the image just loaded");
}
