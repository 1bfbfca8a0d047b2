// Contracts on the shared contexts (P11): the features of one family, in any order and for an image and its quarter
// turn, on a context in any state that has just been reset, against the same features on fresh contexts.
#pragma once
#include "img.hpp"
#include "ppocr/defined_loader.hpp"
using namespace ppocr;
using loader2::PolicyLoader;
using loader2::Strategy;

// no glyph has more ink than 2^24 pixels, or pixels times weights
inline long upto24(long v) { return v < 0 ? 0 : v > 16777216 ? 16777216 : v; }

// the contexts of the real loader, in the state any earlier image may have left
static inline PpOcrDataCtxs & used_contexts(char const * name)
{
  static_assert(sizeof(PpOcrDataCtxs) % 8 == 0);
  return *static_cast<PpOcrDataCtxs *>(vp_block(name, sizeof(PpOcrDataCtxs) / 8, 8, ""));
}

template<class S> static inline auto fresh(Image const & a, Image const & b)
{
  typename S::ctx_type ctx;
  return S::load(a, b, ctx);
}

template<class F, class G, PolicyLoader P, bool Both> static inline void pair(PpOcrDataCtxs & c, Image const & a, Image const & b)
{
  using S = Strategy<F, P>;
  using T = Strategy<G, P>;
  if constexpr (Both) vp_assert(S::load(a, b, c) == fresh<S>(a, b), "the first feature is that of the image");
  vp_assert(T::load(a, b, c) == fresh<T>(a, b), "the second feature is that of the image, before or after the first");
  vp_assert(S::load(a, b, c) == fresh<S>(a, b), "the first feature is that of the image, computed after the second");
}
template<class F, class G, PolicyLoader P, PolicyLoader Q, bool Both> static inline void in_order(char const * name, Image const & img, Image const & img90)
{
  PpOcrDataCtxs & c = used_contexts(name);
  c.reset();
  pair<F, G, P, Both>(c, img, img90);
  pair<F, G, Q, !Both>(c, img, img90);
}

// every order of the features of a family, on an image of more than one row and column, or else of one
template<class F, class G> static inline void share(long maxw, long minh, long maxh, long minh90, long maxh90)
{
  unsigned w = vp_input("w", 1, maxw), h = vp_input("h", minh, maxh), w90 = vp_input("w90", 1, maxw), h90 = vp_input("h90", minh90, maxh90);
  Image img = vp_image("px", w, h), img90 = vp_image("px90", w90, h90);
  in_order<F, G, PolicyLoader::img, PolicyLoader::img90, true>("a", img, img90);
  in_order<F, G, PolicyLoader::img, PolicyLoader::img90, false>("b", img, img90);
  in_order<F, G, PolicyLoader::img90, PolicyLoader::img, true>("c", img, img90);
  in_order<F, G, PolicyLoader::img90, PolicyLoader::img, false>("d", img, img90);
}
#define SHARE2(name, F, G, maxw, maxh) \
VP_CONTRACT(P11, share_##name) { share<F, G>(maxw, 2, maxh, 2, maxh); } \
VP_CONTRACT(P11, share_##name##_pixel) { share<F, G>(maxw, 1, 1, 1, 1); }
#define SHARE(name, F, G, maxw, maxh) SHARE2(name, F, G, maxw, maxh) \
VP_CONTRACT(P11, share_##name##_row) { share<F, G>(maxw, 1, 1, 2, maxh); } \
VP_CONTRACT(P11, share_##name##_column) { share<F, G>(maxw, 2, maxh, 1, 1); }
