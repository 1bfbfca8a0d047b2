// sources: image/image.cpp strategies/alternations.cpp strategies/density.cpp strategies/dvdirection.cpp strategies/dvdirection2.cpp strategies/dvgravity.cpp strategies/dvgravity2.cpp strategies/dzdensity.cpp strategies/hbar.cpp strategies/hdirection.cpp strategies/hdirection2.cpp strategies/hgravity.cpp strategies/hgravity2.cpp strategies/proportionality.cpp strategies/proportionality_zone.cpp strategies/zone.cpp
// under: Datas::load with every feature of the program, and every feature in a random order on one context
// bounded: history random sequences of up to 5 images of up to 12 x 12 pixels
#include "img.hpp"
#include <algorithm>
#include <functional>
#include <vector>
#include "ppocr/defined_loader.hpp"
using namespace ppocr;

template<class... S> static void all_fresh(PpOcrDatas const & d, std::size_t k, Image const & img, Image const & img90, details_::DefaultDatas<S...> *)
{
  auto one = [&](auto * s) {
    using T = std::remove_pointer_t<decltype(s)>;
    typename T::ctx_type ctx;
    vp_assert(d.get<T>()[k] == T::load(img, img90, ctx), "every feature loaded is that of the image alone");
  };
  (..., one(static_cast<S *>(nullptr)));
}
template<class... S> static std::vector<std::function<void()>> in_context(PpOcrDataCtxs & c, Image const & img, Image const & img90, details_::DefaultDatas<S...> *)
{
  auto one = [&](auto * s) -> std::function<void()> {
    return [&c, &img, &img90] {
      using T = std::remove_pointer_t<decltype(s)>;
      typename T::ctx_type ctx;
      vp_assert(T::load(img, img90, static_cast<typename T::ctx_type &>(c)) == T::load(img, img90, ctx), "every feature on a context that was reset is that of the image alone, in whatever order");
    };
  };
  return {one(static_cast<S *>(nullptr))...};
}

VP_CONTRACT(P11, history)
{
  long n = vp_input("n", 1, 5);
  unsigned char * px = static_cast<unsigned char *>(vp_block("px", 600, 1, "x-"));
  unsigned char * num = static_cast<unsigned char *>(vp_block("num", 64, 1, ""));
  PpOcrDatas d;
  PpOcrDataCtxs c;
  for (long k = 0; k < n; ++k) {
    unsigned w = num[k * 8] % 12 + 1, h = num[k * 8 + 1] % 12 + 1;
    PtrImageData b(new Pixel[w * h]);
    for (unsigned i = 0; i < w * h; ++i) b[i] = px[(k * 117 + num[k * 8 + 2] + i) % 600] == 'x' ? 'x' : '-';
    Image img(Bounds(w, h), std::move(b)), img90 = img.rotate90();
    d.load(img);
    vp_assert(d.size() == k + 1ul, "one value is added for each feature");
    all_fresh(d, k, img, img90, static_cast<PpOcrDatas *>(nullptr));
    c.reset();
    auto f = in_context(c, img, img90, static_cast<PpOcrDatas *>(nullptr));
    for (unsigned i = f.size(); i > 1; --i) std::swap(f[i - 1], f[(num[k * 8 + 3 + i % 5] + i * 7) % i]);
    for (auto & g : f) g();
  }
}
