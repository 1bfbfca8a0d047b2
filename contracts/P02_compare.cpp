// sources: image/image.cpp utils/image_compare.cpp
// under: image_compare, operator==(Image, Image)
// assumes: memcmp behaves as the reference definition in contracts/libc.hpp
// assumes: picture sides are at most 4096 pixels
#include "libc.hpp"
#include "img.hpp"
#include "ppocr/utils/image_compare.hpp"
#include "ppocr/ocr2/cache.hpp"
using namespace ppocr;

// lexicographic comparison of the first n pixels: -1, 0 or 1
VP_SPEC vpspecs_cmp(Pixel const * p, Pixel const * q, long n)
{
  if (n <= 0) return 0;
  long before = vpspecs_cmp(p, q, n - 1);
  return before != 0 ? before : p[n - 1] == q[n - 1] ? 0 : p[n - 1] < q[n - 1] ? -1 : 1;
}
// position of the first difference among the first n pixels
VP_SPEC vpspec_at(Pixel const * p, Pixel const * q, long n)
{ return n <= 0 ? 0 : vpspecs_cmp(p, q, n - 1) != 0 ? vpspec_at(p, q, n - 1) : n - 1; }

inline long order(Image const & a, Image const & b)
{
  if (a.width() != b.width()) return a.width() < b.width() ? -1 : 1;
  if (a.height() != b.height()) return a.height() < b.height() ? -1 : 1;
  return vpspecs_cmp(a.data(), b.data(), (long)a.width() * a.height());
}

VP_CONTRACT(P02, image_compare)
{
  bool other_width = vp_input("other_width", 0, 1), other_height = vp_input("other_height", 0, 1);
  unsigned w = vp_input("w", 0, 4096), h = vp_input("h", 0, 4096), w2 = vp_input("w2", 0, 4096), h2 = vp_input("h2", 0, 4096);
  if (!other_width) w2 = w;
  if (!other_height) h2 = h;
  long mixed = (long)w * h2;   // hints for the proof
  vp_assert(w != w2 || mixed == (long)w2 * h2, "hint");
  vp_assert(h != h2 || mixed == (long)w * h, "hint");
  Image a = vp_image("a", w, h), b = vp_image("b", w2, h2);
  Pixel const * p = a.data(), * q = b.data();
  auto cmp = [p, q](long n) { return vpspecs_cmp(p, q, n); };
  vp_fn("cmp", cmp);
  long r = image_compare(a, b);
  long o = order(a, b);
  vp_assert((r < 0) == (o < 0) && (r > 0) == (o > 0), "images are ordered by width, height, then pixels");
}

VP_CONTRACT(P02, cache_order)
{
  bool other_width = vp_input("other_width", 0, 1), other_height = vp_input("other_height", 0, 1);
  unsigned w = vp_input("w", 0, 4096), h = vp_input("h", 0, 4096), w2 = vp_input("w2", 0, 4096), h2 = vp_input("h2", 0, 4096);
  if (!other_width) w2 = w;
  if (!other_height) h2 = h;
  long mixed = (long)w * h2;   // hints for the proof
  vp_assert(w != w2 || mixed == (long)w2 * h2, "hint");
  vp_assert(h != h2 || mixed == (long)w * h, "hint");
  Image a = vp_image("a", w, h), b = vp_image("b", w2, h2);
  Pixel const * p = a.data(), * q = b.data();
  auto cmp = [p, q](long n) { return vpspecs_cmp(p, q, n); };
  vp_fn("cmp", cmp);
  bool r = ocr2::def_img_compare()(a, b);
  vp_assert(r == (order(a, b) < 0), "the cache orders images by width, height, then pixels");
}

VP_CONTRACT(P02, equal)
{
  bool other_width = vp_input("other_width", 0, 1), other_height = vp_input("other_height", 0, 1);
  unsigned w = vp_input("w", 0, 4096), h = vp_input("h", 0, 4096), w2 = vp_input("w2", 0, 4096), h2 = vp_input("h2", 0, 4096);
  if (!other_width) w2 = w;
  if (!other_height) h2 = h;
  long mixed = (long)w * h2;   // hints for the proof
  vp_assert(w != w2 || mixed == (long)w2 * h2, "hint");
  vp_assert(h != h2 || mixed == (long)w * h, "hint");
  Image a = vp_image("a", w, h), b = vp_image("b", w2, h2);
  Pixel const * p = a.data(), * q = b.data();
  auto cmp = [p, q](long n) { return vpspecs_cmp(p, q, n); };
  vp_fn("cmp", cmp);
  bool r = a == b;
  vp_assert(r == (order(a, b) == 0), "images are equal exactly when sizes and all pixels are equal");
}

VP_CONTRACT(P02, order_laws)
{
  // the laws of the order, for three pixel sequences of n pixels
  long n = vp_input("n", 0, 4096 * 4096), j = vp_any("j", 0, 4096 * 4096);
  Pixel const * a = static_cast<Pixel *>(vp_block("a", n, 1, "x-o")), * b = static_cast<Pixel *>(vp_block("b", n, 1, "x-o")), * c = static_cast<Pixel *>(vp_block("c", n, 1, "x-o"));
  auto same = [a, b, j](long k) { return vpspecs_cmp(a, b, k) != 0 || j >= k || a[j] == b[j]; };
  vp_lemma("the comparison is zero only for equal pixels", same, n);
  auto differ = [a, b](long k) {
    long i = vpspec_at(a, b, k);
    return vpspecs_cmp(a, b, k) == 0 || (i >= 0 && i < k && a[i] != b[i]); };
  vp_lemma("the comparison is not zero only when some pixel differs", differ, n);
  auto anti = [a, b](long k) { return vpspecs_cmp(a, b, k) == -vpspecs_cmp(b, a, k); };
  vp_lemma("the comparison reverses when the operands are exchanged", anti, n);
  auto trans = [a, b, c](long k) {
    long x = vpspecs_cmp(a, b, k), y = vpspecs_cmp(b, c, k), z = vpspecs_cmp(a, c, k);
    return !(x <= 0 && y <= 0) || (z <= 0 && (z < 0) == (x < 0 || y < 0)); };
  vp_lemma("the comparison is transitive", trans, n);
  vp_assert(true, "order laws");
}
