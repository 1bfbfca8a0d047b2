// sources: image/image.cpp strategies/proportionality_zone.cpp
// under: compute_relationship, interval_relationship::compute / in_dist, equal_relationship::compute / in_dist, array_compare_relationship::compute / in_dist, proportionality_zone::relationship_type::compute / in_dist
// assumes: a zone list has at most 65536 entries, each a percentage of at most 100
// assumes: dist() (the same number divided by 100 as a double) is not specified
// flags: -fno-access-control
// opts: zone_order sums=1
// opts: zone_order_lists sums=1
#include "img.hpp"
#include "ppocr/strategies/alternations.hpp"
#include "ppocr/strategies/density.hpp"
#include "ppocr/strategies/dvdirection.hpp"
#include "ppocr/strategies/dvdirection2.hpp"
#include "ppocr/strategies/dvgravity.hpp"
#include "ppocr/strategies/dvgravity2.hpp"
#include "ppocr/strategies/dzdensity.hpp"
#include "ppocr/strategies/hbar.hpp"
#include "ppocr/strategies/hdirection.hpp"
#include "ppocr/strategies/hdirection2.hpp"
#include "ppocr/strategies/hgravity.hpp"
#include "ppocr/strategies/hgravity2.hpp"
#include "ppocr/strategies/proportionality.hpp"
#include "ppocr/strategies/proportionality_zone.hpp"
#include "ppocr/strategies/zone.hpp"
using namespace ppocr;

// an interval feature with values 0..max
template<class S> inline void interval(long max)
{
  using R = typename S::relationship_type;
  unsigned a = vp_input("a", 0, max), b = vp_input("b", 0, max), d = vp_input("d", 0, 4294967295 - max);
  long diff = a < b ? (long)b - a : (long)a - b;
  unsigned s = R::compute(a, b);
  vp_assert(s <= 100, "similarity is between 0 and 100");
  vp_assert(s == 100 - diff * 100 / max, "similarity is 100 minus the difference relative to the interval");
  vp_assert(s == R::compute(b, a), "similarity is symmetric");
  vp_assert(R::compute(a, a) == 100 && s <= R::compute(a, a), "similarity of equal values is maximal");
  vp_assert(R::in_dist(a, b, d) == (diff > (long)d), "the tolerance test holds exactly beyond the tolerance");
  vp_assert(R::in_dist(a, b, d) == R::in_dist(b, a, d), "the tolerance test is symmetric");
}
VP_CONTRACT(P10, density) { interval<strategies::density>(100); }
VP_CONTRACT(P10, dvdirection) { interval<strategies::dvdirection>(200); }
VP_CONTRACT(P10, dvdirection2) { interval<strategies::dvdirection2>(100); }
VP_CONTRACT(P10, dvgravity) { interval<strategies::dvgravity>(200); }
VP_CONTRACT(P10, dvgravity2) { interval<strategies::dvgravity2>(100); }
VP_CONTRACT(P10, dzdensity) { interval<strategies::dzdensity>(100); }
VP_CONTRACT(P10, hdirection) { interval<strategies::hdirection>(200); }
VP_CONTRACT(P10, hdirection2) { interval<strategies::hdirection2>(100); }
VP_CONTRACT(P10, hgravity) { interval<strategies::hgravity>(200); }
VP_CONTRACT(P10, hgravity2) { interval<strategies::hgravity2>(100); }
VP_CONTRACT(P10, proportionality) { interval<strategies::proportionality>(100); }

VP_CONTRACT(P10, hbar)
{
  using R = strategies::hbar::relationship_type;
  unsigned a = vp_input("a", 0, 4294967295), b = vp_input("b", 0, 4294967295), d = vp_input("d", 0, 4294967295);
  vp_assert(R::compute(a, b) == (a == b), "similarity is 1 for equal values and 0 otherwise");
  vp_assert(R::compute(a, b) == R::compute(b, a), "similarity is symmetric");
  vp_assert(R::in_dist(a, b, d) == (a == b), "the tolerance test is equality");
}

// number of equal components among the first n
using zone_values = strategies::zone::value_type;
VP_SPEC vpspecnuc_same(zone_values const * a, zone_values const * b, long n)
{ return n <= 0 ? 0 : vpspecnuc_same(a, b, n - 1) + (a->data()[n - 1] == b->data()[n - 1]); }

VP_CONTRACT(P10, zone)
{
  using R = strategies::zone::relationship_type;
  R::value_type const * a = static_cast<R::value_type const *>(vp_block("a", 7, 4, "")), * b = static_cast<R::value_type const *>(vp_block("b", 7, 4, ""));
  unsigned d = vp_input("d", 0, 4294967295);
  auto same = [a, b](long n) { return vpspecnuc_same(a, b, n); };
  vp_fn("same:n", same);
  auto swapped = [a, b](long n) { return vpspecnuc_same(a, b, n) == vpspecnuc_same(b, a, n); };
  vp_lemma("the number of equal components does not depend on the order", swapped, 7);
  unsigned s = R::compute(*a, *b), t = R::compute(*b, *a), u = R::compute(*a, *a);
  vp_assert(s == vpspecnuc_same(a, b, 7) * 100 / 7, "similarity is the percentage of equal components");
  vp_assert(s == t, "similarity is symmetric");
  vp_assert(s <= 100 && u == 100, "similarity is between 0 and 100, 100 for equal values");
  bool in = R::in_dist(*a, *b, d);
  vp_assert(in == (s >= d), "the tolerance test holds when the similarity reaches the limit");
}

using alternation_values = strategies::alternations::value_type;
VP_SPEC vpspecnuc_alike(alternation_values const * a, alternation_values const * b, long n)
{ return n <= 0 ? 0 : vpspecnuc_alike(a, b, n - 1) + (a->data()[n - 1].start_contains_letter == b->data()[n - 1].start_contains_letter && a->data()[n - 1].count == b->data()[n - 1].count); }

VP_CONTRACT(P10, alternations)
{
  using R = strategies::alternations::relationship_type;
  static_assert(sizeof(strategies::alternations::alternations_type) == 8, "a flag and a count");
  alternation_values const & a = *static_cast<alternation_values const *>(vp_block("a", 7, 8, "@ffffffff00000001"));
  alternation_values const & b = *static_cast<alternation_values const *>(vp_block("b", 7, 8, "@ffffffff00000001"));
  unsigned d = vp_input("d", 0, 4294967295);
  auto const * pa = &a, * pb = &b;
  auto alike = [pa, pb](long n) { return vpspecnuc_alike(pa, pb, n); };
  vp_fn("alike:n", alike);
  auto swapped = [pa, pb](long n) { return vpspecnuc_alike(pa, pb, n) == vpspecnuc_alike(pb, pa, n); };
  vp_lemma("the number of equal components does not depend on the order", swapped, 7);
  unsigned s = R::compute(a, b), t = R::compute(b, a), u = R::compute(a, a);
  vp_assert(s == vpspecnuc_alike(pa, pb, 7) * 100 / 7, "similarity is the percentage of equal components");
  vp_assert(s == t, "similarity is symmetric");
  vp_assert(s <= 100 && u == 100, "similarity is between 0 and 100, 100 for equal values");
  bool in = R::in_dist(a, b, d);
  vp_assert(in == (s >= d), "the tolerance test holds when the similarity reaches the limit");
}

// sum over the first n zones of the share (in percent) of the first list in the two, one half when both are empty; capped at 100 per zone
VP_SPEC vpspecnuc7_share(unsigned const * a, unsigned const * b, long n)
{
  if (n <= 0) return 0;
  long x = a[n - 1] & 0x7fffffff, y = b[n - 1] & 0x7fffffff;
  long q = x + y == 0 ? 50 : x * 100 / (x + y);
  return vpspecnuc7_share(a, b, n - 1) + (q < 0 ? 0 : q > 100 ? 100 : q);
}

inline void as_vector(std::vector<unsigned> & v, unsigned * p, long n)
{ v._M_impl._M_start = p; v._M_impl._M_finish = v._M_impl._M_end_of_storage = p + n; }

// the similarity of two lists of n and m zones with the given sum of shares
inline long zone_similarity(long n, long m, long share)
{
  long mean = n == 0 ? 0 : share / n;
  return n != m ? 0 : n == 0 ? 100 : 100 - (mean < 50 ? 50 - mean : mean - 50);
}

template<class F> inline void zone_lists(F f)
{
  using R = strategies::proportionality_zone::relationship_type;
  long n = vp_input("n", 0, 65536), m = vp_input("m", 0, 65536);
  unsigned * pa = static_cast<unsigned *>(vp_block("a", n, 4, "#0,100")), * pb = static_cast<unsigned *>(vp_block("b", m, 4, "#0,100"));
  R::value_type a, b;
  as_vector(a, pa, n); as_vector(b, pb, m);
  auto share = [pa, pb](long i) { return vpspecnuc7_share(pa, pb, i); };
  vp_fn("share:n", share);
  auto most = [pa, pb](long i) { return vpspecnuc7_share(pa, pb, i) <= 100 * i; };
  vp_lemma("the share is at most 100 percent per zone", most, n);
  f(a, b, zone_similarity(n, m, n == m ? vpspecnuc7_share(pa, pb, n) : 0));
}

VP_CONTRACT(P10, proportionality_zone)
{
  zone_lists([](auto const & a, auto const & b, long similarity) {
    unsigned s = strategies::proportionality_zone::relationship_type::compute(a, b);
    vp_assert(s == similarity, "similarity of zone lists: 100 less the distance of the mean share to one half");
    vp_assert(s <= 100, "similarity is between 0 and 100");
  });
}

VP_CONTRACT(P10, proportionality_zone_in_dist)
{
  zone_lists([](auto const & a, auto const & b, long similarity) {
    unsigned d = vp_input("d", 0, 4294967295);
    bool in = strategies::proportionality_zone::relationship_type::in_dist(a, b, d);
    vp_assert(in == (similarity >= (long)d), "the tolerance test holds when the similarity reaches the limit");
  });
}

// the two shares x and y of two zones a and b
inline long zone_share(long a, long b) { return a + b == 0 ? 50 : a * 100 / (a + b); }
VP_CONTRACT(P10, zone_order)
{
  long sum = vp_input("sum", 0, 200), a = vp_input("a", 0, 200), b = sum - a;
  vp_assume(a <= sum);
  long x = zone_share(a, b), y = zone_share(b, a), z = zone_share(a, a);
  vp_assert(x >= 0 && y >= 0 && x <= 100 && y <= 100 && x + y >= 99 && x + y <= 100, "the two shares of a zone make 99 or 100 percent");
  vp_assert(z == 50, "the share of a zone against itself is one half");
}

VP_CONTRACT(P10, zone_order_lists)
{
  // by induction over the zones (contract zone_order), the sums of n shares satisfy
  long n = vp_input("n", 1, 65536);
  long x = vp_input("x", 0, 6553600), y = vp_input("y", 0, 6553600);
  vp_assume(x <= 100 * n && y <= 100 * n && x + y >= 99 * n && x + y <= 100 * n);
  long s = zone_similarity(n, n, x), t = zone_similarity(n, n, y), u = zone_similarity(n, n, 50 * n);
  vp_assert(s <= t + 2 && t <= s + 2, "similarity does not depend on the order, up to two rounding units");
  vp_assert(u == 100, "similarity of equal lists is 100");
}
