// sources: image/image.cpp
// under: DataIndexesOrdered::get_range range_bounds IndexesOrdered::IndexesOrdered
// assumes: std::sort leaves the index a permutation ordered by the comparator it was given (the comparator itself is proved to compare the entries); std::lower_bound and std::upper_bound are verified, not assumed
// flags: -fno-access-control
// opts: range_bounds lin3=1
// opts: get_range lin3=1
#include "vp.hpp"
#include <algorithm>
#include <numeric>
#include <memory>
#include <vector>

// contract of the library sort, used in place of its body while the header under test is compiled: remembers the range
// and proves, for two arbitrary elements, that the comparator is the order of the entries
static unsigned * sort_first;
static long sort_n, sort_a, sort_b;
static unsigned const * sort_key;
namespace std {
template<class It, class Cmp> void vp_sort(It first, It last, Cmp cmp)
{
  sort_first = first;
  sort_n = last - first;
  long a = sort_a, b = sort_b;
  if (a >= sort_n || b >= sort_n) return;
  vp_assert(first[a] == (unsigned)a, "the index to be sorted names every entry once");
  vp_assert(cmp(first[a], first[b]) == (sort_key[a] < sort_key[b]), "the index is ordered by the value of the entries");
}
}
#define sort vp_sort
#include "ppocr/ocr2/data_indexes_ordered.hpp"
#undef sort
#include "ppocr/strategies/hdirection.hpp"
using namespace ppocr;

template<class T> inline void as_vector(std::vector<T> & v, T * p, long n) { v._M_impl._M_start = p; v._M_impl._M_finish = v._M_impl._M_end_of_storage = p + n; }
using D = loader2::Data<strategies::hdirection>;
using Ord = ocr2::DataIndexesOrdered<strategies::hdirection>;

struct Column
{
  long n, m1, m2;
  unsigned start, stop;
  unsigned * idx, * key;
  D * data;
  ocr2::IndexesOrdered * ord;
};

static inline void column(Column & c, unsigned start, unsigned stop)
{
  c.n = vp_input("n", 0, 65536);
  c.m1 = vp_input("m1", 0, 65536);      // how many entries of the ordered index are below start
  c.m2 = vp_input("m2", 0, 65536);      // how many are not above stop
  vp_val("end", c.m1 < c.m2 ? c.m2 : c.m1);
  c.start = start;
  c.stop = stop;
  vp_assume(c.m1 <= c.n && c.m2 <= c.n);
  c.idx = static_cast<unsigned *>(vp_block("idx", c.n, 4, ""));
  c.key = static_cast<unsigned *>(vp_block("key", c.n, 4, ""));
  c.data = static_cast<D *>(vp_block("data", 1, sizeof(D), ""));
  as_vector(c.data->data_.values, c.key, c.n);
  c.ord = static_cast<ocr2::IndexesOrdered *>(vp_block("ord", 1, sizeof(ocr2::IndexesOrdered), ""));
  *reinterpret_cast<unsigned **>(c.ord) = c.idx;
}
#define SORTED(c) auto ordered = [&c](long k) { return c.idx[k] < (unsigned)c.n && (c.key[c.idx[k]] < c.start) == (k < c.m1) && (c.key[c.idx[k]] <= c.stop) == (k < c.m2); }; \
  vp_each("idx", 4, ordered, c.n)

// a range query returns exactly the positions whose entry lies between the bounds
VP_CONTRACT(P12, range_bounds)
{
  unsigned start = vp_input("start", 0, 4294967295), stop = vp_input("stop", 0, 4294967295);
  Column c;
  column(c, start, stop);
  SORTED(c);
  auto r = ocr2::range_bounds(*c.data, *c.ord, start, stop);
  long i = vp_any("i", 0, 65535);
  vp_assume(i < c.n);
  unsigned const * p = c.idx + i;
  unsigned v = c.key[c.idx[i]];
  vp_assert((p >= r.first_ && p < r.last_) == (start <= v && v <= stop), "a position is in the range exactly when its entry lies between the bounds");
  vp_assert(r.first_ >= c.idx && r.first_ <= r.last_ && r.last_ <= c.idx + c.n, "the range lies inside the index");
}

// the query around a value with a tolerance
VP_CONTRACT(P12, get_range)
{
  unsigned x = vp_input("x", 0, 4294967295), d = vp_input("d", 0, 4294967295);
  Column c;
  column(c, x > d ? x - d : 0, x <= 4294967295u - d ? x + d : 4294967295u);
  SORTED(c);
  auto r = reinterpret_cast<Ord *>(c.ord)->get_range(*c.data, x, d);
  long i = vp_any("i", 0, 65535);
  vp_assume(i < c.n);
  unsigned const * p = c.idx + i;
  unsigned v = c.key[c.idx[i]];
  vp_assert((p >= r.first_ && p < r.last_) == ((v < x ? x - v : v - x) <= d), "a position is in the range exactly when its entry differs from the value by at most the tolerance");
}

// building the index: every entry once, ordered by value
VP_CONTRACT(P12, build_index)
{
  long n = vp_input("n", 0, 65536);
  unsigned * key = static_cast<unsigned *>(vp_block("key", n, 4, ""));
  D * data = static_cast<D *>(vp_block("data", 1, sizeof(D), ""));
  as_vector(data->data_.values, key, n);
  sort_first = nullptr;
  sort_a = vp_any("a", 0, 65535);
  sort_b = vp_any("b", 0, 65535);
  vp_cell("a", sort_a, sort_a);
  vp_cell("b", sort_b, sort_b);
  sort_key = key;
  ocr2::IndexesOrdered o(*data);
  vp_assert(o.begin() == sort_first && sort_n == n, "the whole index is sorted");
}
