// sources: image/image.cpp
// under: flat_trie::node_type::lower_bound flat_trie::range::lower_bound flat_trie::node_type::childrens trie::node_type::lower_bound trie::lower_bound
// assumes: the children of a node are ordered by symbol without duplicates (precondition; trie::insert_after establishes it, entries insert_after_*); the conversion from trie to flat_trie is not under contract
// flags: -fno-access-control
// opts: flat_lower_bound lin3=1
// opts: node_lower_bound lin3=1
#include "vp.hpp"
#include <algorithm>
#include <memory>
#include <vector>
#include "ppocr/container/trie.hpp"
using namespace ppocr;

template<class T> inline void as_vector(std::vector<T> & v, T * p, long n) { v._M_impl._M_start = p; v._M_impl._M_finish = v._M_impl._M_end_of_storage = p + n; }
using Flat = container::flat_trie<uint32_t>;
using Trie = container::trie<uint32_t>;

// searching the children of a node of the flattened dictionary: the child with the symbol is found exactly when there is one
VP_CONTRACT(P16, flat_lower_bound)
{
  long pos = vp_input("pos", 1, 65536), n = vp_input("n", 0, 65536), m = vp_input("m", 0, 65536);   // m children are below the symbol
  unsigned c = vp_input("c", 0, 4294967295);
  vp_assume(m <= n);
  static_assert(sizeof(Flat::node_type) == 16);
  Flat::node_type * e = static_cast<Flat::node_type *>(vp_block("nodes", (pos + n) * 4, 4, ""));
  long last = vp_val("end", pos + n), mid = vp_val("mid", pos + m);
  auto setup = [=]{ e->pos_ = pos; e->count_ = n; for (long k = 0; k < n; ++k) { e[pos + k].x_ = c - m + k; e[pos + k].is_terminal_ = vp_rand(0, 1); } };
  vp_setup(setup);
  vp_assume(e->pos_ == pos && e->count_ == n);
  auto sorted = [=](long k) { return k < pos || ((e[k].x_ < c) == (k < mid) && (k <= mid || e[k].x_ > c)); };
  vp_each("nodes", 16, sorted, last);
  Flat::node_type const * r = e->lower_bound(c);
  long i = vp_any("i", 0, 65535);   // any child
  vp_assert(r >= e + pos && r <= e + pos + n, "the result lies among the children");
  if (i < n) {
    vp_assert((e[pos + i].x_ == c) == (r == e + pos + i && r->get() == c), "the child with the symbol is the one returned");
  }
  if (r != e->end()) vp_assert(r->get() >= c, "the symbol of the child returned is not below the one asked for");
}

// the same over the children of a node of the plain dictionary
VP_CONTRACT(P16, node_lower_bound)
{
  long n = vp_input("n", 0, 65536), m = vp_input("m", 0, 65536);
  unsigned c = vp_input("c", 0, 4294967295);
  vp_assume(m <= n);
  using Node = Trie::node_type;
  static_assert(sizeof(Node) == 32);
  Node * e = static_cast<Node *>(vp_block("nodes", n * 4, 8, ""));
  Node * top = static_cast<Node *>(vp_block("top", 4, 8, ""));
  as_vector(top->nodes_.nodes_, e, n);
  auto setup = [=]{ for (long k = 0; k < n; ++k) e[k].value_ = c - m + k; };
  vp_setup(setup);
  auto sorted = [=](long k) { return (e[k].value_ < c) == (k < m) && (k <= m || e[k].value_ > c); };
  vp_each("nodes", 32, sorted, n);
  Node const * r = &*top->lower_bound(c);
  long i = vp_any("i", 0, 65535);
  vp_assert(r >= e && r <= e + n, "the result lies among the children");
  if (i < n) vp_assert((e[i].value_ == c) == (r == e + i && r->get() == c), "the child with the symbol is the one returned");
  if (r != e + n) vp_assert(r->get() >= c, "the symbol of the child returned is not below the one asked for");
}
