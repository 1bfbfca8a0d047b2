// sources: image/image.cpp
// under: UTF8toUnicodeIterator::UTF8toUnicodeIterator / operator++ / operator* / code / pos, UTF8Iterator::UTF8Iterator / operator++ / operator* / code / pos
// assumes: the string is valid UTF-8 (the contracts take two arbitrary consecutive code points, so that with the first contract they cover every position of every valid string)
#include "vp.hpp"
#include "ppocr/utils/utf.hpp"
using namespace ppocr;
typedef std::uint8_t byte;

// A code point as its UTF-8 digits (RFC 3629): n bytes, six bits in each continuation byte, the rest in the first.
// Every Unicode scalar value other than NUL is exactly one such combination.
struct cp
{
  long n, top, d2, d1, d0;   // top: digit of the first byte; d0: last byte
  long value() const { return n == 1 ? top : n == 2 ? top * 64 + d0 : n == 3 ? top * 4096 + d1 * 64 + d0 : top * 262144 + d2 * 4096 + d1 * 64 + d0; }
  long first() const { return n == 1 ? top : n == 2 ? 0xC0 + top : n == 3 ? 0xE0 + top : 0xF0 + top; }
  long pack() const
  {
    return n == 1 ? top : n == 2 ? first() * 256 + 0x80 + d0 : n == 3 ? first() * 65536 + (0x80 + d1) * 256 + 0x80 + d0
         : first() * 16777216 + (0x80 + d2) * 65536 + (0x80 + d1) * 256 + 0x80 + d0;
  }
  // p starts with the encoding
  void at(byte const * p) const
  {
    vp_assume(p[0] == first());
    if (n > 1) vp_assume(p[n - 1] == 0x80 + d0);
    if (n > 2) vp_assume(p[n - 2] == 0x80 + d1);
    if (n > 3) vp_assume(p[1] == 0x80 + d2);
  }
  void valid() const
  {
    vp_assume(n == 1 ? top > 0 && top < 128 : n == 2 ? top >= 2 && top < 32 : n == 3 ? top < 16 && (top > 0 || d1 >= 32) && !(top == 13 && d1 >= 32)
            : top < 5 && (top > 0 || d2 >= 16) && !(top == 4 && d2 >= 16));
  }
};
#define SCALAR(c, name) cp const c{vp_input(name "_n", 1, 4), vp_input(name "_top", 0, 127), vp_input(name "_d2", 0, 63), vp_input(name "_d1", 0, 63), vp_input(name "_d0", 0, 63)}; c.valid()

// two consecutive code points and the terminator, in a block that ends there
template<class It, class Value> inline void walk(Value value)
{
  SCALAR(a, "a"); SCALAR(b, "b");
  unsigned la = a.n, lb = b.n;
  byte * s = static_cast<byte *>(vp_block("s", la + lb + 1, 1, ""));
  a.at(s); b.at(s + la); vp_assume(s[la + lb] == 0);
  It it(s);
  vp_assert(*it == value(a) && it.code() == value(a), "the first code point is yielded");
  vp_assert(it.pos() == s + la, "the first step consumes exactly one encoding");
  It & r = ++it;
  vp_assert(&r == &it, "increment returns the iterator");
  vp_assert(*it == value(b) && it.code() == value(b), "the next code point is yielded");
  vp_assert(it.pos() == s + la + lb, "a step consumes exactly one encoding");
  ++it;
  vp_assert(*it == 0 && it.code() == 0, "the terminator yields zero");
  vp_assert(it.pos() == s + la + lb + 1, "the terminator is consumed and nothing beyond it");
  vp_assert(value(a) != 0 && value(b) != 0, "only the terminator yields zero");
  It c(reinterpret_cast<char const *>(s));
  vp_assert(*c == value(a) && c.pos() == s + la, "construction from char does the same");
}

VP_CONTRACT(P15, unicode) { walk<utf::UTF8toUnicodeIterator>([](cp const & c) { return (std::uint32_t)c.value(); }); }
VP_CONTRACT(P15, packed) { walk<utf::UTF8Iterator>([](cp const & c) { return (std::uint32_t)c.pack(); }); }
VP_CONTRACT(P15, packed_unique)
{
  SCALAR(a, "a"); SCALAR(b, "b");
  bool same = a.n == b.n && a.top == b.top && (a.n < 2 || a.d0 == b.d0) && (a.n < 3 || a.d1 == b.d1) && (a.n < 4 || a.d2 == b.d2);
  vp_assert((a.pack() == b.pack()) == same, "the packed form determines the encoding");
  vp_assert((a.value() == b.value()) == same, "a code point has one encoding");
}
// the empty string
template<class It> inline void empty()
{
  byte * s = static_cast<byte *>(vp_block("s", 1, 1, ""));
  vp_assume(s[0] == 0);
  It it(s);
  vp_assert(*it == 0 && it.pos() == s + 1, "the empty string yields zero and only its terminator is read");
}
VP_CONTRACT(P15, unicode_empty) { empty<utf::UTF8toUnicodeIterator>(); }
VP_CONTRACT(P15, packed_empty) { empty<utf::UTF8Iterator>(); }
