// sources: image/image.cpp
// under: loader2::read_img loader2::write_img operator>>(istream, Bounds) operator<<(ostream, Bounds)
// assumes: reading a number gives back the number that was written (std::istream and std::ostream are replaced by their contracts while the real source text is compiled: numbers, single characters and blocks of bytes, in order); width and height at most 4096
// flags: -fno-access-control
#include "img.hpp"
#include <cstring>
#include <istream>
#include <ostream>
#include <iosfwd>
#include <memory>

// contract of the streams.  The text of a stored image is: number, separator, number, separator, bytes.
namespace std {
struct vp_istream
{
  struct buf
  {
    vp_istream * s;
    int sbumpc() { return s->next(); }
    int sgetc() { return s->peek(); }
    int snextc() { s->next(); return s->peek(); }
  };
  int at = 0;           // how many of the four tokens before the bytes have been read
  int numbers;          // how many numbers the stream contains
  unsigned w, h;
  char const * bytes;
  long n, pos = 0;      // bytes available, bytes consumed
  bool failed = false;
  buf b{this};

  int peek() { return at == 1 || at == 3 ? ' ' : at < 4 || pos >= n ? -1 : (unsigned char)bytes[pos]; }
  int next()
  {
    vp_assert(at == 1 || at == 3 || at == 4, "a number is not read as characters");
    if (at < 4) { ++at; return ' '; }
    return pos < n ? (unsigned char)bytes[pos++] : -1;
  }
  vp_istream & operator>>(unsigned & v)
  {
    if (failed) return *this;
    if (at == 1 || at == 3) ++at;
    vp_assert(at == 0 || at == 2, "numbers are read where they were written");
    if (numbers * 2 <= at) { failed = true; v = 0; return *this; }
    v = at == 0 ? w : h;
    ++at;
    return *this;
  }
  int get() { if (failed) return -1; int c = next(); if (c < 0) failed = true; return c; }
  vp_istream & get(char & c) { int v = get(); if (v >= 0) c = v; return *this; }
  vp_istream & ignore(long k = 1, int = -1) { vp_assert(k == 1, "one separator"); if (!failed) next(); return *this; }
  vp_istream & read(char * p, long k)
  {
    if (failed) return *this;
    vp_assert(at == 4, "the pixels are read from where they were written");
    long m = k <= n - pos ? k : n - pos;
    memcpy(p, bytes + pos, m);
    pos += m;
    if (m < k) failed = true;
    return *this;
  }
  buf * rdbuf() { return &b; }
  explicit operator bool() const { return !failed; }
  bool operator!() const { return failed; }
  bool good() const { return !failed; }
  bool fail() const { return failed; }
  bool bad() const { return false; }
  bool eof() const { return failed; }
  void setstate(ios_base::iostate) { failed = true; }
};
struct vp_ostream
{
  int at = 0;
  unsigned w = 0, h = 0;
  char const * bytes = nullptr;
  long n = -1;
  vp_ostream & operator<<(unsigned v)
  {
    vp_assert(at == 0 || at == 2, "the dimensions are separated and come first");
    if (at == 0) w = v; else h = v;
    ++at;
    return *this;
  }
  vp_ostream & put(char c)
  {
    vp_assert((at == 1 || at == 3) && (c == ' ' || c == '\n'), "one separator after each number");
    ++at;
    return *this;
  }
  vp_ostream & operator<<(char c) { return put(c); }
  vp_ostream & write(char const * p, long k)
  {
    vp_assert(at == 4, "the pixels follow the dimensions");
    ++at;
    bytes = p;
    n = k;
    return *this;
  }
  explicit operator bool() const { return true; }
  bool operator!() const { return false; }
};
}
#define istream vp_istream
#define ostream vp_ostream
// the header files were compiled with the real streams: these are the declarations of the sources below
namespace ppocr {
std::ostream & operator<<(std::ostream & os, Bounds const & bnd);
std::istream & operator>>(std::istream & is, Bounds & bnd);
}
#include "ppocr/image/coordinate.cpp"
#include "ppocr/loader2/image_io.cpp"
#undef istream
#undef ostream

using namespace ppocr;

VP_CONTRACT(P17, write_img)
{
  unsigned w = vp_input("w", 0, 4096), h = vp_input("h", 0, 4096);
  Image img = vp_image("px", w, h);
  std::vp_ostream os;
  loader2::write_img(os, img);
  vp_assert(os.at == 5 && os.w == w && os.h == h, "width and height are written before the pixels");
  vp_assert(os.bytes == img.data() && os.n == (long)w * h, "all the pixels are written");
}

static inline void stream(std::vp_istream & is, unsigned w, unsigned h, long n, int numbers)
{
  is.numbers = numbers;
  is.w = w;
  is.h = h;
  is.n = n;
  is.bytes = static_cast<char *>(vp_block("bytes", n, 1, "x-o"));
}

VP_CONTRACT(P17, read_img)
{
  unsigned w = vp_input("w", 0, 4096), h = vp_input("h", 0, 4096);
  long n = vp_input("n", 0, 1 << 25);                      // bytes in the stream after the dimensions
  std::vp_istream is;
  stream(is, w, h, n, 2);
  Image img;
  loader2::read_img(is, img);
  long i = vp_any("i", 0, 1 << 24);
  vp_assert(is.failed == (n < (long)w * h), "reading fails exactly when pixels are missing");
  if (!is.failed) {
    vp_assert(img.width() == w && img.height() == h, "the image has the dimensions of the stream");
    if (i < (long)w * h) vp_assert(img.data()[i] == is.bytes[i], "every pixel is the one of the stream");
    vp_assert(is.at == 4 && is.pos == (long)w * h, "the stream is left right after the image");
  }
}

// without both dimensions there is no image
VP_CONTRACT(P17, read_no_dimensions)
{
  long n = vp_input("n", 0, 1 << 25);
  unsigned w = vp_input("w", 0, 4294967295);
  std::vp_istream is;
  stream(is, w, 0, n, 1);
  Image img;
  loader2::read_img(is, img);
  vp_assert(is.failed && img.width() == 0 && img.height() == 0, "without a height nothing is read");
}
VP_CONTRACT(P17, read_nothing)
{
  long n = vp_input("n", 0, 1 << 25);
  std::vp_istream is;
  stream(is, 0, 0, n, 0);
  Image img;
  loader2::read_img(is, img);
  vp_assert(is.failed && img.width() == 0 && img.height() == 0, "without dimensions nothing is read");
}
