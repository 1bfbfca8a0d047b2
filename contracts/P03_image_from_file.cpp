// sources: image/image.cpp
// under: image_from_file (decoding of binary and ASCII pixmaps and bitmaps), PnmHeader::parse, Image::Image
// assumes: the file is read completely (read_all is replaced by its contract: the bytes of the file); decoding is entered with any header parse may return
// assumes: pictures of at most 4096 x 4096 pixels, luminance at most 65535
// flags: -fno-access-control
// bounded: files random files of up to 600 bytes: headers with comments and wrong parts, pictures of up to 20 x 20 pixels of every type, truncated and overlong data, against a reference decoder
// calls: pixmap read_allE=vps_read_all _ZN12_GLOBAL__N_19PnmHeader5parse=vps_parse
// calls: pixmap_length read_allE=vps_read_all _ZN12_GLOBAL__N_19PnmHeader5parse=vps_parse
// calls: bitmap_length read_allE=vps_read_all _ZN12_GLOBAL__N_19PnmHeader5parse=vps_parse
// calls: ascii_0 read_allE=vps_read_all _ZN12_GLOBAL__N_19PnmHeader5parse=vps_parse
// calls: ascii_1 read_allE=vps_read_all _ZN12_GLOBAL__N_19PnmHeader5parse=vps_parse
// calls: other_types read_allE=vps_read_all _ZN12_GLOBAL__N_19PnmHeader5parse=vps_parse
// opts: bitmap_length small=18 hto=1500
// calls: parse_header from_charsIj=vps_from_chars
// calls: parse_comment from_charsIj=vps_from_chars
// calls: parse_short from_charsIj=vps_from_chars
#include "img.hpp"
#include <charconv>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <cstring>
#include <cstdio>
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/mman.h>
#ifndef VP_NATIVE
namespace std { struct vp_error { vp_error(char const *) {} vp_error(std::string &&) {} }; }
# define runtime_error vp_error
#endif
#include "ppocr/image/image_from_file.cpp"      // the real source: most of it is local
#ifndef VP_NATIVE
# undef runtime_error
#endif
using namespace ppocr;
#pragma clang diagnostic ignored "-Wreturn-type-c-linkage"

// the file: a header, then n bytes at gdata
static unsigned char * gdata;
static unsigned long glen;
static unsigned char gtype;
static unsigned gwidth, gheight;

#ifdef VP_NATIVE
static Image load(unsigned luminance)
{
  int fd = memfd_create("picture", 0);
  char head[100];
  int n = std::snprintf(head, sizeof head, gtype == '1' || gtype == '4' ? "P%c\n%u %u\n" : "P%c\n%u %u\n255\n", gtype, gwidth, gheight);
  if (write(fd, head, n) != n || write(fd, gdata, glen) != (long)glen) std::abort();
  std::snprintf(head, sizeof head, "/proc/self/fd/%d", fd);
  struct Close { int fd; ~Close() { close(fd); } } c{fd};
  return image_from_file(head, luminance);
}
#else
VP_STUB Buffer vps_read_all(char const *)
{
  Buffer b(0);
  operator delete(b.data);
  b.data = gdata;
  b.len = glen;
  return b;
}
VP_STUB bool vps_parse(PnmHeader * self, uint8_t const * p, uint8_t const *)
{
  self->type = gtype;
  self->width = gwidth;
  self->height = gheight;
  self->max_value = 255;
  self->end_ptr = p;
  return true;
}
static Image load(unsigned luminance) { return image_from_file("", luminance); }
#endif

static inline void file(char type, unsigned w, unsigned h, unsigned long n, char const * set)
{
  gtype = type;
  gwidth = w;
  gheight = h;
  glen = n;
  gdata = static_cast<unsigned char *>(vp_block("data", n, 1, set));
}
static inline long luma(unsigned char const * d) { return ((511 * d[0] + 511) >> 10) + ((396 * d[1] + 511) >> 10) + ((117 * d[2] + 511) >> 10); }

VP_CONTRACT(P03, pixmap)
{
  unsigned w = vp_input("w", 1, 4096), h = vp_input("h", 1, 4096), lum = vp_input("luminance", 0, 65535);
  long k = vp_any("k", 0, (1 << 24) - 1);
  vp_assume(k < (long)w * h);
  file('6', w, h, 3ul * w * h, "#0,255");
  char v = luma(gdata + 3 * k) < (long)lum ? '-' : 'x';
  vp_cell("out", k, v);
  vp_on_throw(false, "a pixmap with the right amount of data is not rejected");
  Image r = load(lum);
  vp_assert(r.width() == w && r.height() == h, "the picture has the size of the header");
  vp_assert(r.data()[k] == v, "every pixel is ink exactly when it is bright enough");
}
// the amount of data: that of the picture and more or less
static inline unsigned long amount(unsigned long right)
{
  long n = (long)right + vp_input("more", -(1 << 26), 1 << 26);
  vp_assume(n >= 0);
  return n;
}
VP_CONTRACT(P03, pixmap_length)
{
  unsigned w = vp_input("w", 1, 4096), h = vp_input("h", 1, 4096);
  unsigned long n = amount(3ul * w * h);
  file('6', w, h, n, "#0,255");
  vp_on_throw(n != 3ul * w * h, "rejected for a wrong amount of data only");
  Image r = load(128);
  vp_assert(n == 3ul * w * h, "a pixmap with a wrong amount of data is rejected");
}
VP_CONTRACT(P03, bitmap_length)
{
  unsigned w = vp_input("w", 1, 4096), h = vp_any("h", 1, 4096);
  unsigned long right = (w + 7ul) / 8 * h, n = amount(right);
  file('4', w, h, n, "#0,255");
  long rb = (w + 7ul) / 8;
  auto start = [rb](long r) { return r * rb; };
  vp_fn("start:n", start);
  auto at = [rb](long c, long r) { return r * rb + (c + 7) / 8; };
  vp_fn2("at:nn", at);
  vp_on_throw(n != right, "rejected for a wrong amount of data only");
  Image r = load(128);
  vp_assert(n == right, "a bitmap with a wrong amount of data is rejected");
}
// digits among the first n characters
VP_SPEC vpspecnuc_digits(unsigned char const * p, long n) { return n <= 0 ? 0 : vpspecnuc_digits(p, n - 1) + (p[n - 1] == '0' || p[n - 1] == '1'); }
// a character other than digits and blanks among the first n
VP_SPEC vpspecbu_foreign(unsigned char const * p, long n) { return n <= 0 ? 0 : p[n - 1] != '0' && p[n - 1] != '1' && p[n - 1] != ' ' && p[n - 1] != '\n' ? 1 : vpspecbu_foreign(p, n - 1); }

static inline void ascii(char digit, char v)
{
  unsigned w = vp_input("w", 1, 4096), h = vp_input("h", 1, 4096);
  unsigned long n = amount((unsigned long)w * h), q = vp_any("q", 0, 3ul << 24);
  vp_assume(q < n);
  file('1', w, h, n, "01 \n#");
  unsigned char const * d = gdata;
  long lq = q, size = (long)w * h;
  auto setup = [=] {      // concrete runs: the right number of digits
    long left = size;
    for (long i = 0; i < (long)n; ++i) {
      bool g = vp_rand(0, (long)n - i - 1) < left;
      left -= g;
      const_cast<unsigned char *>(d)[i] = g ? (unsigned char)vp_rand('0', '1') : vp_rand(0, 1) ? ' ' : '\n';
    }
  };
  vp_setup(setup);
  long k = vpspecnuc_digits(d, lq);
  vp_assume(d[lq] == digit);
  vp_assert(vpspecnuc_digits(d, lq + 1) == k + 1, "the digit is counted");
  auto digits = [d](long e) { return vpspecnuc_digits(d, e); };
  vp_fn("digits:p", digits);
  auto foreign = [d](long e) { return vpspecbu_foreign(d, e); };
  vp_fn("foreign:p", foreign);
  vp_cell("out", k, v);
  vp_on_throw(true, "rejected files: below");
  Image r = load(128);
  vp_assert(r.width() == w && r.height() == h, "the picture has the size of the header");
  vp_assert(vpspecbu_foreign(d, n) == 0, "a picture with any other character is rejected");
  vp_assert(vpspecnuc_digits(d, n) == size, "a picture with too few or too many pixels is rejected");
  vp_assert(r.data()[k] == v, "every digit of the file is the pixel at its position");
}
VP_CONTRACT(P03, ascii_0) { ascii('0', '-'); }
VP_CONTRACT(P03, ascii_1) { ascii('1', 'x'); }
VP_CONTRACT(P03, other_types)
{
  unsigned w = vp_input("w", 0, 4096), h = vp_input("h", 0, 4096), type = vp_input("type", '1', '6');
  vp_assume(type == '2' || type == '5' || type == '6');
  file((char)type, w, h, 3ul * w * h, "#0,255");
  vp_on_throw(type != '6' || w == 0 || h == 0, "no other reason to reject the file");
  Image r = load(128);
  vp_assert(type == '6' && w != 0 && h != 0, "a file of another type and an empty picture are rejected");
}
// ---- the header
// leading digits among the first n characters, and their value (2^32 for any larger one)
static inline bool is_digit(unsigned char c) { return c >= '0' && c <= '9'; }
VP_SPEC vpspecnuc_lead(unsigned char const * p, long n) { return n <= 0 ? 0 : vpspecnuc_lead(p, n - 1) + (vpspecnuc_lead(p, n - 1) == n - 1 && is_digit(p[n - 1])); }
VP_SPEC vpspecn_number(unsigned char const * p, long n)
{
  if (n <= 0) return 0;
  long r = vpspecn_number(p, n - 1) * 10 + (is_digit(p[n - 1]) ? p[n - 1] - '0' : 0);
  return r > 0xffffffffl ? 0x100000000l : r;
}
// where the n characters of the header's rest stand: 0 at the start of a line after comment lines only, 1 inside a comment, 2 after that
VP_SPEC vpspec_in(unsigned char const * p, long n)
{
  if (n <= 0) return 0;
  long s = vpspec_in(p, n - 1);
  return s == 0 ? p[n - 1] == '#' ? 1 : 2 : s == 1 ? p[n - 1] == '\n' ? 0 : 1 : 2;
}
VP_SPEC vpspecbu_ended(unsigned char const * p, long n) { return n <= 0 ? 0 : vpspecbu_ended(p, n - 1) != 0 || (vpspec_in(p, n - 1) == 0 && p[n - 1] != '#'); }
#ifndef VP_NATIVE
// the contract of std::from_chars
VP_STUB std::from_chars_result vps_from_chars(char const * p, char const * e, unsigned & v, int)
{
  vp_assert(p <= e, "callee precondition: from_chars");
  vp_readable(p, e - p);
  auto u = reinterpret_cast<unsigned char const *>(p);
  long len = vpspecnuc_lead(u, e - p), n = vpspecn_number(u, len);
  if (len <= 0 || len > e - p) return {p, std::errc::invalid_argument};
  if (n > 0xffffffffl) return {p + len, std::errc::result_out_of_range};
  v = n;
  return {p + len, std::errc{}};
}
#endif
static inline bool number(unsigned char const * d, long n, long & at, char next, long & value)
{
  long len = vpspecnuc_lead(d + at, n - at);
  value = vpspecn_number(d + at, len);
  if (len == 0 || value > 0xffffffffl || at + len >= n || d[at + len] != next) return false;
  at += len + 1;
  return true;
}
VP_CONTRACT(P03, parse_header)
{
  long n = vp_any("n", 9, 1 << 24), a = vp_any("start", 3, 1 << 24);
  auto d = static_cast<unsigned char *>(vp_block("data", n, 1, "P6\n# 15"));
  auto setup = [=] {        // concrete runs: mostly well-formed, the comments end at a
    if (a > n || vp_rand(0, 9) == 0) return;
    d[0] = 'P';
    d[1] = vp_rand('1', '6');
    d[2] = '\n';
    for (long i = 3; i < a; ++i) d[i] = d[i - 1] == '\n' ? '#' : i + 1 == a || (i + 2 < a && vp_rand(0, 2) == 0) ? '\n' : ' ';
    for (long i = a; i < n; ++i) d[i] = i % 3 == 2 ? (i < a + 3 ? ' ' : '\n') : '1';
  };
  vp_setup(setup);
  vp_assume(a <= n);
  unsigned char const * c = d + 3;
  vp_assume(vpspec_in(c, a - 3) == 0 && vpspecbu_ended(c, a - 3) == 0 && (a == n || d[a] != '#'));
  vp_assert(a == n || vpspecbu_ended(c, a - 2) == 1, "comments end there");
  auto in = [c](long e) { return vpspec_in(c, e - 3); };
  vp_fn("in", in);
  auto in1 = [c](long e) { return vpspec_in(c, e - 2); };
  vp_fn("inside", in1);
  auto ended = [c](long e) { return vpspecbu_ended(c, e - 3); };
  vp_fn("ended", ended);
  auto ended1 = [c](long e) { return vpspecbu_ended(c, e - 2); };
  vp_fn("ending", ended1);
  PnmHeader h{0, 0, 0, 0, d};
  bool r = h.parse(d, d + n);
  long at = a, w, ht, max = 0;
  bool magic = d[0] == 'P' && d[1] >= '1' && d[1] <= '6' && d[2] == '\n';
  bool well = magic && number(d, n, at, ' ', w) && number(d, n, at, '\n', ht) && (d[1] == '1' || d[1] == '4' || number(d, n, at, '\n', max));
  vp_assert(r == well, "a header is accepted exactly when it is well-formed");
  if (r && well) {
    vp_assert(h.type == d[1] && h.width == w && h.height == ht && h.max_value == max, "type, size and maximum are the numbers of the header");
    vp_assert(h.end_ptr == d + at, "the data start after the header");
  }
}
VP_CONTRACT(P03, parse_short)
{
  long n = vp_any("n", 0, 8);
  auto d = static_cast<unsigned char *>(vp_block("data", n, 1, "P6\n# 15"));
  PnmHeader h{0, 0, 0, 0, d};
  vp_assert(!h.parse(d, d + n), "a file too short for a header is rejected");
}
VP_CONTRACT(P03, parse_comment)
{
  long n = vp_any("n", 9, 1 << 24);
  auto d = static_cast<unsigned char *>(vp_block("data", n, 1, "P6\n# 15"));
  auto setup = [=] {
    d[0] = 'P'; d[1] = '6'; d[2] = '\n';
    for (long i = 3; i < n; ++i) d[i] = d[i - 1] == '\n' ? '#' : i + 1 < n && i % 5 == 0 ? '\n' : 'c';
  };
  vp_setup(setup);
  unsigned char const * c = d + 3;
  vp_assume(vpspec_in(c, n - 3) == 1 && vpspecbu_ended(c, n - 3) == 0);
  auto in = [c, n](long e) { return e < n ? vpspec_in(c, e - 3) : 0; };
  vp_fn("in", in);
  auto in1 = [c](long e) { return vpspec_in(c, e - 2); };
  vp_fn("inside", in1);
  auto ended = [c](long e) { return vpspecbu_ended(c, e - 3); };
  vp_fn("ended", ended);
  auto ended1 = [c](long e) { return vpspecbu_ended(c, e - 2); };
  vp_fn("ending", ended1);
  PnmHeader h{0, 0, 0, 0, d};
  if (h.parse(d, d + n)) vp_assert(d <= h.end_ptr && h.end_ptr <= d + n, "the data start inside the file");
}
namespace {
// a reference decoder: the pixels of the file, or nothing if it has to be rejected
struct Ref { bool ok = false; unsigned long w = 0, h = 0; std::string px; };
Ref decode(std::vector<unsigned char> const & f, unsigned luminance)
{
  Ref r;
  std::size_t i = 3, n = f.size();
  if (n < 9 || f[0] != 'P' || f[1] < '1' || f[1] > '6' || f[2] != '\n') return r;
  while (i < n && f[i] == '#') {
    while (i < n && f[i] != '\n') ++i;
    if (i < n) ++i;
  }
  auto num = [&](char next, unsigned long & v) {
    std::size_t b = i;
    for (v = 0; i < n && f[i] >= '0' && f[i] <= '9'; ++i) if (v <= 0xffffffff) v = v * 10 + (f[i] - '0');
    return i != b && v <= 0xffffffff && i < n && f[i++] == next;
  };
  unsigned long max;
  if (!num(' ', r.w) || !num('\n', r.h)) return r;
  if (f[1] != '1' && f[1] != '4' && !num('\n', max)) return r;
  if (r.w == 0 || r.h == 0 || r.w > 0xffffffff / r.h) return r;
  unsigned long size = r.w * r.h, left = n - i;
  if (f[1] == '6') {
    if (left != 3 * size) return r;
    for (; i < n; i += 3) r.px += luma(&f[i]) < (long)luminance ? '-' : 'x';
  }
  else if (f[1] == '4') {
    unsigned long row = (r.w + 7) / 8;
    if (left / row != r.h || left % row) return r;
    for (unsigned long y = 0; y < r.h; ++y)
      for (unsigned long x = 0; x < r.w; ++x)
        r.px += f[i + y * row + x / 8] & (128 >> x % 8) ? '-' : 'x';
  }
  else if (f[1] == '1' || f[1] == '3') {
    for (; i < n; ++i) {
      if (f[i] == '0' || f[i] == '1') r.px += f[i] == '0' ? '-' : 'x';
      else if (f[i] != ' ' && f[i] != '\n') return r;
    }
    if (r.px.size() != size) return r;
  }
  else return r;
  r.ok = true;
  return r;
}
}
VP_CONTRACT(P03, files)
{
  unsigned w = vp_input("w", 0, 20), h = vp_input("h", 0, 20), type = vp_input("type", '1', '6'), lum = vp_input("luminance", 0, 300);
  long kind = vp_input("kind", 0, 15), more = vp_input("more", -3, 3), spot = vp_input("spot", 0, 60), byte = vp_input("byte", 0, 255);
  unsigned char * px = static_cast<unsigned char *>(vp_block("px", 1300, 1, "#0,255"));
  std::string f = std::string("P") + char(type) + "\n";
  if (kind & 1) f += "# comment\n";
  if (kind & 2) f += "##\n#\n";
  f += std::to_string(kind == 12 ? 4294967296ul + w : kind == 13 ? 65536ul * w : w) + ' ' + std::to_string(kind == 14 ? 4294967296ul + h : kind == 13 ? 65536ul : h) + '\n';
  if (type != '1' && type != '4') f += "255\n";
  unsigned long n = type == '4' ? (w + 7) / 8 * h : type == '1' || type == '3' ? w * h : 3ul * w * h;
  if (kind < 4) n = (long)n + more < 0 ? 0 : n + more;
  for (unsigned long k = 0; k < n; ++k) {
    if (type == '1' || type == '3') {
      f += px[k] & 1 ? '1' : '0';
      if (px[k] & 2) f += px[k] & 4 ? ' ' : '\n';
    }
    else f += char(px[k % 1300]);
  }
  if (kind == 8 || kind == 9) f[spot % f.size()] = char(byte);
  if (kind == 10) f.resize(spot < (long)f.size() ? spot : f.size());
  if (kind == 11) f.insert(spot % f.size(), 1, "# \n0159P\t"[byte % 9]);
  std::vector<unsigned char> bytes(f.begin(), f.end());
  Ref ref = decode(bytes, lum);
  int fd = memfd_create("picture", 0);
  struct Close { int fd; ~Close() { close(fd); } } c{fd};
  if (write(fd, f.data(), f.size()) != (long)f.size()) std::abort();
  std::string name = "/proc/self/fd/" + std::to_string(fd);
  bool ok = true;
  try {
    Image r = image_from_file(name.c_str(), lum);
    vp_assert(ref.ok, "a malformed file is rejected");
    vp_assert(r.width() == ref.w && r.height() == ref.h, "the picture has the size of the header");
    for (std::size_t k = 0; k < ref.px.size(); ++k) vp_assert(r.data()[k] == ref.px[k], "every pixel is as the file encodes it");
  }
  catch (std::runtime_error const &) { ok = false; }
  vp_assert(ok || !ref.ok, "a well-formed file is accepted");
}
