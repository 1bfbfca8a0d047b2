// sources: image/image.cpp
// under: ImageContext::img, ImageContext::img90, ImageContext::reserve, ImageContext::~ImageContext, rotate90, Image::Image, Image::release
// assumes: glyph sides are at most 4096 pixels; the caller's maker fills exactly the area of the glyph
// flags: -fno-access-control
#include "img.hpp"
#include <cstring>
#include "ppocr/ocr2/image_context.hpp"
using namespace ppocr;
using ocr2::ImageContext;

// State of a context between two glyphs (the invariant every contract below takes as precondition and re-establishes):
// the buffer has capacity_sz_ bytes; the current image, if any, lies at its start and fits twice; whatever the quarter
// turn points at is not owned (it may be an address of an older buffer).
static bool invariant(ImageContext const & c)
{
  return (c.img_.data() == nullptr || (c.img_.data() == c.data_.get() && (std::size_t)c.img_.width() * c.img_.height() * 2 <= c.capacity_sz_));
}

// one glyph: img() with the given bounds, then the quarter turn
static inline void one(ImageContext & ctx, unsigned w, unsigned h, Pixel const * src)
{
  long lw = w, lh = h;
  long x = vp_any("x", 0, 4095), y = vp_any("y", 0, 4095);
  vp_assume(x < lw && y < lh);
  char v = src[y * lw + x];
  vp_cell("turn", lw * lh + (lw - 1 - x) * lh + y, v);
  vp_cell("keep", y * lw + x, v);
  Image const & img = ctx.img(Bounds(w, h), [src, w, h](Pixel * d) { std::memcpy(d, src, (std::size_t)w * h); });
  vp_assert(img.width() == w && img.height() == h, "the image has the requested size");
  vp_assert(img.data()[y * lw + x] == v, "every pixel of the image is the one filled in");
  vp_assert(invariant(ctx), "the buffer holds the image and its quarter turn");
  Image const & t = ctx.img90();
  vp_assert(t.width() == h && t.height() == w, "the quarter turn has the dimensions swapped");
  vp_assert(t.data()[(lw - 1 - x) * lh + y] == v, "every pixel of the quarter turn is the pixel of the current glyph");
  vp_assert(img.data() == ctx.data_.get() && img.width() == w && img.height() == h && img.data()[y * lw + x] == v, "the image is unchanged by the quarter turn");
  vp_assert(t.data() == img.data() + lw * lh, "the quarter turn lies behind the image");
  vp_assert(invariant(ctx), "the invariant of the context is kept");
}

VP_CONTRACT(P19, first_glyph)
{
  unsigned w = vp_input("w", 1, 4096), h = vp_input("h", 1, 4096);
  Pixel const * src = static_cast<Pixel *>(vp_block("src", (unsigned long)w * h, 1, "x-o"));
  ImageContext ctx;
  vp_assert(invariant(ctx), "a new context satisfies the invariant");
  one(ctx, w, h, src);
}

// any state a previous glyph may leave: an image of pw x ph at the start of a buffer of cap bytes, and its quarter turn
#define PRIOR(cap) \
  unsigned pw = vp_input("pw", 1, 4096), ph = vp_input("ph", 1, 4096); \
  Pixel const * src = static_cast<Pixel *>(vp_block("src", (unsigned long)w * h, 1, "x-o")); \
  vp_assume((unsigned long)pw * ph * 2 <= cap); \
  ImageContext ctx; \
  ctx.data_.reset(static_cast<Pixel *>(vp_block("buf", cap, 1, "x-o"))); \
  ctx.capacity_sz_ = cap; \
  ctx.img_ = Image(Bounds(pw, ph), PtrImageData(ctx.data_.get())); \
  ctx.img90_ = Image(Bounds(ph, pw), PtrImageData(ctx.data_.get() + (unsigned long)pw * ph)); \
  vp_assert(invariant(ctx), "the prior state satisfies the invariant")

// the glyph fits the buffer
VP_CONTRACT(P19, next_glyph_fits)
{
  unsigned w = vp_input("w", 1, 4096), h = vp_input("h", 1, 4096), spare = vp_input("spare", 0, 1 << 25);
  unsigned long cap = (unsigned long)w * h * 2 + spare;
  PRIOR(cap);
  one(ctx, w, h, src);
}

// the glyph needs a bigger buffer
VP_CONTRACT(P19, next_glyph_grows)
{
  unsigned w = vp_input("w", 1, 4096), h = vp_input("h", 1, 4096), lack = vp_input("lack", 1, 1 << 25);
  long c = (long)w * h * 2 - lack;
  vp_assume(c > 0);
  unsigned long cap = c;
  PRIOR(cap);
  one(ctx, w, h, src);
}

// the quarter turn asked for twice
VP_CONTRACT(P19, turn_again)
{
  unsigned w = vp_input("w", 1, 4096), h = vp_input("h", 1, 4096), spare = vp_input("spare", 0, 65536);
  unsigned long cap = (unsigned long)w * h * 2 + spare;
  long x = vp_any("x", 0, 4095), y = vp_any("y", 0, 4095), lw = w, lh = h;
  vp_assume(x < lw && y < lh);
  ImageContext ctx;
  ctx.data_.reset(static_cast<Pixel *>(vp_block("buf", cap, 1, "x-o")));
  ctx.capacity_sz_ = cap;
  ctx.img_ = Image(Bounds(w, h), PtrImageData(ctx.data_.get()));
  ctx.img90_ = Image(Bounds(h, w), PtrImageData(ctx.data_.get() + (unsigned long)w * h));
  char v = ctx.data_[y * lw + x];
  vp_cell("turn", lw * lh + (lw - 1 - x) * lh + y, v);
  vp_cell("keep", y * lw + x, v);
  Image const & t = ctx.img90();
  vp_assert(t.width() == h && t.height() == w && t.data()[(lw - 1 - x) * lh + y] == v, "every pixel of the quarter turn is the pixel of the current glyph");
  vp_assert(ctx.img_.data()[y * lw + x] == v, "the image is unchanged by the quarter turn");
  vp_assert(invariant(ctx), "the invariant of the context is kept");
}
