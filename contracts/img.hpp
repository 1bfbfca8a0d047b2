// Images with symbolic size and contents, and the ghost functions (specifications) the image contracts share.
#pragma once
#include "vp.hpp"
#include "ppocr/image/image.hpp"

using ppocr::Bounds;
using ppocr::Image;
using ppocr::Index;
using ppocr::Pixel;
using ppocr::PtrImageData;

// an image of w*h pixels with arbitrary byte contents
inline Image vp_image(char const * name, unsigned w, unsigned h)
{ return Image(Bounds(w, h), PtrImageData(static_cast<Pixel *>(vp_block(name, (unsigned long)w * h, 1, "x-o")))); }

inline bool vp_ink(Pixel p) { return p == 'x'; }

// number of ink pixels among p[0..n)
VP_SPEC vpspecnuc_ink(Pixel const * p, long n) { return n <= 0 ? 0 : vpspecnuc_ink(p, n - 1) + (p[n - 1] == 'x'); }
