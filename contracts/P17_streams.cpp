// sources: image/image.cpp image/coordinate.cpp loader2/image_io.cpp
// under: loader2::read_img loader2::write_img with the real streams
// bounded: stream_round_trip random sequences of up to 4 images of up to 12 x 12 pixels through std::stringstream, truncated at a random byte
#include "img.hpp"
#include <sstream>
#include <vector>
#include "ppocr/loader2/image_io.hpp"
using namespace ppocr;

VP_CONTRACT(P17, stream_round_trip)
{
  long n = vp_input("n", 0, 4), cut = vp_input("cut", 0, 4000);
  unsigned char * px = static_cast<unsigned char *>(vp_block("px", 600, 1, "x-"));
  unsigned char * num = static_cast<unsigned char *>(vp_block("num", 8 * 4, 1, ""));
  std::stringstream ss;
  std::vector<long> ends;
  for (long k = 0; k < n; ++k) {
    unsigned w = num[k * 8] % 13, h = num[k * 8 + 1] % 13;
    PtrImageData d(new Pixel[w * h]);
    for (unsigned i = 0; i < w * h; ++i) d[i] = px[(k * 144 + i) % 600];
    Image img(Bounds(w, h), std::move(d));
    loader2::write_img(ss, img);
    ends.push_back(ss.str().size());
  }
  std::string text = ss.str();
  bool whole = cut >= (long)text.size();
  if (!whole) text.resize(cut);
  std::stringstream in(text);
  for (long k = 0; k < n; ++k) {
    Image img;
    bool ok = !!loader2::read_img(in, img);
    vp_assert(ok == (ends[k] <= (long)text.size()), "an image is read exactly when it is complete");
    if (!ok) break;
    unsigned w = num[k * 8] % 13, h = num[k * 8 + 1] % 13;
    vp_assert(img.width() == w && img.height() == h, "the dimensions are read back");
    for (unsigned i = 0; i < w * h; ++i) vp_assert((unsigned char)img.data()[i] == px[(k * 144 + i) % 600], "the pixels are read back");
    vp_assert((long)in.tellg() == ends[k], "the stream is left right after the image");
  }
}
