// C21: pixel conversions.
#include "vsvrs.h"
#include <vrs/utils/PixelConversions.h>
#include <vrs/utils/PixelFrame.h>
#include <vrs/utils/converters/Grey10PackedConverters.h>
#include <vrs/utils/converters/Raw10ToGrey10Converter.h>
using namespace vrs;
using namespace vrs::utils;
namespace px = vrs::utils::pixel_conversions;
namespace vrs::utils { // codecs and Ocean are not part of this
bool PixelFrame::normalizeToPixelFormatWithOcean(PixelFrame&, PixelFormat, const NormalizeOptions&) const { return false; }
bool PixelFrame::readPngFrame(RecordReader*, uint32_t) { return false; }
bool PixelFrame::readPngFrame(const std::vector<uint8_t>&, bool) { return false; }
bool PixelFrame::readJpegFrame(RecordReader*, uint32_t) { return false; }
bool PixelFrame::readJpegFrame(const std::vector<uint8_t>&, bool) { return false; }
bool PixelFrame::readJxlFrame(RecordReader*, uint32_t) { return false; }
bool PixelFrame::readJxlFrame(const std::vector<uint8_t>&, bool) { return false; }
}
namespace {
// Lines of bytes at a chosen alignment, in a buffer of exactly their size: reading past it is caught.
struct Lines {
  char* mem; uint8_t* p; size_t size, stride;
  Lines(size_t line, size_t height, size_t pad, size_t offset) : size(line * height + pad * (height - 1)), stride(line + pad) { mem = (char*)malloc(offset + size); p = (uint8_t*)mem + offset; for (size_t k = 0; k < size; ++k) p[k] = 0xa5; }
  ~Lines() { free(mem); }
  Lines& any() { for (size_t k = 0; k < size; ++k) p[k] = vs_u8("px"); return *this; }
  void restUntouched(size_t line) { bool ok = true; for (size_t k = 0; k < size; ++k) if (k % stride >= line) ok &= p[k] == 0xa5; vs_assert(ok, "what is between the lines is left alone"); }
};
enum class Src { RGBA, BGR, GREY, GREY16, YUY2, RAW10, PACKED };
unsigned raw10(const uint8_t* l, unsigned x, bool full) { const uint8_t* g = l + x / 4 * 5; unsigned v = g[x % 4]; return full ? v << 2 | ((g[4] >> (2 * (x % 4))) & 3) : v; }
unsigned packed10(const uint8_t* l, unsigned x) { unsigned bit = 10 * x, v = 0; for (unsigned k = 0; k < 3; ++k) if (bit / 8 + k <= (bit + 9) / 8) v |= (unsigned)l[bit / 8 + k] << (8 * k); return (v >> (bit % 8)) & 1023; }
unsigned at16(const uint8_t* l, unsigned x) { return l[2 * x] | (unsigned)l[2 * x + 1] << 8; }
int clip(int v) { return v < 0 ? 0 : v > 255 ? 255 : v; }
unsigned yuy2(const uint8_t* l, unsigned x, unsigned ch) { const uint8_t* m = l + x / 2 * 4; int c = m[x % 2 ? 2 : 0] - 16, d = m[1] - 128, e = m[3] - 128; return ch == 0 ? clip((298 * c + 409 * e + 128) >> 8) : ch == 1 ? clip((298 * c - 100 * d - 208 * e + 128) >> 8) : clip((298 * c + 516 * d + 128) >> 8); }
struct Dim { unsigned w, h, so, po, pad, dpad; };
Dim dim(unsigned maxW, unsigned step = 1) {
  Dim d; d.w = (1 + (unsigned)vs_choose((int)(maxW / step), "width")) * step; d.h = 2;
  d.so = (unsigned)vs_choose(TIER(4, 8), "source offset"); if (TIER(1, 0)) d.so = d.so == 3 ? 4 : d.so;
  d.po = vs_choose(2, "destination offset") ? 4 : 0; d.pad = (unsigned)vs_choose(2, "padding"); d.pad *= 3; d.dpad = d.pad ? 8 : 0; return d;
}
}
VS_ENTRY(h_px_rgba) {
  Dim d = dim(TIER(19, 26)); Lines s(d.w * 4, d.h, d.pad, d.so * 2), o(d.w * 3, d.h, d.dpad, d.po); s.any();
  px::convertRgbaToRgb(s.p, s.stride, o.p, o.stride, d.w, d.h); bool ok = true;
  for (unsigned y = 0; y < d.h; ++y) for (unsigned x = 0; x < d.w; ++x) for (unsigned c = 0; c < 3; ++c) ok &= o.p[y * o.stride + 3 * x + c] == s.p[y * s.stride + 4 * x + c];
  vs_assert(ok, "RGBA keeps its colors"); o.restUntouched(d.w * 3); vs_reach("rgba");
}
VS_ENTRY(h_px_bgr) {
  Dim d = dim(TIER(27, 34)); Lines s(d.w * 3, 1, 0, d.so * 2), o(d.w * 3, 1, 0, d.po); s.any();
  px::convertBgr8ToRgb8(s.p, o.p, d.w); bool ok = true;
  for (unsigned x = 0; x < d.w; ++x) for (unsigned c = 0; c < 3; ++c) ok &= o.p[3 * x + c] == s.p[3 * x + 2 - c];
  vs_assert(ok, "BGR becomes RGB"); vs_reach("bgr");
}
VS_ENTRY(h_px_raw8) {
  Dim d = dim(TIER(19, 34)); unsigned line = (d.w + 3) / 4 * 5; Lines s(line, d.h, d.pad, d.so), o(d.w, d.h, d.dpad, d.po); s.any();
  px::convertRaw10ToGrey8(s.p, s.stride, o.p, o.stride, d.w, d.h); bool ok = true;
  for (unsigned y = 0; y < d.h; ++y) for (unsigned x = 0; x < d.w; ++x) ok &= o.p[y * o.stride + x] == raw10(s.p + y * s.stride, x, false);
  vs_assert(ok, "RAW10 keeps its upper 8 bits"); o.restUntouched(d.w); vs_reach("raw8");
}
VS_ENTRY(h_px_raw16) {
  Dim d = dim(TIER(20, 36), 4); unsigned line = d.w / 4 * 5; Lines s(line, d.h, d.pad, d.so), o(d.w * 2, d.h, 0, d.po); s.any();
  vs_assert(convertRaw10ToGrey10(o.p, s.p, d.w, d.h, s.stride), "RAW10 is converted"); bool ok = true;
  for (unsigned y = 0; y < d.h; ++y) for (unsigned x = 0; x < d.w; ++x) ok &= at16(o.p + y * o.stride, x) == raw10(s.p + y * s.stride, x, true);
  vs_assert(ok, "RAW10 keeps its 10 bits"); vs_reach("raw16");
}
VS_ENTRY(h_px_grey) {
  Dim d = dim(TIER(10, 14)); Lines s(d.w, d.h, d.pad, d.so), o(d.w * 3, d.h, d.dpad, d.po); s.any();
  px::convertGreyToRgb8(s.p, s.stride, o.p, o.stride, d.w, d.h); bool ok = true;
  for (unsigned y = 0; y < d.h; ++y) for (unsigned x = 0; x < d.w; ++x) for (unsigned c = 0; c < 3; ++c) ok &= o.p[y * o.stride + 3 * x + c] == s.p[y * s.stride + x];
  vs_assert(ok, "grey becomes that grey"); o.restUntouched(d.w * 3); vs_reach("grey");
}
VS_ENTRY(h_px_yuy2) {
  Dim d = dim(TIER(4, 6), 2); Lines s(d.w * 2, d.h, d.pad, d.so), o(d.w * 3, d.h, d.dpad, d.po); s.any();
  px::convertYuy2ToRgb8(s.p, s.stride, o.p, o.stride, d.w, d.h); bool ok = true;
  for (unsigned y = 0; y < d.h; ++y) for (unsigned x = 0; x < d.w; ++x) for (unsigned c = 0; c < 3; ++c) ok &= o.p[y * o.stride + 3 * x + c] == yuy2(s.p + y * s.stride, x, c);
  vs_assert(ok, "YUY2 becomes its colors"); o.restUntouched(d.w * 3); vs_reach("yuy2");
}
// 10 bits per pixel, packed: unpacked to 16 or 8 bits, and packed again.
VS_ENTRY(h_px_packed) {
  Dim d = dim(TIER(9, 14)); unsigned line = (d.w + 3) / 4 * 5; Lines s(line, d.h, d.pad, d.so), o(d.w * 2, d.h, d.dpad, d.po), e(d.w, d.h, d.dpad, d.po); s.any();
  // lines are required to be complete, the last one included
  Lines full(s.stride, d.h, 0, d.so); memcpy(full.p, s.p, s.size); Lines of(o.stride, d.h, 0, d.po), ef(e.stride, d.h, 0, d.po);
  vs_assert(convertGrey10PackedToGrey16(of.p, of.size, of.stride, full.p, full.size, d.w, d.h, full.stride), "packed pixels are converted to 16 bits");
  vs_assert(convertGrey10PackedToGrey8(ef.p, ef.size, ef.stride, full.p, full.size, d.w, d.h, full.stride), "packed pixels are converted to 8 bits"); bool ok = true, ok8 = true;
  for (unsigned y = 0; y < d.h; ++y) for (unsigned x = 0; x < d.w; ++x) { unsigned v = packed10(full.p + y * full.stride, x); ok &= at16(of.p + y * of.stride, x) == v << 6; ok8 &= ef.p[y * ef.stride + x] == v >> 2; }
  vs_assert(ok, "packed pixels become 16 bits"); vs_assert(ok8, "packed pixels become 8 bits"); vs_reach("packed");
}
VS_ENTRY(h_px_pack) {
  Dim d = dim(TIER(9, 14)); unsigned line = (d.w + 3) / 4 * 5; Lines s(d.w * 2 + d.pad, d.h, 0, 0), o(line + d.dpad, d.h, 0, d.po); s.any();
  vs_assert(convertGrey10ToGrey10Packed(o.p, o.size, o.stride, s.p, s.size, d.w, d.h, s.stride), "pixels are packed"); bool ok = true;
  for (unsigned y = 0; y < d.h; ++y) for (unsigned x = 0; x < d.w; ++x) ok &= packed10(o.p + y * o.stride, x) == (at16(s.p + y * s.stride, x) & 1023);
  vs_assert(ok, "packed pixels are the pixels"); vs_reach("pack");
}
// Whole frames, with or without bytes between the lines.
VS_ENTRY(h_px_frame) {
  static const PixelFormat fs[] = {PixelFormat::BGR8, PixelFormat::RGB_IR_RAW_4X4, PixelFormat::YUY2, PixelFormat::GREY10, PixelFormat::GREY12, PixelFormat::GREY16, PixelFormat::RGB10, PixelFormat::RGB12, PixelFormat::BAYER8_RGGB, PixelFormat::BAYER8_BGGR, PixelFormat::BAYER8_GBRG,
    PixelFormat::BAYER10_GBRG, PixelFormat::RAW10, PixelFormat::RAW10_BAYER_RGGB, PixelFormat::RAW10_BAYER_BGGR, PixelFormat::GREY10PACKED, PixelFormat::YUV_I420_SPLIT, PixelFormat::YUV_420_NV12, PixelFormat::YUV_420_NV21, PixelFormat::RGBA8};
  PixelFormat f = fs[vs_choose(sizeof(fs) / sizeof(*fs), "format")]; bool raw = f == PixelFormat::RAW10 || f == PixelFormat::RAW10_BAYER_RGGB || f == PixelFormat::RAW10_BAYER_BGGR, packed = f == PixelFormat::GREY10PACKED;
  uint32_t w = raw ? 4 * (1 + vs_choose(3, "width")) : packed ? 4 + vs_choose(4, "width") : 2 * (1 + vs_choose(TIER(4, 6), "width")), h = 2; bool padded = vs_choose(2, "padding"), grey16 = vs_choose(2, "16 bits"), again = vs_choose(2, "reused");
  ImageContentBlockSpec tight(f, w, h); uint32_t stride = tight.getDefaultStride() + (padded ? 6 : 0);
  PixelFrame s(f, w, h, padded ? stride : 0); vs_assert(s.getStride() == stride, "lines are as far apart as asked");
  for (size_t k = 0; k < s.size(); ++k) s.wdata()[k] = vs_u8("px");
  std::vector<uint8_t> before = s.getBuffer();
  std::shared_ptr<PixelFrame> o; if (again) { o = std::make_shared<PixelFrame>(PixelFormat::RGB8, w, h); for (size_t k = 0; k < o->size(); ++k) o->wdata()[k] = 0x77; }
  bool rgb = f == PixelFormat::BGR8 || f == PixelFormat::RGB_IR_RAW_4X4 || f == PixelFormat::YUY2 || f == PixelFormat::RGB10 || f == PixelFormat::RGB12 || f == PixelFormat::RGBA8;
  bool done = f == PixelFormat::RGBA8 ? s.convertRgbaToRgb(o) : s.normalizeFrame(o, grey16);
  if (f == PixelFormat::GREY16 && grey16) { vs_assert(!done, "nothing to do"); vs_reach("none"); return; }
  vs_assert(done && o, "the frame is converted"); if (!o) return;
  bool helps = f == PixelFormat::GREY10 || f == PixelFormat::GREY12 || f == PixelFormat::BAYER10_GBRG || f == PixelFormat::RAW10 || packed, to16 = grey16 && (helps || (raw && o->getPixelFormat() == PixelFormat::GREY16));
  vs_assert(o->getPixelFormat() == (rgb ? PixelFormat::RGB8 : to16 ? PixelFormat::GREY16 : PixelFormat::GREY8), "the frame has the format expected");
  vs_assert(o->getWidth() == w && o->getHeight() == h, "the frame has the same size");
  uint32_t ch = rgb ? 3 : 1; if (o->size() < (size_t)h * w * ch * (to16 ? 2 : 1)) { vs_assert(false, "the frame is complete"); return; }
  bool ok = true;
  for (uint32_t y = 0; y < h; ++y) for (uint32_t x = 0; x < w; ++x) for (uint32_t c = 0; c < ch; ++c) {
    const uint8_t* l = s.rdata() + y * stride; unsigned v; uint32_t i = x * ch + c; const uint8_t* ol = o->rdata() + y * o->getStride();
    switch (f) {
      case PixelFormat::BGR8: v = l[3 * x + 2 - c]; break;
      case PixelFormat::RGBA8: v = l[4 * x + c]; break;
      case PixelFormat::YUY2: v = yuy2(l, x, c); break;
      case PixelFormat::GREY10: case PixelFormat::BAYER10_GBRG: v = to16 ? (at16(l, x) << 6) & 0xffff : (at16(l, x) >> 2) & 255; break;
      case PixelFormat::GREY12: v = to16 ? (at16(l, x) << 4) & 0xffff : (at16(l, x) >> 4) & 255; break;
      case PixelFormat::GREY16: v = at16(l, x) >> 8; break;
      case PixelFormat::RGB10: v = (at16(l, i) >> 2) & 255; break;
      case PixelFormat::RGB12: v = (at16(l, i) >> 4) & 255; break;
      case PixelFormat::GREY10PACKED: v = to16 ? packed10(l, x) << 6 : packed10(l, x) >> 2; break;
      default: v = raw ? (to16 ? raw10(l, x, true) << 6 : raw10(l, x, false)) : l[x];
    }
    ok &= (to16 ? at16(ol, i) : ol[i]) == v;
  }
  vs_assert(ok, "each pixel of the frame is converted, and in its place"); vs_assert(s.getBuffer() == before, "the frame converted is left alone");
  vs_reach(rgb ? "rgb" : to16 ? "16 bits" : "8 bits");
}
// In place
VS_ENTRY(h_px_inplace) {
  uint32_t w = 1 + vs_choose(TIER(19, 26), "width"), h = 2, pad = vs_choose(2, "padding") * 12; PixelFrame s(PixelFormat::RGBA8, w, h, pad ? w * 4 + pad : 0); uint32_t stride = s.getStride();
  for (size_t k = 0; k < s.size(); ++k) s.wdata()[k] = vs_u8("px");
  std::vector<uint8_t> was = s.getBuffer(); vs_assert(s.inplaceRgbaToRgb(), "converted in place");
  vs_assert(s.getPixelFormat() == PixelFormat::RGB8 && s.getWidth() == w && s.getHeight() == h && s.size() == w * h * 3, "RGB in place"); bool ok = true;
  for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x) for (unsigned c = 0; c < 3; ++c) ok &= s.rdata()[y * s.getStride() + 3 * x + c] == was[y * stride + 4 * x + c];
  vs_assert(ok, "RGBA keeps its colors in place"); vs_reach("inplace");
}
// Depth, shown over a given range.
VS_ENTRY(h_px_depth) {
  static const float lo[] = {0, 1, -2.5f}, hi[] = {1, 3, 100};
  int r = (int)vs_choose(3, "range"); uint32_t w = 1 + vs_choose(3, "width"), h = 2, pad = vs_choose(2, "padding") * 8;
  PixelFrame s(PixelFormat::DEPTH32F, w, h, pad ? w * 4 + pad : 0); for (size_t k = 0; k < s.size(); ++k) s.wdata()[k] = 0x41;
  float v = 0; vs_sym(&v, 4, "depth"); uint32_t x = vs_choose(w, "x"), y = vs_choose(h, "y"); memcpy(s.wdata() + y * s.getStride() + x * 4, &v, 4);
  std::shared_ptr<PixelFrame> o; vs_assert(s.normalizeFrame(o, false, NormalizeOptions(ImageSemantic::Depth, lo[r], hi[r])), "depth is converted"); if (!o) return;
  vs_assert(o->getPixelFormat() == PixelFormat::GREY8 && o->getWidth() == w && o->getHeight() == h, "depth becomes grey");
  uint8_t p = o->rdata()[y * o->getStride() + x];
  if (v != v) { vs_assert(p == 0, "no depth is black"); vs_reach("nan"); }
  else if (v <= lo[r]) { vs_assert(p == 0, "near is black"); vs_reach("near"); }
  else if (v >= hi[r]) { vs_assert(p == 255, "far is white"); vs_reach("far"); }
  else vs_reach("between");
  int want = 12.078431f >= hi[r] ? 255 : (int)((12.078431f - lo[r]) * (255 / (hi[r] - lo[r])));
  for (uint32_t b = 0; b < h; ++b) for (uint32_t a = 0; a < w; ++a) if (a != x || b != y) { int d = o->rdata()[b * o->getStride() + a] - want; vs_assert(d >= -1 && d <= 1, "every other pixel is that pixel"); }
}
