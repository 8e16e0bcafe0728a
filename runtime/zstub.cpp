// Stand-in for libzstd and liblz4 behind their public API: a lossless framed codec (64-byte blocks, raw or run-length).
// What is assumed of the real libraries: decompress(compress(x)) == x, arbitrary input/output chunking is allowed, damaged
// frames are reported as errors or decode to other bytes, no progress with a full output is an error after 16 tries.
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <lz4frame.h>
#include <zstd.h>
#include "../harness/vs.h"
namespace {
constexpr size_t kHdr = 8, kBlk = 64;
constexpr uint32_t kZ = 0xFD2FB528u, kL = 0x184D2204u, kUnknown = 0xFFFFFFFFu;
constexpr size_t kErrMax = (size_t)-120;
enum { E_MAGIC = 10, E_CORRUPT = 20, E_DST = 70, E_SRC = 72, E_PROGRESS = 80, E_PARAM = 40 };
size_t err(int e) { return (size_t)-e; }
void put32(uint8_t* p, uint32_t v) { p[0] = (uint8_t)v; p[1] = (uint8_t)(v >> 8); p[2] = (uint8_t)(v >> 16); p[3] = (uint8_t)(v >> 24); }
uint32_t get32(const uint8_t* p) { return (uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
// one block: [type][len][payload]; type 0 raw, 1 run, 2 end
size_t emitBlock(uint8_t* d, const uint8_t* s, size_t n) {
  unsigned diff = 0; for (size_t i = 1; i < n; ++i) diff |= (unsigned)(s[i] ^ s[0]);
  if (n > 1 && diff == 0) { d[0] = 1; d[1] = (uint8_t)n; d[2] = s[0]; return 3; }
  d[0] = 0; d[1] = (uint8_t)n; memcpy(d + 2, s, n); return 2 + n;
}
size_t bound(size_t n) { return kHdr + n + 2 * (n / kBlk + 2) + 2; }
size_t frame(uint32_t magic, uint8_t* d, const uint8_t* s, size_t n) {
  put32(d, magic); put32(d + 4, (uint32_t)n); size_t o = kHdr;
  for (size_t i = 0; i < n; i += kBlk) o += emitBlock(d + o, s + i, n - i < kBlk ? n - i : kBlk);
  d[o++] = 2; d[o++] = 0;
  return o;
}
struct Dec {
  uint32_t magic; uint8_t hdr[kHdr]; size_t have; int state; // 0 header, 1 block header, 2 raw, 3 run value, 4 run output, 5 done
  uint32_t content; uint64_t produced; size_t left; uint8_t value; int stuck;
  void reset() { have = 0; state = 0; produced = 0; left = 0; stuck = 0; content = 0; }
  // returns 0 at the end of a frame, a size hint, or an error
  size_t run(const uint8_t* in, size_t inN, size_t& inPos, uint8_t* out, size_t outN, size_t& outPos) {
    size_t i0 = inPos, o0 = outPos;
    if (state == 5) { if (inPos >= inN) return 0; reset(); }
    for (;;) {
      if (state == 0) {
        while (have < kHdr && inPos < inN) hdr[have++] = in[inPos++];
        if (have < kHdr) break;
        if (get32(hdr) != magic) return err(E_MAGIC);
        content = get32(hdr + 4); have = 0; state = 1;
      } else if (state == 1) {
        while (have < 2 && inPos < inN) hdr[have++] = in[inPos++];
        if (have < 2) break;
        have = 0;
        if (hdr[0] == 2) { if (hdr[1] != 0 || (content != kUnknown && produced != content)) return err(E_CORRUPT); state = 5; return 0; }
        if (hdr[0] > 2 || hdr[1] == 0 || hdr[1] > kBlk) return err(E_CORRUPT);
        left = (size_t)vs_concretize(hdr[1]); state = hdr[0] == 0 ? 2 : 3;
        if (content != kUnknown && produced + left > content) return err(E_CORRUPT);
      } else if (state == 2) {
        size_t n = inN - inPos < left ? inN - inPos : left; if (outN - outPos < n) n = outN - outPos;
        if (n) { memcpy(out + outPos, in + inPos, n); inPos += n; outPos += n; produced += n; left -= n; }
        if (left) break;
        state = 1;
      } else if (state == 3) { if (inPos >= inN) break; value = in[inPos++]; state = 4; }
      else { size_t n = outN - outPos < left ? outN - outPos : left; if (n) { memset(out + outPos, value, n); outPos += n; produced += n; left -= n; } if (left) break; state = 1; }
    }
    if (inPos == i0 && outPos == o0) { if (++stuck >= 16) return err(outPos >= outN ? E_PROGRESS : E_PROGRESS + 2); } else stuck = 0;
    switch (state) { case 0: return kHdr - have; case 1: return 2 - have; case 2: return left + 2; case 3: return 3; default: return 2; }
  }
};
}
struct ZSTD_CCtx_s { uint64_t pledged, consumed; bool started, ended; uint8_t pend[kBlk * 2]; size_t pendN, pendPos; };
struct ZSTD_DCtx_s { Dec d; };
struct LZ4F_dctx_s { Dec d; };
extern "C" {
unsigned ZSTD_isError(size_t c) { return c > kErrMax; }
const char* ZSTD_getErrorName(size_t) { return "codec error"; }
size_t ZSTD_compressBound(size_t n) { return bound(n); }
ZSTD_CCtx* ZSTD_createCCtx(void) { auto* c = new ZSTD_CCtx_s(); memset(c, 0, sizeof *c); c->pledged = ~0ull; return c; }
size_t ZSTD_freeCCtx(ZSTD_CCtx* c) { delete c; return 0; }
size_t ZSTD_CCtx_reset(ZSTD_CCtx* c, ZSTD_ResetDirective) { memset(c, 0, sizeof *c); c->pledged = ~0ull; return 0; }
size_t ZSTD_CCtx_setParameter(ZSTD_CCtx* c, ZSTD_cParameter, int) { return c->started ? err(E_PARAM) : 0; }
size_t ZSTD_CCtx_setPledgedSrcSize(ZSTD_CCtx* c, unsigned long long n) { if (c->started) return err(E_PARAM); c->pledged = n; return 0; }
size_t ZSTD_compress2(ZSTD_CCtx* c, void* d, size_t cap, const void* s, size_t n) {
  if (cap < bound(n)) return err(E_DST);
  if (c->pledged != ~0ull && c->pledged != n) return err(E_SRC);
  memset(c, 0, sizeof *c); c->pledged = ~0ull;
  return frame(kZ, (uint8_t*)d, (const uint8_t*)s, n);
}
size_t ZSTD_CStreamOutSize(void) { return 100; }
size_t ZSTD_compressStream2(ZSTD_CCtx* c, ZSTD_outBuffer* o, ZSTD_inBuffer* in, ZSTD_EndDirective e) {
  uint8_t* dst = (uint8_t*)o->dst;
  if (!c->started) { c->started = true; put32(c->pend, kZ); put32(c->pend + 4, c->pledged == ~0ull ? kUnknown : (uint32_t)c->pledged); c->pendN = kHdr; c->pendPos = 0; c->consumed = 0; }
  for (;;) {
    size_t n = c->pendN - c->pendPos; if (n > o->size - o->pos) n = o->size - o->pos;
    if (n) { memcpy(dst + o->pos, c->pend + c->pendPos, n); c->pendPos += n; o->pos += n; }
    if (c->pendPos < c->pendN) return c->pendN - c->pendPos;
    if (in->pos < in->size) {
      size_t k = in->size - in->pos < kBlk ? in->size - in->pos : kBlk;
      if (c->pledged != ~0ull && c->consumed + k > c->pledged) return err(E_SRC);
      c->pendN = emitBlock(c->pend, (const uint8_t*)in->src + in->pos, k); c->pendPos = 0; in->pos += k; c->consumed += k;
      continue;
    }
    if (e != ZSTD_e_end) return 0;
    if (!c->ended) { if (c->pledged != ~0ull && c->consumed != c->pledged) return err(E_SRC); c->ended = true; c->pend[0] = 2; c->pend[1] = 0; c->pendN = 2; c->pendPos = 0; continue; }
    memset(c, 0, sizeof *c); c->pledged = ~0ull;
    return 0;
  }
}
ZSTD_DStream* ZSTD_createDStream(void) { auto* z = new ZSTD_DCtx_s(); z->d.magic = kZ; z->d.reset(); return z; }
size_t ZSTD_freeDStream(ZSTD_DStream* z) { delete z; return 0; }
size_t ZSTD_initDStream(ZSTD_DStream* z) { z->d.reset(); return 5; }
size_t ZSTD_decompressStream(ZSTD_DStream* z, ZSTD_outBuffer* o, ZSTD_inBuffer* in) {
  if (in->pos > in->size) return err(E_SRC);
  if (o->pos > o->size) return err(E_DST);
  return z->d.run((const uint8_t*)in->src, in->size, in->pos, (uint8_t*)o->dst, o->size, o->pos);
}
unsigned long long ZSTD_getFrameContentSize(const void* s, size_t n) {
  if (n < kHdr || get32((const uint8_t*)s) != kZ) return ZSTD_CONTENTSIZE_ERROR;
  uint32_t v = get32((const uint8_t*)s + 4);
  return v == kUnknown ? ZSTD_CONTENTSIZE_UNKNOWN : v;
}
unsigned LZ4F_isError(LZ4F_errorCode_t c) { return c > kErrMax; }
const char* LZ4F_getErrorName(LZ4F_errorCode_t) { return "codec error"; }
size_t LZ4F_compressFrameBound(size_t n, const LZ4F_preferences_t*) { return bound(n); }
size_t LZ4F_compressFrame(void* d, size_t cap, const void* s, size_t n, const LZ4F_preferences_t*) { if (cap < bound(n)) return err(E_DST); return frame(kL, (uint8_t*)d, (const uint8_t*)s, n); }
LZ4F_errorCode_t LZ4F_createDecompressionContext(LZ4F_dctx** c, unsigned) { *c = new LZ4F_dctx_s(); (*c)->d.magic = kL; (*c)->d.reset(); return 0; }
LZ4F_errorCode_t LZ4F_freeDecompressionContext(LZ4F_dctx* c) { delete c; return 0; }
void LZ4F_resetDecompressionContext(LZ4F_dctx* c) { c->d.reset(); }
size_t LZ4F_decompress(LZ4F_dctx* c, void* d, size_t* dn, const void* s, size_t* sn, const LZ4F_decompressOptions_t*) {
  size_t ip = 0, op = 0; size_t r = c->d.run((const uint8_t*)s, *sn, ip, (uint8_t*)d, *dn, op);
  *dn = op; *sn = ip;
  return r;
}
}
