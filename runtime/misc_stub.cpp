// Stand-ins for parts outside the encoding: the xxhash library and system identification.
#include <cstdint>
#include <cstdlib>
#include <string>
struct XXH64_state_s_vs { uint64_t h; uint64_t n; };
extern "C" {
// a simple deterministic digest: assumed only to be a function of the bytes in order
void* XXH64_createState(void) { auto* s = (XXH64_state_s_vs*)malloc(sizeof(XXH64_state_s_vs)); s->h = 1469598103934665603ull; s->n = 0; return s; }
int XXH64_freeState(void* s) { free(s); return 0; }
int XXH64_reset(void* s, uint64_t) { auto* t = (XXH64_state_s_vs*)s; t->h = 1469598103934665603ull; t->n = 0; return 0; }
int XXH64_update(void* s, const void* p, size_t n) { auto* t = (XXH64_state_s_vs*)s; for (size_t i = 0; i < n; ++i) t->h = (t->h << 5) + (t->h >> 59) + ((const uint8_t*)p)[i]; t->n += n; return 0; }
uint64_t XXH64_digest(const void* s) { auto* t = (const XXH64_state_s_vs*)s; return t->h ^ (t->n << 48); }
}
namespace vrs { namespace os {
std::string getOsFingerPrint() { return "os"; }
std::string getUniqueSessionId() { static int n = 0; ++n; std::string s = "session-000"; s[9] = (char)('0' + n / 10 % 10); s[10] = (char)('0' + n % 10); return s; } // each one different
uint32_t getTerminalWidth(uint32_t d) { return d; }
} }
