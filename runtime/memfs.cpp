#include "memfs.h"
#include <aio.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <thread>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include "../harness/vs.h"
namespace {
constexpr int kMaxFiles = 24, kMaxName = 128, kMaxHandles = 48;
struct File { char name[kMaxName]; uint8_t* data; size_t size, cap; bool used, dir; char link[kMaxName]; };
struct Handle { int file; int64_t pos; bool used, read, write, append, eof, err, pendingLoss, direct; };
File files[kMaxFiles];
File snap[kMaxFiles];
Handle handles[kMaxHandles];
bool haveSnap;
unsigned faultMask, faultOp, faultCount; size_t faultPartial; bool faultArmed, faultPersistent, faultDeferred; int fired;
unsigned crashOp, mutations; size_t crashPartial; bool crashArmed;
uint64_t capacity = ~0ull; int maxOpen = kMaxHandles;

int findFile(const char* n) { for (int i = 0; i < kMaxFiles; ++i) if (files[i].used && strcmp(files[i].name, n) == 0) return i; return -1; }
int newFile(const char* n) {
  if (strlen(n) >= kMaxName) return -1;
  for (int i = 0; i < kMaxFiles; ++i) {
    bool busy = files[i].used;
    for (auto& h : handles) if (h.used && h.file == i) busy = true;
    if (!busy) { if (files[i].data) free(files[i].data); memset(&files[i], 0, sizeof(File)); strcpy(files[i].name, n); files[i].used = true; return i; }
  }
  vs_fail("harness: too many files");
}
void grow(File& f, size_t n) {
  if (n <= f.cap) return;
  size_t c = f.cap ? f.cap : 64; while (c < n) c *= 2;
  uint8_t* d = (uint8_t*)malloc(c); if (f.size) memcpy(d, f.data, f.size);
  if (f.data) free(f.data);
  f.data = d; f.cap = c;
}
void takeSnapshot() {
  haveSnap = true; crashArmed = false;
  for (int i = 0; i < kMaxFiles; ++i) { snap[i] = files[i]; snap[i].data = nullptr; if (files[i].used && files[i].size) { snap[i].data = (uint8_t*)malloc(files[i].size); memcpy(snap[i].data, files[i].data, files[i].size); } snap[i].cap = files[i].size; }
}
// counts a mutation; true if the crash point is here
bool mutation() { return mutations++ == crashOp && crashArmed; }
bool faultHere(unsigned kind) {
  if (!faultArmed || !(faultMask & kind)) return false;
  unsigned k = faultCount++;
  if (k == faultOp || (faultPersistent && k > faultOp)) { ++fired; return true; }
  return false;
}
Handle* H(FILE* f) {
  Handle* h = (Handle*)f;
  bool ok = false; for (auto& x : handles) if (h == &x && x.used) ok = true;
  if (!ok) vs_fail("file operation on a closed or invalid FILE");
  return h;
}
// writes at an offset; returns bytes landed
size_t put(File& f, uint64_t pos, const void* p, size_t n) {
  if (n == 0) return 0;
  if (pos + n > capacity || pos + n > (1u << 24)) { if (pos >= capacity) return 0; if (capacity - pos < n) n = (size_t)vs_concretize(capacity - pos); }
  grow(f, pos + n);
  if (pos > f.size) memset(f.data + f.size, 0, pos - f.size);
  memcpy(f.data + pos, p, n);
  if (pos + n > f.size) f.size = pos + n;
  return n;
}
}
extern "C" {
void vsfs_create(const char* path, const void* data, size_t size) {
  int i = findFile(path); if (i < 0) i = newFile(path);
  files[i].size = 0; grow(files[i], size); if (size) memcpy(files[i].data, data, size); files[i].size = size;
}
int vsfs_exists(const char* path) { return findFile(path) >= 0; }
int64_t vsfs_size(const char* path) { int i = findFile(path); return i < 0 ? -1 : (int64_t)files[i].size; }
uint8_t* vsfs_data(const char* path) { int i = findFile(path); return i < 0 ? nullptr : files[i].data; }
void vsfs_mkdir(const char* path) { int i = findFile(path); if (i < 0) i = newFile(path); files[i].dir = true; }
int vsfs_isdir(const char* path) { int i = findFile(path); return i >= 0 && files[i].dir; }
void vsfs_symlink(const char* path, const char* target) { int i = newFile(path); strcpy(files[i].link, target); }
const char* vsfs_link(const char* path) { int i = findFile(path); return i >= 0 && files[i].link[0] ? files[i].link : nullptr; }
const char* vsfs_name(int i) { return i < kMaxFiles ? (files[i].used ? files[i].name : "") : nullptr; }
void vsfs_truncate(const char* path, size_t size) { int i = findFile(path); if (i >= 0 && size < files[i].size) files[i].size = (size_t)vs_concretize(size); }
void vsfs_arm_fault(unsigned mask, unsigned op, size_t partial, int persistent, int deferred) { faultArmed = true; faultMask = mask; faultOp = op; faultPartial = partial; faultPersistent = persistent; faultDeferred = deferred; faultCount = 0; fired = 0; }
void vsfs_disarm_fault() { faultArmed = false; }
int vsfs_fault_fired() { return fired; }
unsigned vsfs_fault_ops() { return faultCount; }
void vsfs_arm_crash(unsigned op, size_t partial) { crashArmed = true; crashOp = op; crashPartial = partial; mutations = 0; }
int vsfs_crashed() { return haveSnap; }
unsigned vsfs_mutations() { return mutations; }
void vsfs_restore_crash() {
  if (!haveSnap) vs_fail("harness: no crash snapshot");
  for (auto& h : handles) h.used = false;
  for (int i = 0; i < kMaxFiles; ++i) { if (files[i].data) free(files[i].data); files[i] = snap[i]; snap[i].data = nullptr; }
  haveSnap = false; faultArmed = false;
}
void vsfs_set_capacity(uint64_t b) { capacity = b; }
int vsfs_open_handles() { int n = 0; for (auto& h : handles) n += h.used; return n; }
int vsfs_max_open(int n) { int o = maxOpen; maxOpen = n; return o; }

FILE* __wrap_fopen(const char* path, const char* mode) {
  bool r = mode[0] == 'r', w = mode[0] == 'w', a = mode[0] == 'a', plus = strchr(mode, '+') != nullptr, excl = strchr(mode, 'x') != nullptr;
  if (faultHere(VF_OPEN)) { errno = EACCES; return nullptr; }
  if (vsfs_open_handles() >= maxOpen) { errno = EMFILE; return nullptr; }
  int i = findFile(path);
  for (int hop = 0; hop < 4 && i >= 0 && files[i].link[0]; ++hop) i = findFile(files[i].link);
  if (i >= 0 && files[i].dir) { errno = EISDIR; return nullptr; }
  if (r && i < 0) { errno = ENOENT; return nullptr; }
  if (w && excl && i >= 0) { errno = EEXIST; return nullptr; }
  if (path[0] == 0) { errno = ENOENT; return nullptr; }
  if (w || a) {
    if (i < 0 || (w && files[i].size)) { if (mutation()) takeSnapshot(); }
    if (i < 0) i = newFile(path); else if (w) files[i].size = 0;
  }
  for (auto& h : handles) if (!h.used) { h = Handle{i, 0, true, r || plus, w || a || (r && plus), a, false, false, false}; return (FILE*)&h; }
  vs_fail("harness: too many handles");
}
FILE* __wrap_fopen64(const char* path, const char* mode) { return __wrap_fopen(path, mode); }
int __wrap_fclose(FILE* f) {
  Handle* h = H(f); h->used = false;
  if (h->pendingLoss || faultHere(VF_CLOSE)) { errno = EIO; return EOF; }
  return 0;
}
size_t __wrap_fread(void* buf, size_t es, size_t ec, FILE* f) {
  Handle* h = H(f);
  if (!h->read) { h->err = true; errno = EBADF; return 0; }
  size_t want = es * ec;
  if (want == 0) return 0;
  bool fault = faultHere(VF_READ);
  File& fl = files[h->file];
  if ((uint64_t)h->pos >= fl.size) { if (fault) { h->err = true; errno = EIO; } else h->eof = true; return 0; }
  size_t pos = (size_t)vs_concretize((uint64_t)h->pos);
  size_t n = fl.size - pos; bool shortRead = want > n; if (!shortRead) n = (size_t)vs_concretize(want);
  if (fault) { if (n > faultPartial) n = (size_t)vs_concretize(faultPartial); memcpy(buf, fl.data + pos, n); h->pos = (int64_t)(pos + n); h->err = true; errno = EIO; return n / es; }
  memcpy(buf, fl.data + pos, n);
  h->pos = (int64_t)(pos + n);
  if (shortRead) h->eof = true;
  return es == 1 ? n : n / es;
}
size_t __wrap_fwrite(const void* buf, size_t es, size_t ec, FILE* f) {
  Handle* h = H(f);
  if (!h->write) { h->err = true; errno = EBADF; return 0; }
  size_t n = (size_t)vs_concretize(es * ec);
  if (n == 0) return 0;
  File& fl = files[h->file];
  size_t pos = (size_t)vs_concretize(h->append ? (uint64_t)fl.size : (uint64_t)h->pos);
  if (mutation()) { // crash: only a prefix of this write is on disk
    size_t keepSize = fl.size; uint8_t* save = nullptr; size_t k;
    // overwriting bytes of one disk sector is atomic, anything else may be cut anywhere
    if (pos + n <= fl.size && pos / 512 == (pos + n - 1) / 512) k = crashPartial == 0 ? 0 : n;
    else k = crashPartial < n ? (size_t)vs_concretize(crashPartial) : n;
    if (keepSize) { save = (uint8_t*)malloc(keepSize); memcpy(save, fl.data, keepSize); }
    put(fl, pos, buf, k); takeSnapshot();
    if (keepSize) { memcpy(fl.data, save, keepSize); free(save); } fl.size = keepSize;
  }
  if (faultHere(VF_WRITE)) {
    size_t k = faultPartial < n ? (size_t)vs_concretize(faultPartial) : n;
    put(fl, pos, buf, k);
    if (faultDeferred) { h->pos = (int64_t)(pos + n); h->pendingLoss = true; return ec; } // still in the stdio buffer
    h->pos = (int64_t)(pos + k); h->err = true; errno = ENOSPC; return k / es;
  }
  size_t k = put(fl, pos, buf, n);
  h->pos = (int64_t)(pos + k);
  if (k < n) { h->err = true; errno = ENOSPC; return k / es; }
  return ec;
}
int __wrap_fflush(FILE* f) {
  Handle* h = H(f);
  if (h->pendingLoss) { h->pendingLoss = false; h->err = true; errno = EIO; return EOF; }
  if (faultHere(VF_FLUSH)) { h->err = true; errno = EIO; return EOF; }
  return 0;
}
int __wrap_fseeko(FILE* f, off_t off, int origin) {
  Handle* h = H(f);
  if (h->pendingLoss) { h->pendingLoss = false; h->err = true; errno = EIO; return -1; } // seeking flushes
  if (faultHere(VF_SEEK)) { errno = EIO; return -1; }
  int64_t base = origin == SEEK_SET ? 0 : origin == SEEK_CUR ? h->pos : (int64_t)files[h->file].size;
  int64_t np;
  if (__builtin_add_overflow(base, (int64_t)off, &np) || np < 0) { errno = EINVAL; return -1; }
  h->pos = np; h->eof = false;
  return 0;
}
int __wrap_fseek(FILE* f, long off, int origin) { return __wrap_fseeko(f, off, origin); }
int __wrap_fseeko64(FILE* f, off_t off, int origin) { return __wrap_fseeko(f, off, origin); }
off_t __wrap_ftello(FILE* f) { Handle* h = H(f); if (faultHere(VF_TELL)) { errno = EIO; return -1; } return h->pos; }
off_t __wrap_ftello64(FILE* f) { return __wrap_ftello(f); }
long __wrap_ftell(FILE* f) { return __wrap_ftello(f); }
void __wrap_rewind(FILE* f) { Handle* h = H(f); h->pos = 0; h->eof = h->err = false; }
int __wrap_feof(FILE* f) { return H(f)->eof; }
int __wrap_ferror(FILE* f) { return H(f)->err; }
void __wrap_clearerr(FILE* f) { H(f)->err = H(f)->eof = false; }
int __wrap_fileno(FILE* f) { return 100 + (int)(H(f) - handles); }
int __wrap_setvbuf(FILE* f, char*, int, size_t) { H(f); return 0; }
int __wrap_ftruncate(int fd, off_t size) {
  Handle* h = (fd >= 100 && fd < 100 + kMaxHandles) ? &handles[fd - 100] : nullptr;
  if (!h || !h->used) { errno = EBADF; return -1; }
  if (!h->write || size < 0) { errno = EINVAL; return -1; }
  if (faultHere(VF_TRUNC)) { errno = EIO; return -1; }
  if (mutation()) takeSnapshot();
  size_t n = (size_t)vs_concretize((uint64_t)size); File& fl = files[h->file];
  if (n > (1u << 24)) { errno = EFBIG; return -1; }
  if (n > fl.size) { grow(fl, n); memset(fl.data + fl.size, 0, n - fl.size); }
  fl.size = n;
  return 0;
}
int __wrap_ftruncate64(int fd, off_t size) { return __wrap_ftruncate(fd, size); }
int __wrap_remove(const char* path) {
  int i = findFile(path); if (i < 0) { errno = ENOENT; return -1; }
  if (faultHere(VF_REMOVE)) { errno = EACCES; return -1; }
  if (mutation()) takeSnapshot();
  files[i].used = false; files[i].name[0] = 0;
  return 0;
}
int __wrap_unlink(const char* path) { return __wrap_remove(path); }
int __wrap_rename(const char* a, const char* b) {
  int i = findFile(a); if (i < 0) { errno = ENOENT; return -1; }
  if (faultHere(VF_RENAME)) { errno = EACCES; return -1; }
  if (mutation()) takeSnapshot();
  int j = findFile(b); if (j == i) return 0;
  if (j >= 0) { files[j].used = false; files[j].name[0] = 0; }
  strcpy(files[i].name, b);
  return 0;
}
int __wrap_statvfs(const char*, struct statvfs* s) { memset(s, 0, sizeof *s); s->f_frsize = s->f_bsize = 4096; s->f_bavail = s->f_bfree = 1 << 20; return 0; }
int __wrap_statvfs64(const char* p, struct statvfs* s) { return __wrap_statvfs(p, s); }

// ---- descriptors
static Handle* FD(int fd) { Handle* h = (fd >= 100 && fd < 100 + kMaxHandles) ? &handles[fd - 100] : nullptr; if (!h || !h->used) { errno = EBADF; return nullptr; } return h; }
int __wrap_open(const char* path, int flags, ...) {
  int acc = flags & O_ACCMODE; bool r = acc != O_WRONLY, w = acc != O_RDONLY;
  if (faultHere(VF_OPEN)) { errno = EACCES; return -1; }
  if (vsfs_open_handles() >= maxOpen) { errno = EMFILE; return -1; }
  int i = findFile(path);
  if (i >= 0 && files[i].dir) { errno = EISDIR; return -1; }
  if (i < 0 && !(flags & O_CREAT)) { errno = ENOENT; return -1; }
  if (i < 0 || ((flags & O_TRUNC) && files[i].size)) { if (mutation()) takeSnapshot(); }
  if (i < 0) i = newFile(path); else if (flags & O_TRUNC) files[i].size = 0;
  for (auto& h : handles) if (!h.used) { h = Handle{i, 0, true, r, w, (flags & O_APPEND) != 0, false, false, false, (flags & O_DIRECT) != 0}; return 100 + (int)(&h - handles); }
  vs_fail("harness: too many handles");
}
int __wrap_open64(const char* path, int flags, ...) { return __wrap_open(path, flags); }
int __wrap_close(int fd) { Handle* h = FD(fd); if (!h) return -1; h->used = false; if (faultHere(VF_CLOSE)) { errno = EIO; return -1; } return 0; }
ssize_t __wrap_pread(int fd, void* buf, size_t n, off_t off) {
  Handle* h = FD(fd); if (!h) return -1;
  if (!h->read) { errno = EBADF; return -1; }
  if (faultHere(VF_READ)) { errno = EIO; return -1; }
  File& fl = files[h->file]; if (off < 0) { errno = EINVAL; return -1; }
  if ((uint64_t)off >= fl.size) return 0;
  size_t pos = (size_t)vs_concretize((uint64_t)off); size_t k = fl.size - pos; if (n < k) k = (size_t)vs_concretize(n);
  memcpy(buf, fl.data + pos, k); return (ssize_t)k;
}
ssize_t __wrap_pwrite(int fd, const void* buf, size_t n, off_t off) {
  Handle* h = FD(fd); if (!h) return -1;
  if (!h->write) { errno = EBADF; return -1; }
  if (off < 0) { errno = EINVAL; return -1; }
  if (h->direct && (off % 512 || n % 512 || (uintptr_t)buf % 512)) { errno = EINVAL; return -1; } // unbuffered writes must be aligned
  File& fl = files[h->file]; size_t pos = (size_t)vs_concretize(h->append ? (uint64_t)fl.size : (uint64_t)off); n = (size_t)vs_concretize(n);
  mutations++;
  if (faultHere(VF_WRITE)) { size_t k = faultPartial < n ? (size_t)vs_concretize(faultPartial) : n; put(fl, pos, buf, k); if (k == 0) { errno = ENOSPC; return -1; } return (ssize_t)k; }
  size_t k = put(fl, pos, buf, n);
  if (k == 0 && n) { errno = ENOSPC; return -1; }
  return (ssize_t)k;
}
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t o) { return __wrap_pread(fd, b, n, o); }
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off_t o) { return __wrap_pwrite(fd, b, n, o); }
off_t __wrap_lseek64(int fd, off_t off, int origin) {
  Handle* h = FD(fd); if (!h) return -1;
  if (faultHere(VF_SEEK)) { errno = EIO; return -1; }
  int64_t base = origin == SEEK_SET ? 0 : origin == SEEK_CUR ? h->pos : (int64_t)files[h->file].size, np;
  if (__builtin_add_overflow(base, (int64_t)off, &np) || np < 0) { errno = EINVAL; return -1; }
  h->pos = np; return np;
}
// asynchronous writes: a thread of its own performs the write and then notifies, at any later moment
static int aioSubmitFault; // the nth one from now is refused
void vsfs_aio_submit_fault(int on) { aioSubmitFault = on; }
int __wrap_aio_write(struct aiocb* cb) {
  if (aioSubmitFault && --aioSubmitFault == 0) { ++fired; errno = EAGAIN; return -1; }
  cb->__error_code = EINPROGRESS; cb->__return_value = -1;
  std::thread t([cb]() {
    ssize_t n = __wrap_pwrite(cb->aio_fildes, (const void*)cb->aio_buf, cb->aio_nbytes, cb->aio_offset);
    cb->__return_value = n; cb->__error_code = n < 0 ? ENOSPC : 0;
    cb->aio_sigevent.sigev_notify_function(cb->aio_sigevent.sigev_value);
  });
  t.detach();
  return 0;
}
int __wrap_aio_error(const struct aiocb* cb) { return cb->__error_code; }
ssize_t __wrap_aio_return(struct aiocb* cb) { return cb->__return_value; }
int __wrap_aio_write64(struct aiocb64* cb) { return __wrap_aio_write((struct aiocb*)cb); }
int __wrap_aio_error64(const struct aiocb64* cb) { return cb->__error_code; }
ssize_t __wrap_aio_return64(struct aiocb64* cb) { return cb->__return_value; }
}
