// Operations on files split in chunks, plain or asynchronous.
#pragma once
#include "vsvrs.h"
#include <vrs/DiskFile.h>
using namespace vrs;
namespace {
FileSpec::Extras diskExtras; // options the files are opened with

struct Flat {
  vector<vector<uint8_t>> chunks; // symbolic bytes, concrete sizes
  int64_t total() const { size_t n = 0; for (auto& c : chunks) n += c.size(); return (int64_t)n; }
  uint8_t& at(int64_t i) { for (auto& c : chunks) { if (i < (int64_t)c.size()) return c[(size_t)i]; i -= (int64_t)c.size(); } vs_fail("harness: flat offset"); }
  void write(int64_t pos, const uint8_t* d, size_t n) { for (size_t i = 0; i < n; ++i) { while (pos + (int64_t)i >= total()) chunks.back().push_back(0); at(pos + (int64_t)i) = d[i]; } }
};
string path(size_t i) { return i == 0 ? "/f" : "/f_" + std::to_string(i); }
vector<string> paths(size_t n) { vector<string> p; for (size_t i = 0; i < n; ++i) p.push_back(path(i)); return p; }
void onDisk(Flat& f, const char* msg) {
  for (size_t c = 0; c < f.chunks.size(); ++c) {
    vs_assert(vsfs_size(path(c).c_str()) == (int64_t)f.chunks[c].size(), "the chunks have the sizes that were written");
    if (!f.chunks[c].empty()) sameBytes(vsfs_data(path(c).c_str()), f.chunks[c].data(), f.chunks[c].size(), msg);
  }
}
template <class F> void readBack(Flat& f, const char* msg) {
  F d; FileSpec s; s.fileHandlerName = d.getFileHandlerName(); s.extras = diskExtras; s.chunks = paths(f.chunks.size());
  vs_assert(d.openSpec(s) == 0, "the file opens");
  int64_t n = f.total(); vs_assert(d.getTotalSize() == n, "the size of a file is that of its chunks together");
  vector<uint8_t> b((size_t)n + 1);
  vs_assert(d.read(b.data(), (size_t)n) == 0, "the whole file can be read");
  for (int64_t i = 0; i < n; ++i) sameBytes(&b[(size_t)i], &f.at(i), 1, msg);
}
void chunksOnDisk(Flat& f, size_t n, size_t maxSize, bool maybeEmpty) {
  for (size_t c = 0; c < n; ++c) {
    size_t k = vs_choose(maxSize + (maybeEmpty ? 1 : 0), "chunk size") + (maybeEmpty ? 0 : 1);
    f.chunks.emplace_back(k); vs_sym_bytes(f.chunks[c].data(), k, "bytes");
    vsfs_create(path(c).c_str(), f.chunks[c].data(), k);
  }
}
template <class F> void readOps() {
  Flat f; chunksOnDisk(f, TIER(3, 4), 2, false);
  F d; FileSpec s; s.fileHandlerName = d.getFileHandlerName(); s.extras = diskExtras; s.chunks = paths(f.chunks.size());
  vs_assert(d.openSpec(s) == 0 && d.isOpened() && d.isReadOnly(), "the file opens");
  int64_t pos = 0, total = f.total();
  vs_assert(d.getTotalSize() == total, "the size of a file is that of its chunks together");
  for (int k = 0; k < TIER(3, 4); ++k) {
    int op = (int)vs_choose(3, "op");
    if (op == 2) {
      uint8_t b[16]; size_t n = vs_choose(TIER(5, 7), "length");
      int e = d.read(b, n);
      size_t can = pos + (int64_t)n <= total ? n : (size_t)(total - pos);
      vs_assert((e == 0) == (can == n), "reading succeeds exactly if the bytes are there");
      vs_assert(d.getLastRWSize() == can, "the number of bytes read is reported");
      for (size_t i = 0; i < can; ++i) sameBytes(&b[i], &f.at(pos + (int64_t)i), 1, "the bytes read are those at the position");
      pos += (int64_t)can;
      if (n != can) vs_reach("read past the end");
    } else {
      int64_t o = (int64_t)vs_u64("offset");
      int64_t to = o;
      if (op == 1) { vs_assume(o >= 0 && o < (1ll << 60)); to = pos + o; }
      int e = op == 1 ? d.skipForward(o) : d.setPos(o);
      vs_assert((e == 0) == (to >= 0 && to <= total), "a position in the file can be set, no other");
      if (e) { vs_reach("refused"); return; }
      pos = (int64_t)vs_concretize((uint64_t)to);
    }
    vs_assert(d.getPos() == pos, "the position is where the last operation left it");
    int64_t co = -1, cs = -1; vs_assert(d.getChunkRange(co, cs) == 0 && co <= pos && pos <= co + cs, "the current chunk holds the position");
    int64_t at = 0; bool edge = false; for (auto& c : f.chunks) { if (co == at && cs == (int64_t)c.size()) edge = true; at += (int64_t)c.size(); }
    vs_assert(edge && (pos < co + cs || pos == total), "the range of the current chunk is that of a chunk");
    if (d.isEof()) vs_assert(pos == total, "the end is reported only at the end");
  }
  vs_reach("moved about");
}
template <class F> void writeOps() {
  Flat f; F d;
  bool fresh = vs_bool("new file"); size_t n = TIER(3, 3);
  if (fresh) {
    vs_assert(d.create("/f", diskExtras) == 0 && !d.isReadOnly(), "the file is created");
    for (size_t c = 0; c < n; ++c) {
      if (c) vs_assert(d.addChunk() == 0, "a chunk is added");
      size_t k = 1 + vs_choose(2, "chunk size"); f.chunks.emplace_back(k); vs_sym_bytes(f.chunks[c].data(), k, "bytes");
      vs_assert(d.write(f.chunks[c].data(), k) == 0 && d.getLastRWSize() == k, "the bytes are written");
    }
  } else {
    chunksOnDisk(f, n, 2, false);
    FileSpec s; s.fileHandlerName = d.getFileHandlerName(); s.extras = diskExtras; s.chunks = paths(n);
    vs_assert(d.openSpec(s) == 0, "the file opens");
    uint8_t z = 0; vs_assert(d.write(&z, 1) != 0 && d.overwrite(&z, 1) != 0 && d.truncate() != 0, "a file open for reading cannot be changed");
    if (vs_bool("read first")) { uint8_t b[16]; vs_assert(d.setPos(1) == 0, "position"); d.read(b, vs_choose(3, "length") + 1); }
    vs_assert(d.reopenForUpdates() == 0 && !d.isReadOnly(), "a file is opened for changes");
  }
  for (int k = 0; k < TIER(2, 3); ++k) {
    int64_t o = (int64_t)vs_range(0, (uint64_t)f.total(), "offset");
    vs_assert(d.setPos(o) == 0 && d.getPos() == o, "a position in the file can be set");
    o = (int64_t)vs_concretize((uint64_t)o);
    if (vs_choose(2, "truncate")) {
      // the chunk holding the position is cut there
      int64_t at = o; size_t c = 0; while (c + 1 < f.chunks.size() && at >= (int64_t)f.chunks[c].size()) at -= (int64_t)f.chunks[c++].size();
      string p; size_t ci = 99; vs_assert(d.getCurrentChunk(p, ci) && p == path(ci), "the current chunk is known");
      if (ci != c) { vs_assert(ci + 1 == c && at == 0, "the current chunk holds the position"); at = (int64_t)f.chunks[ci].size(); c = ci; }
      vs_assert(d.truncate() == 0, "the file is cut"); f.chunks[c].resize((size_t)at);
      vs_reach("cut");
      break;
    }
    size_t w = vs_choose(TIER(4, 5), "length"); uint8_t b[8]; vs_sym_bytes(b, w, "bytes");
    vs_assert(d.overwrite(b, w) == 0, "bytes are overwritten");
    f.write(o, b, w);
    if (w) vs_assert(d.getLastRWSize() == w && d.getPos() == o + (int64_t)w, "the position follows the bytes written");
  }
  vs_assert(d.close() == 0 && !d.isOpened(), "the file is closed");
  onDisk(f, "the bytes written are on disk in their place");
  readBack<F>(f, "the bytes written are read back");
  vs_reach(fresh ? "written" : "changed");
}
}
