// C14: data layout fields survive recording and reading. C15: any bytes decode safely.
#include "vsvrs.h"
#include <vrs/DataLayout.h>
#include <vrs/DataPieces.h>
#include <vrs/RecordFormat.h>
using namespace vrs;
using std::map;
namespace {
// What a layout holds, as plain values
struct Vals {
  uint16_t a; double b; uint8_t c[3]; Point2Di p; vector<uint32_t> v; vector<string> vs; string s; map<string, uint16_t> m; map<string, string> ms;
};
struct Full : AutoDataLayout {
  DataPieceValue<uint16_t> a{"a", 77};
  DataPieceArray<uint8_t> c{"c", 3};
  DataPieceVector<uint32_t> v{"v"};
  DataPieceValue<double> b{"b"};
  DataPieceVector<string> vs{"vs"};
  DataPieceString s{"s"};
  DataPieceStringMap<uint16_t> m{"m"};
  DataPieceValue<Point2Di> p{"p"};
  DataPieceStringMap<string> ms{"ms"};
  AutoDataLayoutEnd end;
};
string symText(size_t max) { char t[8]; size_t k = vs_choose(max + 1, "length"); vs_sym_bytes(t, k, "text"); return string(t, k); }
// names of map entries: 0 to 2 characters, any two different ones
string key(int i) { static string first; char c[2]; vs_sym_bytes(c, 2, "key"); string k(c, vs_choose(i ? 2 : 3, "key length") + (i ? 1 : 0)); if (i == 0) first = k; else vs_assume(k != first); return k; }
void fill(Vals& x, int what) {
  x.a = vs_u16("a"); x.b = vs_f64("b"); vs_sym_bytes(x.c, 3, "c"); int32_t q[2]; vs_sym(&q[0], 4, "p"); vs_sym(&q[1], 4, "p"); x.p = Point2Di(q);
  size_t nv = what == 0 ? vs_choose(3, "v") : 1;
  for (size_t i = 0; i < nv; ++i) x.v.push_back(vs_u32("v"));
  size_t ns = what == 1 ? vs_choose(3, "strings") : 1;
  for (size_t i = 0; i < ns; ++i) x.vs.push_back(what == 1 ? symText(2) : string("x"));
  x.s = what == 0 ? symText(3) : string("text");
  size_t nm = what == 2 ? vs_choose(3, "map") : 1;
  for (size_t i = 0; i < nm; ++i) x.m[what == 2 ? key((int)i) : string("k")] = vs_u16("m");
  size_t n2 = what == 2 ? vs_choose(3, "text map") : 0;
  for (size_t i = 0; i < n2; ++i) x.ms[key((int)i)] = symText(1);
}
void stage(Full& l, const Vals& x) { l.a.set(x.a); l.b.set(x.b); l.c.set(x.c, 3); l.p.set(x.p); l.v.stage(x.v); l.vs.stage(x.vs); l.s.stage(x.s); l.m.stage(x.m); l.ms.stage(x.ms); }
bool eq(const string& a, const string& b) { if (a.size() != b.size()) return false; unsigned d = 0; for (size_t i = 0; i < a.size(); ++i) d |= (unsigned char)(a[i] ^ b[i]); return d == 0; }
bool eq(uint16_t a, uint16_t b) { return a == b; }
bool eq(uint32_t a, uint32_t b) { return a == b; }
template <class T> bool eq(const vector<T>& a, const vector<T>& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); ++i) r &= eq(a[i], b[i]); return r; }
template <class T> bool eq(const map<string, T>& a, const map<string, T>& b) {
  if (a.size() != b.size()) return false;
  bool r = true; auto j = b.begin(); for (auto& i : a) { r &= eq(i.first, j->first) & eq(i.second, j->second); ++j; } return r;
}
#define KEPT "a field is read back with the value it was recorded with"
void checkAll(Full& l, const Vals& x) {
  uint16_t a = 0; vs_assert(l.a.get(a) && a == x.a, KEPT);
  double b = 0; vs_assert(l.b.get(b) && bitsOf(b) == bitsOf(x.b), KEPT);
  uint8_t c[3]; vs_assert(l.c.get(c, 3), KEPT); sameBytes(c, x.c, 3, KEPT);
  uint8_t c2 = 0; vs_assert(l.c.get(c2, 2) && c2 == x.c[2], KEPT);
  Point2Di p; vs_assert(l.p.get(p) && p.dim[0] == x.p.dim[0] && p.dim[1] == x.p.dim[1], KEPT);
  vector<uint32_t> v; vs_assert(l.v.get(v) && eq(v, x.v), KEPT);
  vector<string> vs; vs_assert(l.vs.get(vs) && eq(vs, x.vs), KEPT);
  string s; vs_assert(l.s.get(s) && eq(s, x.s) && eq(l.s.get(), x.s), KEPT);
  map<string, uint16_t> m; vs_assert(l.m.get(m) && eq(m, x.m), KEPT);
  map<string, string> ms; vs_assert(l.ms.get(ms) && eq(ms, x.ms), KEPT);
}
struct LDev : Recordable {
  DataLayout& l; LDev(DataLayout& l, size_t extra = 0) : Recordable(RecordableTypeId::UnitTest1), l(l) {
    addRecordFormat(Record::Type::DATA, 1, l.getContentBlock() + (extra ? ContentBlock(ContentType::CUSTOM, extra) : ContentBlock(ContentType::EMPTY)), {&l});
  }
  const Record* createConfigurationRecord() override { return nullptr; }
  const Record* createStateRecord() override { return nullptr; }
  void rec(double t) { createRecord(t, Record::Type::DATA, 1, DataSource(l)); }
  void rec(double t, const void* p, size_t n) { createRecord(t, Record::Type::DATA, 1, DataSource(l, DataSourceChunk(p, n))); }
};
struct Copy : RecordFormatStreamPlayer {
  std::function<void(DataLayout&)> f; int n = 0, extra = 0; uint8_t data[8];
  bool onDataLayoutRead(const CurrentRecord&, size_t, DataLayout& l) override { ++n; f(l); return true; }
  bool onCustomBlockRead(const CurrentRecord& r, size_t, const ContentBlock& b) override { vs_assert(b.getBlockSize() <= 8, "the block after the fields has its size"); r.reader->read(data, b.getBlockSize()); ++extra; return true; }
};
}
// Recorded in a file, read by a player that knows the layout, and one that knows only the file; a second block follows the fields
VS_ENTRY(h_layout_file) {
  Full w; Vals x; fill(x, (int)vs_choose(3, "kind")); stage(w, x);
  uint8_t more[2]; vs_sym_bytes(more, 2, "more");
  LDev d(w, 2); RecordFileWriter wr; wr.addRecordable(&d); d.rec(1, more, 2);
  Vals y = x; y.a = vs_u16("a of 2nd"); y.s = "other"; y.v.clear(); stage(w, y); d.rec(2, more, 2);
  vs_assert(wr.writeToFile("/f.vrs") == 0, "the file is written");
  RecordFileReader rd; vs_assert(rd.openFile("/f.vrs") == 0, "the file opens");
  Copy pl; rd.setStreamPlayer(d.getStreamId(), &pl);
  pl.f = [&](DataLayout& l) {
    Full mine; const Vals& want = pl.n == 1 ? x : y;
    vs_assert(mine.mapLayout(l), "the fields are all found");
    checkAll(mine, want);
    vs_assert(l.isVarDataIndexValid() && mine.isVarDataIndexValid(), "the index of the fields is valid");
    uint16_t a = 0; auto* fa = l.findDataPieceValue<uint16_t>("a"); vs_assert(fa && fa->get(a) && a == want.a, KEPT);
    auto* fs = l.findDataPieceString("s"); vs_assert(fs && eq(fs->get(), want.s), KEPT);
    vs_assert(l.findDataPieceValue<int16_t>("a") == nullptr && l.findDataPieceArray<uint8_t>("c", 2) == nullptr, "a field is found only under its type");
  };
  rd.readAllRecords();
  vs_assert(pl.n == 2 && pl.extra == 2, "every record is read");
  sameBytes(pl.data, more, 2, "the block after the fields keeps its bytes");
  vs_reach("fields read");
}
namespace {
// a layout with any selection of fields, in two orders
struct Some : ManualDataLayout {
  DataPieceValue<uint16_t>* a = nullptr; DataPieceValue<double>* b = nullptr; DataPieceArray<uint8_t>* c = nullptr; DataPieceArray<uint8_t>* c2 = nullptr;
  DataPieceVector<uint32_t>* v = nullptr; DataPieceString* s = nullptr; DataPieceStringMap<uint16_t>* m = nullptr;
  Some(unsigned mask, bool backwards, bool defaults) {
    for (int k = 0; k < 6; ++k) { int i = backwards ? 5 - k : k; if (!(mask >> i & 1)) continue;
      switch (i) {
        case 0: add(std::unique_ptr<DataPiece>(a = new DataPieceValue<uint16_t>("f"))); if (defaults) a->setDefault(4711); break;
        case 1: add(std::unique_ptr<DataPiece>(b = new DataPieceValue<double>("f"))); if (defaults) b->setDefault(0.5); break;
        case 2: add(std::unique_ptr<DataPiece>(c = new DataPieceArray<uint8_t>("c", 3))); if (defaults) { uint8_t d[3] = {7, 8, 9}; c->setDefault(d, 3); if (!backwards) add(std::unique_ptr<DataPiece>(c2 = new DataPieceArray<uint8_t>("c", 3))); } break; // the same field again
        case 3: add(std::unique_ptr<DataPiece>(v = new DataPieceVector<uint32_t>("v"))); if (defaults) v->setDefault(vector<uint32_t>{1, 2, 3}); break;
        case 4: add(std::unique_ptr<DataPiece>(s = new DataPieceString("v"))); if (defaults) s->setDefault(string("none")); break;
        case 5: add(std::unique_ptr<DataPiece>(m = new DataPieceStringMap<uint16_t>("v"))); if (defaults) m->setDefault(map<string, uint16_t>{{"d", 1}}); break;
      } }
    endLayout();
  }
};
}
// A reader with its own selection and order of fields: those in the file have the file's values, the others their defaults
VS_ENTRY(h_layout_map) {
  unsigned have = (unsigned)vs_choose(64, "fields of the file"), want = (unsigned)vs_choose(64, "fields of the reader");
  bool order = vs_choose(2, "order of the reader");
  Some file(have, vs_choose(2, "order of the file"), false), mine(want, order, true);
  uint16_t a = vs_u16("a"); double b = vs_f64("b"); uint8_t c[3]; vs_sym_bytes(c, 3, "c"); vector<uint32_t> v{vs_u32("v"), 5}; string s = symText(1); map<string, uint16_t> m{{"k", vs_u16("m")}};
  if (file.a) file.a->set(a);
  if (file.b) file.b->set(b);
  if (file.c) file.c->set(c, 3);
  if (file.v) file.v->stage(v);
  if (file.s) file.s->stage(s);
  if (file.m) file.m->stage(m);
  file.collectVariableDataAndUpdateIndex();
  vector<int8_t> raw; file.getRawData(raw);
  vs_assert(raw.size() == file.getFixedDataSizeNeeded() + file.getVarDataSizeNeeded() && file.getVarDataSizeFromIndex() == file.getVarDataSizeNeeded(), "the fields take the space announced");
  auto in = DataLayout::makeFromJson(file.asJson(JsonFormatProfileSpec()));
  vs_assert(in->isSame(file) && file.isSame(*in), "a layout is rebuilt from its description");
  vs_assert(in->getFixedDataSizeNeeded() == file.getFixedDataSizeNeeded(), "a layout is rebuilt from its description");
  in->getFixedData().assign(raw.begin(), raw.begin() + (long)file.getFixedDataSizeNeeded());
  in->getVarData().assign(raw.begin() + (long)file.getFixedDataSizeNeeded(), raw.end());
  unsigned need = TIER(order || want != 63, 0) ? 6 : (unsigned)vs_choose(7, "required field"); // 6: none
  if (need == 0 && mine.a) mine.a->setRequired(); else if (need == 1 && mine.b) mine.b->setRequired(); else if (need == 2 && mine.c) mine.c->setRequired();
  else if (need == 3 && mine.v) mine.v->setRequired(); else if (need == 4 && mine.s) mine.s->setRequired(); else if (need == 5 && mine.m) mine.m->setRequired();
  bool all = mine.mapLayout(*in);
  bool missing = need < 6 && (want >> need & 1) && !(have >> need & 1);
  vs_assert(all == !missing && mine.hasAllRequiredPieces() == all, "a missing required field is told");
  vs_assert(mine.isMapped(), "the layout is mapped");
#define HAS(k) ((have >> (k)) & 1)
#define MISSING "a field missing from the file has its default value and says so"
  if (mine.a) { uint16_t g = 0; bool r = mine.a->get(g); vs_assert(r == (bool)HAS(0) && mine.a->isAvailable() == r, MISSING); vs_assert(g == (HAS(0) ? a : 4711) && mine.a->get() == g, KEPT); }
  if (mine.b) { double g = 0; bool r = mine.b->get(g); vs_assert(r == (bool)HAS(1), MISSING); vs_assert(bitsOf(g) == (HAS(1) ? bitsOf(b) : bitsOf(0.5)), KEPT); }
  if (mine.c) { uint8_t g[3] = {}; bool r = mine.c->get(g, 3); vs_assert(r == (bool)HAS(2) && mine.c->isAvailable() == r, MISSING); uint8_t d[3] = {7, 8, 9}; sameBytes(g, HAS(2) ? c : d, 3, KEPT);
    vector<uint8_t> gv; vs_assert(mine.c->get(gv) == r && gv.size() == 3, MISSING); sameBytes(gv.data(), g, 3, KEPT); uint8_t one = 0; vs_assert(mine.c->get(one, 1) == r && one == g[1], KEPT); }
  if (mine.c2) { uint8_t g[3] = {}; vs_assert(mine.c2->get(g, 3) == (bool)HAS(2), MISSING); uint8_t d[3] = {}; sameBytes(g, HAS(2) ? c : d, 3, KEPT); }
  if (mine.v) { vector<uint32_t> g; bool r = mine.v->get(g); vs_assert(r == (bool)HAS(3) && mine.v->isAvailable() == r, MISSING); vs_assert(eq(g, HAS(3) ? v : vector<uint32_t>{1, 2, 3}), KEPT); }
  if (mine.s) { string g; bool r = mine.s->get(g); vs_assert(r == (bool)HAS(4) && mine.s->isAvailable() == r, MISSING); vs_assert(eq(g, HAS(4) ? s : string("none")) && eq(mine.s->get(), g), KEPT); }
  if (mine.m) { map<string, uint16_t> g; bool r = mine.m->get(g); vs_assert(r == (bool)HAS(5) && mine.m->isAvailable() == r, MISSING); vs_assert(eq(g, HAS(5) ? m : map<string, uint16_t>{{"d", 1}}), KEPT); }
  // copying the mapped values into another layout of the reader's, and recording that one
  if (want == 63) {
    Some out(63, order, true); out.initDataPiecesToDefaultValue();
    vs_assert(out.copyDataPieceValuesFromMappedLayout(mine) == (size_t)__builtin_popcount(have) + (HAS(2) && out.c2), "the fields of the file are copied");
    uint16_t g = 0; out.a->get(g); vs_assert(g == (HAS(0) ? a : 4711), "copied fields keep their values");
    vs_assert(eq(out.v->stagedValues(), HAS(3) ? v : vector<uint32_t>{1, 2, 3}) && eq(out.s->stagedValue(), HAS(4) ? s : string("none")), "copied fields keep their values");
  }
  vs_reach("fields mapped");
}
// C15: any bytes as fixed data, index and variable data
VS_ENTRY(h_layout_hostile) {
  Full w;
  vs_alloc_limit(1 << 20);
  int how = (int)vs_choose(2, "how"), piece = (int)vs_choose(5, "piece");
  vector<int8_t>& fx = w.getFixedData(); vector<int8_t>& var = w.getVarData();
  size_t nf = w.getFixedDataSizeNeeded(), ni = 5 * 8;
  size_t nv = how == 0 ? 12 : TIER(piece < 2 ? 12 : 9, piece < 2 ? 16 : 13);
  fx.assign(nf, 0); var.assign(nv, 0);
  struct { uint32_t off, len; } ix[5] = {};
  if (how == 0) { // any place for a piece, and for the one before
    ix[piece].off = vs_u32("offset"); ix[piece].len = vs_u32("size");
    if (piece) { ix[piece - 1].off = vs_u32("offset before"); ix[piece - 1].len = vs_u32("size before"); }
    for (size_t i = 0; i < nv; ++i) var[i] = (int8_t)i;
  } else { // a piece made of any bytes
    uint32_t len = (uint32_t)vs_choose(nv + 1, "length");
    ix[piece].off = vs_choose(2, "at the end") ? (uint32_t)(nv - len) : 0; ix[piece].len = len;
    vs_sym_bytes(var.data(), nv, "data");
  }
  memcpy(fx.data() + nf - ni, ix, ni);
  bool valid = w.isVarDataIndexValid(); if (valid) vs_reach("valid index"); else vs_reach("invalid index");
  w.getVarDataSizeFromIndex();
  Full l; l.mapLayout(w);
  int st = (int)vs_choose(3, "through");
  Full* x = st == 0 ? &w : &l;
#define FITS "a field is no larger than the data"
  if (st == 2) x->stageCurrentValues();
  else switch (piece) {
    case 0: { vector<uint32_t> v; if (x->v.get(v)) vs_assert(v.size() * 4 <= nv, FITS); break; }
    case 1: { vector<string> vs; if (x->vs.get(vs)) vs_assert((vs.size() + 1) * 4 <= nv, FITS); break; }
    case 3: { map<string, uint16_t> m; x->m.get(m); vs_assert(m.size() * 6 <= nv, FITS); break; }
    case 4: { map<string, string> ms; x->ms.get(ms); vs_assert(ms.size() * 8 <= nv, FITS); break; }
    default: { string s; x->s.get(s); vs_assert(s.size() <= nv, FITS); break; }
  }
  vs_reach("read");
}
// any few bytes in place of a part of a layout's description, or sizes
VS_ENTRY(h_layout_json) {
  vs_alloc_limit(1 << 24);
  static const char* const kTypes[] = {"DataPieceValue<uint16_t>", "DataPieceArray<uint8_t>", "DataPieceArray<Matrix4Dd>", "DataPieceVector<double>", "DataPieceString", "DataPieceStringMap<uint16_t>", "DataPieceValue<Point3Df>"};
  string before = "{\"data_layout\":[", after = "]}";
  string t = kTypes[vs_choose(7, "type")];
  size_t n = vs_choose(TIER(3, 4), "length"); char c[4]; vs_sym_bytes(c, n, "text"); for (size_t i = 0; i < n; ++i) vs_assume(c[i] != 0);
  string x(c, n), json;
  string head = "{\"name\":\"a\",\"type\":\"" + t + "\"", ok = head + "}";
  switch (vs_choose(9, "place")) {
    case 0: json = x; break;
    case 1: json = before + x + after; break;
    case 2: json = before + ok + "," + x + after; break;
    case 3: json = before + head + ",\"size\":" + x + "}" + after; break;
    case 4: json = before + head + ",\"default\":" + x + "}" + after; break;
    case 5: json = before + head + ",\"default\":[" + x + "]}" + after; break;
    case 6: json = before + head + ",\"properties\":{\"k\":" + x + "},\"tags\":" + x + ",\"required\":" + x + "}" + after; break;
    case 7: vs_assume(t.find("uint8_t") == string::npos); json = before + head + ",\"size\":" + std::to_string(t.find("Matrix") != string::npos && vs_choose(2, "size") ? 100000000u : 4294967295u) + "}" + after; break;
    case 8: json = before + "{\"name\":\"" + x + "\",\"type\":\"" + t.substr(0, t.size() - n) + x + "\"}" + after; break;
  }
  auto l = DataLayout::makeFromJson(json);
  size_t fixed = l->getFixedDataSizeNeeded();
  vs_assert(fixed == DataLayout::kNotFound || l->getFixedData().size() >= fixed || fixed == 0, "a layout has its space");
  vs_reach("described");
}
namespace {
struct Put : ManualDataLayout {
  template <class T> T* put(T* t) { add(std::unique_ptr<DataPiece>(t)); return t; }
};
}
// A layout is rebuilt from its description with the same labels, types, order, defaults, ranges, tags and required flags
VS_ENTRY(h_layout_describe) {
  int kind = (int)vs_choose(3, "kind");
  auto text = [&](const char* n) { char c[2]; vs_sym_bytes(c, 2, n); vs_assume(c[0] != 0 && c[1] != 0); return string(c, TIER(1, 2)); };
  string label = kind == 0 ? text("label") : "x", tag = kind == 1 ? text("tag") : "t", value = kind == 1 ? text("value") : "v", def = kind == 1 ? text("default") : "d";
  uint16_t a = kind == 2 ? vs_u16("a") : 7; int8_t i = kind == 2 ? (int8_t)vs_u8("i") : -7; uint64_t big = kind == 2 ? ~(uint64_t)vs_u8("big") : 7; 
  bool flag = vs_bool("flag"); size_t count = TIER(2, vs_choose(4, "count"));
  static const double kd[] = {0, 0.1, -1e300, 5e-324, 1.0, 3}; double d = kd[vs_choose(6, "d")];
  Put l;
  auto* pa = l.put(new DataPieceValue<uint16_t>(label, a)); pa->setMin(1); pa->setMax(a); pa->setTag(tag, value); pa->setRequired(flag);
  auto* pb = l.put(new DataPieceValue<Bool>("b" + label)); pb->setDefault(flag);
  auto* pi = l.put(new DataPieceArray<int8_t>("i", count)); vector<int8_t> di(count, i); pi->setDefault(di); pi->setRange(i, 5);
  auto* pu = l.put(new DataPieceVector<uint64_t>("u")); pu->setDefault(vector<uint64_t>(2, big));
  auto* pd = l.put(new DataPieceValue<double>("d")); pd->setDefault(d);
  auto* pp = l.put(new DataPieceValue<Point2Dd>("p")); double dd[2] = {d, 0.3}; pp->setDefault(Point2Dd(dd));
  auto* ps = l.put(new DataPieceString("s")); ps->setDefault(def); ps->setUnit(value);
  auto* pv = l.put(new DataPieceVector<string>("v")); pv->setDefault(vector<string>{def, ""});
  auto* pm = l.put(new DataPieceStringMap<uint16_t>("m")); pm->setDefault(map<string, uint16_t>{{tag, a}});
  l.endLayout();
  auto in = DataLayout::makeFromJson(l.asJson(JsonFormatProfileSpec()));
#define SAME "a layout is rebuilt from its description"
  vs_assert(in->isSame(l) && l.isSame(*in), SAME);
  vs_assert(in->getFixedDataSizeNeeded() == l.getFixedDataSizeNeeded() && in->getDeclaredFixedDataPiecesCount() == 5 && in->getDeclaredVarDataPiecesCount() == 4, SAME);
  auto* qa = in->findDataPieceValue<uint16_t>(label); uint16_t v = 0; string t;
  vs_assert(qa && qa->getDefault() == a && qa->getMin(v) && v == 1 && qa->getMax(v) && v == a && qa->isRequired() == flag && qa->getTag(tag, t) && eq(t, value), SAME);
  auto* qb = in->findDataPieceValue<Bool>("b" + label); vs_assert(qb && qb->getDefault() == flag && !qb->isRequired(), SAME);
  auto* qi = in->findDataPieceArray<int8_t>("i", count); int8_t w = 0; vs_assert(qi && qi->getDefault() == di && qi->getMin(w) && w == i && qi->getMax(w) && w == 5, SAME);
  auto* qu = in->findDataPieceVector<uint64_t>("u"); vs_assert(qu && qu->getDefault() == vector<uint64_t>(2, big), SAME);
  auto* qd = in->findDataPieceValue<double>("d"); vs_assert(qd && qd->getDefault() == d, SAME);
  auto* qp = in->findDataPieceValue<Point2Dd>("p"); vs_assert(qp && qp->getDefault().dim[0] == d && qp->getDefault().dim[1] == 0.3, SAME);
  auto* qs = in->findDataPieceString("s"); vs_assert(qs && eq(qs->getDefault(), def) && qs->getUnit(t) && eq(t, value), SAME);
  auto* qv = in->findDataPieceVector<string>("v"); vs_assert(qv && qv->getDefault().size() == 2 && eq(qv->getDefault()[0], def), SAME);
  auto* qm = in->findDataPieceStringMap<uint16_t>("m"); vs_assert(qm && qm->getDefault() == (map<string, uint16_t>{{tag, a}}), SAME);
  vs_reach("described");
}
