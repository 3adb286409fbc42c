// executable contract: svm and csv text
#include "bt.h"
#include <sol/pario/svm_reader.h>
#include <sol/pario/csv_reader.h>
#include <sol/pario/svm_writer.h>
#include <sol/pario/csv_writer.h>
#include <sol/util/error_code.h>
using namespace sol; using namespace sol::pario;
typedef std::vector<std::pair<uint32_t, float>> F;
struct Rec { int32_t y; F f; };
static std::string tmp(const char* n) { const char* d = getenv("BT_DIR"); return std::string(d ? d : ".") + "/" + n; }
static void put(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static bool near(float a, float b) { if (a == b) return true; if (std::isinf(a) || std::isinf(b)) { float x = std::isinf(a) ? b : a; return !std::isinf(x) && std::fabs(x) > 3.4028e38f && (a > 0) == (b > 0); } return std::nextafterf(a, b) == b; }
// what is read: exp[k] null means the record must be refused (and reading stops there)
static void check(bool csv, const std::string& text, const std::vector<Rec>& e, bool bad) {
  std::string p = tmp("text.dat"); put(p, csv ? "class,v1\n" + text : text); SVMReader s; CSVReader c; DataReader* r = csv ? (DataReader*)&c : &s; EXPECT(r->Open(p) == Status_OK, "open"); 
  for (int pass = 0; pass < 2; ++pass) {
    DataPoint d;
    for (size_t k = 0; k < e.size(); ++k) { int st = r->Next(d); EXPECT(st == Status_OK, "record %zu is refused with status %d", k, st); F want; for (auto& x : e[k].f) if (!csv || x.second != 0) want.push_back(x); std::sort(want.begin(), want.end(), [](const std::pair<uint32_t, float>& a, const std::pair<uint32_t, float>& b) { return a.first < b.first; });
      F got; for (size_t i = 0; i < d.size(); ++i) if (!csv || d.feature(i) != 0) got.push_back({d.index(i), d.feature(i)});
      EXPECT(d.label() == e[k].y, "record %zu: label %d instead of %d", k, d.label(), e[k].y); EXPECT(got.size() == want.size(), "record %zu: %zu features instead of %zu", k, got.size(), want.size());
      for (size_t i = 0; i < got.size(); ++i) { EXPECT(got[i].first == want[i].first, "record %zu: index %u instead of %u", k, got[i].first, want[i].first); EXPECT(near(got[i].second, want[i].second), "record %zu: index %u has value %.9g instead of %.9g", k, got[i].first, got[i].second, want[i].second); } }
    int st = r->Next(d); if (bad) { EXPECT(st != Status_OK && st != Status_EndOfFile, "the malformed record gives status %d (label %d, %zu features)", st, d.label(), d.size()); return; }
    EXPECT(st == Status_EndOfFile, "status %d at the end", st); r->Rewind();
  }
}
static std::string ws(int least = 0) { std::string s; int n = least + (bt::chance(25) ? bt::below(3) : 0); for (int i = 0; i < n; ++i) s += bt::chance(70) ? ' ' : '\t'; return s; }
static std::string intText(int32_t y) { std::string s = bt::fmt("%d", y); if (y >= 0 && bt::chance(30)) s = "+" + s; if (bt::chance(10)) { size_t k = s[0] == '+' || s[0] == '-'; s.insert(k, "00"); } return s; }
static int32_t rint_() { switch (bt::below(6)) { case 0: return INT32_MAX - (int)bt::below(3); case 1: return INT32_MIN + (int)bt::below(3); case 2: return (int32_t)bt::rnd(); case 3: return bt::below(10); default: return (int)bt::below(7) - 3; } }
static std::string floatText() {
  std::string s = bt::chance(30) ? "-" : bt::chance(15) ? "+" : ""; int a = bt::chance(80) ? bt::below(4) : bt::below(25), b = bt::chance(50) ? 0 : bt::chance(80) ? bt::below(8) : bt::below(60); bool pt = b > 0 || bt::chance(15); if (a + b == 0) a = 1;
  for (int i = 0; i < a; ++i) s += '0' + bt::below(10); if (pt) s += '.'; for (int i = 0; i < b; ++i) s += bt::chance(b > 20 && i < b - 9 ? 80 : 10) ? '0' : '0' + bt::below(10);
  if (bt::chance(30)) { s += bt::chance(50) ? 'e' : 'E'; s += bt::chance(40) ? "-" : bt::chance(40) ? "+" : ""; s += bt::fmt("%d", (int)(bt::chance(60) ? bt::below(10) : bt::chance(90) ? bt::below(50) : bt::below(1000))); } return s; }
static uint32_t ridx() { return bt::chance(70) ? 1 + bt::below(50) : bt::chance(50) ? 1 + (uint32_t)bt::below(100000) : (uint32_t)bt::below(0xfffffffeull) + 1; }
// text of a record and what it says
static std::string record(bool csv, Rec& e) {
  e.y = rint_(); e.f.clear(); std::string s = ws() + intText(e.y); int n = bt::below(7); std::unordered_set<uint64_t> used;
  for (int i = 0; i < n; ++i) { std::string v = floatText(); float x = strtof(v.c_str(), 0);
    if (csv) { s += ws() + "," + ws() + v; e.f.push_back({(uint32_t)i + 1, x}); } else { uint32_t k = ridx(); if (!used.insert(k).second) continue; s += ws(1) + bt::fmt("%u", k) + ws() + ":" + ws() + v; e.f.push_back({k, x}); } }
  return s + ws() + (bt::chance(15) ? "\r" : ""); }
static void valid(bool csv) { std::vector<Rec> e; std::string t; int n = 1 + bt::below(4); for (int i = 0; i < n; ++i) { Rec r; t += record(csv, r); if (i + 1 < n || bt::chance(80)) t += "\n"; e.push_back(r); } bt::begin(std::string(csv ? "csv " : "svm ") + t); check(csv, t, e, false); }
static const char* BADI[] = {"x", "-", "+", "1.5", "--1", "+-1", "99999999999", "2147483648", "-2147483649", "4294967297", "0x10", "1e", "1e99", "1.5e0", ".", "e1", "1e-1", "18446744073709551617"};
static const char* BADU[] = {"", "x", "-1", "1.5", "4294967296", "1e", "1e99", "4294967297", "18446744073709551617", ".", "7 8", "99999999999999999999999"};
static const char* BADV[] = {"", "x", "-", "+", ".", "e5", "1e", "1e+", "--1", "1..2", "1;5", "1x", "0x1p3", "-.", "1e-", "1 2", "+-1", "1e5e5"};
static const char* BADC[] = {"", " ", "=", "::"};
template <size_t N> static const char* pick(const char* (&a)[N]) { return a[bt::below(N)]; }
static void broken(bool csv) {
  std::vector<Rec> e; std::string t; int n = bt::below(3); for (int i = 0; i < n; ++i) { Rec r; t += record(csv, r) + "\n"; e.push_back(r); }
  int k = 1 + bt::below(4), at = (int)bt::below(k + 1) - 1, kind = at < 0 ? 0 : csv ? 2 : 1 + bt::below(3); if (at < 0) k = bt::below(3); std::string s = at < 0 ? pick(BADI) : "1";
  for (int i = 0; i < k; ++i) { std::string x = bt::fmt("%d", i + 1), v = "0.5"; if (i == at && kind == 1) x = pick(BADU); if (i == at && kind == 2) v = pick(BADV); if (csv) s += (i == at && bt::chance(10) ? ";" : ",") + v; else s += " " + x + (i == at && kind == 3 ? pick(BADC) : ":") + v; }
  t += s + "\n"; bt::begin(std::string(csv ? "csv " : "svm ") + t); check(csv, t, e, true); }
static float fval() { switch (bt::below(5)) { case 0: return (int)bt::below(200) - 100; case 1: return (float)bt::unit(); case 2: { float f; do { uint32_t u = bt::rnd(); memcpy(&f, &u, 4); } while (!std::isfinite(f)); return f; } case 3: return 0; default: return (bt::unit() - 0.5) * 1e-3; } }
static void round_trip(bool csv) {
  std::string p = tmp("rt.dat"), w = csv ? "csv round trip" : "svm round trip"; SVMWriter s; CSVWriter c; DataWriter* o = csv ? (DataWriter*)&c : &s; std::vector<Rec> e; int n = 1 + bt::below(4); index_t dim = 1;
  for (int i = 0; i < n; ++i) { Rec r; r.y = rint_(); int k = bt::below(8); std::vector<uint32_t> ix; for (int j = 0; j < k; ++j) ix.push_back(csv ? 1 + bt::below(bt::chance(80) ? 12 : 300) : ridx()); std::sort(ix.begin(), ix.end()); ix.erase(std::unique(ix.begin(), ix.end()), ix.end()); w += bt::fmt("; %d", r.y); for (auto x : ix) { float v = fval(); r.f.push_back({x, v}); w += bt::fmt(" %u:%.9g", x, v); if (x + 1 > dim) dim = x + 1; } e.push_back(r); }
  if (csv && bt::chance(30)) dim += bt::below(5); bt::begin(w); EXPECT(o->Open(p) == Status_OK, "open"); EXPECT(o->SetExtraInfo((char*)&dim) == Status_OK, "dimension");
  for (auto& r : e) { DataPoint d; d.set_label(r.y); for (auto& x : r.f) d.AddNewFeat(x.first, x.second); EXPECT(o->Write(d) == Status_OK, "write"); for (auto& x : r.f) { char b[64]; snprintf(b, 64, "%g", x.second); x.second = strtof(b, 0); } }
  o->Close(); std::string t; FILE* f = fopen(p.c_str(), "rb"); char b[4096]; size_t g; while ((g = fread(b, 1, sizeof b, f)) > 0) t.append(b, g); fclose(f); if (csv) { size_t q = t.find('\n'); EXPECT(q != std::string::npos, "no header"); t = t.substr(q + 1); } check(csv, t, e, false); }
int main(int c, char** v) {
  bt::init(c, v); if (!getenv("BT_ERR")) freopen("/dev/null", "w", stderr);
  for (auto x : BADI) for (int q = 0; q < 2; ++q) { std::string t = std::string(x) + (q ? ",1\n" : " 1:1\n"); bt::begin(t); check(q, t, {}, true); t = std::string(x) + "\n"; bt::begin(t); check(q, t, {}, true); }
  for (auto x : BADU) { std::string t = "1 " + std::string(x) + ":1\n"; bt::begin(t); check(false, t, {}, true); }
  for (auto x : BADV) for (int q = 0; q < 2; ++q) { std::string t = std::string(q ? "1," : "1 1:") + x + "\n"; bt::begin(t); check(q, t, {}, true); }
  for (int y = -1200; y <= 1200; ++y) { std::string t = bt::fmt("%d 1:%d\n", y, y); bt::begin(t); check(false, t, {Rec{y, F{{1u, (float)y}}}}, false); }
  for (uint32_t k : {1u, 9u, 10u, 99u, 65535u, 65536u, 2147483647u, 2147483648u, 4294967294u}) { std::string t = bt::fmt("-2147483648 %u:1e-3\n", k); bt::begin(t); check(false, t, {Rec{INT32_MIN, F{{k, 1e-3f}}}}, false); }
  while (bt::more()) { bool csv = bt::chance(40); switch (bt::below(4)) { case 0: broken(csv); break; case 1: round_trip(csv); break; default: valid(csv); } }
  return bt::finish();
}
