// executable contract: reading a text file line by line
#include "bt.h"
#include <sol/pario/file_reader.h>
#include <sol/util/error_code.h>
using namespace sol; using namespace sol::pario;
static std::string tmp(const char* n) { const char* d = getenv("BT_DIR"); return std::string(d ? d : ".") + "/" + n; }
static void put(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static void one(const std::string& text, int len, const std::string& what) {
  bt::begin(what + bt::fmt(" (%zu bytes, buffer %d)", text.size(), len), !text.empty()); std::string p = tmp("lines.txt"); put(p, text); FileReader r; EXPECT(r.Open(p.c_str(), "r") == Status_OK, "open"); char* b = (char*)malloc(len);
  for (int pass = 0; pass < 2; ++pass) { size_t at = 0; int k = 0;
    while (at < text.size()) { size_t e = text.find('\n', at); e = e == std::string::npos ? text.size() : e + 1; int s = r.ReadLine(b, len); if (s != Status_OK) { bt::fail(bt::fmt("status %d for line %d of length %zu", s, k, e - at)); free(b); return; }
      if (strlen(b) != e - at || text.compare(at, e - at, b) != 0) { bt::fail(bt::fmt("line %d of length %zu is read as %zu characters or other text", k, e - at, strlen(b))); free(b); return; } if ((int)strlen(b) >= len) { bt::fail("the buffer length does not cover the line"); free(b); return; } at = e; ++k; }
    for (int i = 0; i < 2; ++i) { int s = r.ReadLine(b, len); if (s != Status_EndOfFile) { bt::fail(bt::fmt("status %d at the end of the file", s)); free(b); return; } }
    r.Rewind(); }
  free(b);
}
static std::string line(size_t n) { std::string s(n, ' '); for (auto& c : s) c = "abcdefgh 0123456789:.-\t\r"[bt::below(24)]; return s; }
int main(int c, char** v) {
  bt::init(c, v);
  for (int len = 2; len <= 6; ++len) for (size_t a = 0; a <= 14; ++a) for (size_t b = 0; b <= 5; ++b) for (int nl = 0; nl < 2; ++nl) one(line(a) + "\n" + line(b) + (nl ? "\n" : ""), len, bt::fmt("lines of %zu and %zu%s", a, b, nl ? "" : ", last without line break"));
  one("", 4, "empty file"); one("\n", 4, "one empty line"); one("\n\n\n", 2, "empty lines");
  while (bt::more()) { std::string t, w = "lines of"; int n = bt::below(8), len = bt::chance(50) ? 2 + bt::below(40) : 4096; for (int i = 0; i < n; ++i) { size_t k = bt::chance(40) ? bt::below(30) : bt::chance(70) ? (size_t)len * (1 << bt::below(4)) + bt::below(5) - 2 : bt::below(40000); t += line(k); w += bt::fmt(" %zu", k); if (i + 1 < n || bt::chance(60)) t += "\n"; else w += " (no line break)"; } one(t, len, w); }
  return bt::finish();
}
