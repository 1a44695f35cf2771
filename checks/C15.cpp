// LIB: small
#include "fcu.h"
#include "FUtils/FUStringBuilder.h"
#include "FUtils/FUDateTime.h"
#include <string>
#include <climits>
#include <cinttypes>
using namespace pbt;

PBT_PROPERTY("C15", "Values of every textual type are printed and parsed back; numerals and lists in every decimal spelling with every white space separator are parsed and compared with strtod/strtoll; arbitrary text is parsed from exactly-sized heap buffers; builder histories are compared with std::string. Non-trivial: at least two items, or a value other than zero.")
static void init() { fcu::install(); }
struct SetInit { SetInit() { worker_init = init; } } setInit;

// Text in a heap block of exactly its own size, so that any read past the end is caught.
struct Exact { char* p; Exact(const std::string& s) : p((char*) malloc(s.size() + 1)) { memcpy(p, s.c_str(), s.size() + 1); } ~Exact() { free(p); } operator const char*() const { return p; } };
static std::string esc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c; } return "\"" + o + "\""; }
static std::string ws(Src& g, bool allowEmpty) {
    static const char* W[] = {" ", "\n", "\t", "\r", "\r\n", "  "};
    std::string s; size_t n = g.below(g.chance(1, 4) ? 4 : 2) + (allowEmpty ? 0 : 1);
    for (size_t i = 0; i < n; ++i) s += W[g.below(6)];
    return s;
}
static std::string digits(Src& g, size_t lo, size_t hi) { std::string s; size_t n = lo + g.below(hi - lo + 1); for (size_t i = 0; i < n; ++i) s += char('0' + g.below(10)); return s; }

static float anyFloat(Src& g) {
    switch (g.weighted({5, 4, 3, 3, 2, 1})) {
    case 0: return (float) g.range(-1000, 1000);
    case 1: return (float) ((g.unit() * 2 - 1) * std::pow(10.0, (double) g.range(-7, 8)));
    case 2: { double m = 1 + g.unit() * 9; return (float) ((g.coin() ? -m : m) * std::pow(10.0, (double) g.range(-20, 37))); }
    case 3: { uint32_t u = g.u32(); float f; memcpy(&f, &u, 4); return std::isnan(f) ? 1.0f : f; }
    case 4: return g.oneof({0.1f, 1e-7f, 999999.5f, 1e6f, 123456.7f, 16777216.f, 3.4028235e38f, -3.4028235e38f, 1.17549435e-38f, 100000.f, 1000000.f, 0.0001f, 0.00001f});
    default: return g.coin() ? INFINITY : -INFINITY;
    }
}
// Printing keeps six significant digits; magnitudes below the single-precision epsilon print as zero.
static void closeTo(float a, float b, const std::string& what) {
    if (std::isinf(a)) {                                        // the largest finite floats print rounded to six digits
        if (!(b == a || std::fabs(b) >= 3.4028e38f)) fail(cat(what, ": infinity read back as ", b));
        return; }
    double d = std::fabs((double) a - b), m = std::fabs((double) a);
    if (std::isinf(b) && m >= 3.4028e38) return;
    if (!(d <= 6e-6 * m || (m <= 1.2e-7 && d <= 1.2e-7))) fail(cat(what, ": ", a, " read back as ", b));
}

PBT_CASE(scalars, 400000, 8000000) {
    c.nontrivial = true;
    switch (g.below(8)) {
    case 0: { float f = anyFloat(g); FUSStringBuilder b; b.append(f); std::string t = b.ToCharPtr(); c.note(t); Exact e(t);
              if (std::isinf(f)) CHECK_EQ(t, std::string(f > 0 ? "INF" : "-INF"), "infinity text");
              else { char* end; double r = strtod(t.c_str(), &end); CHECK(*end == 0 && end != t.c_str(), "text is not a decimal number: ", t); closeTo(f, (float) r, "printed text " + t); }
              closeTo(f, FUStringConversion::ToFloat(e), "ToFloat(" + t + ")"); break; }
    case 1: { double f = anyFloat(g); FUSStringBuilder b; b.append(f); std::string t = b.ToCharPtr(); c.note(t); Exact e(t); closeTo((float) f, FUStringConversion::ToFloat(e), "double " + t); break; }
    case 2: { int32 i = g.coin() ? (int32) g.u32() : (int32) g.range(-100, 100); FUSStringBuilder b; b.append(i); std::string t = b.ToCharPtr(); c.note(t); CHECK_EQ(t, std::to_string(i), "int32 text"); Exact e(t); CHECK_EQ(FUStringConversion::ToInt32(e), i, "int32"); break; }
    case 3: { uint32 i = g.coin() ? g.u32() : (uint32) g.range(0, 100); FUSStringBuilder b; b.append(i); std::string t = b.ToCharPtr(); c.note(t); CHECK_EQ(t, std::to_string(i), "uint32 text"); Exact e(t); CHECK_EQ(FUStringConversion::ToUInt32(e), i, "uint32"); break; }
    case 4: { uint64 i = ((uint64) (g.coin() ? g.u32() : 0) << 32) | g.u32(); FUSStringBuilder b; b.append(i); std::string t = b.ToCharPtr(); c.note(t); CHECK_EQ(t, std::to_string(i), "uint64 text"); break; }
    case 5: { FUDateTime d, r; d.SetYear((uint32) g.range(0, 9999)); d.SetMonth((uint32) g.range(1, 12)); d.SetDay((uint32) g.range(1, 31)); d.SetHour((uint32) g.range(0, 23)); d.SetMinutes((uint32) g.range(0, 59)); d.SetSeconds((uint32) g.range(0, 59));
              fm::string t = FUStringConversion::ToString(d); c.note(t.c_str()); Exact e(t.c_str()); FUStringConversion::ToDateTime((const char*) e, r);
              CHECK(d.GetYear() == r.GetYear() && d.GetMonth() == r.GetMonth() && d.GetDay() == r.GetDay() && d.GetHour() == r.GetHour() && d.GetMinutes() == r.GetMinutes() && d.GetSeconds() == r.GetSeconds(), "date ", t.c_str(), " read back as ", FUStringConversion::ToString(r).c_str());
              break; }
    case 6: { uint32 v = g.u32(); char buf[32]; snprintf(buf, sizeof buf, g.coin() ? "%x" : "%X", v); std::string t = std::string(g.coin() ? "" : g.coin() ? "0x" : "0X") + buf; c.note(t); Exact e(t); const char* p = e; CHECK_EQ(FUStringConversion::HexToUInt32(&p), v, "hexadecimal ", t); CHECK(p == (const char*) e + t.size(), "hexadecimal position");
              uint8 b = (uint8) v; FUSStringBuilder sb; sb.appendHex(b); Exact e2(sb.ToCharPtr()); CHECK_EQ(FUStringConversion::HexToUInt32((const char*) e2, 2), (uint32) b, "appendHex"); break; }
    default: { bool b = g.coin(); const char* t = b ? g.oneof({"true", "1", "TRUE", "True"}) : g.oneof({"false", "0", "FALSE", "False", ""}); c.note(t); CHECK_EQ(FUStringConversion::ToBoolean(t), b, t); break; }
    }
    fcu::no_asserts("conversion");
}

// A decimal numeral in any spelling, with its reference value.
static std::string numeral(Src& g, bool integer, bool sign, double* v) {
    std::string s;
    if (sign) s += g.oneof({"", "", "-", "+"}); else s += g.chance(1, 8) ? "+" : "";
    if (integer) { s += std::string(g.chance(1, 4) ? g.below(4) : 0, '0'); s += digits(g, 1, 9); *v = strtod(s.c_str(), nullptr); return s; }
    switch (g.weighted({3, 4, 1, 1})) {
    case 0: s += digits(g, 1, 12); break;
    case 1: s += digits(g, 1, 9) + "." + digits(g, 0, g.chance(1, 6) ? 60 : 9); break;
    case 2: s += "." + digits(g, 1, 12); break;
    default: s += std::string(g.below(50), '0') + digits(g, 1, g.chance(1, 4) ? 36 : 5); break;
    }
    if (g.chance(1, 3)) { s += g.coin() ? 'e' : 'E'; s += g.oneof({"", "-", "+"}); s += std::string(g.chance(1, 4) ? g.below(4) : 0, '0'); s += g.chance(1, 8) ? digits(g, 1, 3) : digits(g, 1, 2); }
    *v = strtod(s.c_str(), nullptr);
    return s;
}
static void sameNumber(float got, double ref, const std::string& t) {
    float r = (float) ref;
    if (std::fabs(ref) > 3.3e38) { if (!(std::fabs(got) > 3.2e38 && (got > 0) == (ref > 0))) fail(cat("numeral ", t, " parsed as ", got)); return; }
    if (!(std::fabs((double) got - r) <= 2e-6 * std::fabs(r) + 1e-44)) fail(cat("numeral ", t, " parsed as ", got, ", expected ", r));
}

struct Items { std::string text; std::vector<double> v; std::vector<std::string> t; };
static Items items(Src& g, int kind, size_t max) {  // 0 float, 1 int32, 2 uint32, 3 bool, 4 word
    Items r; size_t n = g.below(max + 1);
    r.text = ws(g, true);
    for (size_t i = 0; i < n; ++i) {
        double v = 0; std::string t;
        if (kind <= 2) {
            if (kind == 0 && g.chance(1, 20)) { bool neg = g.coin(); t = neg ? "-INF" : "INF"; v = neg ? -INFINITY : INFINITY; }
            else t = numeral(g, kind != 0, kind != 2, &v);
        }
        else if (kind == 3) { bool b = g.coin(); t = b ? g.oneof({"true", "1"}) : g.oneof({"false", "0"}); v = b; }
        else { size_t m = 1 + g.below(6); for (size_t k = 0; k < m; ++k) { char ch = (char) g.range(33, 126); if (g.chance(1, 8)) ch = (char) g.range(0x80, 0xff); t += ch; } }
        r.v.push_back(v); r.t.push_back(t); r.text += t;
        r.text += ws(g, i + 1 == n);
    }
    return r;
}

PBT_CASE(lists, 400000, 8000000) {
    int what = (int) g.below(11);
    static const int kind[] = {0, 1, 2, 3, 4, 4, 0, 2, 0, 0, 0};
    Items it = items(g, kind[what], what >= 6 ? 40 : 12);
    size_t pre = g.below(6);                              // entries already in the list
    c.note(cat("kind ", what, " pre ", pre, " ", esc(it.text))); c.nontrivial = it.v.size() >= 2;
    Exact e(it.text); size_t n = it.v.size();
    CHECK_EQ(FUStringConversion::CountValues((const char*) e), n, "CountValues ", esc(it.text));
    switch (what) {
    case 0: { FloatList l(pre, 7.0f); FUStringConversion::ToFloatList((const char*) e, l); CHECK_EQ(l.size(), n, "float list size of ", esc(it.text)); for (size_t i = 0; i < n; ++i) sameNumber(l[i], it.v[i], it.t[i]); 
              const char* p = e; for (size_t i = 0; i < n; ++i) sameNumber(FUStringConversion::ToFloat(&p), it.v[i], it.t[i]); if (n) CHECK(*p == 0, "position after the last number of ", esc(it.text)); break; }
    case 1: { Int32List l(pre, 7); FUStringConversion::ToInt32List((const char*) e, l); CHECK_EQ(l.size(), n, "int list size of ", esc(it.text)); for (size_t i = 0; i < n; ++i) CHECK_EQ(l[i], (int32) it.v[i], "int ", it.t[i], " in ", esc(it.text)); 
              const char* p = e; for (size_t i = 0; i < n; ++i) CHECK_EQ(FUStringConversion::ToInt32(&p), (int32) it.v[i], "int ", it.t[i], " in ", esc(it.text)); if (n) CHECK(*p == 0, "position after the last number of ", esc(it.text)); break; }
    case 2: { UInt32List l(pre, 7); FUStringConversion::ToUInt32List((const char*) e, l); CHECK_EQ(l.size(), n, "uint list size of ", esc(it.text)); for (size_t i = 0; i < n; ++i) CHECK_EQ(l[i], (uint32) it.v[i], "uint ", it.t[i], " in ", esc(it.text)); break; }
    case 3: { BooleanList l(pre, true); FUStringConversion::ToBooleanList((const char*) e, l); CHECK_EQ(l.size(), n, "boolean list size of ", esc(it.text)); for (size_t i = 0; i < n; ++i) CHECK_EQ(l[i], it.v[i] != 0, "boolean ", i); break; }
    case 4: { StringList l; for (size_t i = 0; i < pre; ++i) l.push_back("old"); FUStringConversion::ToStringList((const char*) e, l); CHECK_EQ(l.size(), n, "string list size of ", esc(it.text)); for (size_t i = 0; i < n; ++i) CHECK_EQ(std::string(l[i].c_str()), it.t[i], "word ", i); break; }
    case 5: { FStringList l; for (size_t i = 0; i < pre; ++i) l.push_back(FC("old")); FUStringConversion::ToFStringList(fstring(e), l); CHECK_EQ(l.size(), n, "string list size of ", esc(it.text)); for (size_t i = 0; i < n; ++i) CHECK_EQ(std::string(l[i].c_str()), it.t[i], "word ", i); break; }
    case 6: case 7: { size_t stride = 1 + g.below(5); c.note(cat("stride ", stride)); std::vector<bool> null(stride);
              fm::pvector<FloatList> fl; fm::pvector<UInt32List> ul; std::vector<FloatList> fs(stride, FloatList(pre, 7.0f)); std::vector<UInt32List> us(stride, UInt32List(pre, 7));
              for (size_t i = 0; i < stride; ++i) { null[i] = g.chance(1, 5); fl.push_back(null[i] ? NULL : &fs[i]); ul.push_back(null[i] ? NULL : &us[i]); }
              size_t full = n / stride;                     // a truncated last tuple is not an element
              if (what == 6) FUStringConversion::ToInterleavedFloatList((const char*) e, fl); else FUStringConversion::ToInterleavedUInt32List((const char*) e, ul);
              for (size_t i = 0; i < stride; ++i) if (!null[i]) { CHECK_EQ(what == 6 ? fs[i].size() : us[i].size(), full, "interleaved size, stride ", stride, " of ", esc(it.text));
                  for (size_t k = 0; k < full; ++k) { size_t q = k * stride + i; if (what == 6) sameNumber(fs[i][k], it.v[q], it.t[q]); else CHECK_EQ(us[i][k], (uint32) it.v[q], "interleaved ", k); } }
              break; }
    case 8: { size_t full = n / 3; if (n % 3) { c.label("partial"); FMVector3List l(pre, FMVector3::Zero); FUStringConversion::ToVector3List((const char*) e, l); break; } FMVector3List l(pre, FMVector3::Zero); FUStringConversion::ToVector3List((const char*) e, l); CHECK_EQ(l.size(), full, "vector3 list"); for (size_t i = 0; i < n; ++i) sameNumber((&l[i / 3].x)[i % 3], it.v[i], it.t[i]); break; }
    case 9: { if (n % 2) { FMVector2List l(pre, FMVector2::Zero); FUStringConversion::ToVector2List((const char*) e, l); FMVector4List l4; FUStringConversion::ToVector4List((const char*) e, l4); break; }
              FMVector2List l(pre, FMVector2::Zero); FUStringConversion::ToVector2List((const char*) e, l); CHECK_EQ(l.size(), n / 2, "vector2 list"); for (size_t i = 0; i < n; ++i) sameNumber(i % 2 ? l[i / 2].y : l[i / 2].x, it.v[i], it.t[i]);
              if (n % 4 == 0) { FMVector4List l4(pre, FMVector4::Zero); FUStringConversion::ToVector4List((const char*) e, l4); CHECK_EQ(l4.size(), n / 4, "vector4 list"); for (size_t i = 0; i < n; ++i) { const FMVector4& q = l4[i / 4]; float f[4] = {q.x, q.y, q.z, q.w}; sameNumber(f[i % 4], it.v[i], it.t[i]); } }
              break; }
    default: { FMMatrix44List l(pre, FMMatrix44::Identity); FUStringConversion::ToMatrixList((const char*) e, l); size_t full = n / 16; if (n % 16 == 0) CHECK_EQ(l.size(), full, "matrix list"); else CHECK(l.size() >= full, "matrix list");
              for (size_t i = 0; i < full * 16; ++i) { size_t k = i % 16; sameNumber(l[i / 16][k % 4][k / 4], it.v[i], it.t[i]); } break; }
    }
    fcu::no_asserts("list conversion");
}

PBT_CASE(aggregates, 150000, 3000000) {
    c.nontrivial = true;
    float f[16]; for (auto& x : f) { x = anyFloat(g); }
    switch (g.below(5)) {
    case 0: { FMMatrix44 m; for (int i = 0; i < 16; ++i) m[i / 4][i % 4] = f[i]; fm::string t = FUStringConversion::ToString(m); c.note(t.c_str()); FMMatrix44 r = FUStringConversion::ToMatrix(t); for (int i = 0; i < 16; ++i) closeTo(f[i], r[i / 4][i % 4], "matrix"); break; }
    case 1: { FMVector3 v(f[0], f[1], f[2]); fm::string t = FUStringConversion::ToString(v); c.note(t.c_str()); FMVector3 r = FUStringConversion::ToVector3(t); closeTo(v.x, r.x, "x"); closeTo(v.y, r.y, "y"); closeTo(v.z, r.z, "z"); break; }
    case 2: { FMVector4 v(f[0], f[1], f[2], f[3]); fm::string t = FUStringConversion::ToString(v); c.note(t.c_str()); FMVector4 r = FUStringConversion::ToVector4(t); closeTo(v.x, r.x, "x"); closeTo(v.y, r.y, "y"); closeTo(v.z, r.z, "z"); closeTo(v.w, r.w, "w"); break; }
    case 3: { FMVector2 v(f[0], f[1]); fm::string t = FUStringConversion::ToString(v); c.note(t.c_str()); FMVector2 r = FUStringConversion::ToVector2(t); closeTo(v.x, r.x, "x"); closeTo(v.y, r.y, "y"); break; }
    default: { size_t n = g.below(16); FloatList l(f, n); Int32List il; UInt32List ul; for (size_t i = 0; i < n; ++i) { il.push_back((int32) g.u32()); ul.push_back(g.u32()); }
              FUSStringBuilder b, bi, bu; FUStringConversion::ToString(b, l); FUStringConversion::ToString(bi, il); FUStringConversion::ToString(bu, ul.begin(), n); c.note(b.ToCharPtr());
              FloatList r; Int32List ri; UInt32List ru; FUStringConversion::ToFloatList(b.ToCharPtr(), r); FUStringConversion::ToInt32List(bi.ToCharPtr(), ri); FUStringConversion::ToUInt32List(bu.ToCharPtr(), ru);
              CHECK_EQ(r.size(), n, "float list"); CHECK_EQ(ri.size(), n, "int list"); CHECK_EQ(ru.size(), n, "uint list");
              for (size_t i = 0; i < n; ++i) { closeTo(l[i], r[i], "list element"); CHECK_EQ(ri[i], il[i], "int ", i); CHECK_EQ(ru[i], ul[i], "uint ", i); } break; }
    }
    fcu::no_asserts("aggregate conversion");
}

// Arbitrary text: every parser stays inside its input and terminates.
PBT_CASE(garbage, 400000, 8000000) {
    static const char* frag[] = {"1", "-", "+", ".", "e", "E", "I", "IN", "INF", "-INF", "INFx", "NaN", " ", "\n", "\r", "\t", "0x", "12.5", "1e", "1e-", "(", ")", "[", "]", "99999999999999999999", "true", "f", "\x80", "\xff", "abc"};
    std::string s; size_t n = g.len(12);
    for (size_t i = 0; i < n; ++i) { if (g.chance(1, 5)) s += (char) g.range(1, 255); else s += frag[g.below(sizeof frag / sizeof *frag)]; }
    c.note(esc(s)); c.nontrivial = n >= 2;
    Exact e(s); const char* end = (const char*) e + s.size(); size_t items = 0; { size_t p = 0; while (p < s.size()) { while (p < s.size() && strchr(" \t\r\n", s[p])) ++p; if (p == s.size()) break; ++items; while (p < s.size() && !strchr(" \t\r\n", s[p])) ++p; } }
    CHECK_EQ(FUStringConversion::CountValues((const char*) e), items, "CountValues ", esc(s));
    const char* p = e; FUStringConversion::ToFloat(&p); CHECK(p >= e && p <= end, "ToFloat position");
    p = e; FUStringConversion::ToInt32(&p); CHECK(p >= e && p <= end, "ToInt32 position");
    p = e; FUStringConversion::ToUInt32(&p); CHECK(p >= e && p <= end, "ToUInt32 position");
    p = e; FUStringConversion::HexToUInt32(&p); CHECK(p >= e && p <= end, "HexToUInt32 position");
    FUStringConversion::ToBoolean((const char*) e);
    FloatList fl; FUStringConversion::ToFloatList((const char*) e, fl); CHECK_EQ(fl.size(), items, "float list size ", esc(s));
    Int32List il; FUStringConversion::ToInt32List((const char*) e, il); CHECK_EQ(il.size(), items, "int list size ", esc(s));
    UInt32List ul; FUStringConversion::ToUInt32List((const char*) e, ul); CHECK_EQ(ul.size(), items, "uint list size ", esc(s));
    BooleanList bl; FUStringConversion::ToBooleanList((const char*) e, bl); CHECK_EQ(bl.size(), items, "boolean list size ", esc(s));
    StringList sl; FUStringConversion::ToStringList((const char*) e, sl); CHECK_EQ(sl.size(), items, "string list size ", esc(s));
    FMMatrix44 m = FMMatrix44::Identity; FUStringConversion::ToMatrix((const char*) e, m);
    FMVector3List v3; FUStringConversion::ToVector3List((const char*) e, v3); CHECK_EQ(v3.size(), (items + 2) / 3, "vector list size ", esc(s));
    FUDateTime dt; FUStringConversion::ToDateTime((const char*) e, dt);
    fm::string a, b; FUStringConversion::SplitTarget(fm::string(e), a, b); CHECK_EQ(std::string(a.c_str()) + b.c_str(), s, "SplitTarget"); FUStringConversion::ParseQualifier(e);
    fcu::no_asserts("parsing");
}

PBT_CASE(builder, 150000, 3000000) {
    FUSStringBuilder b; std::string m; size_t nops = g.steps(40); c.nontrivial = nops >= 3;
    if (g.chance(1, 6)) { b.reserve(g.below(80)); }
    for (size_t k = 0; k < nops; ++k) {
        int op = (int) g.below(17);
        switch (op) {
        case 0: { char ch = (char) g.range(32, 126); b.append(ch); m += ch; c.note("char"); break; }
        case 1: { std::string s = digits(g, 0, g.chance(1, 8) ? 200 : 20); b.append(s.c_str()); m += s; c.note(cat("text ", s.size())); break; }
        case 2: { std::string s = digits(g, 0, g.chance(1, 8) ? 200 : 20); size_t n = g.below(s.size() + 1); b.append(s.c_str(), n); m += s.substr(0, n); c.note(cat("prefix ", n)); break; }
        case 3: { std::string s = digits(g, 0, 20); b.append(fm::string(s.c_str())); m += s; c.note("string"); break; }
        case 4: { FUSStringBuilder o; std::string s = digits(g, 0, g.chance(1, 8) ? 200 : 20); o.append(s.c_str()); if (g.chance(1, 6)) { b.append(b); m += m; if (m.size() > 4000) { b.clear(); m.clear(); } } else { b.append(o); m += s; } c.note("builder"); break; }
        case 5: { int32 i = (int32) g.u32(); b.append(i); m += std::to_string(i); c.note("int"); break; }
        case 6: { uint32 i = g.u32(); b.append(i); m += std::to_string(i); break; }
        case 7: { int i = (int) g.range(0, 255); char t[4]; snprintf(t, sizeof t, "%02X", i); b.appendHex((uint8) i); m += t; break; }
        case 8: { size_t s = g.below(m.size() + 3); b.remove((int32) s); if (s < m.size()) m.resize(s); c.note(cat("remove from ", s)); break; }
        case 9: { size_t s = g.below(m.size() + 1), e = s + g.below(m.size() - s + 1); b.remove((int32) s, (int32) e); m.erase(s, e - s); c.note(cat("remove ", s, "..", e)); break; }
        case 10: { b.pop_back(); if (!m.empty()) m.pop_back(); c.note("pop"); break; }
        case 11: { if (g.chance(1, 4)) { b.clear(); m.clear(); c.note("clear"); } break; }
        case 12: { size_t n = g.below(60); b.reserve(n); if (m.size() > n) m.resize(n); c.note(cat("reserve ", n)); break; }
        case 13: { b.appendLine("xy"); m += "xy\n"; break; }
        case 14: { char ch = m.empty() || g.chance(1, 4) ? (char) g.range('0', '9') : m[g.below(m.size())]; size_t i = m.find(ch), r = m.rfind(ch);
                   CHECK_EQ(b.index(ch), i == std::string::npos ? -1 : (int32) i, "index of ", ch, " in ", m); CHECK_EQ(b.rindex(ch), r == std::string::npos ? -1 : (int32) r, "rindex of ", ch, " in ", m); break; }
        case 15: { FUSStringBuilder n(m.c_str()); CHECK_EQ(std::string(n.ToCharPtr()), m, "constructed"); size_t q = g.below(40); FUSStringBuilder r('z', q); CHECK_EQ(std::string(r.ToCharPtr()), std::string(q, 'z'), "repeated"); break; }
        default: { std::string s = digits(g, 0, 9); b.set(s.c_str()); m = s; c.note("set"); break; }
        }
        CHECK_EQ(b.length(), m.size(), "length"); CHECK_EQ(b.empty(), m.empty(), "empty");
        if (g.coin()) { CHECK_EQ(std::string(b.ToCharPtr()), m, "content after op ", op); CHECK_EQ(std::string(b.ToString().c_str()), m, "ToString"); }
        if (!m.empty()) CHECK_EQ(b.back(), m.back(), "back");
    }
    CHECK_EQ(std::string(b.ToCharPtr()), m, "final content");
    fcu::no_asserts("builder");
}
