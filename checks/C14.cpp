// LIB: small
#include "fcu.h"
#include "FMath/FMArray.h"
#include "FMath/FMArrayPointer.h"
#include "FMath/FMTree.h"
#include "FMath/FMSort.h"
#include <map>
#include <algorithm>
#include <memory>
using namespace pbt;

PBT_PROPERTY("C14", "Operation sequences over the dynamic array, pointer array, string, ordered map and sort, run in step with std::vector, std::string, std::map and a stable oracle; after every operation the whole observable state is compared. Non-trivial: at least four mutating operations with two or more kinds and a non-empty container at some point.")
static void init() { fcu::install(); }
struct SetInit { SetInit() { worker_init = init; } } setInit;

// An element type that owns memory and counts its live instances.
struct Obj {
    static long live;
    int* v;
    Obj() : v(new int(-1)) { ++live; }
    Obj(int x) : v(new int(x)) { ++live; }
    Obj(const Obj& o) : v(new int(*o.v)) { ++live; }
    ~Obj() { delete v; v = nullptr; --live; }
    Obj& operator=(const Obj& o) { int t = *o.v; *v = t; return *this; }
    bool operator==(const Obj& o) const { return *v == *o.v; }
    bool operator<(const Obj& o) const { return *v < *o.v; }
};
long Obj::live = 0;
// A plain element type whose constructor nevertheless sets a value.
struct Plain { int v; Plain() : v(-1) {} Plain(int x) : v(x) {} bool operator==(const Plain& o) const { return v == o.v; } bool operator<(const Plain& o) const { return v < o.v; } };
static_assert(std::is_trivially_copyable_v<Plain>);
static int val(const Plain& o) { return o.v; }
static int val(const Obj& o) { return *o.v; }
static int val(int o) { return o; }

template <class T> void same(const fm::vector<T>& a, const std::vector<int>& m, const char* op) {
    CHECK_EQ(a.size(), m.size(), "size after ", op);
    CHECK(a.empty() == m.empty(), "empty() after ", op);
    CHECK(a.capacity() >= a.size(), "capacity after ", op);
    for (size_t i = 0; i < m.size(); ++i) { CHECK_EQ(val(a.at(i)), m[i], "element ", i, " after ", op); CHECK_EQ(val(a[i]), m[i], "operator[] ", i, " after ", op); }
    size_t n = 0; for (auto it = a.begin(); it != a.end(); ++it, ++n) CHECK_EQ(val(*it), m[n], "iteration after ", op);
    CHECK_EQ(n, m.size(), "iteration length after ", op);
    if (!m.empty()) { CHECK_EQ(val(a.front()), m.front(), "front"); CHECK_EQ(val(a.back()), m.back(), "back"); }
}

template <class T> void vectorCase(Src& g, Ctx& c) {
    long live0 = Obj::live;
    {
        std::vector<std::pair<std::unique_ptr<fm::vector<T>>, std::vector<int>>> vs;
        vs.reserve(8); vs.emplace_back(new fm::vector<T>(), std::vector<int>());
        size_t nops = g.steps(40); std::set<int> kinds; size_t mut = 0, peak = 0;
        auto V = [&] { return (int) g.range(0, 9); };
        for (size_t k = 0; k < nops; ++k) {
            size_t w = g.below(vs.size());
            fm::vector<T>& a = *vs[w].first; std::vector<int>& m = vs[w].second;
            int op = (int) g.weighted({8, 6, 4, 4, 4, 3, 3, 3, 3, 3, 3, 2, 2, 2, 3, 2, 2, 3, 3, 2});
            kinds.insert(op); ++mut;
            char name[64]; snprintf(name, sizeof name, "op%d", op);
            switch (op) {
            case 0: { int x = V(); a.push_back(T(x)); m.push_back(x); c.note(cat("push_back ", x)); break; }
            case 1: { size_t i = g.below(m.size() + 1); int x = V(); auto it = a.insert(a.begin() + i, T(x)); CHECK_EQ(size_t(it - a.begin()), i, "insert result"); m.insert(m.begin() + i, x); c.note(cat("insert@", i)); break; }
            case 2: { if (m.empty()) break; size_t i = g.below(m.size()); auto it = a.erase(a.begin() + i); CHECK_EQ(size_t(it - a.begin()), i, "erase result"); m.erase(m.begin() + i); c.note(cat("erase@", i)); break; }
            case 3: { if (m.empty()) break; size_t i = g.below(m.size()), j = i + 1 + g.below(m.size() - i); a.erase(i, j); m.erase(m.begin() + i, m.begin() + j); c.note(cat("erase[", i, ",", j, ")")); break; }
            case 4: { size_t i = g.below(m.size() + 1), n = g.below(g.coin() ? 4 : 50); int x = V(); a.insert(i, n, T(x)); m.insert(m.begin() + i, n, x); c.note(cat("insert ", n, " copies@", i)); break; }
            case 5: { size_t i = g.below(m.size() + 1), n = g.below(g.coin() ? 4 : 50); std::vector<T> src; std::vector<int> ms; for (size_t q = 0; q < n; ++q) { int x = V(); src.push_back(T(x)); ms.push_back(x); }
                      a.insert(a.begin() + i, src.data(), n); m.insert(m.begin() + i, ms.begin(), ms.end()); c.note(cat("insert array of ", n, "@", i)); break; }
            case 6: { size_t n = g.below(20); int x = V(); a.resize(n, T(x)); m.resize(n, x); c.note(cat("resize ", n)); break; }
            case 7: { size_t n = g.below(40); a.reserve(n); if (m.size() > n) m.resize(n); CHECK(a.capacity() >= n); c.note(cat("reserve ", n)); break; }
            case 8: { if (m.empty()) break; a.pop_back(); m.pop_back(); c.note("pop_back"); break; }
            case 9: { if (m.empty()) break; a.pop_front(); m.erase(m.begin()); c.note("pop_front"); break; }
            case 10: { int x = V(); a.push_front(T(x)); m.insert(m.begin(), x); c.note("push_front"); break; }
            case 11: { a.clear(); m.clear(); c.note("clear"); break; }
            case 12: { if (vs.size() < 4) { vs.emplace_back(new fm::vector<T>(a), m); c.note("copy-construct"); } break; }
            case 13: { size_t o = g.below(vs.size()); *vs[o].first = a; vs[o].second = m; same(*vs[o].first, vs[o].second, "copy-assign"); c.note("assign"); break; }
            case 14: { int x = V(); bool r = a.erase(T(x)); auto f = std::find(m.begin(), m.end(), x); CHECK_EQ(r, f != m.end(), "erase by value"); if (f != m.end()) m.erase(f); c.note(cat("erase value ", x)); break; }
            case 15: { int x = V(), y = V(); if constexpr (std::is_same_v<T, int>) { a.replace(x, y); std::replace(m.begin(), m.end(), x, y); } c.note("replace"); break; }
            case 16: { a.sort(); std::sort(m.begin(), m.end()); c.note("sort"); break; }
            case 17: { size_t o = g.below(vs.size()); CHECK_EQ(a == *vs[o].first, m == vs[o].second, "operator=="); break; }
            case 18: { int x = V(); auto it = a.find(T(x)); CHECK_EQ(size_t(it - a.begin()), size_t(std::find(m.begin(), m.end(), x) - m.begin()), "find"); CHECK_EQ(a.contains(T(x)), std::find(m.begin(), m.end(), x) != m.end(), "contains"); break; }
            case 19: { size_t n = g.below(12); if constexpr (!std::is_same_v<T, int>) { a.resize(n); m.resize(n, -1); c.note(cat("resize default ", n)); } else { size_t old = m.size(); a.resize(n); m.resize(n); for (size_t q = old; q < n; ++q) { a[q] = 7; m[q] = 7; } } break; }
            }
            same(a, m, name);
            peak = std::max(peak, m.size());
        }
        for (auto& v : vs) same(*v.first, v.second, "end");
        c.nontrivial = mut >= 4 && kinds.size() >= 2 && peak > 0;
        if (peak > 32) c.label("more than 32 elements");
        fcu::no_asserts("container operations");
        if constexpr (std::is_same_v<T, Obj>) { long n = 0; for (auto& v : vs) n += (long) v.second.size(); CHECK_EQ(Obj::live - live0, n, "live elements"); }
    }
    CHECK_EQ(Obj::live, live0, "elements leaked or destroyed twice");
}
PBT_CASE(vector_trivial, 150000, 4000000) { vectorCase<int>(g, c); }
PBT_CASE(vector_objects, 150000, 4000000) { vectorCase<Obj>(g, c); }

PBT_CASE(vector_plain, 60000, 2000000) { vectorCase<Plain>(g, c); }
PBT_CASE(pointer_vector, 80000, 2000000) {
    static int pool[12];
    fm::pvector<int> a; std::vector<int*> m; size_t n = g.steps(40); std::set<int> kinds;
    for (size_t k = 0; k < n; ++k) {
        int op = (int) g.weighted({6, 4, 3, 3, 3, 3, 3, 2, 2, 2, 2}); kinds.insert(op); int* p = pool + g.below(12);
        switch (op) {
        case 0: a.push_back(p); m.push_back(p); break;
        case 1: { size_t i = g.below(m.size() + 1); auto it = a.insert(a.begin() + i, p); CHECK_EQ(size_t(it - a.begin()), i); m.insert(m.begin() + i, p); break; }
        case 2: if (!m.empty()) { size_t i = g.below(m.size()); a.erase(a.begin() + i); m.erase(m.begin() + i); } break;
        case 3: { bool r = a.erase(p); auto f = std::find(m.begin(), m.end(), p); CHECK_EQ(r, f != m.end()); if (f != m.end()) m.erase(f); break; }
        case 4: if (!m.empty()) { size_t i = g.below(m.size()), j = i + 1 + g.below(m.size() - i); a.erase(a.begin() + i, a.begin() + j); m.erase(m.begin() + i, m.begin() + j); } break;
        case 5: { std::vector<int*> s; size_t q = g.below(g.coin() ? 4 : 40); for (size_t t = 0; t < q; ++t) s.push_back(pool + g.below(12)); size_t i = g.below(m.size() + 1); a.insert(a.begin() + i, s.data(), s.data() + s.size()); m.insert(m.begin() + i, s.begin(), s.end()); break; }
        case 6: { size_t q = g.below(10); a.resize(q); m.resize(q, nullptr); break; }
        case 7: { fm::pvector<int> b(a); a.clear(); CHECK(a.empty()); a = b; break; }
        case 8: { fm::pvector<int> b; b = a; b.push_back(p); CHECK_EQ(a.size(), m.size(), "copy is independent"); break; }
        case 9: if (!m.empty()) { a.pop_back(); m.pop_back(); } break;
        case 10: { a.clear(); m.clear(); break; }
        }
        CHECK_EQ(a.size(), m.size(), "size after op", op);
        for (size_t i = 0; i < m.size(); ++i) { CHECK((int*) a[i] == m[i], "element ", i, " after op", op); CHECK(*(a.begin() + i) == m[i]); }
        CHECK_EQ(a.contains(p), std::find(m.begin(), m.end(), p) != m.end(), "contains");
        CHECK_EQ(size_t(a.find(p) - a.begin()), size_t(std::find(m.begin(), m.end(), p) - m.begin()), "find");
        if (!m.empty()) { CHECK(a.front() == m.front()); CHECK(a.back() == m.back()); }
    }
    c.note(cat(n, " pointer-array operations"));
    c.nontrivial = n >= 4 && kinds.size() >= 2;
    fcu::no_asserts("pointer array operations");
}

static std::string rndstr(Src& g, size_t max) {
    std::string s; size_t n = g.len(max); for (size_t i = 0; i < n; ++i) s += "abAB0. /\xC3\xA9"[g.below(10)]; return s;
}
PBT_CASE(strings, 300000, 8000000) {
    struct P { fm::string a; std::string m; };
    std::vector<P> ps(2); size_t n = g.steps(30); std::set<int> kinds; size_t peak = 0;
    for (size_t k = 0; k < n; ++k) {
        P& p = ps[g.below(ps.size())]; int op = (int) g.weighted({5, 4, 4, 4, 4, 3, 3, 3, 3, 3, 3, 3, 3, 2, 2, 3, 3}); kinds.insert(op);
        switch (op) {
        case 0: { std::string s = rndstr(g, 12); p.a.append(s.c_str()); p.m.append(s); c.note("append '" + s + "'"); break; }
        case 1: { std::string s = rndstr(g, 8); size_t i = g.below(p.m.size() + 3); p.a.insert(i, fm::string(s.c_str())); p.m.insert(std::min(i, p.m.size()), s); c.note(cat("insert@", i, " '", s, "'")); break; }
        case 2: { size_t i = g.below(p.m.size() + 2), j = g.coin() ? fm::string::npos : g.below(p.m.size() + 4); p.a.erase(i, j); if (i < p.m.size() && i < j) p.m.erase(i, std::min(j, p.m.size()) - i); c.note(cat("erase ", i, "..", (long) j)); break; }
        case 3: { std::string s = rndstr(g, 8); size_t cnt = g.below(10); p.a.append(s.c_str(), cnt); p.m.append(s, 0, cnt); c.note(cat("append(,", cnt, ")")); break; }
        case 4: { char ch = "abz"[g.below(3)]; p.a.append(ch); p.m += ch; c.note("append char"); break; }
        case 5: { std::string s = rndstr(g, 10); p.a = s.c_str(); p.m = s; c.note("assign '" + s + "'"); break; }
        case 6: { size_t i = g.below(p.m.size() + 2), q = g.coin() ? fm::string::npos : g.below(p.m.size() + 3); fm::string s = p.a.substr(i, q); std::string t = i >= p.m.size() ? std::string() : p.m.substr(i, q); CHECK_EQ(std::string(s.c_str()), t, "substr(", i, ",", (long) q, ") of '", p.m, "'"); CHECK_EQ(s.length(), t.size()); s.append('x'); CHECK_EQ(std::string(s.c_str()), t + "x", "append after substr"); break; }
        case 7: { std::string s = rndstr(g, 4); size_t off = g.below(p.m.size() + 1); size_t e = s.empty() ? std::string::npos : p.m.find(s, off);
                  CHECK_EQ(p.a.find(fm::string(s.c_str()), off), e, "find(string) '", s, "' in '", p.m, "'"); CHECK_EQ(p.a.find(s.c_str(), off), e, "find(chars) '", s, "' in '", p.m, "'"); break; }
        case 8: { char ch = "abAB0.z"[g.below(7)]; size_t off = g.below(p.m.size() + 1); CHECK_EQ(p.a.find(ch, off), p.m.find(ch, off), "find(char)"); size_t r = p.m.rfind(ch); if (r != std::string::npos && r < off) r = std::string::npos; CHECK_EQ(p.a.rfind(ch, off), r, "rfind(char)"); break; }
        case 9: { std::string s = rndstr(g, 3); size_t off = g.below(p.m.size() + 1); size_t e = s.empty() ? std::string::npos : p.m.rfind(s); if (e != std::string::npos && e < off) e = std::string::npos;
                  CHECK_EQ(p.a.rfind(s.c_str(), off), e, "rfind(chars) '", s, "' in '", p.m, "'"); CHECK_EQ(p.a.rfind(fm::string(s.c_str()), off), e, "rfind(string)"); break; }
        case 10: { std::string s = rndstr(g, 5); size_t off = g.below(p.m.size() + 1); CHECK_EQ(p.a.find_first_of(s.c_str(), off), p.m.find_first_of(s, off), "find_first_of '", s, "' from ", off, " in '", p.m, "'"); break; }
        case 11: { std::string s = rndstr(g, 5); size_t off = g.below(p.m.size() + 1); CHECK_EQ(p.a.find_last_of(s.c_str()), p.m.find_last_of(s), "find_last_of"); CHECK_EQ(p.a.find_last_of(s.c_str(), off), p.m.substr(0, p.m.size() - off).find_last_of(s), "find_last_of less ", off, " from the end '", s, "' in '", p.m, "'"); break; }
        case 12: { P& q = ps[g.below(ps.size())]; int r = strcmp(p.m.c_str(), q.m.c_str()); CHECK_EQ(p.a == q.a, r == 0, "=="); CHECK_EQ(p.a != q.a, r != 0, "!="); CHECK_EQ(p.a < q.a, r == 0 ? false : [&] { size_t i = 0; while (p.m.c_str()[i] && q.m.c_str()[i] && p.m[i] == q.m[i]) ++i; return p.m.c_str()[i] < q.m.c_str()[i]; }(), "<"); CHECK_EQ(p.a == q.m.c_str(), r == 0); CHECK_EQ(IsEquivalent(p.a, q.a), r == 0); break; }
        case 13: if (!p.m.empty()) { p.a.pop_back(); p.m.pop_back(); c.note("pop_back"); } break;
        case 14: { P q = p; q.a.append("q"); q.m += "q"; CHECK_EQ(std::string(q.a.c_str()), q.m, "copy"); break; }
        case 15: { P& q = ps[g.below(ps.size())]; std::string t = p.m + q.m; fm::string s = p.a + q.a; CHECK_EQ(std::string(s.c_str()), t, "operator+"); if (t.size() < 300) { if (&p != &q) { p.a += q.a; p.m = t; } } break; }
        case 16: { size_t q = g.below(6); char ch = g.coin() ? 'k' : 'm'; fm::string s(q, ch); CHECK_EQ(std::string(s.c_str()), std::string(q, ch), "string(count, char)"); std::string t = rndstr(g, 8); fm::string u(t.c_str(), q); CHECK_EQ(std::string(u.c_str()), t.substr(0, q), "string(chars, count)"); u.append('w'); CHECK_EQ(std::string(u.c_str()), t.substr(0, q) + "w", "append after string(chars, ", q, ")"); break; }
        }
        CHECK_EQ(std::string(p.a.c_str()), p.m, "content after op", op);
        CHECK_EQ(p.a.length(), p.m.size(), "length after op", op); CHECK_EQ(p.a.size(), p.m.size()); CHECK_EQ(p.a.empty(), p.m.empty());
        if (!p.m.empty()) { CHECK_EQ(p.a.back(), p.m.back(), "back"); CHECK_EQ(p.a.front(), p.m.front(), "front"); }
        peak = std::max(peak, p.m.size());
    }
    c.nontrivial = n >= 4 && kinds.size() >= 2 && peak > 0;
    fcu::no_asserts("string operations");
}

template <class K> static K key(int i);
template <> int key<int>(int i) { return i; }
template <> fm::string key<fm::string>(int i) { std::string s; do { s += char('a' + i % 3); i /= 3; } while (i); return fm::string(s.c_str()); }
static std::string mk(const fm::string& s) { return s.c_str(); }
static int mk(int i) { return i; }

template <class K, class MK> void mapCase(Src& g, Ctx& c) {
    typedef fm::map<K, int> M; M a; std::map<MK, int> m; size_t n = g.steps(250); int universe = (int) g.range(3, 80); size_t peak = 0, er = 0, ins = 0;
    auto same = [&](const M& t, const std::map<MK, int>& r, const char* op) {
        CHECK_EQ(t.size(), r.size(), "size after ", op); CHECK_EQ(t.empty(), r.empty());
        auto i = r.begin(); size_t cnt = 0;
        for (typename M::const_iterator it = t.begin(); it != t.end(); ++it, ++i) { CHECK(i != r.end(), "iteration longer than the map after ", op); CHECK(mk((*it).first) == i->first, "order after ", op); CHECK_EQ((*it).second, i->second, "value after ", op); if (++cnt > r.size()) break; }
        CHECK(i == r.end(), "iteration shorter than the map after ", op);
        if (!r.empty()) { typename M::const_iterator l = t.last(); CHECK(mk(l->first) == r.rbegin()->first, "last()"); auto q = r.rbegin(); for (size_t z = 0; z < r.size(); ++z, ++q) { CHECK(mk(l->first) == q->first, "backwards iteration after ", op); if (z + 1 < r.size()) --l; } }
    };
    for (size_t k = 0; k < n; ++k) {
        int op = (int) g.weighted({10, 6, 3, 3, 1, 2, 2}); int i = (int) g.below(universe); K kk = key<K>(i); MK mm = mk(kk);
        switch (op) {
        case 0: { auto it = a.insert(kk, (int) k); m[mm] = (int) k; CHECK(it->second == (int) k && mk(it->first) == mm, "insert result"); ++ins; break; }
        case 1: { a.erase(kk); m.erase(mm); ++er; break; }
        case 2: { CHECK_EQ(++a[kk], ++m[mm], "operator[]"); break; }
        case 3: { auto it = a.find(kk); CHECK_EQ(it != a.end(), m.count(mm) == 1, "find"); if (m.count(mm)) { CHECK_EQ(it->second, m[mm]); a.erase(it); m.erase(mm); ++er; } break; }
        case 4: { a.clear(); m.clear(); break; }
        case 5: { if (g.coin()) { M b2(a); same(b2, m, "copy construction"); b2.insert(key<K>(universe + 1), 4); b2.clear(); a = *&a; } M b; b.insert(key<K>(1), 5); b = a; same(b, m, "assignment"); b.erase(kk); b.insert(key<K>((i + 1) % universe), 3); break; }
        case 6: { M b; b = a; a.clear(); same(b, m, "assignment then clear of the source"); for (auto& e : m) { auto it = b.find(key<K>(0)); (void) it; a.insert(b.begin()->first, b.begin()->second); b.erase(b.begin()); (void) e; } break; }
        }
        same(a, m, "op"); peak = std::max(peak, m.size());
    }
    c.note(cat(n, " map operations, ", ins, " inserts, ", er, " erases, peak ", peak));
    c.nontrivial = ins >= 2 && er >= 1 && peak >= 2;
    if (peak >= 20) c.label("20 or more keys");
    fcu::no_asserts("map operations");
}
PBT_CASE(map_int, 30000, 800000) { mapCase<int, int>(g, c); }
PBT_CASE(map_string, 12000, 300000) { mapCase<fm::string, std::string>(g, c); }

PBT_CASE(sorting, 100000, 2000000) {
    size_t n = g.len(200); fm::vector<int> a; std::vector<int> m; int u = (int) g.range(1, 300);
    for (size_t i = 0; i < n; ++i) { int x = (int) g.below(u); a.push_back(x); m.push_back(x); }
    bool inv = g.coin();
    if (inv) { fm::icomparator<int> cmp; a.sort(cmp); std::sort(m.begin(), m.end(), std::greater<int>()); } else { a.sort(); std::sort(m.begin(), m.end()); }
    CHECK_EQ(a.size(), m.size());
    for (size_t i = 0; i < n; ++i) CHECK_EQ(a[i], m[i], "sorted element ", i);
    c.note(cat("sort ", n, " values", inv ? " descending" : "")); c.nontrivial = n >= 2;
}
