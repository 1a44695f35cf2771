#include "docgen.h"
#include "FCDocument/FCDGeometryPolygonsTools.h"
#include "FCDocument/FCDControllerTools.h"
#include "FCDocument/FCDAnimationChannel.h"
#include "FMath/FMColor.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
using namespace pbt;
using namespace dg;
PBT_PROPERTY("C19", "Generated meshes with every primitive type, holes, shared index streams, several sets and animated values, taken through tools and face edits and compared face-vertex by face-vertex before and after. Non-trivial: a mesh with a shared stream or with several streams on which at least two tools changed something; an edit of a set with holes; a tangent basis with at least three regular vertices; a packing into several parts.")
struct SetInit { SetInit() { worker_init = dg::init; } } setInit;
typedef std::pair<std::pair<int, int>, std::vector<float>> Attr; // semantic and set, value
struct Face { bool hole; size_t n; bool operator==(const Face& o) const { return hole == o.hole && n == o.n; } };
typedef std::vector<std::vector<Attr>> Corners;
struct Snap { int prim; std::string material; std::vector<Face> f; Corners v; std::vector<uint32> pos; };
static Snap snap(FCDGeometryPolygons* p) {
    Snap s; s.prim = p->GetPrimitiveType(); s.material = p->GetMaterialSemantic().c_str(); size_t total = 0; for (size_t i = 0; i < p->GetFaceVertexCountCount(); ++i) { s.f.push_back({ p->IsHoleFaceHole(i), p->GetFaceVertexCounts()[i] }); total += s.f.back().n; }
    for (size_t i = 0; i < p->GetHoleFaceCount(); ++i) CHECK(p->GetHoleFaces()[i] < s.f.size(), "hole ", i, " names face ", p->GetHoleFaces()[i], " of ", s.f.size());
    s.v.resize(total); for (size_t i = 0; i < p->GetInputCount(); ++i) { FCDGeometryPolygonsInput* in = p->GetInput(i); FCDGeometrySource* src = in->GetSource(); if (!src || in->GetIndexCount() == 0) continue; CHECK(in->GetIndexCount() == total, "an input has ", in->GetIndexCount(), " indices for ", total, " face-vertices");
        for (size_t k = 0; k < total; ++k) { uint32 x = in->GetIndices()[k]; CHECK(x < src->GetValueCount(), "an index leads to value ", x, " of ", src->GetValueCount()); const float* v = src->GetData() + x * src->GetStride(); s.v[k].push_back({ { in->GetSemantic(), in->GetSet() }, std::vector<float>(v, v + src->GetStride()) }); if (in->GetSemantic() == FUDaeGeometryInput::POSITION) s.pos.push_back(x); } }
    for (auto& v : s.v) std::sort(v.begin(), v.end()); return s;
}
static std::vector<Snap> snap(FCDGeometryMesh* m) { std::vector<Snap> r; for (size_t i = 0; i < m->GetPolygonsCount(); ++i) r.push_back(snap(m->GetPolygons(i))); return r; }
static void same_corners(const Corners& a, size_t ai, const Corners& b, size_t bi, size_t n, const std::string& what, bool more = false) {
    for (size_t i = 0; i < n; ++i) CHECK(more ? std::includes(b[bi + i].begin(), b[bi + i].end(), a[ai + i].begin(), a[ai + i].end()) : a[ai + i] == b[bi + i], what, ": face-vertex ", bi + i, " has other attributes than face-vertex ", ai + i, " had");
}
static void same_set(const Snap& a, const Snap& b, const std::string& what, bool more = false) { CHECK(a.prim == b.prim, what, " has another primitive type"); CHECK(a.material == b.material, what, " has another material"); CHECK(a.f == b.f, what, " has other faces"); same_corners(a.v, 0, b.v, 0, a.v.size(), what, more); }
static void stats(FCDGeometryMesh* m) {
    size_t f = 0, h = 0, v = 0; for (size_t i = 0; i < m->GetPolygonsCount(); ++i) { FCDGeometryPolygons* p = m->GetPolygons(i); size_t pf = 0, ph = 0, pv = 0; for (size_t k = 0; k < p->GetFaceVertexCountCount(); ++k) { (p->IsHoleFaceHole(k) ? ph : pf)++; pv += p->GetFaceVertexCounts()[k]; }
        CHECK(p->GetFaceCount() == pf && p->GetHoleCount() == ph && p->GetFaceVertexCount() == pv, "set ", i, " says it has ", p->GetFaceCount(), " faces, ", p->GetHoleCount(), " holes and ", p->GetFaceVertexCount(), " face-vertices, not ", pf, ", ", ph, " and ", pv);
        CHECK(p->GetFaceOffset() == f && p->GetHoleOffset() == h && p->GetFaceVertexOffset() == v, "set ", i, " says it starts at ", p->GetFaceOffset(), ", ", p->GetHoleOffset(), ", ", p->GetFaceVertexOffset(), ", not ", f, ", ", h, ", ", v); f += pf; h += ph; v += pv; }
    CHECK(m->GetFaceCount() == f && m->GetHoleCount() == h && m->GetFaceVertexCount() == v, "the mesh says it has ", m->GetFaceCount(), " faces, ", m->GetHoleCount(), " holes and ", m->GetFaceVertexCount(), " face-vertices, not ", f, ", ", h, " and ", v);
}
static FCDGeometryMesh* make(Gen& G, bool grid) {
    G.extras = false; FCDGeometryMesh* m = G.doc->GetGeometryLibrary()->AddEntity()->CreateMesh(); G.mesh(m); Src& g = G.g;
    if (grid) for (size_t i = 0; i < m->GetSourceCount(); ++i) { FCDGeometrySource* s = m->GetSource(i); for (size_t k = 0; k < s->GetDataCount(); ++k) s->GetSourceData().set(k, (float) g.range(-16, 16) / 4); }
    return m;
}
// ---- triangulation
static void triangulated(const Snap& a, const Snap& b, size_t set) {
    std::string what = cat("triangulated set ", set); if (a.prim == FCDGeometryPolygons::LINES || a.prim == FCDGeometryPolygons::LINE_STRIPS || a.prim == FCDGeometryPolygons::POINTS) { same_set(a, b, what); return; }
    CHECK_EQ(b.prim, (int) FCDGeometryPolygons::POLYGONS); CHECK(a.material == b.material, what, " has another material"); size_t at = 0, from = 0, faces = 0;
    for (auto& f : a.f) { if (!f.hole && f.n >= 3) for (size_t t = 0; t + 2 < f.n; ++t, at += 3, ++faces) { size_t x = 0, y = t + 1, z = t + 2; if (a.prim == FCDGeometryPolygons::TRIANGLE_STRIPS) { x = t; if (t & 1) std::swap(y, z); }
            CHECK(at + 3 <= b.v.size() && faces < b.f.size() && b.f[faces].n == 3 && !b.f[faces].hole, what, ": triangle ", faces, " is missing or has another number of vertices"); same_corners(a.v, from + x, b.v, at, 1, what); same_corners(a.v, from + y, b.v, at + 1, 1, what); same_corners(a.v, from + z, b.v, at + 2, 1, what); } from += f.n; }
    CHECK(faces == b.f.size(), what, " has ", b.f.size(), " faces, not ", faces);
}
// ---- splitting
static void fitted(const std::vector<Snap>& a, const std::vector<Snap>& b, size_t limit, bool& split) {
    size_t next = a.size(); for (size_t s = 0; s < a.size(); ++s) {
        size_t f = 0, v = 0; std::string what = cat("set ", s); if (a[s].prim == FCDGeometryPolygons::POINTS || a[s].f.empty()) { same_set(a[s], b[s], what); continue; }
        for (size_t part = s;;) { const Snap& p = b[part]; CHECK(p.prim == a[s].prim, what, " was split into a set of another primitive type"); CHECK(p.material == a[s].material, what, " was split into a set with another material"); CHECK(f + p.f.size() <= a[s].f.size() && std::equal(p.f.begin(), p.f.end(), a[s].f.begin() + f), what, " was split into faces that are not its own: part at ", part, " has ", p.f.size(), " after ", f, " of ", a[s].f.size()); same_corners(a[s].v, v, p.v, 0, p.v.size(), what);
            size_t solid = 0; for (auto& x : p.f) solid += !x.hole; CHECK(p.v.size() <= limit || solid == 1, what, " was split into a set with ", p.v.size(), " indices and ", solid, " faces; the limit is ", limit); CHECK(p.f.size() && !p.f[0].hole, what, " was split into a set that is empty or starts with a hole"); f += p.f.size(); v += p.v.size(); if (f == a[s].f.size()) break; split = true; part = next++; CHECK(part < b.size(), what, " has lost ", a[s].f.size() - f, " faces"); }
        if (a[s].v.size() <= limit) CHECK(b[s].f.size() == a[s].f.size(), what, " was split although it fits");
    }
    CHECK(next == b.size(), "there are ", b.size(), " sets, not ", next);
}
static void unique(FCDGeometryPolygons* p, const Corners& streams, const std::string& what) { // one list of indices, and as few values as possible
    std::vector<uint32> ix; for (size_t i = 0; i < p->GetInputCount(); ++i) { FCDGeometryPolygonsInput* in = p->GetInput(i); if (in->GetSource()->GetDataCount() == 0) continue; std::vector<uint32> x(in->GetIndices(), in->GetIndices() + in->GetIndexCount()); if (ix.empty()) ix = x; CHECK(x == ix, what, ": input ", i, " has other indices than the first input"); }
    std::map<std::vector<Attr>, uint32> m; std::map<uint32, const std::vector<Attr>*> r; for (size_t k = 0; k < streams.size() && k < ix.size(); ++k) { auto it = m.insert({ streams[k], ix[k] }); CHECK(it.first->second == ix[k], what, ": face-vertex ", k, " has index ", ix[k], ", an equal one has ", it.first->second); auto jt = r.insert({ ix[k], &streams[k] }); CHECK(*jt.first->second == streams[k], what, ": face-vertices with different indices share index ", ix[k]); }
}
static Corners streams(FCDGeometryPolygons* p) { Corners c; std::set<uint32> done; for (size_t i = 0; i < p->GetInputCount(); ++i) { FCDGeometryPolygonsInput* in = p->GetInput(i); if (!done.insert(in->GetOffset()).second || in->GetIndexCount() == 0) continue; c.resize(in->GetIndexCount()); for (size_t k = 0; k < c.size(); ++k) c[k].push_back({ { (int) in->GetOffset(), (int) in->GetIndices()[k] }, {} }); } return c; }
static bool points(FCDGeometryMesh* m) { for (size_t i = 0; i < m->GetPolygonsCount(); ++i) if (m->GetPolygons(i)->GetPrimitiveType() == FCDGeometryPolygons::POINTS) return true; return false; }
typedef std::map<uint32, std::set<uint32>> Moves;
static Moves moves(const FCDGeometryIndexTranslationMap& m) { Moves r; for (FCDGeometryIndexTranslationMap::const_iterator it = m.begin(); it != m.end(); ++it) for (uint32 x : it->second) CHECK(r[it->first].insert(x).second, "index ", x, " is listed twice for ", it->first); return r; }
struct Maps : FCDGeometryIndexTranslationMapList { ~Maps() { for (size_t i = 0; i < size(); ++i) delete at(i); } };
PBT_CASE(tools, 18000, 700000) {
    Doc d; Gen G(g, d.d); FCDGeometryMesh* m = make(G, true); FCDAnimationChannel* ch = NULL; bool shared = false; int changed = 0; bool animated = g.chance(1, 3);
    for (size_t q = 0; q < m->GetPolygonsCount(); ++q) { std::map<uint32, int> o; for (size_t i = 0; i < m->GetPolygons(q)->GetInputCount(); ++i) o[m->GetPolygons(q)->GetInput(i)->GetOffset()]++; for (auto& x : o) shared |= x.second > 1; shared |= o.size() > 1; }
    if (animated) { ch = d.d->GetAnimationLibrary()->AddEntity()->AddChannel(); for (size_t k = 1 + g.below(4); k-- > 0;) { FCDGeometrySource* s = m->GetSource(g.below(m->GetSourceCount())); if (!s->GetDataCount()) continue; size_t i = g.below(s->GetDataCount()); FCDAnimated* a = s->GetSourceData().GetAnimated(i); if (a->HasCurve()) continue; FCDAnimationCurve* c = ch->AddCurve(); for (int t = 0; t < 2; ++t) { FCDAnimationKey* x = c->AddKey(FUDaeInterpolation::LINEAR); x->input = (float) t; x->output = (float) g.range(-400, 400) / 4; } a->AddCurve(0, c); } }
    auto at = [&](float t) { d.d->SetCurrentTime(t); return snap(m); };
    for (size_t steps = 1 + g.below(4); steps-- > 0;) {
        std::vector<Snap> a0 = at(0), a1 = animated ? at(1) : a0; size_t one = g.below(m->GetPolygonsCount()); bool split = false;
        auto both = [&](auto f) { std::vector<Snap> b0 = at(0); f(a0, b0); if (animated) { std::vector<Snap> b1 = at(1); f(a1, b1); } };
        switch (g.below(6)) {
        case 0: c.note("triangulate"); FCDGeometryPolygonsTools::Triangulate(m); both([&](auto& a, auto& b) { CHECK_EQ(a.size(), b.size()); for (size_t i = 0; i < a.size(); ++i) triangulated(a[i], b[i], i); }); stats(m); ++changed; break;
        case 1: c.note(cat("triangulate set ", one)); FCDGeometryPolygonsTools::Triangulate(m->GetPolygons(one)); both([&](auto& a, auto& b) { CHECK_EQ(a.size(), b.size()); for (size_t i = 0; i < a.size(); ++i) if (i == one) triangulated(a[i], b[i], i); else same_set(a[i], b[i], cat("set ", i)); }); stats(m); ++changed; break;
        case 2: { size_t limit = g.chance(1, 8) ? 1 + g.below(3) : 3 + g.len(24); c.note(cat("fit to ", limit)); FCDGeometryPolygonsTools::FitIndexBuffers(m, limit); both([&](auto& a, auto& b) { fitted(a, b, limit, split); }); stats(m); if (split) ++changed, c.label("split"); break; }
        case 3: { if (g.coin()) break; c.note("reverse"); FCDGeometryPolygonsTools::ReverseNormals(m); if (animated) { FCDGeometryPolygonsTools::ReverseNormals(m); break; } std::vector<Snap> b = snap(m); for (auto& s : b) for (auto& v : s.v) { for (auto& x : v) { int t = x.first.first; if (t == FUDaeGeometryInput::NORMAL || t == FUDaeGeometryInput::GEOTANGENT || t == FUDaeGeometryInput::GEOBINORMAL || t == FUDaeGeometryInput::TEXTANGENT || t == FUDaeGeometryInput::TEXBINORMAL) for (float& f : x.second) f = f == 0 ? 0 : -f; } std::sort(v.begin(), v.end()); } for (size_t i = 0; i < b.size(); ++i) same_set(a0[i], b[i], cat("reversed set ", i)); break; }
        case 4: case 5: { bool whole = g.coin(), pts = points(m); c.note(whole ? "unique indices" : cat("unique indices of set ", one)); FCDGeometryPolygons* p = whole ? NULL : m->GetPolygons(one); std::vector<Corners> st; for (size_t i = 0; i < m->GetPolygonsCount(); ++i) st.push_back(streams(m->GetPolygons(i))); bool twice = false; for (size_t i = 0; i < m->GetPolygonsCount(); ++i) { std::set<FCDGeometrySource*> u; for (size_t k = 0; k < m->GetPolygons(i)->GetInputCount(); ++k) twice |= !u.insert(m->GetPolygons(i)->GetInput(k)->GetSource()).second; }
            FCDNewIndicesList want; Maps maps; std::vector<Moves> mv; size_t sources = m->GetSourceCount(); if (!pts) { FCDGeometryPolygonsTools::GenerateUniqueIndices(m, p, want, maps); std::vector<Snap> b = at(0); CHECK(b.size() == a0.size(), "generating a map adds sets"); for (size_t i = 0; i < b.size(); ++i) same_set(a0[i], b[i], cat("set ", i, ", of which a map was generated,")); for (size_t i = 0; i < maps.size(); ++i) mv.push_back(moves(*maps[i])); CHECK_EQ(mv.size(), sources); }
            std::vector<std::map<size_t, std::vector<uint32>>> old(m->GetPolygonsCount()); for (size_t i = 0; i < m->GetPolygonsCount(); ++i) for (size_t s = 0; s < sources; ++s) if (auto* in = m->GetPolygons(i)->FindInput(m->GetSource(s))) old[i][s].assign(in->GetIndices(), in->GetIndices() + in->GetIndexCount());
            FCDGeometryIndexTranslationMap tm; FCDGeometryPolygonsTools::GenerateUniqueIndices(m, p, &tm); Moves pm = moves(tm), want_pm; both([&](auto& a, auto& b) { CHECK_EQ(a.size(), b.size()); for (size_t i = 0; i < a.size(); ++i) same_set(a[i], b[i], cat("set ", i, ", after generating unique indices,"), whole); });
            if (!pts) { std::vector<Moves> want_mv(sources); for (size_t i = 0; i < m->GetPolygonsCount(); ++i) if (whole || i == one) { FCDGeometryPolygons* q = m->GetPolygons(i); unique(q, st[i], cat("set ", i)); if (st[i].empty()) continue; FCDGeometryPolygonsInput* in = q->FindInput(FUDaeGeometryInput::POSITION); CHECK(in != NULL, "set ", i, " has no positions"); const UInt32List& w = want[whole ? i : 0]; CHECK(w.size() == in->GetIndexCount() && std::equal(w.begin(), w.end(), in->GetIndices()), "the generated map has other indices for set ", i); for (auto& o : old[i]) for (size_t k = 0; k < o.second.size(); ++k) { want_mv[o.first][o.second[k]].insert(in->GetIndices()[k]); if (m->GetSource(o.first)->GetType() == FUDaeGeometryInput::POSITION) want_pm[o.second[k]].insert(in->GetIndices()[k]); } }
                CHECK(pm == want_pm, "the translation map does not say where the positions went"); for (size_t s = 0; s < sources; ++s) CHECK(mv[s] == want_mv[s], "the generated translation map of source ", s, " does not say where its values went"); }
            ++changed; if (twice) c.label("a source used twice"); break; }
        }
        fcu::no_asserts("the tool");
    }
    if (animated) c.label("animated"); c.nontrivial = shared && changed > 1;
}
// ---- editing faces and inputs
PBT_CASE(editing, 25000, 900000) {
    Doc d; Gen G(g, d.d); FCDGeometryMesh* m = make(G, true); bool holes = false; std::vector<Snap> want = snap(m);
    for (size_t steps = g.steps(12); steps-- > 0;) {
        size_t i = g.below(m->GetPolygonsCount()); FCDGeometryPolygons* p = m->GetPolygons(i); Snap& w = want[i];
        switch (g.weighted({5, 4, 2, 1, 1})) {
        case 0: { std::vector<size_t> solid; for (size_t k = 0; k < w.f.size(); ++k) if (!w.f[k].hole) solid.push_back(k); if (solid.empty()) break; size_t k = g.below(solid.size()), b = solid[k], e = b + 1; while (e < w.f.size() && w.f[e].hole) ++e; size_t v = 0, n = 0; for (size_t x = 0; x < b; ++x) v += w.f[x].n; for (size_t x = b; x < e; ++x) n += w.f[x].n; c.note(cat("set ", i, ": remove face ", k, " of ", solid.size()));
            CHECK(p->GetFaceVertexOffset(k) == v && p->GetFaceVertexCount(k) == n && p->GetHoleCount(k) == e - b - 1, "face ", k, " starts at ", p->GetFaceVertexOffset(k), " with ", p->GetFaceVertexCount(k), " face-vertices and ", p->GetHoleCount(k), " holes, not at ", v, " with ", n, " and ", e - b - 1); for (auto& x : w.f) holes |= x.hole;
            p->RemoveFace(k); w.f.erase(w.f.begin() + b, w.f.begin() + e); w.v.erase(w.v.begin() + v, w.v.begin() + v + n); break; }
        case 1: { size_t n = 3 + g.below(4), old = w.v.size(); bool any = false; for (size_t x = 0; x < p->GetInputCount(); ++x) any |= p->GetInput(x)->GetSource() && p->GetInput(x)->GetSource()->GetValueCount(); if (!any) break; c.note(cat("set ", i, ": add a face of ", n)); p->AddFace((uint32) n); std::map<uint32, uint32> range; for (size_t x = 0; x < p->GetInputCount(); ++x) { FCDGeometryPolygonsInput* in = p->GetInput(x); if (!in->GetSource()) continue; uint32 r = (uint32) in->GetSource()->GetValueCount(); range[in->GetOffset()] = range.count(in->GetOffset()) ? std::min(range[in->GetOffset()], r) : r; }
            for (size_t x = 0; x < p->GetInputCount(); ++x) { FCDGeometryPolygonsInput* in = p->GetInput(x); if (!in->GetSource()) continue; CHECK(in->GetIndexCount() == old + n, "input ", x, " has ", in->GetIndexCount(), " indices after a face of ", n, " is added to ", old); if (in->OwnsIndices()) for (size_t k = old; k < old + n; ++k) in->GetIndices()[k] = (uint32) g.below(range[in->GetOffset()]); }
            Snap now = snap(p); w.f.push_back({ false, n }); CHECK(now.v.size() == old + n, "set ", i, " has ", now.v.size(), " face-vertices"); w.v.insert(w.v.end(), now.v.begin() + old, now.v.end()); break; }
        case 2: { std::vector<size_t> can; for (size_t x = 0; x < p->GetInputCount(); ++x) if (p->GetInput(x)->GetSource() && p->GetInput(x)->GetSemantic() != FUDaeGeometryInput::POSITION) can.push_back(x); if (can.empty() || w.v.empty()) break; size_t x = can[g.below(can.size())]; FCDGeometryPolygonsInput* in = p->GetInput(x); c.note(cat("set ", i, ": release input ", x)); FCDGeometrySource* s = in->GetSource(); for (size_t k = 0; k < w.v.size(); ++k) { const float* v = s->GetData() + in->GetIndices()[k] * s->GetStride(); auto it = std::find(w.v[k].begin(), w.v[k].end(), Attr { { in->GetSemantic(), in->GetSet() }, std::vector<float>(v, v + s->GetStride()) }); CHECK(it != w.v[k].end(), "face-vertex ", k, " lacks an attribute"); w.v[k].erase(it); } in->Release(); break; }
        case 3: { if (m->GetSourceCount() < 2) break; FCDGeometrySource* s = m->GetSource(g.below(m->GetSourceCount())); if (s->GetType() == FUDaeGeometryInput::POSITION || m->IsVertexSource(s)) break; c.note("release a source"); for (size_t q = 0; q < m->GetPolygonsCount(); ++q) for (size_t x = 0; x < m->GetPolygons(q)->GetInputCount(); ++x) { FCDGeometryPolygonsInput* in = m->GetPolygons(q)->GetInput(x); if (in->GetSource() != s) continue; for (size_t k = 0; k < in->GetIndexCount(); ++k) { const float* v = s->GetData() + in->GetIndices()[k] * s->GetStride(); auto& u = want[q].v[k]; auto it = std::find(u.begin(), u.end(), Attr { { in->GetSemantic(), in->GetSet() }, std::vector<float>(v, v + s->GetStride()) }); CHECK(it != u.end(), "face-vertex ", k, " lacks an attribute"); u.erase(it); } }
            s->Release(); for (size_t q = 0; q < m->GetPolygonsCount(); ++q) for (size_t x = m->GetPolygons(q)->GetInputCount(); x-- > 0;) if (!m->GetPolygons(q)->GetInput(x)->GetSource()) m->GetPolygons(q)->GetInput(x)->Release(); break; }
        default: { if (m->GetPolygonsCount() < 2) break; c.note(cat("release set ", i)); p->Release(); want.erase(want.begin() + i); m->Recalculate(); break; }
        }
        std::vector<Snap> b = snap(m); CHECK_EQ(b.size(), want.size()); for (size_t k = 0; k < b.size(); ++k) same_set(want[k], b[k], cat("set ", k)); stats(m); fcu::no_asserts("the edit");
    }
    c.nontrivial = holes;
}
// ---- tangents
struct V3 { double x, y, z; }; static V3 sub(V3 a, V3 b) { return { a.x - b.x, a.y - b.y, a.z - b.z }; } static double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; } static V3 mul(V3 a, double s) { return { a.x * s, a.y * s, a.z * s }; } static V3 add(V3 a, V3 b) { return { a.x + b.x, a.y + b.y, a.z + b.z }; } static V3 cross(V3 a, V3 b) { return { a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x }; } static double len(V3 a) { return std::sqrt(dot(a, a)); } static V3 v3(const float* f) { return { f[0], f[1], f[2] }; }
PBT_CASE(tangents, 20000, 700000) {
    Doc d; FCDGeometryMesh* m = d.d->GetGeometryLibrary()->AddEntity()->CreateMesh(); size_t N = 3 + g.below(6), NN = 1 + g.below(4), NT = 3 + g.below(6); auto put = [&](FCDGeometrySource* s, size_t n, uint32 stride, int kind) { FloatList l; for (size_t i = 0; i < n; ++i) { float v[4]; for (int k = 0; k < 4; ++k) v[k] = (float) g.range(-8, 8) / 2; if (kind == 1) { static const float s3 = 0.57735027f; static const float u[][3] = { {0,0,1}, {0,1,0}, {1,0,0}, {0.6f,0,0.8f}, {0,-0.6f,0.8f}, {s3,s3,s3}, {s3,-s3,s3} }; auto& q = u[g.below(7)]; for (int k = 0; k < 3; ++k) v[k] = q[k]; } for (uint32 k = 0; k < stride; ++k) l.push_back(v[k % 4]); } s->SetData(l, stride); };
    bool vn = g.chance(1, 3); put(m->AddVertexSource(FUDaeGeometryInput::POSITION), N, 3 + (uint32) g.below(2), 0); FCDGeometrySource* nor; if (vn) { nor = m->AddVertexSource(FUDaeGeometryInput::NORMAL); NN = N; } else nor = m->AddSource(FUDaeGeometryInput::NORMAL); put(nor, NN, 3, 1); FCDGeometrySource* tex = m->AddSource(FUDaeGeometryInput::TEXCOORD); tex->SetDaeId("uv"); put(tex, NT, 2 + (uint32) g.below(2), 0); FCDGeometrySource* tex2 = m->AddSource(FUDaeGeometryInput::TEXCOORD); put(tex2, NT, 2, 0);
    size_t sets = 1 + g.below(3); std::vector<bool> uses; for (size_t q = 0; q < sets; ++q) { FCDGeometryPolygons* p = m->AddPolygons(); size_t total = 0; for (size_t f = 1 + g.below(4); f-- > 0;) { uint32 n = g.chance(1, 12) ? (uint32) g.range(1, 2) : (uint32) g.range(3, 5); p->AddFaceVertexCount(n); total += n; } auto fill = [&](FCDGeometryPolygonsInput* in, size_t range) { std::vector<uint32> x; for (size_t k = 0; k < total; ++k) x.push_back((uint32) (g.coin() ? k % range : g.below(range))); in->SetIndices(x.data(), x.size()); }; fill(p->GetInput(0), N);
        if (!vn) fill(p->AddInput(nor, 1), NN); bool u = g.chance(4, 5); uses.push_back(u); if (u) { auto* in = p->AddInput(tex, 2); in->SetSet(g.range(-1, 3)); fill(in, NT); } if (g.coin()) { auto* in = p->AddInput(tex2, (uint32) (3 + g.below(3))); in->SetSet(7); fill(in, NT); } }
    m->Recalculate(); auto before = snap(m); bool bin = g.coin(); size_t sources = m->GetSourceCount(); FCDGeometryPolygonsTools::GenerateTextureTangentBasis(m, tex, bin); fcu::no_asserts("the tool"); auto after = snap(m); bool used = std::count(uses.begin(), uses.end(), true) > 0; CHECK_EQ(m->GetSourceCount(), sources + (used ? 1 + bin : 0));
    const FUDaeGeometryInput::Semantic T = FUDaeGeometryInput::TEXTANGENT, B = FUDaeGeometryInput::TEXBINORMAL; std::map<std::vector<uint32>, std::pair<V3, bool>> sum; // position, normal, texture coordinates: the tangent, and whether it is regular
    auto value = [](FCDGeometryPolygonsInput* in, size_t k) { return in->GetSource()->GetData() + in->GetIndices()[k] * in->GetSource()->GetStride(); };
    for (size_t q = 0; q < sets; ++q) if (uses[q]) { FCDGeometryPolygons* p = m->GetPolygons(q); auto* P = p->FindInput(FUDaeGeometryInput::POSITION), *Nn = p->FindInput(FUDaeGeometryInput::NORMAL), *X = p->FindInput(tex); size_t o = 0; for (size_t f = 0; f < p->GetFaceVertexCountCount(); ++f) { size_t n = p->GetFaceVertexCounts()[f]; for (size_t k = 0; k < n; ++k) { size_t a = o + (k + n - 1) % n, b = o + k, z = o + (k + 1) % n; V3 dp = sub(v3(value(P, a)), v3(value(P, b))), dn = sub(v3(value(P, z)), v3(value(P, b))); double up = value(X, a)[0] - value(X, b)[0], vp = value(X, a)[1] - value(X, b)[1], un = value(X, z)[0] - value(X, b)[0], w = value(X, z)[1] - value(X, b)[1], det = up * w - un * vp; V3 nm = v3(value(Nn, b)); auto& s = sum[{ P->GetIndices()[b], Nn->GetIndices()[b], X->GetIndices()[b] }]; if (s.first.x == 0 && s.first.y == 0 && s.first.z == 0 && !s.second) s = { { 0, 0, 0 }, true };
                if (std::fabs(det) < 1e-3) { s.second = false; s.first.x += 1e-9; continue; } V3 t = mul(sub(mul(dp, w), mul(dn, vp)), 1 / det); t = sub(t, mul(nm, dot(t, nm))); if (len(t) < 1e-2) { s.second = false; s.first.x += 1e-9; continue; } s.first = add(s.first, mul(t, 1 / len(t))); } o += n; } }
    size_t regular = 0; int sign = 0;
    for (size_t q = 0; q < sets; ++q) { FCDGeometryPolygons* p = m->GetPolygons(q); FCDGeometryPolygonsInputConstList ti, bi; ((const FCDGeometryPolygons*) p)->FindInputs(T, ti); ((const FCDGeometryPolygons*) p)->FindInputs(B, bi); CHECK(ti.size() == (uses[q] ? 1 : 0) && bi.size() == (uses[q] && bin ? 1 : 0), "set ", q, " has ", ti.size(), " tangent and ", bi.size(), " binormal inputs"); auto a = after[q]; for (auto& v : a.v) v.erase(std::remove_if(v.begin(), v.end(), [&](const Attr& x) { return x.first.first == T || x.first.first == B; }), v.end()); same_set(before[q], a, cat("set ", q)); if (!uses[q]) continue;
        FCDGeometryPolygonsInput* t = p->FindInput(T), *b = bin ? p->FindInput(B) : NULL, *P = p->FindInput(FUDaeGeometryInput::POSITION), *Nn = p->FindInput(FUDaeGeometryInput::NORMAL), *X = p->FindInput(tex); CHECK(t->GetSet() == X->GetSet() && (!b || b->GetSet() == X->GetSet()), "the tangents of set ", q, " belong to another set of texture coordinates"); CHECK_EQ(t->GetIndexCount(), P->GetIndexCount());
        for (size_t k = 0; k < P->GetIndexCount(); ++k) { V3 v = v3(value(t, k)), nm = v3(value(Nn, k)); CHECK(std::isfinite(v.x) && std::isfinite(v.y) && std::isfinite(v.z), "the tangent at face-vertex ", k, " of set ", q, " is not finite"); CHECK(std::fabs(len(v) - 1) < 1e-4, "the tangent at face-vertex ", k, " of set ", q, " has length ", len(v));
            if (b) { V3 w = v3(value(b, k)), r = cross(nm, v); CHECK(std::fabs(len(w) - 1) < 1e-4, "the binormal at face-vertex ", k, " of set ", q, " has length ", len(w)); if (len(r) > 1e-2) CHECK(len(sub(mul(r, 1 / len(r)), w)) < 1e-3, "the binormal at face-vertex ", k, " of set ", q, " is not the product of normal and tangent"); }
            auto& s = sum[{ P->GetIndices()[k], Nn->GetIndices()[k], X->GetIndices()[k] }]; if (!s.second || len(s.first) < 1e-2) continue; V3 r = mul(s.first, 1 / len(s.first)); double x = dot(r, v); CHECK(std::fabs(x) > 0.9999, "the tangent at face-vertex ", k, " of set ", q, " does not point along the texture: ", x); int sg = x > 0 ? 1 : -1; if (sign == 0) sign = sg; CHECK(sg == sign, "the tangents point in opposite directions along the texture"); ++regular; } }
    c.nontrivial = regular >= 3;
}
// ---- packing, skins and targets that follow a mesh
PBT_CASE(packing, 20000, 900000) {
    Doc d; Gen G(g, d.d); FCDGeometryMesh* m = d.d->GetGeometryLibrary()->AddEntity()->CreateMesh(); size_t N = 3 + g.below(6), NC = 1 + g.below(5), NT = 1 + g.below(5); uint32 cs = 3 + (uint32) g.below(2), ts = 2 + (uint32) g.below(2); auto put = [&](FCDGeometrySource* s, size_t n, uint32 stride, bool colour) { FloatList l; for (size_t i = 0; i < n * stride; ++i) l.push_back(colour ? (float) g.below(256) / 255 : (float) g.range(-800, 800) / 8); s->SetData(l, stride); };
    put(m->AddVertexSource(FUDaeGeometryInput::POSITION), N, 3, false); FCDGeometrySource* col = m->AddSource(FUDaeGeometryInput::COLOR), *tex = m->AddSource(FUDaeGeometryInput::TEXCOORD); put(col, NC, cs, true); put(tex, NT, ts, false); bool all = g.chance(1, 3); size_t sets = 1 + (all ? g.below(2) : 0);
    for (size_t q = 0; q < sets; ++q) { FCDGeometryPolygons* p = m->AddPolygons(); size_t total = 0; for (size_t f = 1 + g.below(5); f-- > 0;) { uint32 n = 3 + (uint32) g.below(2); p->AddFaceVertexCount(n); total += n; } if (all) while (total < std::max(N, std::max(NC, NT))) { p->AddFaceVertexCount(3); total += 3; } auto fill = [&](FCDGeometryPolygonsInput* in, size_t range) { std::vector<uint32> x; for (size_t k = 0; k < total; ++k) x.push_back((uint32) (all && k < range ? k : g.below(range))); in->SetIndices(x.data(), x.size()); }; fill(p->GetInput(0), N); fill(p->AddInput(col, 1), NC); fill(p->AddInput(tex, 2), NT); } m->Recalculate();
    FCDSkinController* skin = d.d->GetControllerLibrary()->AddEntity()->CreateSkinController(); skin->SetInfluenceCount(N); FCDGeometryMesh* twin = NULL; if (all) { twin = d.d->GetGeometryLibrary()->AddEntity()->CreateMesh(); m->Clone(twin); } auto before = snap(m);
    FCDNewIndicesList ix; Maps maps; FCDGeometryPolygonsTools::GenerateUniqueIndices(m, NULL, ix, maps); CHECK_EQ(maps.size(), (size_t) 3); uint32 top = FCDGeometryPolygonsTools::FindLargestUniqueIndex(*maps[0]), most = 0; for (size_t q = 0; q < sets; ++q) for (uint32 x : ix[q]) most = std::max(most, x); CHECK(top == most, "the largest index is said to be ", top, ", not ", most);
    // raw data
    for (size_t s = 0; s < 3; ++s) { FCDGeometrySource* src = m->GetSource(s); uint32 st = src->GetStride(); std::vector<float> to((top + 1) * st, -9999); FCDGeometryPolygonsTools::ApplyUniqueIndices(to.data(), src->GetData(), st, maps[s]); for (size_t q = 0; q < sets; ++q) { auto* in = m->GetPolygons(q)->FindInput(src); for (size_t k = 0; k < ix[q].size(); ++k) for (uint32 z = 0; z < st; ++z) CHECK(to[ix[q][k] * st + z] == src->GetData()[in->GetIndices()[k] * st + z], "the moved data of source ", s, " is wrong at ", ix[q][k]); } }
    // vertex buffers of limited size
    size_t maxI = 1 + g.len(20), maxV = 1 + g.len(10), parts = 0; const UInt32List& in = ix[0]; FCDGeometryPolygons* p = m->GetPolygons(0); auto* P = p->GetInput(0), *C = p->FindInput(col), *X = p->FindInput(tex);
    for (size_t at = 0; at < in.size(); ++parts) {
        size_t room = std::min(maxI, in.size() - at); std::vector<uint16> out(room + 1, 0xABCD); UInt16List map; uint16 nv = 0xABCD; uint16 n = FCDGeometryPolygonsTools::GenerateVertexPackingMap(top, room, maxV, in.begin() + at, out.data(), &map, &nv); fcu::no_asserts("the tool"); CHECK(n > 0 && n <= room, n, " indices are packed into ", room); CHECK(nv <= maxV, nv, " vertices are packed into ", maxV); CHECK(n == room || nv == maxV, "the packing ends early, after ", n, " indices and ", nv, " vertices"); CHECK(out[n] == 0xABCD || n > room, "indices are written past the end"); CHECK_EQ(map.size(), (size_t) top + 1);
        std::map<uint32, uint16> seen; for (size_t k = 0; k < n; ++k) { auto it = seen.insert({ in[at + k], (uint16) seen.size() }); CHECK(out[k] == it.first->second, "index ", k, " is packed as ", out[k], ", not ", it.first->second); } CHECK_EQ(seen.size(), (size_t) nv); for (size_t k = 0; k < map.size(); ++k) CHECK(map[k] == (seen.count((uint32) k) ? seen[(uint32) k] : 0xFFFF), "the packing map has ", map[k], " for ", k);
        uint32 stride = 40; std::vector<uint8> buf(nv * stride, 0xEE); FCDGeometryPolygonsTools::PackVertexBufferV3(buf.data(), stride, m->GetSource(0), 3, map.begin(), *maps[0]); FCDGeometryPolygonsTools::PackVertexBufferColor(buf.data() + 16, stride, col, cs, map.begin(), *maps[1]); FCDGeometryPolygonsTools::PackVertexBufferV2(buf.data() + 24, stride, tex, 2, map.begin(), *maps[2]); fcu::no_asserts("packing");
        for (size_t k = 0; k < n; ++k) { const uint8* b = buf.data() + out[k] * stride; const float* q = (const float*) b, *t = (const float*) (b + 24), *src = m->GetSource(0)->GetData() + P->GetIndices()[at + k] * 3, *sc = col->GetData() + C->GetIndices()[at + k] * cs, *sx = tex->GetData() + X->GetIndices()[at + k] * ts; for (int z = 0; z < 3; ++z) CHECK(q[z] == src[z], "component ", z, " of packed position ", out[k], " is ", q[z], ", not ", src[z]); for (int z = 0; z < 2; ++z) CHECK(t[z] == sx[z], "component ", z, " of packed texture coordinate ", out[k], " is ", t[z], ", not ", sx[z]); for (uint32 z = 0; z < 4; ++z) { int w = z < cs ? (int) (sc[z] * 255) : 255; CHECK(std::abs((int) b[16 + z] - w) <= 1, "component ", z, " of packed colour ", out[k], " is ", (int) b[16 + z], ", not ", w); } for (int z = 12; z < 16; ++z) CHECK(b[z] == 0xEE && b[z + 8] == 0xEE && b[z + 24] == 0xEE, "bytes between the packed values are written"); }
        fm::pvector<const FCDSkinControllerVertex> inf; FCDControllerTools::ApplyTranslationMap(skin, *maps[0], map, inf); fcu::no_asserts("moving the influences"); CHECK(inf.size() == nv, "there are ", inf.size(), " influences for ", nv, " vertices"); for (size_t k = 0; k < n; ++k) CHECK(inf[out[k]] == skin->GetVertexInfluences() + P->GetIndices()[at + k], "vertex ", out[k], " has the influences of another position");
        at += n;
    }
    // another mesh of the same layout, as a morph target
    if (twin) { UInt32List joined; for (size_t q = 0; q < sets; ++q) for (uint32 x : ix[q]) joined.push_back(x); FCDGeometryPolygonsTools::ApplyUniqueIndices(twin, m, joined, maps); fcu::no_asserts("moving a target"); auto b = snap(twin); CHECK_EQ(b.size(), before.size()); for (size_t q = 0; q < sets; ++q) { same_set(before[q], b[q], cat("set ", q, " of the target")); auto* x = twin->GetPolygons(q)->FindInput(FUDaeGeometryInput::POSITION); for (size_t k = 0; k < ix[q].size(); ++k) CHECK(x->GetIndices()[k] == ix[q][k], "the target has other indices"); } c.label("target"); }
    c.nontrivial = parts > 1;
}
