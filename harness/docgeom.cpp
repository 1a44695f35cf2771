// Meshes and splines.
#include "docgen.h"
namespace dg {
static void dump_source(Dump& d, FCDGeometrySource* s) {
    In in(d, "source"); if (d.opt.ids) d.s("id", S(s->GetDaeId())); d.s("name", S(s->GetName())); d.i("type", s->GetType()); d.i("stride", s->GetStride());
    d.i("count", (long long) s->GetDataCount()); const float* p = s->GetData(); for (size_t i = 0; i < s->GetDataCount(); ++i) d.f("data[" + std::to_string(i) + "]", p[i]);
    dump(d, s->GetExtra()); for (size_t i = 0; i < s->GetAnimatedValues().size(); ++i) { In n(d, "element " + std::to_string(s->GetAnimatedValues()[i]->GetArrayElement())); dump_animated(d, s->GetAnimatedValues()[i]); }
}
static std::string source_of(Dump& d, FCDGeometryMesh* m, FCDGeometrySource* s) { if (!s) return "(none)"; if (d.opt.ids) return S(s->GetDaeId()); for (size_t k = 0; k < m->GetSourceCount(); ++k) if (m->GetSource(k) == s) return "#" + std::to_string(k); return "(elsewhere)"; }
static void dump_input(Dump& d, FCDGeometryMesh* m, FCDGeometryPolygonsInput* i) {
    In in(d, "input"); d.i("semantic", i->GetSource() ? (int) i->GetSemantic() : -1); d.s("source", source_of(d, m, i->GetSource())); d.i("set", i->GetSet()); if (d.opt.offsets) d.i("offset", i->GetOffset());
    std::string s; for (size_t k = 0; k < i->GetIndexCount(); ++k) s += std::to_string(i->GetIndices()[k]) + " "; d.s("indices", s);
}
static void dump_polygons(Dump& d, FCDGeometryMesh* m, FCDGeometryPolygons* p) {
    In in(d, "polygons"); d.i("primitive", p->GetPrimitiveType()); d.s("material", S(p->GetMaterialSemantic()));
    std::string c, h, per; for (size_t i = 0; i < p->GetFaceVertexCountCount(); ++i) c += std::to_string(p->GetFaceVertexCounts()[i]) + " "; for (size_t i = 0; i < p->GetHoleFaceCount(); ++i) h += std::to_string(p->GetHoleFaces()[i]) + " ";
    d.s("face-vertex counts", c); d.s("holes", h);
    d.i("faces", (long long) p->GetFaceCount()); d.i("hole count", (long long) p->GetHoleCount()); d.i("face-vertices", (long long) p->GetFaceVertexCount()); d.i("face offset", (long long) p->GetFaceOffset()); d.i("face-vertex offset", (long long) p->GetFaceVertexOffset()); d.i("hole offset", (long long) p->GetHoleOffset());
    for (size_t i = 0; i < p->GetFaceCount(); ++i) per += std::to_string(p->GetFaceVertexCount(i)) + "@" + std::to_string(p->GetFaceVertexOffset(i)) + "/" + std::to_string(p->GetHoleCount(i)) + "+" + std::to_string(p->GetHoleCountBefore(i)) + " "; d.s("per face", per);
    // The per-vertex inputs come first in files, in the order of the per-vertex sources
    std::vector<FCDGeometryPolygonsInput*> v, o;
    for (size_t k = 0; k < m->GetVertexSourceCount(); ++k) for (size_t i = 0; i < p->GetInputCount(); ++i) if (p->GetInput(i)->GetSource() == m->GetVertexSource(k)) v.push_back(p->GetInput(i));
    for (size_t i = 0; i < p->GetInputCount(); ++i) if (!m->IsVertexSource(p->GetInput(i)->GetSource())) o.push_back(p->GetInput(i));
    for (auto* i : v) dump_input(d, m, i); for (auto* i : o) dump_input(d, m, i);
    dump(d, p->GetExtra());
}
void dump_geometry(Dump& d, FCDGeometry* g) {
    if (g->IsMesh()) { FCDGeometryMesh* m = g->GetMesh(); In in(d, "mesh"); if (!m->GetConvexHullOf().empty()) { d.i("convex", m->IsConvex()); d.s("hull of", S(m->GetConvexHullOf())); return; } // its content is derived
        d.i("faces", (long long) m->GetFaceCount()); d.i("holes", (long long) m->GetHoleCount()); d.i("face-vertices", (long long) m->GetFaceVertexCount());
        for (size_t i = 0; i < m->GetSourceCount(); ++i) dump_source(d, m->GetSource(i));
        for (size_t i = 0; i < m->GetVertexSourceCount(); ++i) d.s("per-vertex source", source_of(d, m, m->GetVertexSource(i)));
        for (size_t i = 0; i < m->GetPolygonsCount(); ++i) dump_polygons(d, m, m->GetPolygons(i)); }
    if (g->IsSpline()) { FCDGeometrySpline* s = g->GetSpline(); In in(d, "splines"); d.i("type", s->GetType());
        for (size_t i = 0; i < s->GetSplineCount(); ++i) { FCDSpline* p = s->GetSpline(i); In n(d, "spline"); d.i("type", p->GetSplineType()); d.i("closed", p->IsClosed()); d.i("cvs", (long long) p->GetCVCount()); for (size_t k = 0; k < p->GetCVCount(); ++k) d.v3("cv", *p->GetCV(k));
            if (p->HasType(FCDNURBSSpline::GetClassType())) { auto* q = (FCDNURBSSpline*) p; d.i("degree", q->GetDegree()); d.i("weights", (long long) q->GetWeights().size()); for (auto w : q->GetWeights()) d.f("weight", w); d.i("knots", (long long) q->GetKnots().size()); for (auto w : q->GetKnots()) d.f("knot", w); } } }
}
static void fill(Gen& G, FCDGeometrySource* s, size_t count, uint32 stride) {
    FloatList l; for (size_t i = 0; i < count * stride; ++i) l.push_back(G.fl()); s->SetData(l, stride);
    if (G.g.chance(3, 4)) s->SetDaeId(fm::string(G.word("src").c_str())); if (G.g.chance(1, 3)) s->SetName(G.word("S").c_str());
    if (G.extras && G.g.chance(1, 10)) { Src& g = G.g; FCDETechnique* t = s->GetExtra()->GetDefaultType()->AddTechnique(g.oneof<const char*>({"MAYA", "other"})); t->AddChildNode("marker")->SetContent(G.content().c_str()); }
}
void Gen::mesh(FCDGeometryMesh* m) {
    static const FUDaeGeometryInput::Semantic PER_VERTEX[] = {FUDaeGeometryInput::NORMAL, FUDaeGeometryInput::COLOR, FUDaeGeometryInput::GEOTANGENT, FUDaeGeometryInput::TEXCOORD, FUDaeGeometryInput::EXTRA},
        OTHER[] = {FUDaeGeometryInput::NORMAL, FUDaeGeometryInput::TEXCOORD, FUDaeGeometryInput::COLOR, FUDaeGeometryInput::GEOTANGENT, FUDaeGeometryInput::GEOBINORMAL, FUDaeGeometryInput::TEXTANGENT, FUDaeGeometryInput::TEXBINORMAL, FUDaeGeometryInput::UV, FUDaeGeometryInput::EXTRA, FUDaeGeometryInput::POINT_SIZE, FUDaeGeometryInput::POINT_ROTATION};
    m->SetConvex(g.chance(1, 4));
    size_t N = 3 + g.len(8); std::vector<int32> vset;
    auto stride = [&](FUDaeGeometryInput::Semantic t) -> uint32 { return t == FUDaeGeometryInput::TEXCOORD || t == FUDaeGeometryInput::UV ? (uint32) g.range(1, 4) : t == FUDaeGeometryInput::COLOR ? (uint32) g.range(3, 4) : t == FUDaeGeometryInput::EXTRA ? (uint32) g.oneof({1, 2, 3, 4, 5, 7, 16}) : t == FUDaeGeometryInput::POINT_SIZE ? 1u : 3u; };
    std::vector<std::pair<FCDGeometrySource*, size_t>> vertex, other;
    auto add_vertex = [&](FUDaeGeometryInput::Semantic t) { FCDGeometrySource* s; if (g.coin()) s = m->AddVertexSource(t); else { s = m->AddSource(t); m->AddVertexSource(s); } fill(*this, s, N, t == FUDaeGeometryInput::POSITION ? (g.chance(1, 8) ? (uint32) g.range(1, 4) : 3) : stride(t)); vertex.push_back({s, N}); vset.push_back(g.chance(1, 4) ? (int32) g.below(4) : -1); };
    auto add_other = [&] { auto t = g.pick(std::vector<FUDaeGeometryInput::Semantic>(OTHER, OTHER + 11)); size_t c = 1 + g.len(6); FCDGeometrySource* s = m->AddSource(t); fill(*this, s, c, stride(t)); other.push_back({s, c}); };
    if (g.chance(1, 4)) add_other();
    add_vertex(FUDaeGeometryInput::POSITION); for (size_t k = g.len(2); k-- > 0;) add_vertex(PER_VERTEX[g.below(5)]);
    for (size_t k = g.len(4); k-- > 0;) add_other();
    if (g.chance(1, 12)) fill(*this, m->AddSource(FUDaeGeometryInput::UNKNOWN), g.below(3) + 1, 2);
    size_t sets = 1 + g.len(2);
    for (size_t q = 0; q < sets; ++q) {
        FCDGeometryPolygons* p = m->AddPolygons(); auto prim = g.weighted({6, 1, 1, 1, 1, 1}); static const FCDGeometryPolygons::PrimitiveType P[] = {FCDGeometryPolygons::POLYGONS, FCDGeometryPolygons::LINES, FCDGeometryPolygons::LINE_STRIPS, FCDGeometryPolygons::TRIANGLE_FANS, FCDGeometryPolygons::TRIANGLE_STRIPS, FCDGeometryPolygons::POINTS};
        p->SetPrimitiveType(P[prim]); p->SetMaterialSemantic(g.chance(1, 6) ? (word("mat") + attribute()).c_str() : word("mat").c_str()); if (extras && g.chance(1, 8)) extra(p->GetExtra());
        // Streams: the per-vertex inputs share one, others have their own or share
        uint32 vo = g.chance(1, 5) ? (uint32) g.below(4) : 0; std::map<uint32, size_t> range; range[vo] = N; std::map<std::pair<FCDGeometrySource*, int32>, bool> used;
        for (size_t i = 0; i < p->GetInputCount(); ++i) { p->GetInput(i)->SetOffset(vo); for (size_t v = 0; v < vertex.size(); ++v) if (vertex[v].first == p->GetInput(i)->GetSource()) p->GetInput(i)->SetSet(vset[v]); }
        for (auto& o : other) for (int again = 0; again < (g.chance(1, 8) ? 2 : 1); ++again) if (g.chance(3, 4)) {
            uint32 at = g.chance(1, 4) ? (uint32) g.below(5) : (uint32) (range.rbegin()->first + 1 + (g.chance(1, 6) ? 1 : 0)); int32 set = g.chance(1, 3) ? -1 : (int32) g.below(5); if (used[{o.first, set}]) continue; used[{o.first, set}] = true;
            p->AddInput(o.first, at)->SetSet(set); range[at] = range.count(at) ? std::min(range[at], o.second) : o.second; }
        // Faces
        size_t faces = 1 + g.len(5); bool tri = prim == 0 && g.chance(1, 3), holed = prim == 0 && !tri && g.chance(1, 2); std::vector<uint32> counts; std::vector<uint32> holes;
        for (size_t f = 0; f < faces; ++f) { uint32 deg = prim == 0 ? (tri ? 3u : (uint32) g.range(3, (int64_t) N)) : prim == 1 ? 2 * (uint32) g.range(1, 4) : prim == 5 ? (uint32) g.range(1, 5) : (uint32) g.range(2 + (prim >= 3), 6); counts.push_back(deg);
            if (holed) for (size_t h = g.len(3); h-- > 0;) { holes.push_back((uint32) counts.size()); counts.push_back((uint32) g.range(3, 5)); } }
        size_t total = 0; for (auto c : counts) { p->AddFaceVertexCount(c); total += c; } if (g.coin()) for (auto h : holes) p->AddHole(h); else for (size_t h = holes.size(); h-- > 0;) p->AddHole(holes[h]);
        for (auto& r : range) { std::vector<uint32> ix; for (size_t k = 0; k < total; ++k) ix.push_back((uint32) g.below(r.second)); std::vector<FCDGeometryPolygonsInput*> who; for (size_t i = 0; i < p->GetInputCount(); ++i) if (p->GetInput(i)->GetOffset() == r.first) who.push_back(p->GetInput(i)); who[g.below(who.size())]->SetIndices(ix.data(), ix.size()); }
    }
    // The file names the type of a source through its inputs only
    for (auto& o : other) { bool used = false; for (size_t q = 0; q < m->GetPolygonsCount(); ++q) used |= m->GetPolygons(q)->FindInput(o.first) != NULL; if (!used) o.first->SetType(FUDaeGeometryInput::UNKNOWN); }
    m->Recalculate();
}
void Gen::spline(FCDGeometrySpline* s) {
    s->SetType(g.oneof({FUDaeSplineType::LINEAR, FUDaeSplineType::BEZIER, FUDaeSplineType::NURBS}));
    for (size_t k = 1 + g.len(3); k-- > 0;) { FCDSpline* p = s->AddSpline(); p->SetClosed(g.coin()); size_t n = 2 + g.len(6);
        if (s->GetType() == FUDaeSplineType::NURBS) { auto* q = (FCDNURBSSpline*) p; q->SetDegree((uint32) g.below(5)); for (size_t i = 0; i < n; ++i) q->AddCV(v3(), g.chance(1, 3) ? 1 : fabsf(fl())); float t = fl(); for (size_t i = 0; i < n + q->GetDegree() + 1; ++i) { q->AddKnot(t); t += g.coin() ? 0 : pos(); } }
        else for (size_t i = 0; i < n; ++i) p->GetCVs().push_back(v3()); }
}
void Gen::geometry(FCDGeometry* gm) {
    entity(gm); auto* l = doc->GetGeometryLibrary();
    if (g.chance(1, 4)) { spline(gm->CreateSpline()); return; }
    FCDGeometryMesh* m = gm->CreateMesh();
    if (l->GetEntityCount() > 1 && g.chance(1, 8)) { m->SetConvex(true); m->SetConvexHullOf(l->GetEntity(g.below(l->GetEntityCount() - 1))); return; }
    mesh(m);
}
}
