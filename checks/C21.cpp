#include "docgen.h"
#include <map>
using namespace pbt;
using namespace dg;
PBT_PROPERTY("C21", "a skin in which the reduction removes at least one influence and keeps at least one of the same vertex")
struct SetInit { SetInit() { worker_init = dg::init; } } setInit;
typedef std::vector<FCDJointWeightPair> Pairs;
struct Bone { std::string id; FMMatrix44 m; };
static Pairs pairs_of(const FCDSkinControllerVertex* v) { Pairs p; for (size_t i = 0; i < v->GetPairCount(); ++i) p.push_back(*v->GetPair(i)); return p; }
static float weight(Src& g) {
    switch (g.weighted({6, 3, 2, 1, 2})) { case 0: return (float) g.range(0, 20) / 20; case 1: return (float) g.unit(); case 2: return 0; case 3: return (float) (g.unit() * 1e-4); default: return (float) g.range(1, 3) * 0.25f; }
}
static void fill(Src& g, FCDSkinController* s, size_t joints) {
    s->SetInfluenceCount(g.len(12));
    for (size_t v = 0; v < s->GetInfluenceCount(); ++v) { Pairs p; double sum = 0; size_t n = g.chance(1, 10) ? 8 + g.below(40) : g.len(10); bool repeat = g.chance(1, 6); std::vector<int32> free; for (size_t j = 0; j <= joints; ++j) free.push_back((int32) j - 1);
        for (size_t i = 0; i < n && !free.empty(); ++i) { size_t at = g.below(free.size()); int32 j = free[at]; if (!repeat) free.erase(free.begin() + at); p.push_back(FCDJointWeightPair(j, weight(g))); sum += p.back().weight; }
        bool normal = sum > 0 && g.chance(3, 4); for (auto& x : p) s->GetVertexInfluence(v)->AddPair(x.jointIndex, normal ? (float) (x.weight / sum) : x.weight); }
}
static uint32 limit(Src& g) { return g.chance(1, 12) ? 0 : g.chance(1, 12) ? 1000 : (uint32) g.range(1, 6); }
static float threshold(Src& g) { switch (g.weighted({4, 4, 2, 1})) { case 0: return 0; case 1: return (float) g.range(1, 10) / 40; case 2: return (float) g.unit(); default: return (float) g.range(1, 3) * 0.25f; } }
// What the reduction of a vertex must give: everything else of the vertex stays.
static void reduced(const Pairs& before, const Pairs& after, uint32 k, float t, bool& real) {
    std::vector<float> kept; double old = 0; for (auto& p : before) { old += p.weight; if (p.weight >= t) kept.push_back(p.weight); }
    std::sort(kept.rbegin(), kept.rend()); if (kept.size() > k) kept.resize(k);
    CHECK(after.size() == kept.size(), "keeping at most ", k, " of ", before.size(), " influences from ", t, ": ", after.size(), " are left, not ", kept.size());
    if (kept.size() == before.size()) { for (size_t i = 0; i < before.size(); ++i) CHECK(before[i].jointIndex == after[i].jointIndex && before[i].weight == after[i].weight, "a vertex that loses nothing was modified at influence ", i); return; }
    real |= !kept.empty(); double sum = 0; for (float w : kept) sum += w; double f = sum > 0 ? old / sum : 1; double total = 0;
    std::map<int32, std::vector<float>> b, a; for (auto& p : before) b[p.jointIndex].push_back(p.weight); for (auto& p : after) { CHECK(std::isfinite(p.weight), "a weight is not a number"); a[p.jointIndex].push_back(p.weight); total += p.weight; }
    CHECK(std::fabs(total - (sum > 0 ? old : 0)) <= 1e-5 * (old + 1e-6), "the weights add up to ", total, " instead of ", old);
    std::vector<float> w; for (auto& p : after) w.push_back(p.weight); std::sort(w.rbegin(), w.rend());
    for (size_t i = 0; i < w.size(); ++i) CHECK(std::fabs(w[i] - kept[i] * f) <= 1e-5 * (std::fabs(kept[i] * f) + 1e-7), "the weights kept are not the largest: ", w[i], " for ", kept[i], " scaled by ", f);
    for (auto& x : a) { auto& m = x.second; auto& o = b[x.first]; std::sort(m.rbegin(), m.rend()); std::sort(o.rbegin(), o.rend()); CHECK(m.size() <= o.size(), "joint ", x.first, " gained an influence");
        for (size_t i = 0; i < m.size(); ++i) CHECK(std::fabs(m[i] - o[i] * f) <= 1e-5 * (std::fabs(o[i] * f) + 1e-7), "joint ", x.first, " weighs ", m[i], " instead of ", o[i] * f); }
}
PBT_CASE(reduce, 40000, 1000000) {
    Doc d; FCDController* c0 = d->GetControllerLibrary()->AddEntity(); FCDSkinController* s = c0->CreateSkinController(); std::vector<Bone> bones;
    for (size_t j = g.len(8); j-- > 0;) { Bone b; b.id = "bone" + std::to_string(j); b.m = FMMatrix44::Identity; for (int i = 0; i < 12; ++i) b.m.m[i / 3][i % 3] = (float) g.range(-40, 40) / 4; s->AddJoint(b.id.c_str(), b.m); bones.push_back(b); }
    fill(g, s, bones.size());
    for (int round = 0, n = 1 + (int) g.len(3); round < n; ++round) {
        uint32 k = limit(g); float t = threshold(g); std::vector<Pairs> before; for (size_t v = 0; v < s->GetInfluenceCount(); ++v) before.push_back(pairs_of(s->GetVertexInfluence(v)));
        for (size_t v = 0; v < before.size(); ++v) { std::string l = cat("vertex ", v, ":"); for (auto& p : before[v]) l += cat(" ", p.jointIndex, "=", p.weight); c.note(l); } c.note(cat("reduce to ", k, " from ", t));
        s->ReduceInfluences(k, t); fcu::no_asserts("reducing");
        CHECK_EQ(s->GetInfluenceCount(), before.size()); CHECK_EQ(s->GetJointCount(), bones.size()); bool real = false;
        for (size_t j = 0; j < bones.size(); ++j) { CHECK_EQ(S(s->GetJoint(j)->GetId()), bones[j].id); CHECK(s->GetJoint(j)->GetBindPoseInverse() == bones[j].m, "the bind pose of joint ", j, " changed"); }
        for (size_t v = 0; v < before.size(); ++v) reduced(before[v], pairs_of(s->GetVertexInfluence(v)), k, t, real);
        c.nontrivial |= real;
    }
}
// Reducing in two steps, or twice, is reducing once to the smaller limit; the reduced skin survives archiving.
PBT_CASE(steps, 4000, 100000) {
    Doc d; auto* l = d->GetControllerLibrary(); FCDController* e[2]; uint32 k = limit(g), more = k + (uint32) g.below(4); float t = threshold(g); size_t joints = 1 + g.len(7); bool real = false;
    FCDGeometry* gm = d->GetGeometryLibrary()->AddEntity(); FCDGeometryMesh* mesh = gm->CreateMesh(); FCDGeometrySource* src = mesh->AddVertexSource(FUDaeGeometryInput::POSITION);
    for (auto& x : e) { x = l->AddEntity(); x->CreateSkinController(); for (size_t j = 0; j < joints; ++j) x->GetSkinController()->AddJoint(cat("bone", j).c_str(), FMMatrix44::Identity); }
    FCDSkinController* a = e[0]->GetSkinController(), * b = e[1]->GetSkinController(); fill(g, a, joints); b->SetInfluenceCount(a->GetInfluenceCount());
    FloatList fl(a->GetInfluenceCount() * 3, 0.5f); src->SetData(fl, 3); if (!fl.empty()) { FCDGeometryPolygons* p = mesh->AddPolygons(); p->SetMaterialSemantic("m"); p->AddFaceVertexCount(3); uint32 ix[3] = { 0, 0, 0 }; p->GetInput(0)->SetIndices(ix, 3); mesh->Recalculate(); } bool target = a->GetInfluenceCount() > 0; if (target) { a->SetTarget(gm); b->SetTarget(gm); }
    CHECK_EQ(a->GetInfluenceCount(), b->GetInfluenceCount()); CHECK_EQ(a->GetInfluenceCount() * 3, fl.size());
    for (size_t v = 0; v < a->GetInfluenceCount(); ++v) { Pairs p = pairs_of(a->GetVertexInfluence(v)); std::string n = cat("vertex ", v, ":"); std::vector<float> o; for (auto& x : p) { n += cat(" ", x.jointIndex, "=", x.weight); b->GetVertexInfluence(v)->AddPair(x.jointIndex, x.weight); } c.note(n); }
    c.note(cat("reduce to ", more, " then ", k, " from ", t)); size_t before = 0, after = 0; for (size_t v = 0; v < a->GetInfluenceCount(); ++v) before += a->GetVertexInfluence(v)->GetPairCount();
    bool twice = g.coin(); if (twice) { a->ReduceInfluences(k, t); a->ReduceInfluences(k, t); } else { a->ReduceInfluences(more, t); a->ReduceInfluences(k, 0); } b->ReduceInfluences(k, t);
    for (size_t v = 0; v < a->GetInfluenceCount(); ++v) { Pairs p = pairs_of(a->GetVertexInfluence(v)), q = pairs_of(b->GetVertexInfluence(v)); after += p.size(); CHECK_EQ(p.size(), q.size()); std::vector<float> x, y; for (auto& i : p) x.push_back(i.weight); for (auto& i : q) y.push_back(i.weight); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
        for (size_t i = 0; i < x.size(); ++i) CHECK(std::fabs(x[i] - y[i]) <= 2e-5 * (y[i] + 1e-7), "vertex ", v, " weighs ", x[i], " in two steps and ", y[i], " in one"); }
    c.nontrivial = real = after && after < before; messages().clear();
    // (the archive writes a weight within 1e-4 of one as one, and the loader normalises)
    for (size_t v = 0; v < a->GetInfluenceCount(); ++v) for (auto& x : pairs_of(a->GetVertexInfluence(v))) if (x.weight > 0.999f && x.weight < 1.001f && x.weight != 1.0f) target = false; if (!target) return; Dump o = dumped(d); std::string f = scratch_dir() + "/a.dae"; CHECK(save(d, f), "the document is saved"); clean("saving"); Doc z(load(f)); CHECK(z.d != NULL, "the file is loaded: ", messages().all()); clean("loading");
    std::string df = diff(o, dumped(z)); CHECK(df.empty(), "the reloaded skin differs: ", df);
}
