// NODOCGEN
#include "fcu.h"
#include "FCollada.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDAsset.h"
#include "FCDocument/FCDCamera.h"
#include "FCDocument/FCDLight.h"
#include "FCDocument/FCDEntityInstance.h"
#include "FCDocument/FCDSceneNode.h"
#include "FCDocument/FCDSceneNodeIterator.h"
#include "FCDocument/FCDTransform.h"
#include "FMath/FMLookAt.h"
#include "FMath/FMSkew.h"
#include "FUtils/FUTracker.h"
#include <algorithm>
#include <memory>
#include <map>
#include <set>
#include <cmath>
using namespace pbt;
PBT_PROPERTY("C24", "Histories of creating, linking, unlinking, instancing, targeting and releasing scene nodes, in step with a reference graph, and transform stacks against a double-precision product. Non-trivial: a history with a node of several parents and either a refused link or a release below or above such a node; a stack of at least three transforms of two kinds below another node with transforms.")
struct SetInit { SetInit() { worker_init = [] { fcu::install(); FCollada::Initialize(); }; } } setInit;
struct Ent { int id; FCDSceneNode* p; FUTrackedPtr<FCDSceneNode> alive; std::vector<int> parents, kids, instances; bool root = false; };
struct Graph {
    FCDocument* d; std::map<int, Ent> n; std::map<int, std::pair<FUTrackedPtr<FCDTargetedEntity>, int>> aims; int next = 0;
    Graph() { d = FCollada::NewTopDocument(); }
    ~Graph() { std::vector<FUTrackedPtr<FCDSceneNode>*> loose; for (auto& x : n) if (!x.second.root && x.second.parents.empty() && x.second.alive != NULL) x.second.p->Release(); d->Release(); }
    int add(FCDSceneNode* p, bool root) { Ent& e = n[next]; e.id = next; e.p = p; e.alive = p; e.root = root; return next++; }
    std::set<int> below(int i, bool instances) { std::set<int> s; std::vector<int> q { i }; while (!q.empty()) { int x = q.back(); q.pop_back(); for (int k : n[x].kids) if (s.insert(k).second) q.push_back(k); if (instances) for (int k : n[x].instances) if (k >= 0 && s.insert(k).second) q.push_back(k); } return s; }
    void drop(int i) { // the model of a release
        Ent e = n[i]; n.erase(i); for (auto& x : n) for (int& k : x.second.instances) if (k == i) k = -1; for (int p : e.parents) { auto& k = n[p].kids; k.erase(std::find(k.begin(), k.end(), i)); }
        for (int k : e.kids) { auto& p = n[k].parents; p.erase(std::find(p.begin(), p.end(), i)); if (p.empty()) drop(k); }
        for (auto& a : aims) if (a.second.second == i) a.second.second = -1;
    }
    std::string name(FCDSceneNode* p) { for (auto& x : n) if (x.second.p == p) return std::to_string(x.first); return p ? "an unknown node" : "nothing"; }
    void verify() {
        for (auto& x : n) { Ent& e = x.second; CHECK(e.alive != NULL, "node ", e.id, " was destroyed"); }
        for (auto& x : n) { Ent& e = x.second; FCDSceneNode* p = e.p; CHECK(p->GetParentCount() == e.parents.size(), "node ", e.id, " has ", p->GetParentCount(), " parents, not ", e.parents.size()); CHECK(p->GetChildrenCount() == e.kids.size(), "node ", e.id, " has ", p->GetChildrenCount(), " children, not ", e.kids.size());
            for (size_t i = 0; i < e.parents.size(); ++i) CHECK(p->GetParent(i) == n[e.parents[i]].p, "parent ", i, " of node ", e.id, " is ", name(p->GetParent(i)), ", not ", e.parents[i]); if (e.parents.empty()) CHECK(p->GetParent() == NULL, "node ", e.id, " has a parent");
            for (size_t i = 0; i < e.kids.size(); ++i) CHECK(p->GetChild(i) == n[e.kids[i]].p, "child ", i, " of node ", e.id, " is ", name(p->GetChild(i)), ", not ", e.kids[i]);
            CHECK_EQ(p->GetInstanceCount(), e.instances.size()); for (size_t i = 0; i < e.instances.size(); ++i) CHECK((FCDObject*) p->GetInstance(i)->GetEntity() == (e.instances[i] < 0 ? NULL : (FCDObject*) n[e.instances[i]].p), "instance ", i, " of node ", e.id, " leads to another entity");
            size_t t = 0; for (auto& a : aims) t += a.second.second == e.id; CHECK(p->IsTarget() == (t > 0), "node ", e.id, t ? " is a target" : " is not a target", " but says otherwise"); }
        for (auto& a : aims) if (a.second.first != NULL) CHECK(a.second.first->GetTargetNode() == (a.second.second < 0 ? NULL : n[a.second.second].p), "the target of a camera or light is another");
    }
};
typedef std::vector<FCDSceneNode*> Walk;
static size_t paths(Graph& g, int i, size_t limit, bool pure) { size_t t = 1; for (int k : g.n[i].kids) { if (pure && g.n[k].parents[0] != i) continue; t += paths(g, k, limit, pure); if (t > limit) return t; } if (!pure) for (int k : g.n[i].instances) if (k >= 0) { t += paths(g, k, limit, pure); if (t > limit) return t; } return t; }
static std::vector<int> next_of(Graph& g, int i, bool pure) { std::vector<int> r; for (int k : g.n[i].kids) if (!pure || g.n[k].parents[0] == i) r.push_back(k); if (!pure) for (int k : g.n[i].instances) if (k >= 0) r.push_back(k); return r; }
static void depth(Graph& g, int i, bool pre, bool pure, Walk& w) { if (pre) w.push_back(g.n[i].p); for (int k : next_of(g, i, pure)) depth(g, k, pre, pure, w); if (!pre) w.push_back(g.n[i].p); }
static void breadth(Graph& g, int i, bool pure, Walk& w) { std::vector<int> q { i }; for (size_t k = 0; k < q.size(); ++k) { w.push_back(g.n[q[k]].p); for (int x : next_of(g, q[k], pure)) q.push_back(x); } }
template <class I> static void same_walk(Graph& g, I it, const Walk& w, const char* how) {
    for (size_t i = 0; i < w.size(); ++i) { CHECK(!it.IsDone(), how, " iteration ends after ", i, " of ", w.size(), " nodes"); CHECK((const FCDSceneNode*) *it == w[i], how, " iteration visits ", g.name((FCDSceneNode*) *it), " instead of ", g.name(w[i]), " at step ", i); ++it; }
    CHECK(it.IsDone() && it.GetNode() == NULL, how, " iteration goes on after all ", w.size(), " nodes");
}
static void walk(Graph& g, int i, int how, bool pure) {
    if (paths(g, i, 3000, pure) > 3000) return; Walk w; FCDSceneNode* p = g.n[i].p;
    if (how == 0) { breadth(g, i, pure, w); same_walk(g, FCDSceneNodeIterator(p, FCDSceneNodeIterator::BREADTH_FIRST, pure), w, "breadth-first"); }
    if (how == 1) { depth(g, i, true, pure, w); same_walk(g, FCDSceneNodeConstIterator(p, FCDSceneNodeConstIterator::DEPTH_FIRST_PREORDER, pure), w, "pre-order"); }
    if (how == 2) { depth(g, i, false, pure, w); same_walk(g, FCDSceneNodeIterator(p, FCDSceneNodeIterator::DEPTH_FIRST_POSTORDER, pure), w, "post-order"); }
}
PBT_CASE(graph, 60000, 1500000) {
    Graph gr; bool refused = false, shared_release = false, shared = false, instanced = false; gr.add(gr.d->AddVisualScene(), true); if (g.coin()) gr.add(gr.d->AddVisualScene(), true); int aims = 0; bool deep = g.chance(1, 5);
    for (size_t steps = g.steps(50); steps-- > 0;) {
        auto any = [&](bool roots) { std::vector<int> v; for (auto& x : gr.n) if (roots || !x.second.root) v.push_back(x.first); return v.empty() ? -1 : deep && g.chance(2, 3) ? v.back() : v[g.below(v.size())]; };
        int i = any(true), j = any(false); if (i < 0) break; Ent& e = gr.n[i];
        switch (j < 0 ? 0 : g.weighted({6, 6, 2, 2, 3, 2, 4, 1})) {
        case 0: { FCDSceneNode* p = e.p->AddChildNode(); CHECK(p != NULL, "a node is created"); int k = gr.add(p, false); gr.n[i].kids.push_back(k); gr.n[k].parents.push_back(i); c.note(cat("node ", k, " below ", i)); break; }
        case 1: { bool cycle = i == j || gr.below(j, false).count(i), dup = std::count(e.kids.begin(), e.kids.end(), j); if (!cycle && !dup && gr.below(j, true).count(i)) break; // (through an instance)
            c.note(cat("link ", j, " below ", i)); bool ok = e.p->AddChildNode(gr.n[j].p); CHECK(ok == (!cycle && !dup), "linking node ", j, " below ", i, ok ? " was accepted" : " was refused", cycle ? ", a cycle" : dup ? ", already its child" : "");
            if (ok) { e.kids.push_back(j); gr.n[j].parents.push_back(i); shared |= gr.n[j].parents.size() > 1; } else refused |= cycle && i != j; break; }
        case 2: { if (e.kids.empty()) break; int k = e.kids[g.below(e.kids.size())]; c.note(cat("unlink ", k, " from ", i)); e.p->RemoveChildNode(gr.n[k].p); e.kids.erase(std::find(e.kids.begin(), e.kids.end(), k)); auto& p = gr.n[k].parents; p.erase(std::find(p.begin(), p.end(), i)); break; }
        case 3: { if (gr.below(j, true).count(i) || i == j) break; c.note(cat("instance of ", j, " in ", i)); FCDEntityInstance* x = e.p->AddInstance(gr.n[j].p); CHECK(x != NULL && x->GetEntityType() == FCDEntity::SCENE_NODE, "a node instance is created"); e.instances.push_back(j); instanced = true; break; }
        case 4: { int k = any(g.chance(1, 6)); if (k < 0) break; std::set<int> b = gr.below(k, false); b.insert(k); for (int x : b) shared_release |= gr.n[x].parents.size() > 1; c.note(cat("release ", k)); FCDSceneNode* p = gr.n[k].p; std::vector<std::pair<int, FUTrackedPtr<FCDSceneNode>*>> watch; gr.n[k].alive = NULL;
            std::map<int, std::unique_ptr<FUTrackedPtr<FCDSceneNode>>> eyes; for (auto& x : gr.n) eyes[x.first].reset(new FUTrackedPtr<FCDSceneNode>(x.second.p)); gr.drop(k); p->Release();
            for (auto& y : eyes) if (!gr.n.count(y.first)) CHECK(*y.second == NULL, "node ", y.first, " is not destroyed with its last parent"); break; }
        case 5: { if (aims && g.chance(1, 3)) { int a = (int) g.below(aims); auto& x = gr.aims[a]; if (x.first == NULL) break; c.note(cat("release targeted entity ", a)); FCDTargetedEntity* t = x.first; gr.aims.erase(a); t->Release(); gr.aims[a]; gr.aims[a].second = -1; }
            else { int a; if (aims && g.coin()) a = (int) g.below(aims); else { a = aims++; gr.aims[a].first = g.coin() ? (FCDTargetedEntity*) gr.d->GetCameraLibrary()->AddEntity() : gr.d->GetLightLibrary()->AddEntity(); gr.aims[a].second = -1; } if (gr.aims[a].first == NULL) break; int t = g.chance(1, 5) ? -1 : j; c.note(cat("targeted entity ", a, " aims at ", t)); gr.aims[a].first->SetTargetNode(t < 0 ? NULL : gr.n[t].p); gr.aims[a].second = t; } break; }
        case 6: { int how = (int) g.below(3); bool pure = g.coin(); c.note(cat("walk ", i)); walk(gr, i, how, pure); break; }
        default: { if (e.instances.empty()) break; size_t k = g.below(e.instances.size()); c.note(cat("release instance ", k, " of ", i)); e.p->GetInstance(k)->Release(); e.instances.erase(e.instances.begin() + k); break; }
        }
        gr.verify(); fcu::no_asserts("the step");
    }
    for (auto& x : gr.n) { for (int how = 0; how < 3; ++how) for (bool pure : { false, true }) walk(gr, x.first, how, pure);
        // upwards: the instance belongs to the node and everything above it; the assets of the nodes above apply
        FCDEntityInstance* in = x.second.p->AddInstance(FCDEntity::CAMERA); for (auto& y : gr.n) CHECK(in->HasForParent(y.second.p) == (x.first == y.first || gr.below(y.first, false).count(x.first) > 0), "the instance in node ", x.first, " answers wrongly about node ", y.first); in->Release(); if (g.chance(1, 3)) x.second.p->GetAsset(); }
    for (auto& x : gr.n) { FCDAssetConstList l, want; ((const FCDSceneNode*) x.second.p)->GetHierarchicalAssets(l); for (int k = x.first;;) { const FCDAsset* a = ((const FCDSceneNode*) gr.n[k].p)->GetAsset(); if (a) want.push_back(a); if (gr.n[k].parents.empty()) break; k = gr.n[k].parents[0]; } want.push_back(gr.d->GetAsset());
        CHECK(l.size() == want.size() && std::equal(l.begin(), l.end(), want.begin()), "the assets that apply to node ", x.first, " are others"); }
    fcu::no_asserts("the walks"); c.nontrivial = shared && (refused || shared_release); if (shared_release) c.label("released above a shared node"); if (refused) c.label("refused a cycle"); if (instanced) c.label("node instances");
}
// ---- transforms, against double-precision matrices that act on column vectors
struct M { double a[4][4]; };
static M ident() { M m {}; for (int i = 0; i < 4; ++i) m.a[i][i] = 1; return m; }
static M mul(const M& x, const M& y) { M r {}; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int k = 0; k < 4; ++k) r.a[i][j] += x.a[i][k] * y.a[k][j]; return r; }
static double size_of(const M& m) { double s = 0; for (auto& r : m.a) for (double v : r) s = std::max(s, std::fabs(v)); return s; }
static const double pi = 3.14159265358979323846;
static void cross(const double* a, const double* b, double* r) { r[0] = a[1] * b[2] - a[2] * b[1]; r[1] = a[2] * b[0] - a[0] * b[2]; r[2] = a[0] * b[1] - a[1] * b[0]; }
static bool unit3(double* v) { double l = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); if (l < 1e-9) return false; for (int i = 0; i < 3; ++i) v[i] /= l; return true; }
static FMVector3 vec(Src& g, int lo, int hi) { auto f = [&] { return (float) g.range(lo * 4, hi * 4) / 4; }; float x = f(), y = f(), z = f(); return FMVector3(x, y, z); }
static FMVector3 axis(Src& g) { static const float s = 0.57735027f; switch (g.below(5)) { case 0: return FMVector3::XAxis; case 1: return FMVector3::YAxis; case 2: return FMVector3::ZAxis; case 3: return FMVector3(s, g.coin() ? s : -s, s); default: return FMVector3(0.6f, 0, g.coin() ? 0.8f : -0.8f); } }
struct Tr { FCDTransform::Type type; M m; };
static std::string set_value(Src& g, FCDTransform* t, Tr& r) {
    r.type = t->GetType(); r.m = ident(); M& m = r.m;
    switch (r.type) {
    case FCDTransform::TRANSLATION: { FMVector3 v = vec(g, -8, 8); if (g.coin()) ((FCDTTranslation*) t)->SetTranslation(v); else ((FCDTTranslation*) t)->SetTranslation(v.x, v.y, v.z); m.a[0][3] = v.x; m.a[1][3] = v.y; m.a[2][3] = v.z; return cat("translate ", v.x, " ", v.y, " ", v.z); }
    case FCDTransform::SCALE: { FMVector3 v = vec(g, -2, 3); ((FCDTScale*) t)->SetScale(v); m.a[0][0] = v.x; m.a[1][1] = v.y; m.a[2][2] = v.z; return cat("scale ", v.x, " ", v.y, " ", v.z); }
    case FCDTransform::ROTATION: { FMVector3 v = axis(g); float a = (float) g.range(-72, 72) * 5; FCDTRotation* x = (FCDTRotation*) t; if (g.coin()) x->SetRotation(v, a); else { x->SetAxis(v); x->SetAngle(a); } double q[3] = { v.x, v.y, v.z }; unit3(q); double c = std::cos(a * pi / 180), s = std::sin(a * pi / 180);
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.a[i][j] = q[i] * q[j] * (1 - c) + (i == j ? c : 0); m.a[0][1] -= s * q[2]; m.a[1][0] += s * q[2]; m.a[0][2] += s * q[1]; m.a[2][0] -= s * q[1]; m.a[1][2] -= s * q[0]; m.a[2][1] += s * q[0]; return cat("rotate ", v.x, " ", v.y, " ", v.z, " by ", a); }
    case FCDTransform::MATRIX: { FMMatrix44 f = FMMatrix44::Identity; for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) { f.m[j][i] = (float) g.range(-8, 8) / 4; m.a[i][j] = f.m[j][i]; } ((FCDTMatrix*) t)->SetTransform(f); return "matrix"; }
    case FCDTransform::SKEW: { FMVector3 ro = axis(g), ar = axis(g); float a = (float) g.range(-12, 12) * 5; FCDTSkew* k = (FCDTSkew*) t; k->SetRotateAxis(ro); k->SetAroundAxis(ar); k->SetAngle(a); double s = std::tan(a * pi / 180), R[3] = { ro.x, ro.y, ro.z }, A[3] = { ar.x, ar.y, ar.z }; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.a[i][j] += s * A[i] * R[j]; return cat("skew by ", a); }
    default: { FMVector3 eye = vec(g, -4, 4), to = eye + axis(g) * 3.0f, up = axis(g); double f[3] = { (double) to.x - eye.x, (double) to.y - eye.y, (double) to.z - eye.z }, u[3] = { up.x, up.y, up.z }, s[3]; unit3(f); cross(f, u, s); if (std::fabs(s[0]) + std::fabs(s[1]) + std::fabs(s[2]) < 0.05) { up = std::fabs(f[0]) < 0.5 ? FMVector3::XAxis : FMVector3::YAxis; u[0] = up.x; u[1] = up.y; u[2] = up.z; cross(f, u, s); } unit3(s); cross(s, f, u);
        FCDTLookAt* l = (FCDTLookAt*) t; l->SetPosition(eye); l->SetTarget(to); l->SetUp(up); double e[3] = { eye.x, eye.y, eye.z }; for (int i = 0; i < 3; ++i) { m.a[i][0] = s[i]; m.a[i][1] = u[i]; m.a[i][2] = -f[i]; m.a[i][3] = e[i]; } return "look at"; }
    }
}
static void close(const FMMatrix44& f, const M& m, double scale, const std::string& what) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) CHECK(std::fabs(f.m[j][i] - m.a[i][j]) <= 4e-6 * scale + 1e-6, what, " has ", f.m[j][i], " at row ", i, " column ", j, " instead of ", m.a[i][j]); }
struct Stack { FCDSceneNode* p; int parent; std::vector<Tr> t; M m() const { M r = ident(); for (auto& x : t) r = mul(r, x.m); return r; } double scale() const { double s = 1; for (auto& x : t) s *= std::max(1.0, 3 * size_of(x.m)); return s; } };
PBT_CASE(transforms, 50000, 1000000) {
    FCDocument* d = FCollada::NewTopDocument(); std::vector<Stack> v; v.push_back({ d->AddVisualScene(), -1, {} }); size_t best = 0; bool above = false;
    for (size_t steps = g.steps(30); steps-- > 0;) {
        size_t i = g.below(v.size()); Stack& s = v[i];
        switch (s.t.empty() ? (v.size() < 6 && g.coin() ? 0 : 1) : g.weighted({2, 5, 3, 2, 1})) {
        case 0: { FCDSceneNode* p = s.p->AddChildNode(); v.push_back({ p, (int) i, {} }); c.note(cat("node ", v.size() - 1, " below ", i)); break; }
        case 1: { FCDTransform::Type ty = (FCDTransform::Type) g.below(FCDTransform::TYPE_COUNT); size_t at = g.coin() ? (size_t) -1 : g.below(s.t.size() + 2); FCDTransform* t = s.p->AddTransform(ty, at); CHECK(t != NULL && t->GetType() == ty && t->GetParent() == s.p, "the transform is created"); Tr r; std::string n = set_value(g, t, r); if (at > s.t.size()) at = s.t.size(); c.note(cat("node ", i, " at ", at, ": ", n)); s.t.insert(s.t.begin() + at, r); break; }
        case 2: { size_t k = g.below(s.t.size()); c.note(cat("node ", i, " at ", k, " becomes ", set_value(g, s.p->GetTransform(k), s.t[k]))); break; }
        case 3: { size_t k = g.below(s.t.size()); c.note(cat("node ", i, " loses ", k)); s.p->GetTransform(k)->Release(); s.t.erase(s.t.begin() + k); break; }
        default: { if (i == 0) break; size_t o = g.below(v.size()); bool ok = o != i; for (int x = (int) o; x >= 0; x = v[x].parent) ok &= x != (int) i; if (!ok || v[i].parent == (int) o) break; c.note(cat("node ", i, " moves below ", o)); CHECK(v[o].p->AddChildNode(s.p), "the node is linked"); v[v[i].parent].p->RemoveChildNode(s.p); v[i].parent = (int) o; break; }
        }
        std::set<int> kinds; for (auto& x : v[i].t) kinds.insert(x.type); if (kinds.size() > 1) best = std::max(best, v[i].t.size()); if (v[i].parent >= 0 && !v[v[i].parent].t.empty() && v[i].t.size() > 2) above = true;
    }
    for (size_t i = 0; i < v.size(); ++i) { Stack& s = v[i]; CHECK_EQ(s.p->GetTransformCount(), s.t.size()); for (size_t k = 0; k < s.t.size(); ++k) { CHECK(s.p->GetTransform(k)->GetType() == s.t[k].type, "transform ", k, " of node ", i, " is of another kind"); close(s.p->GetTransform(k)->ToMatrix(), s.t[k].m, size_of(s.t[k].m) + 1, cat("transform ", k, " of node ", i)); }
        if (s.scale() < 1e7) close(s.p->ToMatrix(), s.m(), s.scale(), cat("the local transform of node ", i)); if (s.scale() < 1e7) close(s.p->CalculateLocalTransform(), s.m(), s.scale(), cat("the calculated local transform of node ", i)); M w = s.m(); double sc = s.scale(); for (int p = s.parent; p >= 0; p = v[p].parent) { w = mul(v[p].m(), w); sc *= 3 * v[p].scale(); } if (sc < 1e8) close(s.p->CalculateWorldTransform(), w, sc, cat("the world transform of node ", i)); }
    fcu::no_asserts("the transforms"); c.nontrivial = best >= 3 && above; d->Release();
}
