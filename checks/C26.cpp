#include "docgen.h"
#include "FCDocument/FCDocumentTools.h"
#include <algorithm>
using namespace pbt;
using namespace dg;
PBT_PROPERTY("C26", "a conversion between two different axes or units of a document with at least one transformed node, mesh, spline, skin or camera")
struct SetInit { SetInit() { worker_init = dg::init; } } setInit;
// ---- reference arithmetic, in double precision ----
struct V { double x, y, z; };
struct M { double m[4][4]; }; // m[row][column]
static M mat(const FMMatrix44& a) { M r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r.m[i][j] = a.m[j][i]; return r; }
static M mul(const M& a, const M& b) { M r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { r.m[i][j] = 0; for (int k = 0; k < 4; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j]; } return r; }
static M one() { M r{}; for (int i = 0; i < 4; ++i) r.m[i][i] = 1; return r; }
static V at(const M& a, const V& v, double w) { return {a.m[0][0] * v.x + a.m[0][1] * v.y + a.m[0][2] * v.z + a.m[0][3] * w, a.m[1][0] * v.x + a.m[1][1] * v.y + a.m[1][2] * v.z + a.m[1][3] * w, a.m[2][0] * v.x + a.m[2][1] * v.y + a.m[2][2] * v.z + a.m[2][3] * w}; }
static double size(const M& a) { double s = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) s = std::max(s, fabs(a.m[i][j])); return s; }
static double size(const V& v) { return std::max({fabs(v.x), fabs(v.y), fabs(v.z)}); }
static int axis_of(const FMVector3& a) { return a.x > 0.5f ? 0 : a.y > 0.5f ? 1 : 2; }
static const FMVector3& axis_vector(int a) { return a == 0 ? FMVector3::XAxis : a == 1 ? FMVector3::YAxis : FMVector3::ZAxis; }
// COLLADA: X_UP has right -Y, up +X, in +Z; Y_UP has right +X, up +Y, in +Z; Z_UP has right +X, up +Z, in -Y.
static const double FRAME[3][3][3] = {{{0, -1, 0}, {1, 0, 0}, {0, 0, 1}}, {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {{1, 0, 0}, {0, 0, 1}, {0, -1, 0}}};
struct Change { int from, to; double s; // axis and factor
    M dir() const { M r = one(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r.m[i][j] = 0; for (int k = 0; k < 3; ++k) r.m[i][j] += FRAME[to][k][i] * FRAME[from][k][j]; } return r; }
    V direction(const V& v) const { return at(dir(), v, 0); }
    V position(const V& v) const { V r = at(dir(), v, 0); return {r.x * s, r.y * s, r.z * s}; }
    M transform(const M& a) const { M d = dir(), t = one(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) t.m[i][j] = d.m[j][i]; M r = mul(mul(d, a), t); for (int i = 0; i < 3; ++i) r.m[i][3] *= s; return r; }
    bool nothing() const { return from == to && fabs(s - 1) < 1e-7; } };
static bool near(double a, double b, double by) { return a == b || (a != a && b != b) || fabs(a - b) <= 2e-4 * by + 1e-5 || (fabs(a) > 1e30 && fabs(b) > 1e30); }
static void same(const V& a, const V& b, double by, const std::string& what) { if (!(near(a.x, b.x, by) && near(a.y, b.y, by) && near(a.z, b.z, by))) fail(cat(what, ": (", a.x, " ", a.y, " ", a.z, ") instead of (", b.x, " ", b.y, " ", b.z, ")")); }
static void same(const M& a, const M& b, double by, const std::string& what) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) if (!near(a.m[i][j], b.m[i][j], by)) fail(cat(what, ": row ", i, " column ", j, " is ", a.m[i][j], " instead of ", b.m[i][j])); }
// ---- what is observed ----
struct Local { M m; double by; bool ill; };
struct Seen { std::string what; M w; double by; bool ill; }; // world frame of an instance
struct Shot { std::map<FCDSceneNode*, Local> local; std::map<std::string, Seen> world; std::map<FCDGeometrySource*, std::vector<float>> sources; std::map<FCDSpline*, std::vector<V>> splines; std::map<FCDSkinController*, std::vector<M>> skins; std::map<FCDCamera*, std::pair<double, double>> planes; };
static std::vector<FCDSceneNode*> all_nodes(FCDocument* d) { std::vector<FCDSceneNode*> q; std::set<FCDSceneNode*> s; auto* l = d->GetVisualSceneLibrary(); for (size_t i = 0; i < l->GetEntityCount(); ++i) if (s.insert(l->GetEntity(i)).second) q.push_back(l->GetEntity(i));
    for (size_t i = 0; i < q.size(); ++i) for (size_t k = 0; k < q[i]->GetChildrenCount(); ++k) if (s.insert(q[i]->GetChild(k)).second) q.push_back(q[i]->GetChild(k)); return q; }
static Local local(FCDSceneNode* n, double floor) { Local l; l.m = mat(n->ToMatrix()); l.by = 1; l.ill = false;
    for (size_t i = 0; i < n->GetTransformCount(); ++i) { FCDTransform* t = n->GetTransform(i); M m = mat(t->ToMatrix()); double s = size(m), f = t->GetAnimated() && t->GetAnimated()->HasCurve() ? floor : 0; l.by *= std::max({1.0, s, f}); if (!(s < 1e12)) l.ill = true;
        if (t->GetType() == FCDTransform::LOOKAT) { auto* k = (FCDTLookAt*) t; FMVector3 p = k->GetPosition(), g = k->GetTarget(), u = k->GetUp(); V d{(double) g.x - p.x, (double) g.y - p.y, (double) g.z - p.z}; V c{d.y * u.z - d.z * u.y, d.z * u.x - d.x * u.z, d.x * u.y - d.y * u.x}; if (size(c) < 1e-2 * (1e-3 + size(d)) || size(d) < 1e-2 * (1 + size(V{p.x, p.y, p.z}))) l.ill = true; }
        if (t->GetType() == FCDTransform::ROTATION && !(((FCDTRotation*) t)->GetAxis().Length() > 1e-3f)) l.ill = true; // no axis to turn about
        if (t->GetType() == FCDTransform::SKEW) { auto* k = (FCDTSkew*) t; if (t->GetAnimated() && t->GetAnimated()->HasCurve()) l.ill = true; FMVector3 a = k->GetRotateAxis(), b = k->GetAroundAxis(); V c{(double) a.y * b.z - a.z * b.y, (double) a.z * b.x - a.x * b.z, (double) a.x * b.y - a.y * b.x}; if (size(c) < 1e-2 && size(c) > 1e-7) l.ill = true; } }
    return l; }
static void walk(FCDSceneNode* n, const std::set<FCDSceneNode*>& known, const M& above, double by, const std::string& path, Shot& s, double floor, size_t& budget, bool ill) {
    if (!budget) return; --budget; Local l = local(n, floor); M w = mul(above, l.m); by *= l.by; ill |= l.ill; ill |= by > 1e7; std::map<std::string, int> count;
    auto see = [&](FCDSceneNode* holder, const M& f) { for (size_t i = 0; i < holder->GetInstanceCount(); ++i) { FCDEntity* e = holder->GetInstance(i)->GetEntity(); if (!e) continue; std::string k = cat(path, "/", (const void*) e), key; key = cat(k, "#", count[k]++); s.world[key] = {cat(S(e->GetDaeId()), " type ", e->GetType(), " in node ", S(n->GetDaeId())), f, by, ill}; } };
    see(n, w); std::map<std::string, int> kids;
    for (size_t i = 0; i < n->GetChildrenCount(); ++i) { FCDSceneNode* c = n->GetChild(i); if (!known.count(c)) { see(c, mul(w, mat(c->ToMatrix()))); CHECK(c->GetChildrenCount() == 0, "a pivot node has children"); continue; } std::string k = cat(path, "/", (const void*) c); walk(c, known, w, by, cat(k, "#", kids[k]++), s, floor, budget, ill); } }
static Shot shoot(FCDocument* d, const std::vector<FCDSceneNode*>& nodes, double floor) { Shot s; std::set<FCDSceneNode*> known(nodes.begin(), nodes.end());
    for (auto* n : nodes) s.local[n] = local(n, floor); size_t budget = 400;
    auto* l = d->GetVisualSceneLibrary(); for (size_t i = 0; i < l->GetEntityCount(); ++i) walk(l->GetEntity(i), known, one(), 1, cat(i), s, floor, budget, false); if (!budget) s.world.clear();
    for (size_t i = 0; i < d->GetGeometryLibrary()->GetEntityCount(); ++i) { auto* g = d->GetGeometryLibrary()->GetEntity(i);
        if (g->IsMesh()) for (size_t k = 0; k < g->GetMesh()->GetSourceCount(); ++k) { auto* q = g->GetMesh()->GetSource(k); s.sources[q].assign(q->GetData(), q->GetData() + q->GetDataCount()); }
        if (g->IsSpline()) for (size_t k = 0; k < g->GetSpline()->GetSplineCount(); ++k) { auto* q = g->GetSpline()->GetSpline(k); auto& v = s.splines[q]; for (size_t c = 0; c < q->GetCVCount(); ++c) { const FMVector3& p = *q->GetCV(c); v.push_back({p.x, p.y, p.z}); } } }
    for (size_t i = 0; i < d->GetControllerLibrary()->GetEntityCount(); ++i) { auto* c = d->GetControllerLibrary()->GetEntity(i); if (!c->IsSkin()) continue; auto* k = c->GetSkinController(); auto& v = s.skins[k]; v.push_back(mat(k->GetBindShapeTransform())); for (size_t j = 0; j < k->GetJointCount(); ++j) v.push_back(mat(k->GetJoint(j)->GetBindPoseInverse())); }
    for (size_t i = 0; i < d->GetCameraLibrary()->GetEntityCount(); ++i) { auto* c = d->GetCameraLibrary()->GetEntity(i); s.planes[c] = {(float) c->GetNearZ(), (float) c->GetFarZ()}; }
    return s; }
static bool is_position(FUDaeGeometryInput::Semantic t) { return t == FUDaeGeometryInput::POSITION; }
static bool is_direction(FUDaeGeometryInput::Semantic t) { return t == FUDaeGeometryInput::NORMAL || t == FUDaeGeometryInput::GEOTANGENT || t == FUDaeGeometryInput::GEOBINORMAL || t == FUDaeGeometryInput::TEXTANGENT || t == FUDaeGeometryInput::TEXBINORMAL; }
typedef std::map<const FCDObject*, Change> Changes; // change of each entity; world changes only when they are all the same
static void compare(const Shot& a, const Shot& b, const Changes& ch, const Change* all, double floor, const std::string& when) {
    auto of = [&](const FCDObject* o) { auto i = ch.find(o); return i == ch.end() ? *all : i->second; };
    for (auto& p : a.local) { const Local& q = b.local.at(p.first); if (p.second.ill || q.ill || p.second.by > 1e8) continue; Change c = of(p.first); same(q.m, c.transform(p.second.m), p.second.by * std::max(1.0, c.s), cat(when, "transform of node ", S(p.first->GetDaeId()))); }
    for (auto& p : a.sources) { auto* q = p.first; const auto& v = p.second; const auto& w = b.sources.at(q); Change c = of(q); CHECK_EQ(v.size(), w.size(), "source size"); size_t st = q->GetStride(); if (!st) continue; bool pos = is_position(q->GetType()), dir = is_direction(q->GetType()) && st >= 3; std::string n = cat(when, "element of source ", S(q->GetDaeId()), " of type ", q->GetType(), ", ");
        for (size_t i = 0; i + st <= v.size(); i += st) { V x{}, y{}; size_t m = std::min(st, (size_t) 3); if (m == 3) { x = {v[i], v[i + 1], v[i + 2]}; y = {w[i], w[i + 1], w[i + 2]}; }
            double by = std::max(size(x) * (1 + c.s), floor * (1 + c.s));
            if (m == 3) same(y, pos ? c.position(x) : dir ? c.direction(x) : x, pos ? by : size(x), cat(n, i / st));
            else for (size_t k = 0; k < m; ++k) CHECK(pos ? near(w[i + k], v[i + k] * c.s, fabs(w[i + k])) : w[i + k] == v[i + k], n, i / st, ": ", w[i + k], " after ", v[i + k]);
            for (size_t k = 3; k < st; ++k) if (!pos) CHECK(near(w[i + k], v[i + k], 0), n, i / st, " component ", k, ": ", w[i + k], " after ", v[i + k]); } }
    for (auto& p : a.splines) { Change c = of(p.first); const auto& w = b.splines.at(p.first); CHECK_EQ(w.size(), p.second.size()); for (size_t i = 0; i < w.size(); ++i) same(w[i], c.position(p.second[i]), size(w[i]), cat(when, "control vertex ", i)); }
    for (auto& p : a.skins) { Change c = of(p.first); const auto& w = b.skins.at(p.first); for (size_t i = 0; i < w.size(); ++i) { M e = c.transform(p.second[i]); same(w[i], e, (size(e) + size(p.second[i])) * (i ? 30 : 1), cat(when, i ? "inverse bind pose of joint " : "bind shape of skin ", i)); } }
    for (auto& p : a.planes) { Change c = of(p.first); auto& w = b.planes.at(p.first); CHECK(near(w.first, p.second.first * c.s, fabs(w.first) + floor * c.s), when, "near plane ", w.first, " after ", p.second.first, " factor ", c.s); CHECK(near(w.second, p.second.second * c.s, fabs(w.second) + floor * c.s), when, "far plane ", w.second, " after ", p.second.second, " factor ", c.s); }
    if (!all) return; M d = all->dir();
    for (auto& p : a.world) { auto i = b.world.find(p.first); CHECK(i != b.world.end(), when, "the instance of ", p.second.what, " is gone"); if (p.second.ill || i->second.ill) continue; double by = p.second.by * std::max(1.0, all->s); M e; 
        int type = atoi(p.second.what.c_str() + p.second.what.find(" type ") + 6); bool local_axes = type == FCDEntity::CAMERA || type == FCDEntity::LIGHT || type == FCDEntity::FORCE_FIELD || type == FCDEntity::EMITTER;
        if (local_axes) { e = mul(d, p.second.w); for (int r = 0; r < 3; ++r) e.m[r][3] *= all->s; } else e = all->transform(p.second.w); // those look along their own axes: every local direction keeps its world direction
        same(i->second.w, e, by, cat(when, "world frame of ", p.second.what)); }
    for (auto& p : b.world) CHECK(a.world.count(p.first), when, "a new instance of ", p.second.what);
}
static std::string others(FCDocument* d) { // what no conversion concerns
    Dump o; auto add = [&](auto* l) { for (size_t i = 0; i < l->GetEntityCount(); ++i) dump_entity(o, l->GetEntity(i)); }; add(d->GetImageLibrary()); add(d->GetEffectLibrary()); add(d->GetMaterialLibrary()); return text(o); }
static void evaluate(FCDocument* d, float t) { Dump a = dumped(d); for (auto& p : a.animateds) p.first->Evaluate(t); }
static void animate_directions(Src& g, FCDocument* d) { auto* l = d->GetAnimationLibrary(); if (!l->GetEntityCount()) return; // elements of normals and tangents
    for (size_t i = 0; i < d->GetGeometryLibrary()->GetEntityCount(); ++i) { auto* e = d->GetGeometryLibrary()->GetEntity(i); if (!e->IsMesh()) continue; for (size_t k = 0; k < e->GetMesh()->GetSourceCount(); ++k) { auto* q = e->GetMesh()->GetSource(k); if (!is_direction(q->GetType()) || q->GetStride() < 3 || !q->GetDataCount() || !g.coin()) continue;
        for (size_t n = 1 + g.below(3); n-- > 0;) { FCDAnimated* a = q->GetSourceData().GetAnimated(g.below(q->GetDataCount())); if (a->HasCurve()) continue; FCDAnimationCurve* c = l->GetEntity(0)->AddChannel()->AddCurve(); for (int t = 0; t < 3; ++t) { auto* y = c->AddKey(FUDaeInterpolation::LINEAR); y->input = (float) t; y->output = (float) g.range(-40, 40) / 8; } a->AddCurve(0, c); } } } }
static void build(Src& g, Doc& d, Gen& G, unsigned parts) {
    G.document(parts); animate_directions(g, d);
    auto* l = d->GetAnimationLibrary(); std::vector<FCDAnimation*> q; for (size_t i = 0; i < l->GetEntityCount(); ++i) q.push_back(l->GetEntity(i));
    for (size_t i = 0; i < q.size(); ++i) { for (size_t k = 0; k < q[i]->GetChildrenCount(); ++k) q.push_back(q[i]->GetChild(k)); FCDAnimationCurveList cs; q[i]->GetCurves(cs);
        auto in = [](float& v) { if (!(fabs(v) <= 100)) v = v > 0 ? 100 : -100; };
        for (auto* c : cs) { c->SetDriver(NULL, 0); if (c->GetPreInfinity() == FUDaeInfinity::LINEAR) c->SetPreInfinity(FUDaeInfinity::CONSTANT); if (c->GetPostInfinity() == FUDaeInfinity::LINEAR) c->SetPostInfinity(FUDaeInfinity::CONSTANT);
            for (size_t k = 0; k < c->GetKeyCount(); ++k) { auto* y = c->GetKey(k); in(y->output); if (y->interpolation == FUDaeInterpolation::BEZIER) { auto* b = (FCDAnimationKeyBezier*) y; in(b->inTangent.y); in(b->outTangent.y); } } } }
    for (auto* n : all_nodes(d)) for (size_t i = 0; i < n->GetTransformCount(); ++i) if (n->GetTransform(i)->GetType() == FCDTransform::MATRIX && n->GetTransform(i)->GetAnimated()) { auto* t = (FCDTMatrix*) n->GetTransform(i); FMMatrix44& m = t->GetTransform(); for (int k = 0; k < 4; ++k) { size_t v = t->GetAnimated()->FindValue(&m.m[k][3]); if (v < t->GetAnimated()->GetValueCount()) t->GetAnimated()->RemoveCurve(v); m.m[k][3] = k == 3; } } // the last row of a transform is constant
    // tame transforms, so that world frames stay within the precision of a float
    for (auto* n : all_nodes(d)) for (size_t i = 0; i < n->GetTransformCount(); ++i) { FCDTransform* t = n->GetTransform(i); auto small = [](FMVector3 v) { for (float* f : {&v.x, &v.y, &v.z}) *f = fmodf(*f, 20); return v; };
        if (t->GetType() == FCDTransform::TRANSLATION) ((FCDTTranslation*) t)->SetTranslation(small(((FCDTTranslation*) t)->GetTranslation())); if (t->GetType() == FCDTransform::SCALE) { FMVector3 v = small(((FCDTScale*) t)->GetScale()); ((FCDTScale*) t)->SetScale(FMVector3(fmodf(v.x, 3), fmodf(v.y, 3), fmodf(v.z, 3))); }
        if (t->GetType() == FCDTransform::LOOKAT) { auto* k = (FCDTLookAt*) t; k->SetPosition(small(k->GetPosition())); k->SetTarget(small(k->GetTarget())); }
        if (t->GetType() == FCDTransform::MATRIX) { FMMatrix44 m = ((FCDTMatrix*) t)->GetTransform(); for (int c = 0; c < 4; ++c) for (int r = 0; r < 3; ++r) m.m[c][r] = fmodf(m.m[c][r], c < 3 ? 2 : 50); ((FCDTMatrix*) t)->SetTransform(m); } }
    // well-conditioned bind poses
    for (size_t i = 0; i < d->GetControllerLibrary()->GetEntityCount(); ++i) { auto* c = d->GetControllerLibrary()->GetEntity(i); if (!c->IsSkin()) continue; auto* k = c->GetSkinController(); auto frame = [&] { FMMatrix44 m = FMMatrix44::AxisRotationMatrix(G.axis(), (float) g.range(-31, 31) / 10); for (int r = 0; r < 3; ++r) m.m[3][r] = (float) g.range(-400, 400) / 8; for (int c2 = 0; c2 < 3; ++c2) { float f = g.oneof({1.0f, 0.5f, 2.0f, 1.25f}); for (int r = 0; r < 3; ++r) m.m[c2][r] *= f; } return m; };
        k->SetBindShapeTransform(frame()); for (size_t j = 0; j < k->GetJointCount(); ++j) k->GetJoint(j)->SetBindPoseInverse(frame()); }
    // library nodes instantiated below another scene
    std::vector<FCDSceneNode*> nodes = all_nodes(d); auto* v = d->GetVisualSceneLibrary();
    if (v->GetEntityCount() > 1 && g.chance(1, 4)) { FCDSceneNode* n = v->GetEntity(v->GetEntityCount() - 1); FCDSceneNode* p = v->GetEntity(0); p->AddChildNode(n); }
}
// the transform of a node that holds nothing but one instance with axes of its own may change: only its world frame counts
static std::set<FCDSceneNode*> pivots(const std::vector<FCDSceneNode*>& nodes) { std::set<FCDSceneNode*> r; for (auto* n : nodes) if (n->GetInstanceCount() == 1 && !n->GetChildrenCount()) { int t = n->GetInstance(0)->GetEntityType(); if (t == FCDEntity::CAMERA || t == FCDEntity::LIGHT || t == FCDEntity::FORCE_FIELD || t == FCDEntity::EMITTER) r.insert(n); } return r; }
static void unset(FCDAsset* a) { if (a) { a->ResetHasUnitsFlag(); a->ResetHasUpAxisFlag(); } }
template <class F> static void each_asset(FCDocument* d, F f) { // every entity and library that may carry its own unit and axis
    auto lib = [&](auto* l) { f(l->GetAsset(false), (FCDEntity*) NULL); for (size_t i = 0; i < l->GetEntityCount(); ++i) { FCDEntity* e = l->GetEntity(i); f(const_cast<FCDAsset*>(((const FCDEntity*) e)->GetAsset()), e); } };
    lib(d->GetCameraLibrary()); lib(d->GetLightLibrary()); lib(d->GetGeometryLibrary()); lib(d->GetControllerLibrary()); lib(d->GetAnimationLibrary()); lib(d->GetForceFieldLibrary()); lib(d->GetEmitterLibrary()); lib(d->GetVisualSceneLibrary());
    for (auto* n : all_nodes(d)) f(const_cast<FCDAsset*>(((const FCDEntity*) n)->GetAsset()), n);
    for (size_t i = 0; i < d->GetAnimationLibrary()->GetEntityCount(); ++i) { std::vector<FCDAnimation*> q{d->GetAnimationLibrary()->GetEntity(i)}; for (size_t k = 0; k < q.size(); ++k) { for (size_t c = 0; c < q[k]->GetChildrenCount(); ++c) q.push_back(q[k]->GetChild(c)); f(const_cast<FCDAsset*>(((const FCDEntity*) q[k])->GetAsset()), q[k]); } } }
static float a_unit(Src& g) { return g.oneof({1.0f, 0.01f, 0.0254f, 0.5f, 2.0f, 0.3048f, 100.0f, 0.001f}); }
static const unsigned PARTS = ASSET | SCENES | CAMERAS | LIGHTS | FIELDS | GEOMETRY | CONTROLLERS | ANIMATIONS;
static void targets(FCDocument* d, bool& any) { for (size_t i = 0; i < d->GetCameraLibrary()->GetEntityCount(); ++i) any |= d->GetCameraLibrary()->GetEntity(i)->HasTarget(); for (size_t i = 0; i < d->GetLightLibrary()->GetEntityCount(); ++i) any |= d->GetLightLibrary()->GetEntity(i)->HasTarget(); }

PBT_CASE(uniform, 3000, 120000) {
    Doc d; Gen G(g, d); G.extras = g.chance(1, 4); unsigned parts = ASSET | SCENES; for (unsigned p : std::initializer_list<unsigned>{CAMERAS, LIGHTS, GEOMETRY, CONTROLLERS, ANIMATIONS, FIELDS, MATERIALS | EFFECTS | IMAGES}) if (g.coin()) parts |= p; if (parts & CONTROLLERS) parts |= GEOMETRY;
    build(g, d, G, parts); each_asset(d, [](FCDAsset* a, FCDEntity*) { unset(a); }); messages().clear();
    int from = (int) g.below(3); float unit = a_unit(g); FCDAsset* base = d->GetAsset(); base->SetUpAxis(axis_vector(from)); base->SetUnitConversionFactor(unit);
    std::vector<float> times{0}; bool moving = (parts & ANIMATIONS) && G.animated; if (moving) { times = {-5, 0, 0.375f, 2, 7.5f}; for (int i = 0; i < 3; ++i) times.push_back((float) g.range(-160, 320) / 16); }
    std::vector<FCDSceneNode*> nodes = all_nodes(d); std::vector<Shot> first; double floor = moving ? 100 : 0;
    if (moving) for (float t : times) { evaluate(d, t); first.push_back(shoot(d, nodes, floor)); } else first.push_back(shoot(d, nodes, floor));
    for (auto* n : pivots(nodes)) for (auto& x : first) x.local.erase(n); bool targeted = false, changed = false; targets(d, targeted); std::string rest = others(d), trail = cat("XYZ"[from], "_UP ", unit); int cur = from; float u = unit; size_t steps = 1 + g.below(3); c.note(text(dumped(d, SCENES))); c.note(text(dumped(d)));
    for (size_t k = 0; k <= steps; ++k) { bool back = k == steps; int to = back ? from : (int) g.below(3); float v = back ? unit : g.coin() ? a_unit(g) : unit; trail += cat(" -> ", "XYZ"[to], "_UP ", v);
        bool implicit_axis = to == cur && g.coin(), implicit_unit = v == u && g.coin(); FCDocumentTools::StandardizeUpAxisAndLength(d, implicit_axis ? FMVector3::Origin : axis_vector(to), implicit_unit ? 0.0f : v, !targeted && g.coin()); fcu::no_asserts("standardising");
        cur = to; u = v; CHECK(base->GetHasUpAxisFlag() && base->GetHasUnitsFlag(), "axis or unit not recorded"); CHECK(axis_of(base->GetUpAxis()) == to && base->GetUnitConversionFactor() == v, "axis or unit recorded wrongly");
        Change ch{from, to, (double) unit / v}; changed |= !ch.nothing();
        for (size_t i = 0; i < times.size(); ++i) { if (moving) evaluate(d, times[i]); compare(first[i], shoot(d, nodes, floor), Changes(), &ch, floor, cat(trail, moving ? cat(" at ", times[i]) : "", ": ")); }
        CHECK(rest == others(d), trail, ": images, effects or materials changed"); fcu::no_asserts("comparing"); }
    CHECK(messages().errors.empty(), "errors: ", messages().all());
    bool content = !first[0].sources.empty() || !first[0].skins.empty() || !first[0].planes.empty() || !first[0].splines.empty(); for (auto* n : nodes) content |= n->GetTransformCount() > 0;
    c.nontrivial = content && changed; if (moving) c.label("animated"); if (!first[0].world.empty()) c.label("instances"); if (!first[0].skins.empty()) c.label("skins"); c.note(trail);
}
PBT_CASE(mixed, 2000, 60000) { // entities with units and axes of their own
    Doc d; Gen G(g, d); G.extras = false; build(g, d, G, PARTS & ~ANIMATIONS & ~FIELDS); int from = (int) g.below(3); float unit = a_unit(g); FCDAsset* base = d->GetAsset(); base->SetUpAxis(axis_vector(from)); base->SetUnitConversionFactor(unit);
    size_t own = 0; auto some = [&](FCDAsset* a) { if (g.coin()) { a->SetUpAxis(axis_vector((int) g.below(3))); ++own; } if (g.coin()) { a->SetUnitConversionFactor(a_unit(g)); ++own; } };
    auto give = [&](auto* l) { if (!l->IsEmpty() && g.chance(1, 4)) some(l->GetAsset(true)); for (size_t i = 0; i < l->GetEntityCount(); ++i) if (g.chance(1, 2)) some(l->GetEntity(i)->GetAsset()); };
    give(d->GetCameraLibrary()); give(d->GetGeometryLibrary()); give(d->GetControllerLibrary()); give(d->GetVisualSceneLibrary());
    std::vector<FCDSceneNode*> nodes = all_nodes(d); for (auto* n : nodes) if (n->GetParent() && g.chance(1, 4)) some(n->GetAsset());
    auto effective = [&](const FCDEntity* e, FCDAsset* lib, FCDAsset* doc, int to, float v) { std::vector<const FCDAsset*> as; if (e->GetType() == FCDEntity::SCENE_NODE) for (const FCDSceneNode* n = (const FCDSceneNode*) e; n; n = n->GetParent(0)) as.push_back(n->GetAsset()); else as.push_back(e->GetAsset()); as.push_back(lib); as.push_back(doc);
        Change c{-1, to, 0}; for (auto* a : as) if (a) { if (c.from < 0 && a->GetHasUpAxisFlag()) c.from = axis_of(a->GetUpAxis()); if (c.s == 0 && a->GetHasUnitsFlag()) c.s = (double) a->GetUnitConversionFactor() / v; } if (c.from < 0) c.from = to; if (c.s == 0) c.s = 1; return c; };
    int to = (int) g.below(3); float v = a_unit(g); Changes ch;
    for (auto* n : nodes) ch[n] = effective(n, d->GetVisualSceneLibrary()->GetAsset(false), base, to, v);
    for (size_t i = 0; i < d->GetCameraLibrary()->GetEntityCount(); ++i) { auto* e = d->GetCameraLibrary()->GetEntity(i); ch[e] = effective(e, d->GetCameraLibrary()->GetAsset(false), base, to, v); }
    for (size_t i = 0; i < d->GetControllerLibrary()->GetEntityCount(); ++i) { auto* e = d->GetControllerLibrary()->GetEntity(i); if (e->IsSkin()) ch[e->GetSkinController()] = effective(e, d->GetControllerLibrary()->GetAsset(false), base, to, v); }
    for (size_t i = 0; i < d->GetGeometryLibrary()->GetEntityCount(); ++i) { auto* e = d->GetGeometryLibrary()->GetEntity(i); Change x = effective(e, d->GetGeometryLibrary()->GetAsset(false), base, to, v); if (e->IsMesh()) for (size_t k = 0; k < e->GetMesh()->GetSourceCount(); ++k) ch[e->GetMesh()->GetSource(k)] = x; if (e->IsSpline()) for (size_t k = 0; k < e->GetSpline()->GetSplineCount(); ++k) ch[e->GetSpline()->GetSpline(k)] = x; }
    std::set<FCDSceneNode*> pivoted = pivots(nodes);
    c.note(text(dumped(d))); Shot a = shoot(d, nodes, 0); FCDocumentTools::StandardizeUpAxisAndLength(d, axis_vector(to), v); fcu::no_asserts("standardising"); Shot b = shoot(d, nodes, 0);
    for (auto* n : pivoted) { a.local.erase(n); } a.world.clear(); b.world.clear();
    std::string when = cat("to ", "XYZ"[to], "_UP ", v, ": "); compare(a, b, ch, NULL, 0, when);
    // Everything is in the new axis and unit now: converting again changes nothing, converting elsewhere changes all by the same rule
    int to2 = (int) g.below(3); float v2 = g.coin() ? v : a_unit(g); FCDocumentTools::StandardizeUpAxisAndLength(d, axis_vector(to2), v2); fcu::no_asserts("standardising"); Shot e = shoot(d, nodes, 0); for (auto* n : pivoted) b.local.erase(n); Change c2{to, to2, (double) v / v2}; b.world.clear(); e.world.clear(); compare(b, e, Changes(), &c2, 0, cat("then to ", "XYZ"[to2], "_UP ", v2, ": "));
    c.nontrivial = own > 0 && !ch.empty(); c.note(when);
}
PBT_CASE(same, 1000, 30000) { // to the axis and unit the document already has
    Doc d; Gen G(g, d); G.extras = g.coin(); G.rich = g.chance(1, 4); unsigned parts = ASSET | SCENES; for (unsigned p = CAMERAS; p <= PHYSICS; p <<= 1) if (g.coin()) parts |= p; G.document(parts); each_asset(d, [](FCDAsset* a, FCDEntity*) { unset(a); }); messages().clear();
    FCDAsset* base = d->GetAsset(); int from = (int) g.below(3); float unit = a_unit(g); base->SetUpAxis(axis_vector(from)); base->SetUnitConversionFactor(unit);
    Dump before = dumped(d); FCDocumentTools::StandardizeUpAxisAndLength(d, g.coin() ? FMVector3::Origin : axis_vector(from), g.coin() ? 0.0f : unit, g.coin()); fcu::no_asserts("standardising"); std::string s = diff(before, dumped(d)); CHECK(s.empty(), "the document changed: ", s); CHECK(messages().errors.empty(), messages().all());
    c.nontrivial = before.t.size() > 40; c.note(text(before));
}
PBT_CASE(linked, 600, 20000) { // the documents a document refers to are converted with it
    size_t n = 2 + g.below(2); std::vector<std::unique_ptr<Doc>> ds; std::vector<std::vector<FCDSceneNode*>> nodes; std::vector<int> axes; std::vector<float> units; std::vector<Shot> a;
    for (size_t i = 0; i < n; ++i) { ds.emplace_back(new Doc()); Doc& d = *ds.back(); Gen G(g, d); G.extras = false; build(g, d, G, SCENES | GEOMETRY | CAMERAS); each_asset(d, [](FCDAsset* a, FCDEntity*) { unset(a); }); axes.push_back((int) g.below(3)); units.push_back(a_unit(g)); d->GetAsset()->SetUpAxis(axis_vector(axes[i])); d->GetAsset()->SetUnitConversionFactor(units[i]); d->SetFileUrl(fstring(cat("/tmp/c26_", i, ".dae").c_str())); }
    std::vector<std::set<size_t>> to(n); for (size_t k = 1 + g.below(3); k-- > 0;) { size_t x = g.below(n), y = g.below(n); if (x == y) continue; auto* l = ds[y]->d->GetGeometryLibrary(); FCDSceneNode* s = ds[x]->d->GetVisualSceneLibrary()->GetEntity(0); if (l->GetEntityCount()) { s->AddChildNode()->AddInstance(l->GetEntity(g.below(l->GetEntityCount()))); to[x].insert(y); } }
    for (size_t i = 0; i < n; ++i) { nodes.push_back(all_nodes(*ds[i])); a.push_back(shoot(*ds[i], nodes[i], 0)); }
    for (size_t i = 0; i < n; ++i) c.note(cat("document ", i, " ", "XYZ"[axes[i]], "_UP ", units[i], "\n", text(dumped(*ds[i])))); std::set<size_t> reach{0}; for (size_t k = 0; k < n; ++k) for (size_t x = 0; x < n; ++x) if (reach.count(x)) reach.insert(to[x].begin(), to[x].end());
    int t = (int) g.below(3); float v = a_unit(g); c.note(cat("to ", "XYZ"[t], "_UP ", v)); FCDocumentTools::StandardizeUpAxisAndLength(*ds[0], axis_vector(t), v); fcu::no_asserts("standardising");
    for (size_t i = 0; i < n; ++i) { Change ch{axes[i], t, (double) units[i] / v}; if (!reach.count(i)) ch = Change{0, 0, 1}; a[i].world.clear(); Shot b = shoot(*ds[i], nodes[i], 0); b.world.clear(); 
        for (auto* q : pivots(nodes[i])) a[i].local.erase(q);
        compare(a[i], b, Changes(), &ch, 0, cat("document ", i, reach.count(i) ? "" : " (not referenced)", ": ")); }
    c.nontrivial = reach.size() > 1; if (reach.size() > 1) c.label("converted another document");
}
