// NODOCGEN
#include "fcu.h"
#include "FCollada.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDCamera.h"
#include "FCDocument/FCDSceneNode.h"
#include "FCDocument/FCDSceneNodeTools.h"
#include "FCDocument/FCDTransform.h"
#include "FCDocument/FCDAnimation.h"
#include "FCDocument/FCDAnimationChannel.h"
#include "FCDocument/FCDAnimationCurve.h"
#include "FCDocument/FCDAnimationKey.h"
#include "FCDocument/FCDAnimated.h"
#include "FCDocument/FCDParameterAnimatable.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometrySource.h"
#include "FMath/FMAngleAxis.h"
#include "FMath/FMLookAt.h"
#include "FMath/FMSkew.h"
#include "FUtils/FUTracker.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <memory>
using namespace pbt;
PBT_PROPERTY("C25", "Histories of edits, curve assignments and evaluations on lists of animatable values, on single animatable values and on the transforms of a node, in step with a model that knows which curve belongs to which element and component. Non-trivial: a list edited in front of or around an animated element that survives and is evaluated afterwards; a value with animated and other components, evaluated twice; a node whose sampling merges two different curves.")
struct SetInit { SetInit() { worker_init = [] { fcu::install(); FCollada::Initialize(); }; } } setInit;
typedef FUTrackedPtr<FCDAnimationCurve> CurveEye; typedef FUTrackedPtr<FCDAnimated> AnimEye;
struct World {
    FCDocument* d; FCDAnimationChannel* ch; std::vector<std::unique_ptr<CurveEye>> curves;
    World() { d = FCollada::NewTopDocument(); ch = d->GetAnimationLibrary()->AddEntity()->AddChannel(); }
    ~World() { d->Release(); }
    int curve(Src& g) { FCDAnimationCurve* c = ch->AddCurve(); size_t n = g.len(4); float t = (float) g.range(-4, 4); for (size_t i = 0; i < n; ++i) { FCDAnimationKey* k = c->AddKey(g.coin() ? FUDaeInterpolation::LINEAR : FUDaeInterpolation::STEP); k->input = t; k->output = (float) g.range(-4000, 4000) / 8; t += (float) (1 + g.below(6)) / 4; } curves.emplace_back(new CurveEye(c)); return (int) curves.size() - 1; }
    FCDAnimationCurve* at(int i) { return i < 0 ? NULL : (FCDAnimationCurve*) *curves[i]; }
};
struct Comp { float v; std::vector<int> curves; };
struct Elem { std::vector<Comp> c; std::unique_ptr<AnimEye> a; std::unique_ptr<Elem> twin; };
static bool same(float a, float b) { return std::memcmp(&a, &b, sizeof a) == 0 || a == b; }
static int pick_curve(World& w, Src& g, const std::vector<int>& not_these) { if (!w.curves.empty() && g.chance(1, 5)) { int i = (int) g.below(w.curves.size()); if (w.at(i) && !std::count(not_these.begin(), not_these.end(), i)) return i; } return w.curve(g); }
// a change to the curves of one animated value; returns what was done
static std::string recurve(World& w, Src& g, FCDAnimated* a, std::vector<Comp>& cs) {
    size_t k = g.below(cs.size()); auto& v = cs[k].curves;
    switch (g.weighted({6, 2, 1})) {
    case 0: { int i = pick_curve(w, g, v); CHECK(a->AddCurve(k, w.at(i)), "a curve is added"); v.push_back(i); return cat("curve ", i, " on component ", k); }
    case 1: { bool had = !v.empty(); CHECK(a->RemoveCurve(k) == had, "removing the curves of component ", k, " returns ", !had); v.clear(); return cat("no curve on component ", k); }
    default: { FCDAnimationCurveList l; size_t n = 1 + g.below(2); for (size_t i = 0; i < n; ++i) { int x = pick_curve(w, g, v); v.push_back(x); l.push_back(w.at(x)); } CHECK(a->AddCurve(k, l), "curves are added"); return cat(n, " curves on component ", k); }
    }
}
static void same_curves(World& w, const FCDAnimated* a, const std::vector<Comp>& cs, const std::string& what) {
    bool any = false; CHECK_EQ(a->GetValueCount(), cs.size()); for (size_t k = 0; k < cs.size(); ++k) { auto& v = cs[k].curves; CHECK(a->GetCurveCount(k) == v.size(), what, " has ", a->GetCurveCount(k), " curves on component ", k, ", not ", v.size()); for (size_t j = 0; j < v.size(); ++j) CHECK(a->GetCurve(k, j) == w.at(v[j]), what, " has another curve at ", j, " of component ", k); any |= !v.empty(); }
    CHECK(a->HasCurve() == any, what, any ? " says it has no curves" : " says it has curves");
}
static void evaluate(World& w, std::vector<Comp>& cs, float t) { for (Comp& c : cs) if (!c.curves.empty()) c.v = w.at(c.curves[0])->Evaluate(t); }
static void forget(std::vector<Comp>& cs, int i) { for (Comp& c : cs) c.curves.erase(std::remove(c.curves.begin(), c.curves.end(), i), c.curves.end()); }
// ---- lists
struct ListBase { virtual ~ListBase() {} std::vector<Elem> m; std::string name; size_t n; virtual void op(Src& g, Ctx& c, bool& moved) = 0; virtual void verify(World& w) = 0; virtual FCDAnimated* animated(size_t i) = 0; };
static size_t comps(float*) { return 1; } static size_t comps(FMVector2*) { return 2; } static size_t comps(FMVector3*) { return 3; } static size_t comps(FMVector4*) { return 4; }
template <class L, class T> struct List : ListBase {
    L* p; std::unique_ptr<L> own; List(const char* nm, L* q, bool mine) { name = nm; n = comps((T*) NULL); p = q; if (mine) own.reset(q); }
    T value(Src& g) { T v {}; for (size_t k = 0; k < n; ++k) ((float*) &v)[k] = (float) g.range(-3, 3); return v; }
    Elem elem(const T& v) { Elem e; for (size_t k = 0; k < n; ++k) e.c.push_back({ ((const float*) &v)[k], {} }); return e; }
    void insert(size_t i, const T& v, size_t count) { for (size_t k = 0; k < count; ++k) m.insert(m.begin() + i, elem(v)); }
    bool has(size_t i) { for (auto& x : m[i].c) if (!x.curves.empty()) return true; return false; }
    void erase(size_t i, size_t j) { std::vector<std::unique_ptr<AnimEye>> eyes; for (size_t k = i; k < j; ++k) if (m[k].a) eyes.push_back(std::move(m[k].a)); m.erase(m.begin() + i, m.begin() + j); gone.insert(gone.end(), std::make_move_iterator(eyes.begin()), std::make_move_iterator(eyes.end())); }
    std::vector<std::unique_ptr<AnimEye>> gone;
    FCDAnimated* animated(size_t i) override { FCDAnimated* a = p->GetAnimated(i); CHECK(a != NULL, "element ", i, " can be animated"); if (m[i].a) CHECK((FCDAnimated*) *m[i].a == a, "element ", i, " of ", name, " is given another animated value"); else m[i].a.reset(new AnimEye(a)); return a; }
    void op(Src& g, Ctx& c, bool& moved) override {
        size_t s = m.size(), i = g.below(s + 1), j = s ? g.below(s) : 0; T v = value(g); bool after = false; for (size_t k = 0; k < s; ++k) after |= has(k); auto say = [&](auto... a) { c.note(cat(name, ": ", a...)); };
        switch (g.below(15)) {
        case 0: say("insert at ", i); p->insert(i, v); insert(i, v, 1); moved |= after; break;
        case 1: { size_t k = g.below(4); say("insert ", k, " copies at ", i); p->insert(i, k, v); insert(i, v, k); moved |= after; break; }
        case 2: { size_t k = g.below(4); say("insert ", k, " values at ", i); std::vector<T> x; for (size_t q = 0; q < k; ++q) x.push_back(value(g)); p->insert(i, x.data(), k); for (size_t q = k; q-- > 0;) insert(i, x[q], 1); moved |= after; break; }
        case 3: case 4: if (s) { say("erase ", j); p->erase(j); erase(j, j + 1); moved |= after; } break;
        case 5: { say("erase a value"); size_t k = 0; for (; k < s; ++k) { bool eq = true; for (size_t q = 0; q < n; ++q) eq &= m[k].c[q].v == ((float*) &v)[q]; if (eq) break; } if (n > 1 && s && g.coin()) { k = j; for (size_t q = 0; q < n; ++q) ((float*) &v)[q] = m[k].c[q].v; for (size_t z = 0; z < k; ++z) { bool eq = true; for (size_t q = 0; q < n; ++q) eq &= m[z].c[q].v == m[k].c[q].v; if (eq) { k = z; break; } } }
            size_t f = p->find(v); CHECK(f == k, "finding a value in ", name, " returns ", f, ", not ", k); p->erase(v); if (k < s) { erase(k, k + 1); moved |= after; } break; }
        case 6: { size_t k = g.below(s + 1); if (k < i) std::swap(i, k); if (i == k) break; say("erase ", i, " to ", k); p->erase(i, k); erase(i, k); moved |= after; break; }
        case 7: if (g.chance(1, 3)) { say("clear"); p->clear(); erase(0, s); } break;
        case 8: case 9: say("push back"); p->push_back(v); insert(s, v, 1); moved |= after; break;
        case 10: say("push front"); p->push_front(v); insert(0, v, 1); moved |= after; break;
        case 11: if (s) { say("pop back"); p->pop_back(); erase(s - 1, s); } break;
        case 12: if (s) { say("pop front"); p->pop_front(); erase(0, 1); moved |= after; } break;
        case 13: { size_t k = g.coin() ? i : g.below(s + 5); if (g.coin()) { say("resize to ", k, " with a value"); p->resize(k, v); } else { say("resize to ", k); p->resize(k); for (size_t q = s; q < k; ++q) p->set(q, v); } if (k < s) erase(k, s); else insert(s, v, k - s); moved |= after; break; }
        default: if (s) { say("set ", j); p->set(j, v); for (size_t k = 0; k < n; ++k) m[j].c[k].v = ((float*) &v)[k]; } break;
        }
    }
    void verify(World& w) override {
        CHECK(p->size() == m.size(), name, " has ", p->size(), " values, not ", m.size()); CHECK(p->empty() == m.empty(), name, " is empty"); bool any = false;
        for (auto& x : gone) CHECK(*x == NULL, "the animated value of a removed element of ", name, " is still there"); gone.clear();
        for (size_t i = 0; i < m.size(); ++i) {
            const float* v = (const float*) &p->at(i); for (size_t k = 0; k < n; ++k) CHECK(same(v[k], m[i].c[k].v), "component ", k, " of element ", i, " of ", name, " is ", v[k], ", not ", m[i].c[k].v);
            CHECK(p->IsAnimated(i) == has(i), "element ", i, " of ", name, has(i) ? " says it is not animated" : " says it is animated"); any |= has(i);
            if (m[i].a) { FCDAnimated* a = *m[i].a; CHECK(a != NULL, "the animated value of element ", i, " of ", name, " is gone"); CHECK(a->GetArrayElement() == (int32) i, "the animated value of element ", i, " of ", name, " says it is for ", a->GetArrayElement()); CHECK(p->GetAnimated(i) == a, "element ", i, " of ", name, " has another animated value");
                same_curves(w, a, m[i].c, cat("element ", i, " of ", name)); for (size_t k = 0; k < n; ++k) CHECK(a->GetValue(k) == v + k, "component ", k, " of the animated value of element ", i, " of ", name, " points somewhere else"); }
        }
        CHECK(p->IsAnimated() == any, name, any ? " says it is not animated" : " says it is animated");
    }
};
static ListBase* make_list(Src& g, FCDObject* o, World& w) {
    switch (g.weighted({3, 1, 2, 1, 1, 1, 3})) {
    case 0: return new List<FCDParameterListAnimatableFloat, float>("floats", new FCDParameterListAnimatableFloat(o), true);
    case 1: return new List<FCDParameterListAnimatableVector2, FMVector2>("pairs", new FCDParameterListAnimatableVector2(o), true);
    case 2: return new List<FCDParameterListAnimatableVector3, FMVector3>("vectors", new FCDParameterListAnimatableVector3(o), true);
    case 3: return new List<FCDParameterListAnimatableColor3, FMVector3>("colours", new FCDParameterListAnimatableColor3(o), true);
    case 4: return new List<FCDParameterListAnimatableVector4, FMVector4>("vectors of four", new FCDParameterListAnimatableVector4(o), true);
    case 5: return new List<FCDParameterListAnimatableColor4, FMVector4>("colours of four", new FCDParameterListAnimatableColor4(o), true);
    default: return new List<FCDParameterListAnimatableFloat, float>("source data", &w.d->GetGeometryLibrary()->AddEntity()->CreateMesh()->AddSource()->GetSourceData(), false);
    }
}
PBT_CASE(lists, 90000, 2500000) {
    World w; FCDCamera* parent = w.d->GetCameraLibrary()->AddEntity(); std::vector<std::unique_ptr<ListBase>> l; for (size_t i = 1 + g.below(2); i-- > 0;) l.emplace_back(make_list(g, parent, w)); for (size_t i = 0; i < l.size(); ++i) l[i]->name += cat(" ", i);
    bool moved = false, after = false, more = false;
    for (size_t steps = g.steps(40); steps-- > 0;) {
        ListBase& x = *l[g.below(l.size())]; bool m = false;
        switch (g.weighted({8, 5, 3, 1, 1})) {
        case 0: x.op(g, c, m); moved |= m; break;
        case 1: if (!x.m.empty()) { size_t i = g.below(x.m.size()); std::string s = recurve(w, g, x.animated(i), x.m[i].c); c.note(cat(x.name, " element ", i, ": ", s)); } break;
        case 2: { float t = (float) g.range(-30, 60) / 8; c.note(cat("time ", t)); w.d->SetCurrentTime(t); for (auto& y : l) for (Elem& e : y->m) evaluate(w, e.c, t); after |= moved; break; }
        case 3: if (!w.curves.empty()) { int i = (int) g.below(w.curves.size()); if (!w.at(i)) break; c.note(cat("release curve ", i)); w.at(i)->Release(); for (auto& y : l) for (Elem& e : y->m) forget(e.c, i); } break;
        default: if (!x.m.empty()) { size_t i = g.below(x.m.size()); c.note(cat(x.name, ": animated value of ", i)); x.animated(i); } break;
        }
        for (auto& y : l) y->verify(w); fcu::no_asserts("the step"); if (l.size() > 1) more = true;
    }
    c.nontrivial = after; if (after) c.label("evaluated after moves"); if (more) c.label("two lists"); l.clear();
}
// ---- single values
struct ValBase { virtual ~ValBase() {} std::vector<Comp> c; std::string name; std::vector<std::string> q; virtual FCDAnimated* animated() = 0; virtual bool is() = 0; virtual std::vector<float*> comps() = 0; virtual void assign(Src& g) = 0; };
template <class P, class T> struct Val : ValBase {
    std::unique_ptr<P> p; std::function<std::vector<float*>(T&)> f;
    Val(const char* n, FCDObject* o, std::vector<std::string> qs, std::function<std::vector<float*>(T&)> fn) : p(new P(o)), f(fn) { name = n; q = qs; for (float* x : comps()) { *x = 0; c.push_back({ 0, {} }); } }
    FCDAnimated* animated() override { return p->GetAnimated(); } bool is() override { return p->IsAnimated(); } std::vector<float*> comps() override { return f(**p); }
    void assign(Src& g) override { T t = **p; auto v = f(t); for (size_t i = 0; i < v.size(); ++i) *v[i] = c[i].v = (float) g.range(-50, 50) / 4; switch (g.below(3)) { case 0: *p = t; break; case 1: **p = t; break; default: { P other(p->GetParent()); *other = t; *p = (const T&) *other; } } }
};
typedef std::vector<std::string> Q;
static Q xyzw(size_t n) { Q q { ".X", ".Y", ".Z", ".W" }; q.resize(n); return q; }
static Q rgba(size_t n) { Q q { ".R", ".G", ".B", ".A" }; q.resize(n); return q; }
static ValBase* make_val(Src& g, FCDObject* o) {
    auto flat = [](auto& v) { std::vector<float*> r; for (size_t i = 0; i < comps(&v); ++i) r.push_back((float*) &v + i); return r; };
    switch (g.below(10)) {
    case 0: return new Val<FCDParameterAnimatableFloat, float>("float", o, { "" }, [=](float& v) { return flat(v); });
    case 1: return new Val<FCDParameterAnimatableVector2, FMVector2>("pair", o, xyzw(2), [=](FMVector2& v) { return std::vector<float*> { &v.x, &v.y }; });
    case 2: return new Val<FCDParameterAnimatableVector3, FMVector3>("vector", o, xyzw(3), [=](FMVector3& v) { return flat(v); });
    case 3: return new Val<FCDParameterAnimatableColor3, FMVector3>("colour", o, rgba(3), [=](FMVector3& v) { return flat(v); });
    case 4: return new Val<FCDParameterAnimatableVector4, FMVector4>("vector of four", o, xyzw(4), [=](FMVector4& v) { return flat(v); });
    case 5: return new Val<FCDParameterAnimatableColor4, FMVector4>("colour of four", o, rgba(4), [=](FMVector4& v) { return flat(v); });
    case 6: { Q q; for (int r = 0; r < 4; ++r) for (int k = 0; k < 4; ++k) q.push_back(cat("(", k, ")(", r, ")")); return new Val<FCDParameterAnimatableMatrix44, FMMatrix44>("matrix", o, q, [=](FMMatrix44& v) { std::vector<float*> r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r.push_back(&v.m[j][i]); return r; }); }
    case 7: return new Val<FCDParameterAnimatableAngleAxis, FMAngleAxis>("rotation", o, { ".X", ".Y", ".Z", ".ANGLE" }, [=](FMAngleAxis& v) { return std::vector<float*> { &v.axis.x, &v.axis.y, &v.axis.z, &v.angle }; });
    case 8: return new Val<FCDParameterAnimatableLookAt, FMLookAt>("look at", o, { ".POSITIONX", ".POSITIONY", ".POSITIONZ", ".TARGETX", ".TARGETY", ".TARGETZ", ".UPX", ".UPY", ".UPZ" }, [=](FMLookAt& v) { return std::vector<float*> { &v.position.x, &v.position.y, &v.position.z, &v.target.x, &v.target.y, &v.target.z, &v.up.x, &v.up.y, &v.up.z }; });
    default: return new Val<FCDParameterAnimatableSkew, FMSkew>("skew", o, { ".ROTATEX", ".ROTATEY", ".ROTATEZ", ".AROUNDX", ".AROUNDY", ".AROUNDZ", ".ANGLE" }, [=](FMSkew& v) { return std::vector<float*> { &v.rotateAxis.x, &v.rotateAxis.y, &v.rotateAxis.z, &v.aroundAxis.x, &v.aroundAxis.y, &v.aroundAxis.z, &v.angle }; });
    }
}
PBT_CASE(values, 60000, 1500000) {
    World w; FCDCamera* parent = w.d->GetCameraLibrary()->AddEntity(); std::vector<std::unique_ptr<ValBase>> l; for (size_t i = 1 + g.below(3); i-- > 0;) { l.emplace_back(make_val(g, parent)); l.back()->name += cat(" ", l.size() - 1); l.back()->assign(g); } int evals = 0; bool partial = false;
    for (size_t steps = g.steps(25); steps-- > 0;) {
        ValBase& x = *l[g.below(l.size())];
        switch (g.weighted({2, 4, 4, 1, 1})) {
        case 0: c.note(cat("assign ", x.name)); x.assign(g); break;
        case 1: { std::string s = recurve(w, g, x.animated(), x.c); c.note(cat(x.name, ": ", s)); break; }
        case 2: { float t = (float) g.range(-30, 60) / 8; c.note(cat("time ", t)); w.d->SetCurrentTime(t); for (auto& y : l) { size_t n = 0; for (Comp& q : y->c) n += !q.curves.empty(); partial |= n && n < y->c.size(); evaluate(w, y->c, t); } ++evals; break; }
        case 3: if (!w.curves.empty()) { int i = (int) g.below(w.curves.size()); if (!w.at(i)) break; c.note(cat("release curve ", i)); w.at(i)->Release(); for (auto& y : l) forget(y->c, i); } break;
        default: { c.note(cat(x.name, " alone at a time")); float t = (float) g.range(-30, 60) / 8; x.animated()->Evaluate(t); evaluate(w, x.c, t); break; }
        }
        for (auto& y : l) { auto v = y->comps(); for (size_t k = 0; k < v.size(); ++k) CHECK(same(*v[k], y->c[k].v), "component ", k, " of ", y->name, " is ", *v[k], ", not ", y->c[k].v); bool any = false; for (Comp& q : y->c) any |= !q.curves.empty(); CHECK(y->is() == any, y->name, any ? " says it is not animated" : " says it is animated"); if (!any && g.coin()) continue;
            FCDAnimated* a = y->animated(); CHECK(a != NULL && a == y->animated(), y->name, " has one animated value"); same_curves(w, a, y->c, y->name); for (size_t k = 0; k < v.size(); ++k) { CHECK(a->GetValue(k) == v[k], "component ", k, " of the animated value of ", y->name, " points somewhere else"); CHECK(std::string(a->GetQualifier(k).c_str()) == y->q[k], "component ", k, " of ", y->name, " is called ", a->GetQualifier(k).c_str(), ", not ", y->q[k]); CHECK(a->FindQualifier(y->q[k].c_str()) == k, "the component called ", y->q[k], " of ", y->name, " is ", a->FindQualifier(y->q[k].c_str()), ", not ", k); CHECK_EQ(a->FindValue(v[k]), k); CHECK(a->FindCurve(y->q[k].c_str()) == (y->c[k].curves.empty() ? NULL : w.at(y->c[k].curves[0])), "the curve called ", y->q[k], " of ", y->name, " is another"); } }
        fcu::no_asserts("the step");
    }
    c.nontrivial = partial && evals > 1; l.clear();
}
// ---- the transforms of a node, and their sampling
struct Tr { FUTrackedPtr<FCDTransform> p; std::vector<Comp> c; bool animated = false; };
PBT_CASE(sampling, 60000, 1500000) {
    World w; FCDSceneNode* n = w.d->AddVisualScene()->AddChildNode(); std::vector<std::unique_ptr<Tr>> l; bool sampled = false, big = false;
    auto curve = [&](bool angle) { FCDAnimationCurve* q = w.ch->AddCurve(); size_t keys = g.len(5); float t = (float) g.range(-4, 4); for (size_t i = 0; i < keys; ++i) { FCDAnimationKey* k = q->AddKey(FUDaeInterpolation::LINEAR); k->input = t; k->output = angle && g.coin() ? (float) g.range(-10, 10) * 60 : (float) g.range(-64, 64) / 8; t += (float) (1 + g.below(4)) / 2; } w.curves.emplace_back(new CurveEye(q)); return (int) w.curves.size() - 1; };
    for (size_t steps = g.steps(16); steps-- > 0;) {
        switch (l.empty() ? 0 : g.weighted({3, 4, 1, 2, 3})) {
        case 0: { FCDTransform::Type t = (FCDTransform::Type) g.weighted({3, 4, 2, 1, 1, 1}); static const FCDTransform::Type ts[] = { FCDTransform::TRANSLATION, FCDTransform::ROTATION, FCDTransform::SCALE, FCDTransform::MATRIX, FCDTransform::SKEW, FCDTransform::LOOKAT }; FCDTransform* p = n->AddTransform(ts[t]); l.emplace_back(new Tr); l.back()->p = p; c.note(cat("transform ", l.size() - 1, " of kind ", (int) t));
            if (p->GetType() == FCDTransform::ROTATION) ((FCDTRotation*) p)->SetRotation(g.coin() ? FMVector3::XAxis : FMVector3::ZAxis, (float) g.range(-8, 8) * 15); if (p->GetType() == FCDTransform::TRANSLATION) ((FCDTTranslation*) p)->SetTranslation((float) g.range(-8, 8), 1, 2); if (p->GetType() == FCDTransform::SKEW) { ((FCDTSkew*) p)->SetRotateAxis(FMVector3::XAxis); ((FCDTSkew*) p)->SetAroundAxis(FMVector3::YAxis); ((FCDTSkew*) p)->SetAngle(20); } if (p->GetType() == FCDTransform::LOOKAT) { ((FCDTLookAt*) p)->SetPosition(0, 0, 40); ((FCDTLookAt*) p)->SetTarget(3, 0, -40); ((FCDTLookAt*) p)->SetUp(0, 1, 0); }
            FCDAnimated* a = p->GetAnimated(); CHECK(a != NULL, "every transform can be animated"); for (size_t k = 0; k < a->GetValueCount(); ++k) l.back()->c.push_back({ *a->GetValue(k), {} }); break; }
        case 1: { size_t i = g.below(l.size()); Tr& t = *l[i]; FCDAnimated* a = t.p->GetAnimated(); bool look = t.p->GetType() == FCDTransform::LOOKAT || t.p->GetType() == FCDTransform::SKEW; size_t k = look ? a->GetValueCount() - 1 : t.p->GetType() == FCDTransform::ROTATION && g.chance(2, 3) ? 3 : g.below(a->GetValueCount()); if (t.p->GetType() == FCDTransform::ROTATION && k < 3) k = 3; if (t.p->GetType() == FCDTransform::LOOKAT) k = 1; bool ang = t.p->GetType() == FCDTransform::ROTATION;
            if (t.c[k].curves.size() && g.coin()) { c.note(cat("no curve on ", i, ".", k)); a->RemoveCurve(k); t.c[k].curves.clear(); } else { int x = curve(ang); c.note(cat("curve ", x, " on ", i, ".", k)); a->AddCurve(k, w.at(x)); t.c[k].curves.push_back(x); } break; }
        case 2: { size_t i = g.below(l.size()); c.note(cat("release ", i)); AnimEye a(l[i]->p->GetAnimated()); FCDTransform* p = l[i]->p; p->Release(); CHECK(a == NULL, "the animated value goes with its transform"); l.erase(l.begin() + i); break; }
        case 3: { float t = (float) g.range(-30, 60) / 8; c.note(cat("time ", t)); w.d->SetCurrentTime(t); for (auto& x : l) evaluate(w, x->c, t); break; }
        default: {
            c.note("sample"); std::vector<float> keys; std::vector<std::pair<float, float>> extra; size_t used = 0; auto add = [&](std::vector<float>& v, float f) { for (float x : v) if (std::fabs(x - f) < 1e-4f) return; v.push_back(f); };
            for (auto& x : l) for (size_t k = 0; k < x->c.size(); ++k) if (!x->c[k].curves.empty()) { FCDAnimationCurve* q = w.at(x->c[k].curves[0]); if (q->GetKeyCount()) ++used; for (size_t i = 0; i < q->GetKeyCount(); ++i) { add(keys, q->GetKey(i)->input); if (i && x->p->GetType() == FCDTransform::ROTATION && k == 3) { float turn = std::fabs(q->GetKey(i)->output - q->GetKey(i - 1)->output); if (turn >= 180) extra.emplace_back(q->GetKey(i - 1)->input, q->GetKey(i)->input); } } }
            FCDSceneNodeTools::GenerateSampledAnimation(n); const FloatList& ks = FCDSceneNodeTools::GetSampledAnimationKeys(); const FMMatrix44List& ms = FCDSceneNodeTools::GetSampledAnimationMatrices(); CHECK(ks.size() == ms.size(), "there are ", ks.size(), " sampled times but ", ms.size(), " matrices");
            for (size_t i = 1; i < ks.size(); ++i) CHECK(ks[i - 1] < ks[i], "the sampled times are not in order: ", ks[i - 1], " before ", ks[i]);
            for (float f : keys) { bool f2 = false; for (size_t i = 0; i < ks.size(); ++i) f2 |= std::fabs(ks[i] - f) < 1e-4f; CHECK(f2, "the key at ", f, " is not sampled"); }
            for (size_t i = 0; i < ks.size(); ++i) { bool ok = false; for (float f : keys) ok |= std::fabs(ks[i] - f) < 1e-4f; for (auto& e : extra) ok |= ks[i] > e.first && ks[i] < e.second; CHECK(ok, "time ", ks[i], " is sampled, but no curve has a key there"); }
            for (auto& x : l) if (x->p->GetType() == FCDTransform::ROTATION && !x->c[3].curves.empty()) { FCDAnimationCurve* q = w.at(x->c[3].curves[0]); float last = 0; for (size_t i = 0; i < ks.size(); ++i) { float v = q->Evaluate(ks[i]); if (i) CHECK(std::fabs(v - last) < 180.01f, "a rotation turns by ", v - last, " degrees between the sampled times ", ks[i - 1], " and ", ks[i]); last = v; } big |= !extra.empty(); }
            for (size_t i = 0; i < ks.size(); ++i) { w.d->SetCurrentTime(ks[i]); FMMatrix44 m = n->ToMatrix(); for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) CHECK(same(m.m[a][b], ms[i].m[a][b]), "the matrix sampled at ", ks[i], " has ", ms[i].m[a][b], " instead of ", m.m[a][b]); for (auto& x : l) evaluate(w, x->c, ks[i]); }
            sampled |= used > 1; break; }
        }
        for (size_t i = 0; i < l.size(); ++i) { FCDAnimated* a = l[i]->p->GetAnimated(); same_curves(w, a, l[i]->c, cat("transform ", i)); for (size_t k = 0; k < l[i]->c.size(); ++k) CHECK(same(*a->GetValue(k), l[i]->c[k].v), "value ", k, " of transform ", i, " is ", *a->GetValue(k), ", not ", l[i]->c[k].v); }
        fcu::no_asserts("the step");
    }
    c.nontrivial = sampled; if (big) c.label("large rotations");
}
