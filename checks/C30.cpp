// NODOCGEN
#include "fcu.h"
#include "FCollada.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDMaterial.h"
#include "FCDocument/FCDMaterialInstance.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryInstance.h"
#include "FCDocument/FCDSceneNode.h"
#include "FCDocument/FCDEffect.h"
#include "FCDocument/FCDEffectProfile.h"
#include "FCDocument/FCDEffectProfileFX.h"
#include "FCDocument/FCDEffectStandard.h"
#include "FCDocument/FCDEffectTechnique.h"
#include "FCDocument/FCDEffectParameter.h"
#include "FCDocument/FCDEffectParameterSampler.h"
#include "FCDocument/FCDEffectParameterSurface.h"
#include "FCDocument/FCDEffectTools.h"
#include "FCDocument/FCDTexture.h"
#include <algorithm>
#include <cstring>
#include <memory>
using namespace pbt;
PBT_PROPERTY("C30", "Histories of adding, changing and releasing effect parameters, textures, techniques and profiles at every level (geometry instance, material, effect, profiles, techniques, texture sets), in step with a model that keeps the lists; after the changes, every search by semantic and by reference from every level, the resolved values of the standard parameters and their synchronisation are compared with the model. Non-trivial: parameters at three levels or more, and a search had matches at two levels or more")
struct SetInit { SetInit() { worker_init = [] { fcu::install(); FCollada::Initialize(); }; } } setInit;
typedef FCDEffectParameter P;
static const char* NAMES[] = {"a", "b", "c", "A", "ab", "DIFFUSECOLOR", "x_y"};
struct Std { const fm::string* semantic; bool isFloat; };
static const std::vector<Std>& standards() { typedef FCDEffectStandard E; static const std::vector<Std> v{{&E::EmissionColorSemantic, false}, {&E::EmissionFactorSemantic, true}, {&E::ReflectivityColorSemantic, false}, {&E::ReflectivityFactorSemantic, true}, {&E::IndexOfRefractionSemantic, true}, {&E::TranslucencyColorSemantic, false}, {&E::TranslucencyFactorSemantic, true}, {&E::DiffuseColorSemantic, false}, {&E::AmbientColorSemantic, false}, {&E::SpecularColorSemantic, false}, {&E::SpecularFactorSemantic, true}, {&E::ShininessSemantic, true}}; return v; }
struct Q { P* p; std::string sem, ref; int type; float v[4]; };
typedef std::vector<Q> Level;
struct Tex { FCDTexture* t; Q set; };
struct Prof { FCDEffectProfile* p; bool std; Level own; std::vector<std::pair<FCDEffectTechnique*, Level>> tech; std::vector<std::vector<Tex>> tex; };
struct Mat { FCDMaterial* m; Level own; int effect; };
struct Eff { FCDEffect* e; Level own; std::vector<Prof> prof; };
struct Inst { FCDGeometryInstance* g; Level own; std::vector<std::pair<FCDMaterialInstance*, int>> mats; };
static std::string some(Src& g) { if (g.chance(1, 8)) return ""; if (g.chance(1, 3)) return standards()[g.below(standards().size())].semantic->c_str(); return g.oneof<const char*>({"a", "b", "c", "A", "ab", "DIFFUSECOLOR", "x_y"}); }
static std::string reff(Src& g) { return g.chance(1, 8) ? "" : g.oneof<const char*>({"a", "b", "c", "A", "ab", "x_y"}); }
static void setValue(Q& q, const float* v) {
    for (int i = 0; i < 4; ++i) q.v[i] = v[i];
    switch (q.type) { case P::FLOAT: ((FCDEffectParameterFloat*) q.p)->SetValue(v[0]); break; case P::FLOAT2: ((FCDEffectParameterFloat2*) q.p)->SetValue(FMVector2(v[0], v[1])); break; case P::FLOAT3: ((FCDEffectParameterFloat3*) q.p)->SetValue(FMVector3(v[0], v[1], v[2])); break; case P::VECTOR: ((FCDEffectParameterColor4*) q.p)->SetValue(FMVector4(v[0], v[1], v[2], v[3])); break; case P::INTEGER: ((FCDEffectParameterInt*) q.p)->SetValue((int32) v[0]); break; default: break; }
}
static void same(const Q& q, const std::string& where) {
    CHECK_EQ((int) q.p->GetType(), q.type, where, ": type"); const float* v = q.v;
    switch (q.type) { case P::FLOAT: CHECK_EQ((float) ((FCDEffectParameterFloat*) q.p)->GetValue(), v[0], where, ": value"); break; case P::FLOAT3: { FMVector3 t = ((FCDEffectParameterFloat3*) q.p)->GetValue(); CHECK(t.x == v[0] && t.y == v[1] && t.z == v[2], where, ": value"); break; } case P::VECTOR: { FMVector4 t = ((FCDEffectParameterColor4*) q.p)->GetValue(); CHECK(t.x == v[0] && t.y == v[1] && t.z == v[2] && t.w == v[3], where, ": value ", t.x, " ", t.y, " ", t.z, " ", t.w, " for ", v[0], " ", v[1], " ", v[2], " ", v[3]); break; } default: break; }
}
static void values(Src& g, float* v) { for (int i = 0; i < 4; ++i) v[i] = (float) g.below(64) / 8; }
template <class O> static void add(Src& g, Level& l, O* o) {
    static const int TYPES[] = {P::FLOAT, P::FLOAT3, P::VECTOR, P::FLOAT2, P::INTEGER, P::SAMPLER, P::SURFACE, P::BOOLEAN, P::STRING, P::MATRIX}; Q q; q.type = TYPES[g.weighted({6, 4, 4, 1, 1, 1, 1, 1, 1, 1})]; q.p = o->AddEffectParameter((uint32) q.type); q.sem = some(g); q.ref = reff(g); q.p->SetSemantic(q.sem.c_str()); q.p->SetReference(q.ref.c_str()); float v[4]; values(g, v); setValue(q, v);
    switch (g.below(4)) { case 0: q.p->SetGenerator(); break; case 1: q.p->SetModifier(); break; case 2: q.p->SetAnimator(); break; default: q.p->SetConstant(); }
    l.push_back(q); }
static bool change(Src& g, Level& l) { if (l.empty()) return false; size_t i = g.below(l.size()); Q& q = l[i]; switch (g.below(4)) { case 0: q.p->Release(); l.erase(l.begin() + (long) i); break; case 1: q.sem = some(g); q.p->SetSemantic(q.sem.c_str()); break; case 2: q.ref = reff(g); q.p->SetReference(q.ref.c_str()); break; default: { float v[4]; values(g, v); setValue(q, v); } } return true; }
struct World {
    FCDocument* d; std::vector<Inst> inst; std::vector<Mat> mat; std::vector<Eff> eff;
    typedef std::vector<const P*> L;
    static bool hit(const Q& q, const std::string& n, bool ref) { return !n.empty() && (ref ? q.ref : q.sem) == n; }
    static void level(const Level& l, const std::string& n, bool ref, L& o) { for (auto& q : l) if (hit(q, n, ref)) o.push_back(q.p); }
    static void profile(const Prof& p, const std::string& n, bool ref, bool local, L& o) { level(p.own, n, ref, o); if (local) return; for (auto& t : p.tech) level(t.second, n, ref, o); for (auto& b : p.tex) for (auto& t : b) if (hit(t.set, n, ref)) o.push_back(t.set.p); }
    static void effect(const Eff& e, const std::string& n, bool ref, bool local, L& o) { level(e.own, n, ref, o); if (!local) for (auto& p : e.prof) profile(p, n, ref, false, o); }
    void material(const Mat& m, const std::string& n, bool ref, bool local, L& o) const { level(m.own, n, ref, o); if (!local && m.effect >= 0) effect(eff[(size_t) m.effect], n, ref, false, o); }
};
template <class T> static void searched(const World::L& want, T* from, const std::string& n, bool ref, bool local, bool exactLocal, const char* what) {
    const P* one = ref ? FCDEffectTools::FindEffectParameterByReference((const T*) from, n.c_str(), local) : FCDEffectTools::FindEffectParameterBySemantic((const T*) from, n.c_str(), local); FCDEffectParameterList all; const P* before = want.empty() ? NULL : want.back(); if (before) all.push_back(before); (void) exactLocal;
    if (ref) FCDEffectTools::FindEffectParametersByReference((const T*) from, n.c_str(), all, local); else FCDEffectTools::FindEffectParametersBySemantic((const T*) from, n.c_str(), all, local);
    CHECK(one == (want.empty() ? NULL : want[0]), "the first parameter with the ", ref ? "reference " : "semantic ", n, " from the ", what, local ? " alone" : "", " is not found: ", one ? "another one" : "none");
    CHECK_EQ(all.size(), want.size() + (before ? 1 : 0), "all parameters with the ", ref ? "reference " : "semantic ", n, " from the ", what, local ? " alone" : ""); for (size_t i = 0; i < want.size(); ++i) CHECK(all[i + 1] == want[i], "parameter ", i, " of those with the ", ref ? "reference " : "semantic ", n, " from the ", what, local ? " alone" : ""); }
template <class T> static T& one(Src& g, std::vector<T>& v) { return v[g.below(v.size())]; }
static void mutate(Src& g, World& w) {
    switch (g.weighted({4, 4, 4, 4, 3, 3, 2, 2, 6, 1})) {
    case 0: { auto& i = one(g, w.inst); add(g, i.own, i.g); break; }
    case 1: { auto& m = one(g, w.mat); add(g, m.own, m.m); break; }
    case 2: { auto& e = one(g, w.eff); add(g, e.own, e.e); break; }
    case 3: { auto& e = one(g, w.eff); if (e.prof.empty()) return; auto& p = one(g, e.prof); add(g, p.own, p.p); break; }
    case 4: { auto& e = one(g, w.eff); if (e.prof.empty()) return; auto& p = one(g, e.prof); if (p.std) { uint32 b = (uint32) g.below(FUDaeTextureChannel::COUNT); Tex t; t.t = ((FCDEffectStandard*) p.p)->AddTexture(b); t.set.p = t.t->GetSet(); t.set.type = P::INTEGER; t.set.sem = some(g); t.set.ref = reff(g); t.set.p->SetSemantic(t.set.sem.c_str()); t.set.p->SetReference(t.set.ref.c_str()); p.tex[b].push_back(t); } else if (p.tech.size() < 3) p.tech.push_back({((FCDEffectProfileFX*) p.p)->AddTechnique(), {}}); break; }
    case 5: { auto& e = one(g, w.eff); if (e.prof.empty()) return; auto& p = one(g, e.prof); if (p.tech.empty()) return; auto& t = one(g, p.tech); add(g, t.second, t.first); break; }
    case 6: { auto& e = one(g, w.eff); if (e.prof.size() > 3) return; FUDaeProfileType::Type t = g.oneof<FUDaeProfileType::Type>({FUDaeProfileType::COMMON, FUDaeProfileType::CG, FUDaeProfileType::GLSL, FUDaeProfileType::HLSL}); if (t == FUDaeProfileType::COMMON) for (auto& p : e.prof) if (p.std) return; Prof p; p.p = e.e->AddProfile(t); p.std = t == FUDaeProfileType::COMMON; if (p.std) p.tex.resize(FUDaeTextureChannel::COUNT); e.prof.push_back(p); break; }
    case 7: { auto& e = one(g, w.eff); if (e.prof.empty()) return; size_t i = g.below(e.prof.size()); Prof& p = e.prof[i]; if (!p.tech.empty() && g.coin()) { size_t k = g.below(p.tech.size()); p.tech[k].first->Release(); p.tech.erase(p.tech.begin() + (long) k); } else if (p.std) { for (auto& b : p.tex) if (!b.empty() && g.coin()) { size_t k = g.below(b.size()); b[k].t->Release(); b.erase(b.begin() + (long) k); } } else if (g.chance(1, 3)) { p.p->Release(); e.prof.erase(e.prof.begin() + (long) i); } break; }
    case 8: switch (g.below(6)) { case 0: change(g, one(g, w.inst).own); break; case 1: change(g, one(g, w.mat).own); break; case 2: change(g, one(g, w.eff).own); break; default: { auto& e = one(g, w.eff); if (e.prof.empty()) return; auto& p = one(g, e.prof); if (p.tech.empty() || g.coin()) change(g, p.own); else change(g, one(g, p.tech).second); } } break;
    default: { auto& m = one(g, w.mat); m.effect = (int) g.below(w.eff.size() + 1) - 1; m.m->SetEffect(m.effect < 0 ? NULL : w.eff[(size_t) m.effect].e); } }
}
static void build(Src& g, World& w, bool always = false) {
    w.d = FCollada::NewTopDocument(); size_t ne = 1 + g.below(2), nm = 1 + g.below(2), ni = 1 + g.below(2); FCDSceneNode* n = w.d->AddVisualScene()->AddChildNode(); FCDGeometry* geo = w.d->GetGeometryLibrary()->AddEntity(); geo->CreateMesh();
    for (size_t i = 0; i < ne; ++i) w.eff.push_back({w.d->GetEffectLibrary()->AddEntity(), {}, {}});
    for (size_t i = 0; i < nm; ++i) { Mat m{w.d->GetMaterialLibrary()->AddEntity(), {}, (int) g.below(ne)}; m.m->SetEffect(w.eff[(size_t) m.effect].e); w.mat.push_back(m); }
    for (size_t i = 0; i < ni; ++i) { Inst t; t.g = (FCDGeometryInstance*) n->AddInstance(geo); for (size_t k = 1 + g.below(2); k-- > 0;) { size_t m = g.below(nm); t.mats.push_back({t.g->AddMaterialInstance(w.mat[m].m, FC("sym")), (int) m}); } w.inst.push_back(t); }
    for (auto& e : w.eff) if (always || g.chance(3, 4)) { Prof p; p.p = e.e->AddProfile(FUDaeProfileType::COMMON); p.std = true; p.tex.resize(FUDaeTextureChannel::COUNT); e.prof.push_back(p); }
}
static size_t levels(const World& w) { size_t k = 0; for (auto& i : w.inst) k += !i.own.empty(); for (auto& i : w.mat) k += !i.own.empty(); for (auto& e : w.eff) { k += !e.own.empty(); for (auto& p : e.prof) { k += !p.own.empty(); for (auto& t : p.tech) k += !t.second.empty(); } } return k; }

// A search finds the first match going down from where it starts, or all of them in that order.
PBT_CASE(search, 6000, 200000) {
    fcu::reset_asserts(); World w; build(g, w); size_t matched = 0; std::vector<std::string> names{"", "a", "b", "c", "A", "ab", "x_y", "DIFFUSECOLOR", "nope"}; for (int k = 0; k < 3; ++k) names.push_back(standards()[g.below(standards().size())].semantic->c_str());
    for (size_t r = 1 + g.below(3); r-- > 0;) { for (size_t k = g.steps(24); k-- > 0;) mutate(g, w);
        for (auto& n : names) for (int ref = 0; ref < 2; ++ref) for (int local = 0; local < 2; ++local) { World::L l;
            for (auto& i : w.inst) { l.clear(); World::level(i.own, n, ref, l); if (!local) { const P* p = ref ? FCDEffectTools::FindEffectParameterByReference((const FCDGeometryInstance*) i.g, n.c_str()) : FCDEffectTools::FindEffectParameterBySemantic((const FCDGeometryInstance*) i.g, n.c_str()); CHECK(p == (l.empty() ? NULL : l[0]), "the first parameter of the geometry instance with the ", ref ? "reference " : "semantic ", n); }
                for (auto& m : i.mats) { World::L q = l; if (!local) w.material(w.mat[(size_t) m.second], n, ref, false, q); searched(q, m.first, n, ref, local, true, "material instance"); if (!local && l.size() && q.size() > l.size()) ++matched; } }
            for (auto& m : w.mat) { l.clear(); w.material(m, n, ref, local, l); searched(l, m.m, n, ref, local, true, "material"); }
            for (auto& e : w.eff) { l.clear(); World::effect(e, n, ref, local, l); searched(l, e.e, n, ref, local, true, "effect");
                for (auto& p : e.prof) { if (!(local && p.std)) { l.clear(); World::profile(p, n, ref, local, l); searched(l, p.p, n, ref, local, true, "profile"); } for (auto& t : p.tech) { l.clear(); World::level(t.second, n, ref, l); searched(l, t.first, n, ref, local, true, "technique"); } } } } }
    c.nontrivial = levels(w) >= 3 && matched; w.d->Release(); fcu::no_asserts("searching effect parameters"); c.label(matched ? "matches at several levels" : "no overrides");
}
static P* param(FCDEffectStandard* s, size_t k) { bool f; P* p = s->GetParam(*standards()[k].semantic, &f); CHECK(p && f == standards()[k].isFloat, "the standard parameter ", standards()[k].semantic->c_str()); return p; }
static const Q* find(const Level& l, const std::string& n, bool ref) { for (auto& q : l) if (World::hit(q, n, ref)) return &q; return NULL; }
static const Q* findp(const Prof& p, const std::string& n) { if (auto* q = find(p.own, n, true)) return q; for (auto& b : p.tex) for (auto& t : b) if (World::hit(t.set, n, true)) return &t.set; return NULL; }

// A standard parameter that refers to another one has the value of the first level that gives it, and synchronising gives that value to the instance.
PBT_CASE(resolve, 6000, 200000) {
    fcu::reset_asserts(); World w; build(g, w, true); size_t resolved = 0, copied = 0; std::string trace; Inst& inst = w.inst[0]; size_t mi = g.below(inst.mats.size()); Mat& m = w.mat[(size_t) inst.mats[mi].second];
    for (size_t k = g.steps(40); k-- > 0;) mutate(g, w); if (m.effect < 0) { CHECK(!FCDEffectTools::GetAnimatedFloat(inst.g, m.m, FCDEffectStandard::ShininessSemantic), "a material without effect has no values"); w.d->Release(); return; }
    Eff& e = w.eff[(size_t) m.effect]; Prof* sp = NULL; for (auto& p : e.prof) if (p.std) sp = &p; FCDEffectStandard* s = (FCDEffectStandard*) sp->p; std::vector<std::string> ref(standards().size());
    for (size_t k = 0; k < ref.size(); ++k) { ref[k] = g.coin() ? "" : reff(g); P* p = param(s, k); p->SetReference(ref[k].c_str()); if (!ref[k].empty() && g.chance(3, 4)) p->SetReferencer(); else p->SetConstant(); }
    for (size_t k = 0; k < ref.size(); ++k) if (g.coin()) { auto& n = *standards()[k].semantic; Q q; q.type = standards()[k].isFloat != g.chance(1, 10) ? P::FLOAT : g.coin() ? P::FLOAT3 : P::VECTOR; q.p = inst.g->AddEffectParameter((uint32) q.type); q.sem = n.c_str(); q.p->SetSemantic(n); q.p->SetAnimator(); float v[4]; values(g, v); setValue(q, v); inst.own.push_back(q); }
    auto typed = [](const Q* q, bool f) { return q && (f ? q->type == P::FLOAT : q->type == P::FLOAT3 || q->type == P::VECTOR); };
    for (size_t k = 0; k < ref.size(); ++k) { bool f = standards()[k].isFloat; auto& n = *standards()[k].semantic; P* p = param(s, k); const Q* chain[4] = {ref[k].empty() ? NULL : find(inst.own, n.c_str(), false), find(m.own, ref[k], true), find(e.own, ref[k], true), findp(*sp, ref[k])};
        for (int from = 0; from < 2; ++from) { const Q* q = NULL; for (int i = from; i < 4 && !q; ++i) q = chain[i]; bool is3 = false; void* got; void* want; void* own = f ? (void*) &((FCDEffectParameterFloat*) p)->GetValue() : (void*) &((FCDEffectParameterColor4*) p)->GetValue();
            if (!q) want = own; else if (!typed(q, f)) want = NULL; else want = f ? (void*) &((FCDEffectParameterFloat*) q->p)->GetValue() : q->type == P::FLOAT3 ? (void*) &((FCDEffectParameterFloat3*) q->p)->GetValue() : (void*) &((FCDEffectParameterColor4*) q->p)->GetValue();
            if (from == 0) got = f ? (void*) FCDEffectTools::GetAnimatedFloat(inst.g, m.m, n) : (void*) FCDEffectTools::GetAnimatedColor(inst.g, m.m, n, &is3); else got = f ? (void*) FCDEffectTools::GetAnimatedFloat(NULL, m.m, n) : (void*) FCDEffectTools::GetAnimatedColor(NULL, m.m, n, &is3);
            CHECK(got == want, "the parameter that gives the value of ", n.c_str(), from ? " of the material" : " of the instance", ": ", q ? "overridden" : "its own", ", reference ", ref[k], got ? ", another one" : ", none"); if (q && want && !f) CHECK_EQ(is3, q->type == P::FLOAT3, n.c_str(), " has three components"); if (q && want) ++resolved;
            CHECK(!(f ? (void*) FCDEffectTools::GetAnimatedColor(from ? NULL : inst.g, m.m, n, &is3) : (void*) FCDEffectTools::GetAnimatedFloat(from ? NULL : inst.g, m.m, n)), n.c_str(), " is of one type only"); CHECK(!FCDEffectTools::GetAnimatedFloat(inst.g, NULL, n) && !FCDEffectTools::GetAnimatedColor(inst.g, NULL, n, &is3), "no material has no values");
            if (from == 1) { float* d = f ? FCDEffectTools::GetDefaultFloat(m.m, n) : (float*) FCDEffectTools::GetDefaultColor(m.m, n, &is3); CHECK((d == NULL) == (want == NULL), "the default value of ", n.c_str()); if (q && want) for (int i = 0; i < (f ? 1 : q->type == P::FLOAT3 ? 3 : 4); ++i) CHECK_EQ(d[i], q->v[i], "the default value of ", n.c_str()); 
                CHECK(!(f ? (void*) FCDEffectTools::GetDefaultColor(m.m, n, &is3) : (void*) FCDEffectTools::GetDefaultFloat(m.m, n)), n.c_str(), " is of one type only"); } } }
    FCDEffectTools::SynchronizeAnimatedParams(inst.g, inst.mats[mi].first);
    for (size_t k = 0; k < ref.size(); ++k) { bool f = standards()[k].isFloat; Q* to = const_cast<Q*>(find(inst.own, standards()[k].semantic->c_str(), false)); if (ref[k].empty() || !to || !param(s, k)->IsReferencer() || !typed(to, f)) continue; const Q* chain[3] = {find(m.own, ref[k], true), find(e.own, ref[k], true), findp(*sp, ref[k])}; const Q* q = NULL; for (auto* i : chain) if (!q && typed(i, f)) q = i; if (!q) continue;
        ++copied; for (int i = 0; i < 4; ++i) to->v[i] = q->v[i]; if (q->type == P::FLOAT3) to->v[3] = 1; }
    for (auto& i : w.inst) for (auto& q : i.own) same(q, "after synchronising, a parameter of the instance"); for (auto& i : w.mat) for (auto& q : i.own) same(q, "after synchronising, a parameter of the material"); for (auto& i : w.eff) { for (auto& q : i.own) same(q, "after synchronising, a parameter of the effect"); for (auto& p : i.prof) for (auto& q : p.own) same(q, "after synchronising, a parameter of a profile"); }
    c.nontrivial = resolved >= 3 && copied; w.d->Release(); fcu::no_asserts("resolving effect parameters"); if (copied) c.label("synchronised"); if (resolved) c.label("overridden");
}
