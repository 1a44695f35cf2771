#include "docgen.h"
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
using namespace pbt;
using namespace dg;
PBT_PROPERTY("C13", "a history over documents with at least twenty objects, that releases at least one object that others refer to")
struct SetInit { SetInit() { worker_init = dg::init; } } setInit;

// ---- every object of the documents, with what owns it, and every reference between objects ----
struct Obj { const char* kind; FUObject* p; FCDocument* doc; std::set<const void*> owners; }; // (the document stands for its libraries)
struct Ref { const void* from; const char* slot; const void* to; bool operator<(const Ref& r) const { if (from != r.from) return from < r.from; if (to != r.to) return to < r.to; return strcmp(slot, r.slot) < 0; } };
static bool dead(const void* p) { return __asan_address_is_poisoned(p); }
template <class F> static void each_library(FCDocument* d, F f) {
    f(d->GetCameraLibrary()); f(d->GetLightLibrary()); f(d->GetForceFieldLibrary()); f(d->GetEmitterLibrary()); f(d->GetImageLibrary()); f(d->GetEffectLibrary()); f(d->GetMaterialLibrary()); f(d->GetGeometryLibrary()); f(d->GetControllerLibrary());
    f(d->GetVisualSceneLibrary()); f(d->GetAnimationLibrary()); f(d->GetAnimationClipLibrary()); f(d->GetPhysicsMaterialLibrary()); f(d->GetPhysicsModelLibrary()); f(d->GetPhysicsSceneLibrary());
}
struct Walk {
    std::map<const void*, Obj> objs; std::multiset<Ref> refs; std::vector<const void*> seq; FCDocument* doc = NULL; // seq: the objects, in the order they were met
    // Notes an object; true if it wasn't met before.
    bool own(const char* kind, FUObject* p, const void* owner) { if (!p) return false; CHECK(!dead(p), "a ", kind, " that was released is still listed"); auto it = objs.find(p); if (it != objs.end()) { it->second.owners.insert(owner); return false; } objs[p] = Obj{kind, p, doc, {owner}}; seq.push_back(p); return true; }
    void ref(const void* from, const char* slot, const FUObject* to) { if (!to) return; CHECK(!dead(to), "the ", slot, " reference of a ", objs.count(from) ? objs[from].kind : "document", " is to a released object"); refs.insert(Ref{from, slot, to}); }
    void extra(FCDExtra* x, const void* o) { if (!own("extra", x, o)) return; for (size_t i = 0; i < x->GetTypeCount(); ++i) { auto* t = x->GetType(i); own("extra type", t, x); for (size_t k = 0; k < t->GetTechniqueCount(); ++k) { auto* q = t->GetTechnique(k); own("extra technique", q, t); for (size_t z = 0; z < q->GetChildNodeCount(); ++z) enode(q->GetChildNode(z), q); } } }
    void enode(FCDENode* n, const void* o) { own("extra node", n, o); for (size_t i = 0; i < n->GetAttributeCount(); ++i) own("extra attribute", n->GetAttribute(i), n); for (size_t i = 0; i < n->GetChildNodeCount(); ++i) enode(n->GetChildNode(i), n); }
    void asset(FCDAsset* a, const void* o) { if (!own("asset", a, o)) return; for (size_t i = 0; i < a->GetContributorCount(); ++i) own("contributor", a->GetContributor(i), a); }
    void param(FCDEffectParameter* p, const void* o) { own("parameter", p, o); if (p->HasType(FCDEffectParameterSampler::GetClassType())) ref(p, "surface", ((FCDEffectParameterSampler*) p)->GetSurface()); if (p->HasType(FCDEffectParameterSurface::GetClassType())) { auto* s = (FCDEffectParameterSurface*) p; for (size_t i = 0; i < s->GetImageCount(); ++i) ref(p, "image", s->GetImage(i)); } for (size_t i = 0; i < p->GetAnnotationCount(); ++i) own("annotation", p->GetAnnotation(i), p); }
    template <class T> void params(T* t) { for (size_t i = 0; i < t->GetEffectParameterCount(); ++i) param(t->GetEffectParameter(i), t); }
    void instance(FCDEntityInstance* i, const void* o, const char* kind = "instance") {
        if (!own(kind, i, o)) return; ref(i, "entity", i->GetEntity()); extra(i->GetExtra(), i);
        if (i->HasType(FCDGeometryInstance::GetClassType())) { auto* g = (FCDGeometryInstance*) i; params(g); for (size_t k = 0; k < g->GetMaterialInstanceCount(); ++k) { auto* m = g->GetMaterialInstance(k); instance(m, g, "material instance"); for (size_t z = 0; z < m->GetBindingCount(); ++z) own("binding", m->GetBinding(z), m); for (size_t z = 0; z < m->GetVertexInputBindingCount(); ++z) own("vertex binding", m->GetVertexInputBinding(z), m); } }
        if (i->HasType(FCDControllerInstance::GetClassType())) { auto* q = (FCDControllerInstance*) i; for (size_t k = 0; k < q->GetJointCount(); ++k) ref(i, "joint", q->GetJoint(k)); }
        if (i->HasType(FCDPhysicsModelInstance::GetClassType())) { auto* q = (FCDPhysicsModelInstance*) i; for (size_t k = 0; k < q->GetInstanceCount(); ++k) instance(q->GetInstance(k), q, "physics instance"); }
        if (i->HasType(FCDPhysicsRigidBodyInstance::GetClassType())) { auto* q = (FCDPhysicsRigidBodyInstance*) i; ref(i, "target", q->GetTargetNode()); body(q->GetParameters(), q); }
    }
    void transforms(FCDTransformContainer& c, const void* o) { for (FCDTransform* t : c) own("transform", t, o); }
    void body(FCDPhysicsRigidBodyParameters* b, const void* o) {
        if (!own("body parameters", b, o)) return; if (b->OwnsPhysicsMaterial()) { if (b->GetPhysicsMaterial()) entity(b->GetPhysicsMaterial(), b, "own physics material"); } else ref(b, "physics material", b->GetPhysicsMaterial()); if (b->GetInstanceMaterial()) instance(b->GetInstanceMaterial(), b, "material reference");
        for (size_t i = 0; i < b->GetPhysicsShapeCount(); ++i) { auto* s = b->GetPhysicsShape(i); own("shape", s, b); if (s->GetAnalyticalGeometry()) own("analytical geometry", s->GetAnalyticalGeometry(), s); if (s->GetGeometryInstance()) instance(s->GetGeometryInstance(), s, "shape's instance"); if (s->OwnsPhysicsMaterial()) { if (s->GetPhysicsMaterial()) entity(s->GetPhysicsMaterial(), s, "own physics material"); } else ref(s, "physics material", s->GetPhysicsMaterial()); if (s->GetInstanceMaterial()) instance(s->GetInstanceMaterial(), s, "material reference"); transforms(s->GetTransforms(), s); } }
    void curve(FCDAnimationCurve* c, const void* o) { own("curve", c, o); ref(c, "driver", c->GetDriverPtr()); for (size_t i = 0; i < c->GetClipCount(); ++i) ref(c, "clip", c->GetClip(i)); }
    void entity(FCDEntity* e, const void* o, const char* kind = "entity") {
        if (!own(kind, e, o)) return; asset(const_cast<FCDAsset*>(((const FCDEntity*) e)->GetAsset()), e); extra(e->GetExtra(), e);
        switch (e->GetType()) {
        case FCDEntity::CAMERA: case FCDEntity::LIGHT: ref(e, "target node", ((FCDTargetedEntity*) e)->GetTargetNode()); break;
        case FCDEntity::FORCE_FIELD: extra(((FCDForceField*) e)->GetInformation(), e); break;
        case FCDEntity::GEOMETRY: { auto* q = (FCDGeometry*) e;
            if (q->IsMesh()) { auto* m = q->GetMesh(); own("mesh", m, q); for (size_t i = 0; i < m->GetSourceCount(); ++i) { own("source", m->GetSource(i), m); extra(m->GetSource(i)->GetExtra(), m->GetSource(i)); } for (size_t i = 0; i < m->GetVertexSourceCount(); ++i) ref(m, "vertex source", m->GetVertexSource(i)); for (size_t i = 0; i < m->GetPolygonsCount(); ++i) { auto* p = m->GetPolygons(i); own("polygons", p, m); extra(p->GetExtra(), p); for (size_t k = 0; k < p->GetInputCount(); ++k) { own("input", p->GetInput(k), p); ref(p->GetInput(k), "source", p->GetInput(k)->GetSource()); } } }
            if (q->IsSpline()) { auto* s = q->GetSpline(); own("spline geometry", s, q); for (size_t i = 0; i < s->GetSplineCount(); ++i) own("spline", s->GetSpline(i), s); }
            break; }
        case FCDEntity::CONTROLLER: { auto* q = (FCDController*) e; if (q->IsSkin()) { own("skin", q->GetSkinController(), q); ref(q->GetSkinController(), "target", q->GetSkinController()->GetTarget()); } if (q->IsMorph()) { auto* m = q->GetMorphController(); own("morph", m, q); ref(m, "base target", m->GetBaseTarget()); for (size_t i = 0; i < m->GetTargetCount(); ++i) { own("morph target", m->GetTarget(i), m); ref(m->GetTarget(i), "geometry", m->GetTarget(i)->GetGeometry()); } } break; }
        case FCDEntity::EFFECT: { auto* f = (FCDEffect*) e; params(f); for (size_t i = 0; i < f->GetProfileCount(); ++i) { auto* p = f->GetProfile(i); own("profile", p, f); params(p); extra(p->GetExtra(), p);
            if (p->HasType(FCDEffectStandard::GetClassType())) { auto* s = (FCDEffectStandard*) p; for (uint32 b = 0; b < FUDaeTextureChannel::COUNT; ++b) for (size_t k = 0; k < s->GetTextureCount(b); ++k) { auto* t = s->GetTexture(b, k); own("texture", t, s); if (t->HasSampler()) ref(t, "sampler", t->GetSampler()); extra(t->GetExtra(), t); } }
            if (p->HasType(FCDEffectProfileFX::GetClassType())) { auto* x = (FCDEffectProfileFX*) p; for (size_t k = 0; k < x->GetCodeCount(); ++k) own("code", x->GetCode(k), x); for (size_t k = 0; k < x->GetTechniqueCount(); ++k) { auto* t = x->GetTechnique(k); own("technique", t, x); params(t); for (size_t z = 0; z < t->GetCodeCount(); ++z) own("code", t->GetCode(z), t); for (size_t z = 0; z < t->GetPassCount(); ++z) { auto* w = t->GetPass(z); own("pass", w, t); for (size_t y = 0; y < w->GetShaderCount(); ++y) { auto* h = w->GetShader(y); own("shader", h, w); ref(h, "code", h->GetCode()); for (size_t v = 0; v < h->GetBindingCount(); ++v) own("shader binding", h->GetBinding(v), h); } for (size_t y = 0; y < w->GetRenderStateCount(); ++y) own("render state", w->GetRenderState(y), w); } } } }
            break; }
        case FCDEntity::MATERIAL: ref(e, "effect", ((FCDMaterial*) e)->GetEffect()); params((FCDMaterial*) e); break;
        case FCDEntity::SCENE_NODE: { auto* n = (FCDSceneNode*) e; for (size_t i = 0; i < n->GetTransformCount(); ++i) own("transform", n->GetTransform(i), n); for (size_t i = 0; i < n->GetInstanceCount(); ++i) instance(n->GetInstance(i), n); for (size_t i = 0; i < n->GetChildrenCount(); ++i) entity(n->GetChild(i), n, "node"); for (size_t i = 0; i < n->GetParentCount(); ++i) CHECK(!dead(n->GetParent(i)), "the parent of a node was released"); break; }
        case FCDEntity::ANIMATION: { auto* a = (FCDAnimation*) e; for (size_t i = 0; i < a->GetChildrenCount(); ++i) entity(a->GetChild(i), a, "animation"); for (size_t i = 0; i < a->GetChannelCount(); ++i) { auto* h = a->GetChannel(i); own("channel", h, a); for (size_t k = 0; k < h->GetCurveCount(); ++k) curve(h->GetCurve(k), h); } break; }
        case FCDEntity::ANIMATION_CLIP: { auto* k = (FCDAnimationClip*) e; for (size_t i = 0; i < k->GetClipCurves().size(); ++i) ref(k, "curve", k->GetClipCurves().at(i)); break; }
        case FCDEntity::PHYSICS_RIGID_BODY: body(((FCDPhysicsRigidBody*) e)->GetParameters(), e); break;
        case FCDEntity::PHYSICS_MODEL: { auto* m = (FCDPhysicsModel*) e; for (size_t i = 0; i < m->GetRigidBodyCount(); ++i) entity(m->GetRigidBody(i), m, "rigid body"); for (size_t i = 0; i < m->GetInstanceCount(); ++i) instance(m->GetInstance(i), m, "model instance");
            for (size_t i = 0; i < m->GetRigidConstraintCount(); ++i) { auto* r = m->GetRigidConstraint(i); entity(r, m, "constraint"); ref(r, "reference body", r->GetReferenceRigidBody()); ref(r, "target body", r->GetTargetRigidBody()); ref(r, "reference node", r->GetReferenceNode()); ref(r, "target node", r->GetTargetNode()); transforms(r->GetTransformsRef(), r); transforms(r->GetTransformsTar(), r); } break; }
        case FCDEntity::PHYSICS_SCENE_NODE: { auto* s = (FCDPhysicsScene*) e; for (size_t i = 0; i < s->GetPhysicsModelInstancesCount(); ++i) instance(s->GetPhysicsModelInstance(i), s, "model instance"); for (size_t i = 0; i < s->GetForceFieldInstancesCount(); ++i) instance(s->GetForceFieldInstance(i), s); break; }
        default: break; }
    }
    void document(FCDocument* d) {
        doc = d; each_library(d, [&](auto* l) { for (size_t i = 0; i < l->GetEntityCount(); ++i) entity(l->GetEntity(i), d); }); asset(d->GetAsset(), d); extra(d->GetExtra(), d);
        ref(d, "visual scene", d->GetVisualSceneInstance()); for (size_t i = 0; i < d->GetPhysicsSceneInstanceCount(); ++i) ref(d, "physics scene", d->GetPhysicsSceneInstance(i));
        // the values that are animated, and the curves they hold
        Dump u; u.opt.values = true; dump_document(u, d); for (auto& a : u.animateds) if (objs.count(a.first) || own("animated value", a.first, d)) { objs[a.first].owners = {a.first->GetTargetObject()}; for (size_t i = 0; i < a.first->GetValueCount(); ++i) for (size_t k = 0; k < a.first->GetCurveCount(i); ++k) ref(a.first, "curve", a.first->GetCurve(i, k)); }
    }
};
struct World {
    Src& g; Ctx& c; std::vector<FCDocument*> docs; std::vector<std::unique_ptr<Gen>> gens; Walk now; size_t shared = 0; std::string log;
    World(Src& g_, Ctx& c_) : g(g_), c(c_) {}
    Walk walk() { Walk w; for (auto* d : docs) w.document(d); return w; }
    // What goes with an object: all that it alone owns.
    std::set<const void*> closure(std::set<const void*> s) { for (bool more = true; more;) { more = false; for (auto& o : now.objs) if (!s.count(o.first)) { bool all = true; for (auto* w : o.second.owners) all &= s.count(w) > 0; if (all) { s.insert(o.first); more = true; } } } return s; }
    static std::string name(const Walk& w, const void* p) { auto it = w.objs.find(p); if (it == w.objs.end()) return "document"; std::string r = it->second.kind; if (r == "entity" || r == "node" || r == "animation" || r == "rigid body" || r == "constraint") { if (!dead(p)) r += cat(" ", ((FCDEntity*) it->second.p)->GetDaeId().c_str(), " (type ", (int) ((FCDEntity*) it->second.p)->GetType(), ")"); } return r; }
    void same(const Walk& was, const std::set<const void*>& gone, const std::string& what, bool created, const std::set<const void*>& touched) {
        // (the owners of some values, such as those of parameters, are not listed: such values may go or stay)
        std::set<const void*> loose; for (auto& o : was.objs) if (!strcmp(o.second.kind, "animated value")) for (auto* w : o.second.owners) if (!was.objs.count(w)) loose.insert(o.first);
        for (auto* p : gone) CHECK(dead(p), "after ", what, ": a ", was.objs.count(p) ? was.objs.at(p).kind : "document", " that belonged to it is still alive");
        for (auto& o : was.objs) if (!gone.count(o.first) && !loose.count(o.first)) CHECK(!dead(o.first), "after ", what, ": a ", o.second.kind, " that did not belong to it was released");
        Walk w = walk();
        for (auto& o : was.objs) if (!gone.count(o.first) && strcmp(o.second.kind, "animated value")) CHECK(w.objs.count(o.first), "after ", what, ": a ", o.second.kind, " can no longer be reached");
        if (!created) for (auto& o : w.objs) if (strcmp(o.second.kind, "animated value")) CHECK(was.objs.count(o.first) && !gone.count(o.first), "after ", what, ": a new ", o.second.kind);
        for (auto& r : was.refs) if (!gone.count(r.from) && !gone.count(r.to) && !touched.count(r.from) && !loose.count(r.from) && !loose.count(r.to) && (w.objs.count(r.from) || !was.objs.count(r.from) || strcmp(was.objs.at(r.from).kind, "animated value"))) CHECK(w.refs.count(r) == was.refs.count(r), "after ", what, ": the ", r.slot, " reference of a ", name(was, r.from), " to a ", name(was, r.to), " is lost");
        if (!created) for (auto& r : w.refs) if (!touched.count(r.from) && (was.objs.count(r.from) || !w.objs.count(r.from))) CHECK(was.refs.count(r) == w.refs.count(r), "after ", what, ": a new ", r.slot, " reference of a ", name(w, r.from));
        now = std::move(w);
    }
    void release(const void* p) { Obj o = now.objs[p]; std::set<const void*> gone = closure({p}); size_t k = 0; for (auto& r : now.refs) if (gone.count(r.to) && !gone.count(r.from)) ++k; shared += k; std::string what = cat("releasing a ", name(now, p)); log += what + "; "; Walk was = std::move(now); o.p->Release(); c.label(cat("released: ", o.kind).c_str()); same(was, gone, what, false, {}); }
    bool is(const void* p, const char* k) { return std::string(now.objs[p].kind) == k; }
    bool entity_kind(const void* p) { for (auto* k : {"entity", "node", "animation", "rigid body", "constraint"}) if (is(p, k)) return true; return false; }
    template <class T> T* some(FCDEntity::Type t, FCDocument* d) { std::vector<T*> v; for (auto* p : now.seq) if (entity_kind(p) && (!d || now.objs[p].doc == d) && ((FCDEntity*) now.objs[p].p)->GetType() == t) v.push_back((T*) now.objs[p].p); return v.empty() || g.chance(1, 8) ? NULL : g.pick(v); }
    FUObject* some(const char* kind, FCDocument* d, const void* owner = NULL) { std::vector<FUObject*> v; for (auto* p : now.seq) if (is(p, kind) && now.objs[p].doc == d && (!owner || now.objs[p].owners.count(owner))) v.push_back(now.objs[p].p); return v.empty() ? NULL : g.pick(v); }
    FCDSceneNode* some_node(FCDocument* d) { FCDSceneNode* n = some<FCDSceneNode>(FCDEntity::SCENE_NODE, d); return n && n->GetParentCount() ? n : NULL; }
    FCDocument* maybe_other(FCDocument* d) { return g.chance(1, 6) ? g.pick(docs) : d; }
    // Changes one reference of an object; false if it has none to change.
    bool link(const void* p, std::string& what, std::set<const void*>& touched, bool& created, std::set<const void*>& gone) {
        Obj o = now.objs[p]; FCDocument* d = o.doc; std::string k = o.kind; touched.insert(p);
        if (k == "instance") { auto* i = (FCDEntityInstance*) o.p; FCDEntity::Type t = i->GetEntityType(); if (t == FCDEntity::SCENE_NODE) return false; if (i->HasType(FCDControllerInstance::GetClassType()) && g.coin()) { auto* q = (FCDControllerInstance*) i; if (q->GetJointCount() && g.coin()) q->RemoveJoint(g.below(q->GetJointCount())); else { FCDSceneNode* n = some_node(d); if (!n) return false; q->AddJoint(n); } return true; } i->SetEntity(some<FCDEntity>(t, maybe_other(d))); return true; }
        if (k == "material instance") { ((FCDMaterialInstance*) o.p)->SetMaterial(some<FCDMaterial>(FCDEntity::MATERIAL, maybe_other(d))); return true; }
        if (k == "model instance") { auto* i = (FCDPhysicsModelInstance*) o.p; if (i->GetInstanceCount()) return false; i->SetEntity(NULL); return true; }
        if (k == "physics instance") { auto* i = (FCDEntityInstance*) o.p; if (!i->HasType(FCDPhysicsRigidBodyInstance::GetClassType())) return false; ((FCDPhysicsRigidBodyInstance*) i)->SetTargetNode(some_node(d)); return true; }
        if (k == "parameter") { auto* q = (FCDEffectParameter*) o.p; if (q->HasType(FCDEffectParameterSampler::GetClassType())) { std::vector<FCDEffectParameter*> v; for (auto& x : now.seq) if (is(x, "parameter") && now.objs[x].owners == o.owners && ((FCDEffectParameter*) now.objs[x].p)->HasType(FCDEffectParameterSurface::GetClassType())) v.push_back((FCDEffectParameter*) now.objs[x].p); ((FCDEffectParameterSampler*) q)->SetSurface(v.empty() || g.chance(1, 4) ? NULL : (FCDEffectParameterSurface*) g.pick(v)); return true; }
            if (q->HasType(FCDEffectParameterSurface::GetClassType())) { auto* s = (FCDEffectParameterSurface*) q; if (s->GetImageCount() && g.coin()) s->RemoveImage(s->GetImage(g.below(s->GetImageCount()))); else { FCDImage* i = some<FCDImage>(FCDEntity::IMAGE, d); if (!i) return false; s->AddImage(i); } return true; } return false; }
        if (k == "texture") { auto* t = (FCDTexture*) o.p; if (g.coin()) { t->SetSampler(NULL); return true; } created = true; for (auto& r : now.refs) touched.insert(r.from); const void* sampler = t->HasSampler() ? t->GetSampler() : NULL; size_t users = 0; for (auto& r : now.refs) users += r.to == sampler && !strcmp(r.slot, "sampler"); if (users == 1) gone.insert(sampler); if (users > 1) c.label("a shared sampler"); what += cat(" (", users, " use its sampler)"); t->SetImage(some<FCDImage>(FCDEntity::IMAGE, d)); if (sampler && !dead(sampler)) gone.erase(sampler); return true; }
        if (k == "mesh") { auto* m = (FCDGeometryMesh*) o.p; auto* s = (FCDGeometrySource*) some("source", d, p); if (!s) return false; for (size_t i = 0; i < m->GetPolygonsCount(); ++i) for (size_t z = 0; z < m->GetPolygons(i)->GetInputCount(); ++z) touched.insert(m->GetPolygons(i)->GetInput(z)); std::vector<const void*> in; for (auto& x : now.seq) if (is(x, "input") && now.refs.count(Ref{x, "source", s})) in.push_back(x); if (m->IsVertexSource(s)) m->RemoveVertexSource(s); else m->AddVertexSource(s); for (auto* x : in) if (dead(x)) gone.insert(x); created = true; return true; } // (the inputs of the source are replaced)
        if (k == "polygons") { auto* q = (FCDGeometryPolygons*) o.p; auto* s = (FCDGeometrySource*) some("source", d, q->GetParent()); if (!s) return false; q->AddInput(s, (uint32) g.below(4)); created = true; return true; }
        if (k == "input") { auto* q = (FCDGeometryPolygonsInput*) o.p; const void* polygons = *o.owners.begin(); auto* s = (FCDGeometrySource*) some("source", d, *now.objs[polygons].owners.begin()); if (!s) return false; q->SetSource(s); return true; }
        if (k == "skin") { auto* s = (FCDSkinController*) o.p; s->SetTarget(some<FCDEntity>(FCDEntity::GEOMETRY, maybe_other(d))); return true; }
        if (k == "morph") { auto* m = (FCDMorphController*) o.p; FCDGeometry* x = some<FCDGeometry>(FCDEntity::GEOMETRY, d); if (g.coin()) { std::vector<const void*> t; for (size_t i = 0; i < m->GetTargetCount(); ++i) { t.push_back(m->GetTarget(i)); touched.insert(t.back()); } m->SetBaseTarget(x); for (auto* y : t) if (dead(y)) gone.insert(y); } else { created = true; m->AddTarget(x, 0.5f); } return true; }
        if (k == "morph target") { ((FCDMorphTarget*) o.p)->SetGeometry(some<FCDGeometry>(FCDEntity::GEOMETRY, d)); return true; }
        if (k == "shader") { auto* c = (FCDEffectCode*) some("code", d); ((FCDEffectPassShader*) o.p)->SetCode(g.chance(1, 4) ? NULL : c); return true; }
        if (k == "curve") { auto* q = (FCDAnimationCurve*) o.p; auto* a = (FCDAnimated*) some("animated value", d); if (!a || g.coin()) q->SetDriver(NULL, 0); else q->SetDriver(a, 0); return true; }
        if (k == "animated value") { auto* a = (FCDAnimated*) o.p; size_t i = g.below(a->GetValueCount()); auto* q = (FCDAnimationCurve*) some("curve", d); if (!q || g.coin()) { touched.insert(p); a->RemoveCurve(i); } else a->AddCurve(i, q); return true; }
        if (k == "body parameters" || k == "shape") { FCDPhysicsMaterial* m = some<FCDPhysicsMaterial>(FCDEntity::PHYSICS_MATERIAL, d); for (auto* x : now.seq) if (m == x && is(x, "own physics material")) m = NULL; if (k == "shape") { auto* s = (FCDPhysicsShape*) o.p; if (s->OwnsPhysicsMaterial()) return false; s->SetPhysicsMaterial(m); } else { auto* s = (FCDPhysicsRigidBodyParameters*) o.p; if (s->OwnsPhysicsMaterial()) return false; s->SetPhysicsMaterial(m); } return true; }
        if (k == "constraint") { auto* r = (FCDPhysicsRigidConstraint*) o.p; const void* m = *o.owners.begin(); auto* b = (FCDPhysicsRigidBody*) some("rigid body", d, m); switch (g.below(4)) { case 0: r->SetReferenceRigidBody(b); break; case 1: r->SetTargetRigidBody(b); break; case 2: r->SetReferenceNode(some_node(d)); break; default: r->SetTargetNode(some_node(d)); } return true; }
        if (k == "entity" || k == "node") { auto* e = (FCDEntity*) o.p; switch (e->GetType()) {
            case FCDEntity::CAMERA: case FCDEntity::LIGHT: ((FCDTargetedEntity*) e)->SetTargetNode(some_node(d)); return true;
            case FCDEntity::MATERIAL: ((FCDMaterial*) e)->SetEffect(some<FCDEffect>(FCDEntity::EFFECT, maybe_other(d))); return true;
            case FCDEntity::ANIMATION_CLIP: { auto* q = (FCDAnimationCurve*) some("curve", d); if (!q) return false; auto* cl = (FCDAnimationClip*) e; if (cl->GetClipCurves().contains(q)) return false; touched.insert(q); cl->AddClipCurve(q); return true; }
            case FCDEntity::SCENE_NODE: { auto* n = (FCDSceneNode*) e; if (n->GetChildrenCount() && g.coin()) { FCDSceneNode* x = n->GetChild(g.below(n->GetChildrenCount())); if (x->GetParentCount() < 2) return false; n->RemoveChildNode(x); return true; } if (g.coin()) { FCDEntity::Type t = g.oneof<FCDEntity::Type>({FCDEntity::CAMERA, FCDEntity::LIGHT, FCDEntity::GEOMETRY, FCDEntity::CONTROLLER, FCDEntity::FORCE_FIELD, FCDEntity::EMITTER}); FCDEntity* x = some<FCDEntity>(t, maybe_other(d)); if (!x) return false; n->AddInstance(x); created = true; return true; } FCDSceneNode* x = some_node(d); if (!x) return false; if (n->AddChildNode(x)) c.label("a shared child node"); return true; }
            default: return false; } }
        return false; }
    void create(FCDocument* d) { Gen& G = *gens[(size_t) (std::find(docs.begin(), docs.end(), d) - docs.begin())]; Walk was = std::move(now); FCDEntity* e = NULL; std::string what;
        switch (g.below(12)) { case 0: G.camera(d->GetCameraLibrary()->AddEntity()); what = "a camera"; break; case 1: G.light(d->GetLightLibrary()->AddEntity()); what = "a light"; break; case 2: G.force_field(d->GetForceFieldLibrary()->AddEntity()); what = "a force field"; break; case 3: G.image(d->GetImageLibrary()->AddEntity()); what = "an image"; break; case 4: G.effect(d->GetEffectLibrary()->AddEntity()); what = "an effect"; break;
        case 5: G.mesh(d->GetGeometryLibrary()->AddEntity()->CreateMesh()); what = "a mesh"; break; case 6: G.emitter(d->GetEmitterLibrary()->AddEntity()); what = "an emitter"; break; case 7: d->GetPhysicsMaterialLibrary()->AddEntity(); what = "a physics material"; break; case 8: d->GetAnimationClipLibrary()->AddEntity(); what = "a clip"; break; case 9: d->GetAnimationLibrary()->AddEntity()->AddChannel()->AddCurve()->SetKeyCount(2, FUDaeInterpolation::LINEAR); what = "an animation"; break;
        case 10: d->GetMaterialLibrary()->AddEntity(); what = "a material"; break; default: { FCDSceneNode* r = d->GetVisualSceneLibrary()->GetEntityCount() ? d->GetVisualSceneLibrary()->GetEntity(g.below(d->GetVisualSceneLibrary()->GetEntityCount())) : d->AddVisualScene(); FCDSceneNode* n = r->AddChildNode(); n->AddTransform(FCDTransform::TRANSLATION); n->AddInstance(FCDEntity::GEOMETRY); what = "a node"; } } (void) e;
        log += "creating " + what + "; "; c.label(cat("created: ", what).c_str()); same(was, {}, "creating " + what, true, {}); }
    void copy(FCDocument* d) { std::vector<FCDEntity*> v; for (auto* p : now.seq) if (is(p, "entity") && now.objs[p].doc == d) v.push_back((FCDEntity*) now.objs[p].p); if (v.empty()) return; FCDEntity* e = g.pick(v); FCDocument* t = maybe_other(d); FCDEntity* x = NULL; std::string what = "cloning a " + name(now, e); Walk was = std::move(now);
        switch (e->GetType()) { case FCDEntity::CAMERA: x = t->GetCameraLibrary()->AddEntity(); break; case FCDEntity::LIGHT: x = t->GetLightLibrary()->AddEntity(); break; case FCDEntity::GEOMETRY: x = t->GetGeometryLibrary()->AddEntity(); break; case FCDEntity::EFFECT: x = t->GetEffectLibrary()->AddEntity(); break; case FCDEntity::MATERIAL: x = t->GetMaterialLibrary()->AddEntity(); break; case FCDEntity::CONTROLLER: x = t->GetControllerLibrary()->AddEntity(); break; case FCDEntity::SCENE_NODE: x = t->GetVisualSceneLibrary()->AddEntity(); break; case FCDEntity::PHYSICS_MODEL: x = t->GetPhysicsModelLibrary()->AddEntity(); break; case FCDEntity::PHYSICS_SCENE_NODE: x = t->GetPhysicsSceneLibrary()->AddEntity(); break; case FCDEntity::FORCE_FIELD: x = t->GetForceFieldLibrary()->AddEntity(); break; default: now = std::move(was); return; }
        e->Clone(x, e->GetType() != FCDEntity::MATERIAL); log += what + "; "; c.label("cloned"); same(was, {}, what, true, {}); }
    void close(size_t i) { FCDocument* d = docs[i]; std::set<const void*> gone{d}; for (auto& o : now.objs) if (o.second.doc == d) gone.insert(o.first); Walk was = std::move(now); docs.erase(docs.begin() + (long) i); gens.erase(gens.begin() + (long) i); log += cat("closing document ", i, "; "); d->Release(); same(was, gone, "closing a document", false, {}); }
};
static bool releasable(const std::string& k) { for (auto* x : {"extra", "asset", "mesh", "skin", "morph", "spline geometry", "body parameters", "animated value", "own physics material", "material reference", "shape's instance", "analytical geometry"}) if (k == x) return false; return true; }
static void history(Src& g, Ctx& c, unsigned parts, bool report) {
    World w(g, c); FCollada::SetDereferenceFlag(false); size_t nd = 1 + g.below(3), objects = 0;
    struct Guard { World& w; ~Guard() { while (FCollada::GetTopDocumentCount()) FCollada::GetTopDocument(0)->Release(); } };
    for (size_t i = 0; i < nd; ++i) { FCDocument* d = FCollada::NewTopDocument(); w.docs.push_back(d); w.gens.emplace_back(new Gen(g, d)); Gen& G = *w.gens.back(); G.extras = g.chance(1, 4); G.rich = g.chance(1, 4); G.animate = (parts & ANIMATIONS) != 0; unsigned some = 0; for (unsigned b = 1; b <= parts; b <<= 1) if ((parts & b) && g.chance(2, 3)) some |= b; G.document(some);
        if (g.chance(1, 4)) { std::string f = scratch_dir() + "/c13.dae"; if (FCollada::SaveDocument(d, f.c_str())) { FCDocument* n = FCollada::NewTopDocument(); if (FCollada::LoadDocumentFromFile(n, f.c_str())) { d->Release(); w.docs.back() = n; w.gens.back().reset(new Gen(g, n)); w.gens.back()->extras = false; w.gens.back()->n = 5000; n->SetFileUrl(fstring(cat("file:///doc", i, ".dae").c_str())); c.label("a loaded document"); continue; } n->Release(); } }
        d->SetFileUrl(fstring(cat("file:///doc", i, ".dae").c_str())); }
    fcu::reset_asserts(); messages().clear(); w.now = w.walk(); objects = w.now.objs.size(); size_t steps = 1 + g.len(20);
    for (size_t s = 0; s < steps && !w.docs.empty(); ++s) { if (report) c.note(w.log); w.log.clear();
        switch (g.below(10)) {
        case 0: case 1: case 2: { std::vector<const void*> v; bool any = g.coin(); std::set<const void*> to; for (auto& r : w.now.refs) to.insert(r.to); for (auto* p : w.now.seq) if (releasable(w.now.objs[p].kind) && (any || to.count(p))) v.push_back(p); if (v.empty()) break; const void* p = g.pick(v); if (g.coin()) { std::vector<const void*> u; std::set<std::string> ks; for (auto* q : v) ks.insert(w.now.objs[q].kind); std::vector<std::string> kv(ks.begin(), ks.end()); std::string k = g.pick(kv); for (auto* q : v) if (k == w.now.objs[q].kind) u.push_back(q); p = g.pick(u); } if (w.is(p, "extra type") && ((FCDEType*) w.now.objs[p].p)->GetName().empty()) break; w.release(p); break; }
        case 3: case 4: case 5: case 6: { for (int t = 0; t < 12; ++t) { if (w.now.seq.empty()) break; std::set<std::string> ks; for (auto* q : w.now.seq) ks.insert(w.now.objs[q].kind); std::vector<std::string> kv(ks.begin(), ks.end()); std::string k = g.pick(kv); std::vector<const void*> u; for (auto* q : w.now.seq) if (k == w.now.objs[q].kind) u.push_back(q); const void* p = g.pick(u); std::set<const void*> touched, gone; bool created = false; std::string what = cat("changing a reference of a ", World::name(w.now, p)); if (!w.link(p, what, touched, created, gone)) continue; gone = w.closure(gone); w.log += what + "; "; c.label(cat("linked: ", k).c_str()); Walk was = std::move(w.now); w.same(was, gone, what, created, touched); break; } break; }
        case 7: w.create(g.pick(w.docs)); break;
        case 8: if (g.coin()) w.copy(g.pick(w.docs)); else { FCDocument* d = g.pick(w.docs); d->SetCurrentTime((float) g.below(9)); std::string u = d->GetFileUrl().c_str(); w.log += "saving; "; FCollada::SaveDocument(d, (scratch_dir() + "/c13s.dae").c_str()); d->SetFileUrl(fstring(u.c_str())); c.label("saved"); Walk was = std::move(w.now); w.same(was, {}, "saving", true, {}); } break;
        default: if (g.chance(1, 4)) w.close(g.below(w.docs.size())); }
    }
    while (!w.docs.empty()) w.close(g.below(w.docs.size()));
    c.nontrivial = objects >= 20 && w.shared >= 1; fcu::reset_asserts(); messages().clear();
}
static void twice(Src& g, Ctx& c, unsigned parts) {
    Src g2 = g; g2.rec = NULL; size_t before = __sanitizer_get_current_allocated_bytes(); (void) before;
    history(g, c, parts, true);
    // What is allocated once is kept for the next documents; what is allocated every time has leaked.
    for (int i = 0; i < 3; ++i) { size_t start = __sanitizer_get_current_allocated_bytes(); if (start <= before) return; Src g3 = g2; Ctx c2; history(g3, c2, parts, false); size_t end = __sanitizer_get_current_allocated_bytes(); if (end <= start) return; before = end; CHECK(i < 2, "the history leaks ", end - start, " bytes every time"); before = start; }
}
PBT_CASE(scenes, 1600, 100000) { twice(g, c, SCENES | CAMERAS | LIGHTS | FIELDS | GEOMETRY | CONTROLLERS | MATERIALS | EFFECTS | IMAGES); }
PBT_CASE(animations, 800, 50000) { twice(g, c, SCENES | CAMERAS | LIGHTS | GEOMETRY | CONTROLLERS | ANIMATIONS | CLIPS); }
PBT_CASE(physics, 800, 50000) { twice(g, c, SCENES | FIELDS | GEOMETRY | PHYSICS); }
// An animated value goes with the object that holds it, or with the object it updates.
PBT_CASE(targets, 6000, 200000) {
    struct Value { FCDParameterAnimatable* p; FCDEntity* holder; FCDAnimated* a; FCDObject* target; bool curve; }; std::vector<FCDEntity*> es; std::vector<Value> vs; std::vector<const void*> past; Doc doc; FCDocument* d = doc.d; size_t moved = 0, released = 0;
    FCDAnimation* an = d->GetAnimationLibrary()->AddEntity(); FCDAnimationChannel* ch = an->AddChannel(); fcu::reset_asserts();
    for (size_t n = 2 + g.below(3); n-- > 0;) if (g.coin()) { FCDCamera* e = d->GetCameraLibrary()->AddEntity(); es.push_back(e); for (FCDParameterAnimatable* p : {(FCDParameterAnimatable*) &e->GetNearZ(), (FCDParameterAnimatable*) &e->GetFarZ()}) vs.push_back({p, e, NULL, NULL, false}); }
        else { FCDLight* e = d->GetLightLibrary()->AddEntity(); es.push_back(e); for (FCDParameterAnimatable* p : {(FCDParameterAnimatable*) &e->GetColor(), (FCDParameterAnimatable*) &e->GetIntensity()}) vs.push_back({p, e, NULL, NULL, false}); }
    auto all = [&](const char* what) { for (auto& v : vs) if (v.a) { CHECK(!dead(v.a), "after ", what, ": an animated value whose holder and target exist was released"); CHECK(v.p->GetAnimated() == v.a, "after ", what, ": the animated value was replaced"); CHECK(v.a->GetTargetObject() == v.target, "after ", what, ": the target of an animated value changed"); CHECK_EQ(v.p->IsAnimated(), v.curve, "after ", what, ": whether the value is animated"); } else CHECK(!v.p->IsAnimated(), "after ", what, ": a value is animated");
        for (auto* p : past) CHECK(dead(p), "after ", what, ": an animated value outlives its target"); fcu::no_asserts(what); };
    for (size_t k = 4 + g.below(28); k-- > 0 && !es.empty();) { Value& v = vs[g.below(vs.size())]; switch (g.weighted({6, 9, 2, 1})) {
        case 0: if (!v.a) { v.a = v.p->GetAnimated(); v.target = v.holder; CHECK(v.a->GetTargetObject() == v.target, "at first the target is the holder"); if (g.coin()) { v.a->AddCurve(0, ch->AddCurve()); v.curve = true; } past.erase(std::remove(past.begin(), past.end(), (const void*) v.a), past.end()); c.note(cat("value ", &v - &vs[0], v.curve ? " animated" : "")); } break;
        case 1: if (v.a) { FCDObject* t = g.chance(1, 8) ? NULL : g.chance(1, 3) ? v.holder : es[g.below(es.size())]; v.a->SetTargetObject(t); v.target = t; ++moved; c.note(cat("value ", &v - &vs[0], " targets ", std::find(es.begin(), es.end(), (FCDEntity*) t) - es.begin())); } break;
        case 2: { size_t i = g.below(es.size()); FCDEntity* e = es[i]; c.note(cat("release of ", i)); for (auto& q : vs) if (q.a && (q.target == e || q.holder == e)) { past.push_back(q.a); q.a = NULL; q.curve = false; if (q.holder != e) ++released; } vs.erase(std::remove_if(vs.begin(), vs.end(), [&](const Value& q) { return q.holder == e; }), vs.end()); es.erase(es.begin() + (long) i); e->Release(); if (vs.empty()) { all("a release"); break; } break; }
        default: if (v.a) { past.push_back(v.a); v.a->Release(); v.a = NULL; v.curve = false; c.note(cat("value ", &v - &vs[0], " released")); } }
        all("a step"); if (vs.empty()) break; }
    c.nontrivial = moved >= 2 && released >= 1;
}
