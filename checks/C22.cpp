#include "docgen.h"
using namespace pbt;
using namespace dg;
PBT_PROPERTY("C22", "the cloned entity has content beyond its name: at least ten rendered values")
struct SetInit { SetInit() { worker_init = dg::init; } } setInit;

// What must be equal in the original and its clone.
static bool curves = true; // without them where values are animated: a clone gets the value, and only standard effects share the curves
static Dump content(FCDEntity* e, bool deep, bool values) { Dump d; d.opt.ids = false; d.opt.curves = curves; d.opt.deep = deep; d.opt.values = values; dump_entity(d, e); finish(d); return d; }
static Dump whole(FCDEntity* e) { Dump d; dump_entity(d, e); finish(d); return d; }
template <class F> static void each_library(FCDocument* d, F f) {
    f(d->GetCameraLibrary()); f(d->GetLightLibrary()); f(d->GetForceFieldLibrary()); f(d->GetEmitterLibrary()); f(d->GetImageLibrary()); f(d->GetEffectLibrary()); f(d->GetMaterialLibrary()); f(d->GetGeometryLibrary()); f(d->GetControllerLibrary());
    f(d->GetVisualSceneLibrary()); f(d->GetAnimationLibrary()); f(d->GetPhysicsMaterialLibrary()); f(d->GetPhysicsModelLibrary()); f(d->GetPhysicsSceneLibrary());
}
static std::vector<FCDEntity*> entities(FCDocument* d) { std::vector<FCDEntity*> r; each_library(d, [&](auto* l) { for (size_t i = 0; i < l->GetEntityCount(); ++i) r.push_back(l->GetEntity(i)); }); return r; }
static FCDEntity* fresh(FCDocument* d, FCDEntity::Type t) { // an empty entity of that type in the library of the document
    switch (t) {
    case FCDEntity::CAMERA: return d->GetCameraLibrary()->AddEntity(); case FCDEntity::LIGHT: return d->GetLightLibrary()->AddEntity(); case FCDEntity::FORCE_FIELD: return d->GetForceFieldLibrary()->AddEntity(); case FCDEntity::EMITTER: return d->GetEmitterLibrary()->AddEntity();
    case FCDEntity::IMAGE: return d->GetImageLibrary()->AddEntity(); case FCDEntity::EFFECT: return d->GetEffectLibrary()->AddEntity(); case FCDEntity::MATERIAL: return d->GetMaterialLibrary()->AddEntity(); case FCDEntity::GEOMETRY: return d->GetGeometryLibrary()->AddEntity(); case FCDEntity::CONTROLLER: return d->GetControllerLibrary()->AddEntity();
    case FCDEntity::SCENE_NODE: return d->GetVisualSceneLibrary()->AddEntity(); case FCDEntity::ANIMATION: return d->GetAnimationLibrary()->AddEntity(); case FCDEntity::PHYSICS_MATERIAL: return d->GetPhysicsMaterialLibrary()->AddEntity(); case FCDEntity::PHYSICS_MODEL: return d->GetPhysicsModelLibrary()->AddEntity(); case FCDEntity::PHYSICS_SCENE_NODE: return d->GetPhysicsSceneLibrary()->AddEntity();
    default: return NULL; }
}
// ---- later changes ----
static void change(Src& g, FCDEntity* e);
static void change(Src& g, FCDTransform* t) {
    switch (t->GetType()) { case FCDTransform::TRANSLATION: ((FCDTTranslation*) t)->SetTranslation(7, 8, 9); break; case FCDTransform::ROTATION: ((FCDTRotation*) t)->SetAngle(77); break; case FCDTransform::SCALE: ((FCDTScale*) t)->SetScale(7, 8, 9); break;
    case FCDTransform::MATRIX: ((FCDTMatrix*) t)->SetTransform(FMMatrix44::TranslationMatrix(FMVector3(7, 8, 9))); break; case FCDTransform::LOOKAT: ((FCDTLookAt*) t)->SetPosition(7, 8, 9); break; default: ((FCDTSkew*) t)->SetAngle(17); }
    if (g.coin()) t->SetSubId("changed");
}
static void change(Src& g, FCDEffectParameter* p) {
    if (g.coin()) p->SetReference("changed"); if (g.coin()) p->SetSemantic("CHANGED"); if (g.coin()) p->AddAnnotation("changed", FCDEffectParameter::FLOAT, "1");
    if (p->HasType(FCDEffectParameterSampler::GetClassType())) { auto* s = (FCDEffectParameterSampler*) p; s->SetWrapS((FUDaeTextureWrapMode::WrapMode) 4); if (g.coin()) s->SetSurface(NULL); }
    if (p->HasType(FCDEffectParameterSurface::GetClassType())) { auto* s = (FCDEffectParameterSurface*) p; s->SetFormat("changed"); if (s->GetImageCount() && g.coin()) s->RemoveImage(s->GetImage(0)); }
    if (p->GetType() == FCDEffectParameter::FLOAT) ((FCDEffectParameterFloat*) p)->SetValue(1234);
    if (p->GetType() == FCDEffectParameter::STRING) ((FCDEffectParameterString*) p)->SetValue("changed");
    if (p->GetType() == FCDEffectParameter::MATRIX) ((FCDEffectParameterMatrix*) p)->SetValue(FMMatrix44::TranslationMatrix(FMVector3(7, 8, 9)));
}
static void change(Src& g, FCDEntityInstance* i) {
    i->SetName("changed"); if (g.coin()) i->SetWantedSubId("changed"); if (g.coin()) i->GetExtra()->GetDefaultType()->AddTechnique("CHANGED")->AddChildNode("changed"); if (g.chance(1, 4)) i->SetEntity(NULL);
    if (i->HasType(FCDGeometryInstance::GetClassType())) { auto* q = (FCDGeometryInstance*) i;
        for (size_t k = q->GetMaterialInstanceCount(); k-- > 0;) if (g.coin()) q->GetMaterialInstance(k)->Release(); else { q->GetMaterialInstance(k)->SetSemantic("changed"); q->GetMaterialInstance(k)->AddBinding("changed", "changed"); }
        for (size_t k = 0; k < q->GetEffectParameterCount(); ++k) change(g, q->GetEffectParameter(k)); }
    if (i->HasType(FCDControllerInstance::GetClassType())) { auto* q = (FCDControllerInstance*) i; q->ResetJoints(); q->GetSkeletonRoots().clear(); }
}
static void change(Src& g, FCDPhysicsRigidBodyParameters* p) {
    p->SetMass(77); p->SetDynamic(!*p->GetDynamic()); p->SetInertia(FMVector3(7, 8, 9)); p->SetMassFrameTranslate(FMVector3(7, 8, 9)); if (p->OwnsPhysicsMaterial() && g.coin()) p->GetPhysicsMaterial()->SetStaticFriction(77); else if (g.coin()) p->SetPhysicsMaterial(NULL);
    for (size_t k = p->GetPhysicsShapeCount(); k-- > 0;) { auto* s = p->GetPhysicsShape(k); if (g.chance(1, 3)) { s->Release(); continue; } s->SetHollow(!s->IsHollow()); s->SetMass(77); if (s->OwnsPhysicsMaterial() && g.coin()) s->GetPhysicsMaterial()->SetRestitution(77); else if (g.coin()) s->AddOwnPhysicsMaterial();
        if (s->GetInstanceMaterial() && g.coin()) s->GetInstanceMaterial()->SetName("changed"); for (FCDTransform* t : s->GetTransforms()) change(g, t);
        if (auto* a = s->GetAnalyticalGeometry()) { if (a->GetGeomType() == FCDPhysicsAnalyticalGeometry::BOX) ((FCDPASBox*) a)->halfExtents = FMVector3(7, 8, 9); if (a->GetGeomType() == FCDPhysicsAnalyticalGeometry::PLANE) ((FCDPASPlane*) a)->d = 77; if (a->GetGeomType() == FCDPhysicsAnalyticalGeometry::SPHERE) ((FCDPASSphere*) a)->radius = 77; } }
}
static void change(Src& g, FCDPhysicsModelInstance* m) {
    change(g, (FCDEntityInstance*) m); for (size_t k = m->GetInstanceCount(); k-- > 0;) { auto* i = m->GetInstance(k); if (g.chance(1, 3)) { i->Release(); continue; } if (i->GetEntityType() == FCDEntity::PHYSICS_RIGID_BODY) { auto* b = (FCDPhysicsRigidBodyInstance*) i; b->SetVelocity(FMVector3(7, 8, 9)); change(g, b->GetParameters()); } i->SetName("changed"); }
}
static void change(Src& g, FCDEntity* e) {
    if (g.coin()) e->SetName("changed"); if (g.coin()) e->SetNote("changed"); if (g.coin()) e->GetAsset()->SetTitle("changed");
    if (g.coin()) { FCDExtra* x = e->GetExtra(); x->GetDefaultType()->AddTechnique("CHANGED")->AddChildNode("changed")->SetContent("changed"); for (size_t i = x->GetTypeCount(); i-- > 0;) for (size_t k = x->GetType(i)->GetTechniqueCount(); k-- > 0;) { auto* q = x->GetType(i)->GetTechnique(k); for (size_t c = q->GetChildNodeCount(); c-- > 0;) switch (g.below(4)) { case 0: q->GetChildNode(c)->Release(); break; case 1: q->GetChildNode(c)->SetContent("changed"); break; case 2: q->GetChildNode(c)->AddAttribute("changed", 1); break; default: q->GetChildNode(c)->AddChildNode("changed"); } } }
    switch (e->GetType()) {
    case FCDEntity::CAMERA: { auto* c = (FCDCamera*) e; c->SetFovX(77); c->SetFovY(66); c->SetNearZ(77); c->SetTargetNode(NULL); break; }
    case FCDEntity::LIGHT: { auto* l = (FCDLight*) e; l->SetColor(FMVector3(7, 8, 9)); l->SetIntensity(77); l->SetLightType(FCDLight::SPOT); l->SetTargetNode(NULL); break; }
    case FCDEntity::FORCE_FIELD: ((FCDForceField*) e)->GetInformation()->GetDefaultType()->AddTechnique("CHANGED")->AddChildNode("changed"); break;
    case FCDEntity::IMAGE: ((FCDImage*) e)->SetFilename("changed.png"); ((FCDImage*) e)->SetWidth(77); break;
    case FCDEntity::GEOMETRY: { auto* q = (FCDGeometry*) e;
        if (q->IsMesh()) { auto* m = q->GetMesh(); m->SetConvex(!m->IsConvex());
            for (size_t i = 0; i < m->GetPolygonsCount(); ++i) { auto* p = m->GetPolygons(i); p->SetMaterialSemantic("changed"); for (size_t k = 0; k < p->GetInputCount(); ++k) { auto* in = p->GetInput(k); in->SetSet(in->GetSet() + 1); if (in->OwnsIndices() && in->GetIndexCount()) in->GetIndices()[0] ^= 1; } if (g.coin()) p->AddFace(3); if (p->GetFaceCount() > 1 && g.coin()) p->RemoveFace(0); if (g.coin()) p->GetExtra()->GetDefaultType()->AddTechnique("CHANGED")->AddChildNode("changed"); }
            for (size_t i = 0; i < m->GetSourceCount(); ++i) { auto* s = m->GetSource(i); if (s->GetDataCount()) s->GetData()[0] += 7; s->SetName("changed"); if (g.coin()) s->SetType(FUDaeGeometryInput::EXTRA); }
            if (m->GetPolygonsCount() && g.coin()) m->GetPolygons(0)->Release(); if (m->GetSourceCount() && g.coin()) m->GetSource(m->GetSourceCount() - 1)->Release(); if (g.coin()) m->AddVertexSource(FUDaeGeometryInput::COLOR); }
        else if (q->IsSpline()) { auto* s = q->GetSpline(); for (size_t i = 0; i < s->GetSplineCount(); ++i) { auto* p = s->GetSpline(i); if (p->GetCVCount()) *p->GetCV(0) = FMVector3(7, 8, 9); p->GetCVs().push_back(FMVector3::Zero); } if (s->GetSplineCount() && g.coin()) s->GetSpline(0)->Release(); }
        break; }
    case FCDEntity::CONTROLLER: { auto* c = (FCDController*) e;
        if (c->IsSkin()) { auto* s = c->GetSkinController(); s->SetBindShapeTransform(FMMatrix44::TranslationMatrix(FMVector3(7, 8, 9))); for (size_t i = 0; i < s->GetInfluenceCount(); ++i) s->GetVertexInfluence(i)->AddPair(0, 0.5f); if (g.coin()) s->SetJointCount(0); else s->AddJoint("changed", FMMatrix44::Identity); if (g.coin()) s->SetTarget(NULL); }
        if (c->IsMorph()) { auto* m = c->GetMorphController(); for (size_t i = 0; i < m->GetTargetCount(); ++i) m->GetTarget(i)->SetWeight(77); if (m->GetTargetCount() && g.coin()) m->GetTarget(0)->Release(); if (g.coin()) m->SetBaseTarget(NULL); }
        break; }
    case FCDEntity::EFFECT: { auto* f = (FCDEffect*) e;
        for (size_t i = 0; i < f->GetEffectParameterCount(); ++i) change(g, f->GetEffectParameter(i)); if (f->GetEffectParameterCount() && g.coin()) f->GetEffectParameter(0)->Release();
        for (size_t i = f->GetProfileCount(); i-- > 0;) { auto* p = f->GetProfile(i); for (size_t k = 0; k < p->GetEffectParameterCount(); ++k) change(g, p->GetEffectParameter(k));
            if (p->HasType(FCDEffectStandard::GetClassType())) { auto* s = (FCDEffectStandard*) p; s->SetDiffuseColor(FMVector4(7, 8, 9, 1)); s->SetLightingType(FCDEffectStandard::CONSTANT); for (uint32 b = 0; b < FUDaeTextureChannel::COUNT; ++b) for (size_t k = s->GetTextureCount(b); k-- > 0;) if (g.coin()) s->GetTexture(b, k)->Release(); else s->GetTexture(b, k)->SetImage(NULL); s->AddTexture(FUDaeTextureChannel::DIFFUSE); }
            if (p->HasType(FCDEffectProfileFX::GetClassType())) { auto* x = (FCDEffectProfileFX*) p; x->SetPlatform("changed"); for (size_t t = x->GetTechniqueCount(); t-- > 0;) { auto* q = x->GetTechnique(t); for (size_t k = q->GetPassCount(); k-- > 0;) { auto* w = q->GetPass(k); w->SetPassName("changed"); for (size_t z = w->GetShaderCount(); z-- > 0;) if (g.coin()) w->GetShader(z)->Release(); for (size_t z = 0; z < w->GetRenderStateCount(); ++z) if (w->GetRenderState(z)->GetDataSize()) w->GetRenderState(z)->GetData()[0] ^= 1; if (g.chance(1, 3)) w->Release(); } for (size_t k = 0; k < q->GetEffectParameterCount(); ++k) change(g, q->GetEffectParameter(k)); if (g.chance(1, 3)) q->Release(); } for (size_t k = x->GetCodeCount(); k-- > 0;) if (g.coin()) x->GetCode(k)->Release(); else x->GetCode(k)->SetCode("changed"); }
            if (g.chance(1, 4)) p->Release(); }
        break; }
    case FCDEntity::MATERIAL: { auto* m = (FCDMaterial*) e; for (size_t i = m->GetEffectParameterCount(); i-- > 0;) if (g.chance(1, 3)) m->GetEffectParameter(i)->Release(); else change(g, m->GetEffectParameter(i)); m->GetTechniqueHints().clear(); if (g.coin()) m->SetEffect(NULL); break; }
    case FCDEntity::SCENE_NODE: { auto* n = (FCDSceneNode*) e; n->SetSubId("changed"); n->SetJointFlag(!n->GetJointFlag()); n->SetVisibility(!n->IsVisible()); n->AddTransform(FCDTransform::SCALE);
        for (size_t i = n->GetTransformCount(); i-- > 0;) if (g.chance(1, 4)) n->GetTransform(i)->Release(); else change(g, n->GetTransform(i)); for (size_t i = n->GetInstanceCount(); i-- > 0;) if (g.chance(1, 4)) n->GetInstance(i)->Release(); else change(g, n->GetInstance(i));
        for (size_t i = n->GetChildrenCount(); i-- > 0;) if (i < n->GetChildrenCount()) { if (g.chance(1, 4)) n->GetChild(i)->Release(); else if (g.coin()) change(g, n->GetChild(i)); } n->AddChildNode(); break; }
    case FCDEntity::ANIMATION: { auto* a = (FCDAnimation*) e; for (size_t i = a->GetChannelCount(); i-- > 0;) { auto* h = a->GetChannel(i); for (size_t k = h->GetCurveCount(); k-- > 0;) { auto* v = h->GetCurve(k); if (v->GetKeyCount()) { v->GetKey(0)->output += 7; v->SetPreInfinity(FUDaeInfinity::OSCILLATE); v->SetKeyCount(v->GetKeyCount() - 1, FUDaeInterpolation::LINEAR); } if (g.chance(1, 3)) v->Release(); } if (g.chance(1, 4)) h->Release(); } for (size_t i = a->GetChildrenCount(); i-- > 0;) if (g.coin()) change(g, a->GetChild(i)); else a->GetChild(i)->Release(); break; }
    case FCDEntity::PHYSICS_MATERIAL: ((FCDPhysicsMaterial*) e)->SetStaticFriction(77); ((FCDPhysicsMaterial*) e)->SetRestitution(7); break;
    case FCDEntity::PHYSICS_RIGID_BODY: change(g, ((FCDPhysicsRigidBody*) e)->GetParameters()); break;
    case FCDEntity::PHYSICS_MODEL: { auto* m = (FCDPhysicsModel*) e; for (size_t i = m->GetRigidConstraintCount(); i-- > 0;) { auto* r = m->GetRigidConstraint(i); if (g.chance(1, 3)) { r->Release(); continue; } r->SetEnabled(!*r->GetEnabled()); r->SetSubId("changed"); r->SetSpringLinearDamping(77); for (FCDTransform* t : r->GetTransformsRef()) change(g, t); if (m->GetRigidBodyCount()) r->SetReferenceRigidBody(m->GetRigidBody(g.below(m->GetRigidBodyCount()))); }
        for (size_t i = m->GetRigidBodyCount(); i-- > 0;) if (g.chance(1, 3)) m->GetRigidBody(i)->Release(); else change(g, m->GetRigidBody(i)); for (size_t i = m->GetInstanceCount(); i-- > 0;) change(g, m->GetInstance(i)); break; }
    case FCDEntity::PHYSICS_SCENE_NODE: { auto* s = (FCDPhysicsScene*) e; s->SetGravity(FMVector3(7, 8, 9)); s->SetTimestep(77); for (size_t i = s->GetPhysicsModelInstancesCount(); i-- > 0;) if (g.chance(1, 3)) s->GetPhysicsModelInstance(i)->Release(); else change(g, s->GetPhysicsModelInstance(i)); for (size_t i = s->GetForceFieldInstancesCount(); i-- > 0;) change(g, (FCDEntityInstance*) s->GetForceFieldInstance(i)); break; }
    default: break; }
}
// Entities whose content does not refer to other objects of their document.
static bool self_contained(FCDEntity* e) {
    switch (e->GetType()) { case FCDEntity::CAMERA: case FCDEntity::LIGHT: return ((FCDTargetedEntity*) e)->GetTargetNode() == NULL; case FCDEntity::FORCE_FIELD: case FCDEntity::EMITTER: case FCDEntity::IMAGE: case FCDEntity::GEOMETRY: case FCDEntity::PHYSICS_MATERIAL: return true; default: return false; }
}
static std::string kind(FCDEntity* e) { const char* K[] = {"entity", "animation", "animation clip", "camera", "controller", "effect", "emitter", "force field", "geometry", "image", "light", "material"}; int t = (int) e->GetType(); return t < 12 ? K[t] : e->GetType() == FCDEntity::SCENE_NODE ? "scene node" : cat("entity type ", t); }
static void cloned(Src& g, Ctx& c, FCDocument* a0) {
    std::unique_ptr<Doc> a(new Doc(a0)), b(g.coin() ? new Doc : NULL); if (b && g.coin()) { Gen G(g, b->d); G.extras = false; G.document(SCENES | CAMERAS | (g.coin() ? GEOMETRY : 0)); }
    std::vector<FCDEntity*> all = entities(a->d); std::vector<FCDEntity*> pool = all;
    { std::set<FCDSceneNode*> seen; std::vector<FCDSceneNode*> todo; for (auto* e : all) if (e->GetType() == FCDEntity::SCENE_NODE) todo.push_back((FCDSceneNode*) e); while (!todo.empty()) { auto* n = todo.back(); todo.pop_back(); for (size_t i = 0; i < n->GetChildrenCount(); ++i) if (seen.insert(n->GetChild(i)).second) { pool.push_back(n->GetChild(i)); todo.push_back(n->GetChild(i)); } } }
    if (pool.empty()) throw Discard();
    FCDEntity* e = pool[g.below(pool.size())]; if (g.chance(2, 3)) { std::set<int> types; for (auto* p : pool) types.insert((int) p->GetType()); size_t k = g.below(types.size()); auto it = types.begin(); std::advance(it, (long) k); std::vector<FCDEntity*> l; for (auto* p : pool) if ((int) p->GetType() == *it) l.push_back(p); e = l[g.below(l.size())]; }
    messages().clear(); c.label(kind(e).c_str());
    std::vector<std::pair<FCDEntity*, Dump>> before; for (auto* p : all) before.push_back({p, whole(p)});
    int mode = b ? 1 : (int) g.below(2) * 2; const bool deep = e->GetType() == FCDEntity::MATERIAL || g.coin(), cross = mode == 1; c.label(mode == 0 ? "in the same document" : mode == 1 ? "in another document" : "in no library");
    // Without cloneChildren the hierarchy is left out
    bool children = deep || g.chance(2, 3); if (e->GetType() == FCDEntity::SCENE_NODE || e->GetType() == FCDEntity::ANIMATION) children = true;
    bool effect = e->GetType() == FCDEntity::MATERIAL && children;
    Dump original = content(e, effect, cross); c.note(text(original)); if (original.t.size() >= 10) c.nontrivial = true;
    FCDEntity* x = mode == 2 ? NULL : fresh(cross ? b->d : a->d, e->GetType()); FCDEntity* r = e->Clone(x, children);
    CHECK(r != NULL && (x == NULL || r == x), "the clone is returned"); x = r; CHECK(x != e, "the clone is a new object"); CHECK_EQ((int) x->GetType(), (int) e->GetType(), "the type of the clone"); CHECK(x->GetDocument() == (cross ? b->d : a->d), "the document of the clone");
    clean("cloning");
    std::string d = diff(original, content(x, effect, cross)); CHECK(d.empty(), "the clone of a ", kind(e), " differs: ", d);
    for (auto& p : before) { d = diff(p.second, whole(p.first)); CHECK(d.empty(), "cloning changed ", p.first == e ? "the original" : "another entity", ": ", d); }
    if (!cross) CHECK(S(x->GetDaeId()) != S(e->GetDaeId()), "the id of the clone is unique");
    { std::string i1 = S(x->GetDaeId()); d = diff(original, content(x, effect, cross)); CHECK(d.empty() && i1 == S(x->GetDaeId()), "the clone is stable: ", d); }
    // Changes to one leave the other as it was.
    bool self = self_contained(e); size_t steps = 1 + g.below(3);
    bool gone_e = false, gone_x = false;
    for (size_t k = 0; k < steps && !gone_e && !gone_x; ++k) {
        bool on_clone = g.coin(), del = g.chance(1, 3); FCDEntity* side = on_clone ? x : e; FCDEntity* other = on_clone ? e : x;
        // The nodes below the original are what the instances, targets and bodies of the clone refer to
        if (del && !on_clone && (e->GetType() == FCDEntity::SCENE_NODE || e->GetType() == FCDEntity::PHYSICS_MODEL)) del = false;
        Dump o = content(other, false, false); std::string what = cat(del ? "releasing" : "changing", " the ", on_clone ? "clone" : "original");
        if (del) { side->Release(); (on_clone ? gone_x : gone_e) = true; c.label("released"); } else if (on_clone || (e->GetType() != FCDEntity::SCENE_NODE && e->GetType() != FCDEntity::PHYSICS_MODEL)) { change(g, side); c.label("changed"); } else { side->SetName("changed"); }
        d = diff(o, content(other, false, false)); CHECK(d.empty(), what, " changed the other: ", d);
        fcu::no_asserts(what.c_str());
    }
    if (mode == 2 && !gone_x) { if (!gone_e && g.coin()) { x->Release(); gone_x = true; } }
    // The documents go in any order.
    if (mode == 2) { if (!gone_x) { x->Release(); } a.reset(); }
    else if (cross && g.coin()) { bool check = self && !gone_x; Dump o; if (check) o = content(x, false, true); a.reset(); if (check) { d = diff(o, content(x, false, true)); CHECK(d.empty(), "releasing the document of the original changed the clone: ", d); c.label("original's document released"); } b.reset(); }
    else { b.reset(); a.reset(); }
    fcu::no_asserts("releasing the documents");
}
PBT_CASE(scenes_and_geometry, 6000, 150000) { FCDocument* d = FCollada::NewTopDocument(); try { Gen G(g, d); G.extras = g.chance(1, 2); G.rich = g.coin(); unsigned parts = 0; for (unsigned p : {SCENES, CAMERAS, LIGHTS, FIELDS, GEOMETRY, CONTROLLERS}) if (g.coin()) parts |= p; G.document(parts ? parts : (unsigned) (CAMERAS | LIGHTS)); } catch (...) { d->Release(); throw; } cloned(g, c, d); }
PBT_CASE(effects_and_materials, 4000, 100000) { FCDocument* d = FCollada::NewTopDocument(); try { Gen G(g, d); G.extras = g.chance(1, 2); G.rich = g.coin(); G.document(IMAGES | EFFECTS | (g.chance(2, 3) ? MATERIALS : 0) | (g.chance(1, 4) ? SCENES | GEOMETRY : 0)); } catch (...) { d->Release(); throw; } cloned(g, c, d); }
PBT_CASE(physics, 4000, 100000) { FCDocument* d = FCollada::NewTopDocument(); try { Gen G(g, d); G.extras = g.chance(1, 2); G.rich = g.coin(); G.document(PHYSICS | (g.coin() ? SCENES : 0) | (g.coin() ? FIELDS : 0) | (g.coin() ? GEOMETRY : 0)); } catch (...) { d->Release(); throw; } cloned(g, c, d); }
PBT_CASE(animations, 2000, 50000) {
    FCDocument* d = FCollada::NewTopDocument(); try { Gen G(g, d); G.extras = g.chance(1, 2); G.animate = true; G.document(CAMERAS | LIGHTS | SCENES | ANIMATIONS); } catch (...) { d->Release(); throw; }
    // Only the animations are cloned: the values they drive are shared by design
    Doc a(d); auto* l = d->GetAnimationLibrary(); if (!l->GetEntityCount()) throw Discard(); FCDAnimation* e = l->GetEntity(g.below(l->GetEntityCount()));
    for (size_t k = e->GetChildrenCount() ? g.below(3) : 0; k-- > 0 && e->GetChildrenCount();) e = e->GetChild(g.below(e->GetChildrenCount()));
    messages().clear(); Doc b; bool cross = g.coin(); Dump o = content(e, true, false); c.note(text(o)); if (o.t.size() >= 10) c.nontrivial = true; Dump before = dumped(d, ALL & ~ANIMATIONS & ~CLIPS);
    FCDEntity* x = e->Clone(fresh(cross ? b.d : d, FCDEntity::ANIMATION), true); std::string f = diff(o, content(x, true, false)); CHECK(f.empty(), "the clone of an animation differs: ", f); clean("cloning");
    f = diff(before, dumped(d, ALL & ~ANIMATIONS & ~CLIPS)); CHECK(f.empty(), "cloning an animation changed the animated values: ", f); f = diff(o, content(e, true, false)); CHECK(f.empty(), "cloning changed the original: ", f);
    bool del = g.coin(); if (del) x->Release(); else change(g, x); f = diff(o, content(e, true, false)); CHECK(f.empty(), del ? "releasing" : "changing", " the clone changed the original: ", f); f = diff(before, dumped(d, ALL & ~ANIMATIONS & ~CLIPS)); CHECK(f.empty(), "the clone is attached to the animated values: ", f);
    if (!del && g.coin()) { o = content(x, true, false); e->Release(); f = diff(o, content(x, true, false)); CHECK(f.empty(), "releasing the original changed the clone: ", f); }
}
PBT_CASE(animated_values, 4000, 100000) {
    FCDocument* d = FCollada::NewTopDocument(); try { Gen G(g, d); G.extras = g.chance(1, 2); G.rich = g.coin(); G.animate = true; unsigned parts = ANIMATIONS; for (unsigned p : {0u + SCENES, 0u + CAMERAS, 0u + LIGHTS, 0u + GEOMETRY + CONTROLLERS, 0u + IMAGES + EFFECTS, 0u + IMAGES + EFFECTS + MATERIALS, 0u + PHYSICS}) if (g.chance(2, 5)) parts |= p; G.document(parts == ANIMATIONS ? 0u + SCENES + ANIMATIONS : parts); } catch (...) { d->Release(); throw; }
    struct Without { Without() { curves = false; } ~Without() { curves = true; } } without; cloned(g, c, d);
}
