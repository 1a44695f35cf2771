// Physics materials, models, scenes and their instances: rendering and generation.
#include "docgen.h"
#include <algorithm>
namespace dg {
template <class P> static void val(Dump& d, const char* k, P& p) { In n(d, k); d.f("value", *p); dump_animated(d, p.GetAnimated()); }
template <class P> static void vec(Dump& d, const char* k, P& p) { In n(d, k); d.v3("value", *p); dump_animated(d, p.GetAnimated()); }
static void material_values(Dump& d, FCDPhysicsMaterial* m) { dump_base(d, m); d.f("static friction", m->GetStaticFriction()); d.f("dynamic friction", m->GetDynamicFriction()); d.f("restitution", m->GetRestitution()); }
static void material_of(Dump& d, FCDPhysicsMaterial* m, bool own, FCDEntityInstance* i) {
    In n(d, "material"); if (d.opt.values && m) { material_values(d, m); own = true; } else if (own && m) { In o(d, "own"); material_values(d, m); return; }
    if (own) m = NULL; else if (!m && i) m = (FCDPhysicsMaterial*) i->GetEntity(); d.ref("of the library", m);
    if (i) { if (!i->GetName().empty()) d.s("name", S(i->GetName())); if (!i->GetWantedSubId().empty()) d.s("sub-id", S(i->GetWantedSubId())); dump(d, i->GetExtra()); }
}
static void transforms_of(Dump& d, const char* k, FCDTransformContainer& l) {
    In n(d, k); for (FCDTransform* t : l) { bool r = t->GetType() == FCDTransform::ROTATION; In m(d, r ? "rotation" : t->GetType() == FCDTransform::TRANSLATION ? "translation" : "other");
        if (!d.opt.curves || !t->IsAnimated()) d.s("sub-id", S(*t->GetSubId())); if (r) { d.v3("axis", ((FCDTRotation*) t)->GetAxis()); d.f("angle", ((FCDTRotation*) t)->GetAngle()); } else d.v3("t", *((FCDTTranslation*) t)->GetTranslation()); dump_animated(d, t->GetAnimated()); }
}
static void dump_shape(Dump& d, FCDPhysicsShape* s) {
    In n(d, "shape"); d.i("hollow", s->IsHollow()); bool m = s->GetMassPointer() != NULL, q = s->GetDensityPointer() != NULL, dense = !m || s->IsDensityMoreAccurate(); d.i("density decides", dense);
    if (!dense) d.f("mass", s->GetMass());
    if (q || !m) d.f("density", q ? s->GetDensity() : 1); else { double v = s->CalculateVolume(), x = s->GetMass() / v; d.f("density", x, 200 * fabs(x)); }
    material_of(d, s->GetPhysicsMaterial(), s->OwnsPhysicsMaterial(), s->GetInstanceMaterial());
    if (s->GetGeometryInstance()) dump_instance(d, s->GetGeometryInstance());
    if (auto* a = s->GetAnalyticalGeometry()) { In g(d, pbt::cat("solid ", (int) a->GetGeomType()));
        switch (a->GetGeomType()) {
        case FCDPhysicsAnalyticalGeometry::BOX: d.v3("half extents", ((FCDPASBox*) a)->halfExtents); break;
        case FCDPhysicsAnalyticalGeometry::PLANE: d.v3("normal", ((FCDPASPlane*) a)->normal); d.f("d", ((FCDPASPlane*) a)->d); break;
        case FCDPhysicsAnalyticalGeometry::SPHERE: d.f("radius", ((FCDPASSphere*) a)->radius); break;
        case FCDPhysicsAnalyticalGeometry::CYLINDER: case FCDPhysicsAnalyticalGeometry::TAPERED_CYLINDER: { auto* c = (FCDPASCylinder*) a; d.f("height", c->height); d.f("radius.x", c->radius.x); d.f("radius.y", c->radius.y); if (a->GetGeomType() == FCDPhysicsAnalyticalGeometry::TAPERED_CYLINDER) { auto* t = (FCDPASTaperedCylinder*) a; d.f("radius2.x", t->radius2.x); d.f("radius2.y", t->radius2.y); } break; }
        default: { auto* c = (FCDPASCapsule*) a; d.f("height", c->height); d.f("radius.x", c->radius.x); d.f("radius.y", c->radius.y); if (a->GetGeomType() == FCDPhysicsAnalyticalGeometry::TAPERED_CAPSULE) { auto* t = (FCDPASTaperedCapsule*) a; d.f("radius2.x", t->radius2.x); d.f("radius2.y", t->radius2.y); } } } }
    transforms_of(d, "transforms", s->GetTransforms());
}
static void dump_parameters(Dump& d, FCDPhysicsRigidBodyParameters* p) {
    val(d, "dynamic", p->GetDynamic()); val(d, "mass", p->GetMass()); vec(d, "mass frame position", p->GetMassFrameTranslate());
    { In n(d, "mass frame orientation"); d.v3("axis", p->GetMassFrameRotateAxis()); d.f("angle", p->GetMassFrameRotateAngle()); dump_animated(d, p->GetMassFrameOrientation().GetAnimated()); }
    d.i("inertia given", p->IsInertiaAccurate()); if (p->IsInertiaAccurate()) vec(d, "inertia", p->GetInertia());
    material_of(d, p->GetPhysicsMaterial(), p->OwnsPhysicsMaterial(), p->GetInstanceMaterial());
    for (size_t i = 0; i < p->GetPhysicsShapeCount(); ++i) dump_shape(d, p->GetPhysicsShape(i));
}
static void body_of(Dump& d, const char* k, FCDPhysicsModel* m, FCDPhysicsRigidBody* b) { if (!d.opt.ids && m) for (size_t i = 0; i < m->GetRigidBodyCount(); ++i) if (m->GetRigidBody(i) == b) { d.s(k, "#" + std::to_string(i)); return; } d.ref(k, b); }
static void dump_constraint(Dump& d, FCDPhysicsRigidConstraint* c) {
    In n(d, "constraint"); d.s("sub-id", S(c->GetSubId())); d.s("name", S(c->GetName())); d.s("note", S(c->GetNote())); dump(d, const_cast<FCDAsset*>(const_cast<const FCDPhysicsRigidConstraint*>(c)->GetAsset())); dump(d, c->GetExtra());
    body_of(d, "reference body", c->GetParent(), c->GetReferenceRigidBody()); d.ref("reference node", c->GetReferenceNode()); body_of(d, "target body", c->GetParent(), c->GetTargetRigidBody()); d.ref("target node", c->GetTargetNode());
    transforms_of(d, "reference transforms", c->GetTransformsRef()); transforms_of(d, "target transforms", c->GetTransformsTar());
    val(d, "enabled", c->GetEnabled()); val(d, "interpenetrate", c->GetInterpenetrate());
    d.v3("linear min", c->GetLimitsLinearMin()); d.v3("linear max", c->GetLimitsLinearMax()); d.v3("cone min", c->GetLimitsSCTMin()); d.v3("cone max", c->GetLimitsSCTMax());
    d.f("linear stiffness", c->GetSpringLinearStiffness()); d.f("linear damping", c->GetSpringLinearDamping()); d.f("linear target", c->GetSpringLinearTargetValue()); d.f("angular stiffness", c->GetSpringAngularStiffness()); d.f("angular damping", c->GetSpringAngularDamping()); d.f("angular target", c->GetSpringAngularTargetValue());
}
static void dump_model_instance(Dump& d, FCDPhysicsModelInstance* m) {
    In n(d, "model instance"); dump_instance(d, m);
    for (auto type : {FCDEntity::FORCE_FIELD, FCDEntity::PHYSICS_RIGID_BODY, FCDEntity::PHYSICS_RIGID_CONSTRAINT}) // archived by kind
        for (size_t i = 0; i < m->GetInstanceCount(); ++i) if (m->GetInstance(i)->GetEntityType() == type) {
            FCDEntityInstance* e = m->GetInstance(i); In k(d, pbt::cat("instance type ", (int) type)); d.s("name", S(e->GetName())); d.s("sub-id", S(e->GetWantedSubId())); dump(d, e->GetExtra());
            if (type == FCDEntity::PHYSICS_RIGID_CONSTRAINT) { auto* c = ((FCDPhysicsRigidConstraintInstance*) e)->GetRigidConstraint(); d.s("constraint", c ? S(c->GetSubId()) : "(none)"); continue; } // constraints have no id in the file
            d.ref("entity", e->GetEntity());
            if (type == FCDEntity::PHYSICS_RIGID_BODY) { auto* b = (FCDPhysicsRigidBodyInstance*) e; if (d.opt.ids) d.ref("target", b->GetTargetNode()); vec(d, "velocity", b->GetVelocity()); vec(d, "angular velocity", b->GetAngularVelocity()); dump_parameters(d, b->GetParameters()); } }
}
bool dump_physics_entity(Dump& d, FCDEntity* e) {
    switch (e->GetType()) {
    case FCDEntity::PHYSICS_MATERIAL: { In n(d, "physics material"); material_values(d, (FCDPhysicsMaterial*) e); return true; }
    case FCDEntity::PHYSICS_RIGID_BODY: { In b(d, "body"); dump_base(d, e); dump_parameters(d, ((FCDPhysicsRigidBody*) e)->GetParameters()); return true; }
    case FCDEntity::PHYSICS_RIGID_CONSTRAINT: dump_constraint(d, (FCDPhysicsRigidConstraint*) e); return true;
    case FCDEntity::PHYSICS_MODEL: { auto* m = (FCDPhysicsModel*) e; In n(d, "physics model"); dump_base(d, m);
        for (size_t i = 0; i < m->GetInstanceCount(); ++i) dump_model_instance(d, m->GetInstance(i));
        for (size_t i = 0; i < m->GetRigidBodyCount(); ++i) dump_physics_entity(d, m->GetRigidBody(i));
        for (size_t i = 0; i < m->GetRigidConstraintCount(); ++i) dump_constraint(d, m->GetRigidConstraint(i)); return true; }
    case FCDEntity::PHYSICS_SCENE_NODE: { auto* s = (FCDPhysicsScene*) e; In n(d, "physics scene"); dump_base(d, s); d.v3("gravity", s->GetGravity()); d.f("timestep", s->GetTimestep());
        for (size_t i = 0; i < s->GetForceFieldInstancesCount(); ++i) dump_instance(d, s->GetForceFieldInstance(i));
        for (size_t i = 0; i < s->GetPhysicsModelInstancesCount(); ++i) dump_model_instance(d, s->GetPhysicsModelInstance(i)); return true; }
    default: return false; }
}
void dump_physics(Dump& d, FCDocument* doc) {
    auto lib = [&](const char* k, auto* l, auto one) { In n(d, k); dump(d, l->GetAsset(false)); dump(d, l->GetExtra()); for (auto* e : d.entities(l)) one(e); };
    auto one = [&](FCDEntity* e) { dump_physics_entity(d, e); };
    lib("physics materials", doc->GetPhysicsMaterialLibrary(), one); lib("physics models", doc->GetPhysicsModelLibrary(), one); lib("physics scenes", doc->GetPhysicsSceneLibrary(), one);
    for (size_t i = 0; i < doc->GetPhysicsSceneInstanceCount(); ++i) d.ref("current physics scene", doc->GetPhysicsSceneInstance(i));
}
// ---- generation ----
static void values(Gen& G, FCDPhysicsMaterial* m) { G.entity(m); m->SetStaticFriction(G.fl()); m->SetDynamicFriction(G.fl()); m->SetRestitution(G.fl()); }
template <class T> static void a_material(Gen& G, T* t, bool required) {
    auto* l = G.doc->GetPhysicsMaterialLibrary(); size_t k = G.g.below(required ? 3 : 4); if (k && !l->GetEntityCount()) k = required ? 0 : 3;
    if (k == 0) { values(G, t->AddOwnPhysicsMaterial()); return; } if (k == 3) return; auto* m = l->GetEntity(G.g.below(l->GetEntityCount()));
    if (k == 1) { FCDEntityInstance* i = FCDEntityInstanceFactory::CreateInstance(G.doc, NULL, FCDEntity::PHYSICS_MATERIAL); i->SetEntity(m); G.instance(i); t->SetInstanceMaterial(i); }
    t->SetPhysicsMaterial(m);
}
static void a_transform(Gen& G, FCDTransform* t) {
    if (G.g.chance(1, 3)) t->SetSubId(fm::string(G.word("t").c_str()));
    if (t->GetType() == FCDTransform::TRANSLATION) ((FCDTTranslation*) t)->SetTranslation(G.v3()); else ((FCDTRotation*) t)->SetRotation(G.axis(), (float) G.g.range(-3600, 3600) / 8);
}
static bool doc_hulls(Gen& G, FCDGeometry* q) { auto* l = G.doc->GetGeometryLibrary(); for (size_t i = 0; i < l->GetEntityCount(); ++i) if (S(l->GetEntity(i)->GetDaeId()) == S(q->GetDaeId()) + "-convex") return false; return true; }
static void shape(Gen& G, FCDPhysicsShape* s) {
    Src& g = G.g; s->SetHollow(g.coin()); auto* gl = G.doc->GetGeometryLibrary(); std::vector<FCDGeometry*> meshes; for (size_t i = 0; i < gl->GetEntityCount(); ++i) if (gl->GetEntity(i)->IsMesh() && gl->GetEntity(i)->GetMesh()->GetSourceCount()) meshes.push_back(gl->GetEntity(i));
    bool plane = false, mesh = !meshes.empty() && g.chance(1, 4);
    if (mesh) { auto* q = meshes[g.below(meshes.size())]; bool hull = g.chance(1, 4) && doc_hulls(G, q); FCDGeometryInstance* i = s->CreateGeometryInstance(q, hull); G.instance(i); }
    else { auto t = (FCDPhysicsAnalyticalGeometry::GeomType) g.below(7); auto* a = s->CreateAnalyticalGeometry(t); plane = t == FCDPhysicsAnalyticalGeometry::PLANE; auto two = [&] { float x = G.pos(), y = G.pos(); return FMVector2(x, y); };
        switch (t) {
        case FCDPhysicsAnalyticalGeometry::BOX: { float x = G.pos(), y = G.pos(), z = G.pos(); ((FCDPASBox*) a)->halfExtents = FMVector3(x, y, z); break; }
        case FCDPhysicsAnalyticalGeometry::PLANE: ((FCDPASPlane*) a)->normal = G.v3(); ((FCDPASPlane*) a)->d = G.fl(); break;
        case FCDPhysicsAnalyticalGeometry::SPHERE: ((FCDPASSphere*) a)->radius = G.pos(); break;
        case FCDPhysicsAnalyticalGeometry::CYLINDER: case FCDPhysicsAnalyticalGeometry::TAPERED_CYLINDER: { auto* c = (FCDPASCylinder*) a; c->height = G.pos(); c->radius = two(); if (t == FCDPhysicsAnalyticalGeometry::TAPERED_CYLINDER) ((FCDPASTaperedCylinder*) a)->radius2 = two(); break; }
        default: { auto* c = (FCDPASCapsule*) a; c->height = G.pos(); c->radius = two(); if (t == FCDPhysicsAnalyticalGeometry::TAPERED_CAPSULE) ((FCDPASTaperedCapsule*) a)->radius2 = two(); } } }
    auto any = [&] { return g.chance(1, 6) ? 0 : G.pos(); };
    switch (g.below(mesh || plane ? 3 : 4)) { case 0: s->SetMass(any()); s->SetDensity(any()); break; case 1: s->SetDensity(any()); s->SetDensityMoreAccurate(true); if (g.coin()) s->SetMass(any()); break; case 2: break; default: s->SetMass(any()); }
    a_material(G, s, false);
    for (size_t k = g.len(4); k-- > 0;) a_transform(G, s->AddTransform(g.coin() ? FCDTransform::TRANSLATION : FCDTransform::ROTATION, g.chance(1, 4) ? 0 : (size_t) -1));
}
static void parameters(Gen& G, FCDPhysicsRigidBodyParameters* p) {
    Src& g = G.g; p->SetDynamic(g.coin()); if (g.chance(3, 4)) p->SetMass(G.fl()); if (g.coin()) p->SetInertia(G.v3()); if (g.coin()) p->SetMassFrameTranslate(G.v3()); if (g.coin()) { FMVector3 a = G.axis(); p->SetMassFrameOrientation(FMAngleAxis(a, G.fl())); }
    a_material(G, p, true); for (size_t k = 1 + g.below(3); k-- > 0;) shape(G, p->AddPhysicsShape());
}
static void inner(Gen& G, FCDPhysicsModelInstance* m, FCDPhysicsModel* of) {
    Src& g = G.g; G.instance(m); auto* ff = G.doc->GetForceFieldLibrary();
    for (size_t k = g.len(4); k-- > 0;) switch (g.below(3)) {
    case 0: if (of->GetRigidBodyCount() && !G.nodes.empty()) { auto* b = m->AddRigidBodyInstance(of->GetRigidBody(g.below(of->GetRigidBodyCount()))); G.instance(b); b->SetTargetNode(G.nodes[g.below(G.nodes.size())]); b->SetVelocity(G.v3()); b->SetAngularVelocity(G.v3()); parameters(G, b->GetParameters()); } break;
    case 1: if (of->GetRigidConstraintCount()) G.instance(m->AddRigidConstraintInstance(of->GetRigidConstraint(g.below(of->GetRigidConstraintCount())))); break;
    default: if (ff->GetEntityCount()) G.instance(m->AddForceFieldInstance(ff->GetEntity(g.below(ff->GetEntityCount())))); }
}
void Gen::physics() {
    auto* ml = doc->GetPhysicsMaterialLibrary(); for (size_t k = g.len(3); k-- > 0;) values(*this, ml->AddEntity());
    std::vector<FCDPhysicsModel*> models; for (size_t k = g.len(4); k-- > 0;) { auto* m = doc->GetPhysicsModelLibrary()->AddEntity(); entity(m); models.push_back(m); }
    for (auto* m : models) {
        for (size_t k = g.len(3); k-- > 0;) { auto* b = m->AddRigidBody(); entity(b); parameters(*this, b->GetParameters()); }
        for (size_t k = g.len(3); k-- > 0;) { if (!m->GetRigidBodyCount() && nodes.empty()) break; auto* c = m->AddRigidConstraint(); entity(c); c->SetName(word("K").c_str()); c->SetSubId(fm::string(word("k").c_str()));
            auto body = [&] { return m->GetRigidBody(g.below(m->GetRigidBodyCount())); }; auto node = [&] { return nodes[g.below(nodes.size())]; };
            if (nodes.empty() || (m->GetRigidBodyCount() && g.chance(2, 3))) c->SetReferenceRigidBody(body()); else c->SetReferenceNode(node());
            if (nodes.empty() || (m->GetRigidBodyCount() && g.chance(2, 3))) c->SetTargetRigidBody(body()); else c->SetTargetNode(node());
            for (size_t q = g.len(3); q-- > 0;) a_transform(*this, c->AddTransformRef(g.coin() ? FCDTransform::TRANSLATION : FCDTransform::ROTATION)); for (size_t q = g.len(3); q-- > 0;) a_transform(*this, c->AddTransformTar(g.coin() ? FCDTransform::TRANSLATION : FCDTransform::ROTATION));
            if (g.coin()) c->SetEnabled(g.coin()); if (g.coin()) c->SetInterpenetrate(g.coin());
            if (g.coin()) { c->SetLimitsLinearMin(v3()); c->SetLimitsLinearMax(v3()); } if (g.coin()) { c->SetLimitsSCTMin(v3()); c->SetLimitsSCTMax(v3()); }
            if (g.coin()) { c->SetSpringLinearStiffness(fl()); c->SetSpringLinearDamping(fl()); c->SetSpringLinearTargetValue(fl()); } if (g.coin()) { c->SetSpringAngularStiffness(fl()); c->SetSpringAngularDamping(fl()); c->SetSpringAngularTargetValue(fl()); } }
    }
    // Models within models, never within themselves
    std::vector<FCDPhysicsModel*> order = models; if (g.coin()) std::reverse(order.begin(), order.end());
    for (size_t i = 1; i < order.size(); ++i) for (size_t k = g.len(3); k-- > 0;) { auto* of = order[g.below(i)]; inner(*this, order[i]->AddPhysicsModelInstance(of), of); }
    std::vector<FCDPhysicsScene*> sc; auto* ff = doc->GetForceFieldLibrary();
    for (size_t k = g.len(3); k-- > 0;) { auto* s = doc->AddPhysicsScene(); entity(s); sc.push_back(s); if (g.chance(2, 3)) s->SetGravity(v3()); if (g.chance(2, 3)) s->SetTimestep(fl());
        for (size_t q = g.len(3); q-- > 0 && !models.empty();) { auto* of = models[g.below(models.size())]; inner(*this, s->AddPhysicsModelInstance(of), of); }
        if (ff->GetEntityCount()) for (size_t q = g.len(2); q-- > 0;) instance(s->AddForceFieldInstance(ff->GetEntity(g.below(ff->GetEntityCount())))); }
    for (auto* s : sc) if (g.chance(1, 3)) doc->AddPhysicsSceneInstance(s);
}
}
