// Generation, canonical rendering, saving and loading of whole documents through the public API.
#ifndef DOCGEN_H
#define DOCGEN_H
#include "FArchiveXML/StdAfx.h"
#include "FCollada.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDAnimation.h"
#include "FCDocument/FCDAnimationChannel.h"
#include "FCDocument/FCDAnimationClip.h"
#include "FCDocument/FCDAnimationCurve.h"
#include "FCDocument/FCDAnimationKey.h"
#include "FCDocument/FCDAnimationMultiCurve.h"
#include "FCDocument/FCDAnimated.h"
#include "FCDocument/FCDAsset.h"
#include "FCDocument/FCDCamera.h"
#include "FCDocument/FCDController.h"
#include "FCDocument/FCDControllerInstance.h"
#include "FCDocument/FCDEffect.h"
#include "FCDocument/FCDEffectCode.h"
#include "FCDocument/FCDEffectParameter.h"
#include "FCDocument/FCDEffectParameterFactory.h"
#include "FCDocument/FCDEffectParameterSampler.h"
#include "FCDocument/FCDEffectParameterSurface.h"
#include "FCDocument/FCDEffectPass.h"
#include "FCDocument/FCDEffectPassShader.h"
#include "FCDocument/FCDEffectPassState.h"
#include "FCDocument/FCDEffectProfile.h"
#include "FCDocument/FCDEffectProfileFX.h"
#include "FCDocument/FCDEffectStandard.h"
#include "FCDocument/FCDEffectTechnique.h"
#include "FCDocument/FCDEmitter.h"
#include "FCDocument/FCDEmitterInstance.h"
#include "FCDocument/FCDEntity.h"
#include "FCDocument/FCDEntityInstance.h"
#include "FCDocument/FCDEntityReference.h"
#include "FCDocument/FCDExternalReferenceManager.h"
#include "FCDocument/FCDExtra.h"
#include "FCDocument/FCDForceField.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryInstance.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometryPolygons.h"
#include "FCDocument/FCDGeometryPolygonsInput.h"
#include "FCDocument/FCDGeometrySource.h"
#include "FCDocument/FCDGeometrySpline.h"
#include "FCDocument/FCDImage.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDLight.h"
#include "FCDocument/FCDMaterial.h"
#include "FCDocument/FCDMaterialInstance.h"
#include "FCDocument/FCDMorphController.h"
#include "FCDocument/FCDParameterAnimatable.h"
#include "FCDocument/FCDPhysicsAnalyticalGeometry.h"
#include "FCDocument/FCDPhysicsForceFieldInstance.h"
#include "FCDocument/FCDPhysicsMaterial.h"
#include "FCDocument/FCDPhysicsModel.h"
#include "FCDocument/FCDPhysicsModelInstance.h"
#include "FCDocument/FCDPhysicsRigidBody.h"
#include "FCDocument/FCDPhysicsRigidBodyInstance.h"
#include "FCDocument/FCDPhysicsRigidBodyParameters.h"
#include "FCDocument/FCDPhysicsRigidConstraint.h"
#include "FCDocument/FCDPhysicsRigidConstraintInstance.h"
#include "FCDocument/FCDPhysicsScene.h"
#include "FCDocument/FCDPhysicsShape.h"
#include "FCDocument/FCDPlaceHolder.h"
#include "FCDocument/FCDSceneNode.h"
#include "FCDocument/FCDSkinController.h"
#include "FCDocument/FCDTargetedEntity.h"
#include "FCDocument/FCDTexture.h"
#include "FCDocument/FCDTransform.h"
#include "FUtils/FUDaeEnum.h"
#include "FUtils/FUFileManager.h"
#include "FUtils/FUUniqueStringMap.h"
#include "fcu.h"
#include <map>
#include <set>

namespace dg {
using pbt::Src;
inline std::string S(const fm::string& s) { return s.c_str(); }
void init();                                       // worker_init of the document checks: library, assertion and message hooks

// ---- canonical rendering ----
struct Tok { std::string path, s; double x; bool num; double by = 0; }; // by: magnitude of the numbers x was computed with
struct Opt { bool ids = true, deep = false, values = false, sorted = false, offsets = true, curves = true; }; // offsets: render the offsets of the inputs of polygons; curves: render the curves attached to animatable values; sorted: entities of a library in the order of their ids; ids: render the ids of the objects rendered themselves (clones get new ones); deep: render the effect of a material; values: render the values of a material, whoever owns it
struct Dump {
    std::vector<Tok> t; std::vector<std::string> scope; Opt opt;
    std::vector<std::pair<FCDAnimated*, std::string>> animateds; std::map<std::string, int> counts; std::vector<std::pair<size_t, FCDAnimated*>> drivers; // animatable values met, and drivers to be named by finish()
    std::string at(const std::string& k) const { std::string p; for (auto& s : scope) { p += s; p += '/'; } return p + k; }
    void s(const std::string& k, const std::string& v) { t.push_back({at(k), v, 0, false}); }
    void f(const std::string& k, double v, double by = 0) { t.push_back({at(k), "", v, true, by}); }
    void i(const std::string& k, long long v) { s(k, std::to_string(v)); }
    void v3(const std::string& k, const FMVector3& v) { f(k + ".x", v.x); f(k + ".y", v.y); f(k + ".z", v.z); }
    void v4(const std::string& k, const FMVector4& v) { f(k + ".x", v.x); f(k + ".y", v.y); f(k + ".z", v.z); f(k + ".w", v.w); }
    void m44(const std::string& k, const FMMatrix44& m) { for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) f(k + "[" + std::to_string(c) + "][" + std::to_string(r) + "]", m.m[c][r]); }
    template <class L> auto entities(L* l) { std::vector<decltype(l->GetEntity(0))> v; for (size_t i = 0; i < l->GetEntityCount(); ++i) v.push_back(l->GetEntity(i)); if (opt.sorted) std::stable_sort(v.begin(), v.end(), [](auto* a, auto* b) { return S(a->GetDaeId()) < S(b->GetDaeId()); }); return v; }
    void ref(const std::string& k, const FCDEntity* e) { s(k, !e ? "(none)" : S(e->GetDaeId())); }
};
struct In { Dump& d; In(Dump& d_, const std::string& s) : d(d_) { d.scope.push_back(s); } ~In() { d.scope.pop_back(); } };
// Empty when equal; numbers are compared within the precision of the textual format.
std::string diff(const Dump& a, const Dump& b);
std::string text(const Dump& d);

void dump(Dump& d, FCDAsset* a);
void dump(Dump& d, FCDExtra* x);
void dump_animated(Dump& d, FCDAnimated* a); void dump_curve(Dump& d, FCDAnimationCurve* c); void finish(Dump& d);
void dump_base(Dump& d, FCDEntity* e);             // id, name, note, asset, extra
void dump_effect_parameter(Dump& d, FCDEffectParameter* p);
void dump_node(Dump& d, FCDSceneNode* n);
void dump_instance(Dump& d, FCDEntityInstance* i);
// per area, implemented with their generators
void dump_geometry(Dump& d, FCDGeometry* g); void dump_image(Dump& d, FCDImage* i); void dump_material(Dump& d, FCDMaterial* m); void dump_effect(Dump& d, FCDEffect* e);
void dump_material_instance(Dump& d, FCDMaterialInstance* m);
void dump_controller(Dump& d, FCDController* c); void dump_animation_libraries(Dump& d, FCDocument* doc, unsigned parts); void dump_physics(Dump& d, FCDocument* doc); bool dump_physics_entity(Dump& d, FCDEntity* e); void dump_animation(Dump& d, FCDAnimation* a);
void dump_entity(Dump& d, FCDEntity* e);           // any entity, by its type
enum Part : unsigned { ASSET = 1, EXTRA = 2, SCENES = 4, CAMERAS = 8, LIGHTS = 16, FIELDS = 32, GEOMETRY = 64, MATERIALS = 128, EFFECTS = 256, IMAGES = 512, CONTROLLERS = 1024, ANIMATIONS = 2048, CLIPS = 4096, PHYSICS = 8192, ALL = 0xffff };
void dump_document(Dump& d, FCDocument* doc, unsigned parts = ALL);
Dump dumped(FCDocument* doc, unsigned parts = ALL);

// ---- generation ----
struct Gen {
    Src& g; FCDocument* doc; unsigned n = 0; bool extras = true, rich = false, animate = false; unsigned animated = 0;
    Gen(Src& g_, FCDocument* d) : g(g_), doc(d) {}
    float fl();                                    // any ordinary value
    float pos();                                   // strictly positive
    float unit() { return (float) g.below(101) / 100; }
    FMVector3 v3() { float x = fl(), y = fl(), z = fl(); return FMVector3(x, y, z); }
    FMVector4 v4() { float x = fl(), y = fl(), z = fl(), w = fl(); return FMVector4(x, y, z, w); }
    FMVector3 axis();                              // unit length
    FMMatrix44 m44();
    std::string word(const char* prefix);          // fresh clean identifier
    std::string content();                         // element text
    std::string attribute();                       // attribute text
    void entity(FCDEntity* e);                     // id, name, note, asset, extra
    void asset(FCDAsset* a, bool top);
    void extra(FCDExtra* x);
    void camera(FCDCamera* c);
    void light(FCDLight* l);
    void force_field(FCDForceField* f);
    void emitter(FCDEmitter* e);
    void transform(FCDSceneNode* n);
    std::vector<FCDSceneNode*> nodes;              // every scene node created so far, roots included
    void instance(FCDEntityInstance* i);           // name, sub-id, extra
    void libraries(unsigned parts);                // asset and extra of each library
    void scenes();                                 // visual scenes over whatever the libraries hold
    void image(FCDImage* i);
    void effect(FCDEffect* e);
    void material(FCDMaterial* m);
    void material_instances(FCDGeometryInstance* i);
    void mesh(FCDGeometryMesh* m);
    void spline(FCDGeometrySpline* s);
    void geometry(FCDGeometry* gm);
    void controllers();
    void skin(FCDSkinController* s);
    void morph(FCDMorphController* m, FCDEntity* self);
    void physics();
    static bool can_animate(const std::string& path);
    void animations();                             // attaches curves to animatable values of the document
    void clips();
    void document(unsigned parts);                 // all of the above
};

// ---- archiving ----
void clean(const std::string& what);               // fails when a library error or assertion was reported
struct Messages { std::vector<std::string> errors, warnings; void clear() { errors.clear(); warnings.clear(); } std::string all() const; };
Messages& messages();
FCDocument* load(const std::string& path);         // NULL if the library reports failure
bool save(FCDocument* doc, const std::string& path);
std::string slurp(const std::string& path);
void spill(const std::string& path, const std::string& s);
struct Doc { FCDocument* d; Doc(FCDocument* d_ = FCollada::NewTopDocument()) : d(d_) {} ~Doc() { if (d) d->Release(); } FCDocument* operator->() { return d; } operator FCDocument*() { return d; } FCDocument* take() { auto* r = d; d = nullptr; return r; } Doc(const Doc&) = delete; };
}
#endif
