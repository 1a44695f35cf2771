#include "docgen.h"
#include <algorithm>
#include <fstream>
#include <libxml/xmlerror.h>

namespace dg {
// ---- messages ----
Messages& messages() { static Messages m; return m; }
std::string Messages::all() const { std::string s; for (auto& e : errors) s += "error: " + e + "; "; for (auto& w : warnings) s += "warning: " + w + "; "; return s; }
static void quiet(void*, const char*, ...) {}
void init() {
    fcu::install();
    FCollada::Initialize();
    xmlSetGenericErrorFunc(NULL, quiet); xmlSetStructuredErrorFunc(NULL, [](void*, auto) {});
    static int tag;
    FUError::AddErrorCallback(FUError::ERROR_LEVEL, &tag, [](FUError::Level, uint32 code, uint32 arg) { messages().errors.push_back(std::string(FUError::GetErrorString((FUError::Code) code)) + " (" + std::to_string(arg) + ")"); });
    FUError::AddErrorCallback(FUError::WARNING_LEVEL, &tag, [](FUError::Level, uint32 code, uint32 arg) { messages().warnings.push_back(std::string(FUError::GetErrorString((FUError::Code) code)) + " (" + std::to_string(arg) + ")"); });
}
void clean(const std::string& what) {
    if (!messages().errors.empty() || !messages().warnings.empty()) { std::string m = messages().all(); messages().clear(); pbt::fail(what + " reported " + m); }
    fcu::no_asserts(what.c_str());
}
FCDocument* load(const std::string& path) { FCDocument* d = FCollada::NewTopDocument(); if (FCollada::LoadDocumentFromFile(d, path.c_str())) return d; d->Release(); return NULL; }
bool save(FCDocument* doc, const std::string& path) { return FCollada::SaveDocument(doc, path.c_str()); }
std::string slurp(const std::string& path) { std::ifstream f(path, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
void spill(const std::string& path, const std::string& s) { std::ofstream f(path, std::ios::binary | std::ios::trunc); f.write(s.data(), (std::streamsize) s.size()); }

// ---- rendering ----
static std::string tok(const Tok& t) { return t.path + " = " + (t.num ? pbt::cat(t.x) : "'" + t.s + "'"); }
std::string text(const Dump& d) { std::string s; for (auto& t : d.t) s += tok(t) + "\n"; return s; }
std::string diff(const Dump& a, const Dump& b) {
    for (size_t i = 0; i < a.t.size() || i < b.t.size(); ++i) {
        if (i >= a.t.size()) return "added: " + tok(b.t[i]); if (i >= b.t.size()) return "lost: " + tok(a.t[i]);
        const Tok &x = a.t[i], &y = b.t[i]; bool same = x.path == y.path && x.num == y.num && x.s == y.s;
        if (same && x.num) same = x.x == y.x || (std::isnan(x.x) && std::isnan(y.x)) || fabs(x.x - y.x) <= 6e-6 * std::max(fabs(x.x), fabs(y.x)) + 3e-7 + 2e-7 * fabs(x.by);
        if (!same) return tok(x) + "   became   " + tok(y) + (i ? "   (after " + tok(a.t[i - 1]) + ")" : "");
    }
    return "";
}
void dump(Dump& d, FCDAsset* a) {
    if (!a) return; In in(d, "asset");
    for (size_t i = 0; i < a->GetContributorCount(); ++i) { FCDAssetContributor* c = a->GetContributor(i); if (c->IsEmpty()) continue; In n(d, "contributor"); d.s("author", S(c->GetAuthor())); d.s("tool", S(c->GetAuthoringTool())); d.s("comments", S(c->GetComments())); d.s("copyright", S(c->GetCopyright())); d.s("source", S(c->GetSourceData())); }
    const FUDateTime& t = a->GetCreationDateTime(); d.s("created", pbt::cat(t.GetYear(), "-", t.GetMonth(), "-", t.GetDay(), " ", t.GetHour(), ":", t.GetMinutes(), ":", t.GetSeconds()));
    d.s("keywords", S(a->GetKeywords())); d.s("revision", S(a->GetRevision())); d.s("subject", S(a->GetSubject())); d.s("title", S(a->GetTitle()));
    if (a->GetHasUnitsFlag()) { d.s("unit", S(a->GetUnitName())); d.f("meters", a->GetUnitConversionFactor()); }
    if (a->GetHasUpAxisFlag()) d.v3("up", a->GetUpAxis());
}
static void dump_enode(Dump& d, FCDENode* n) {
    In in(d, "<" + S(n->GetName()) + ">"); d.s("content", n->GetChildNodeCount() ? "" : n->GetContent());
    for (size_t i = 0; i < n->GetAttributeCount(); ++i) if (S(n->GetAttribute(i)->GetName()) != "sid" || !d.opt.curves || !n->GetAnimated()->HasCurve()) d.s("@" + S(n->GetAttribute(i)->GetName()), S(n->GetAttribute(i)->GetValue()));
    dump_animated(d, n->GetAnimated());
    for (size_t i = 0; i < n->GetChildNodeCount(); ++i) dump_enode(d, n->GetChildNode(i));
}
void dump(Dump& d, FCDExtra* x) {
    if (!x) return; In in(d, "extra"); std::vector<std::pair<std::string, FCDETechnique*>> all; // keyed by type and profile, in no particular order
    for (size_t i = 0; i < x->GetTypeCount(); ++i) { FCDEType* t = x->GetType(i); if (S(t->GetName()) == "AnimTargets") continue;
        for (size_t k = 0; k < t->GetTechniqueCount(); ++k) { FCDETechnique* q = t->GetTechnique(k); if (q->GetChildNodeCount()) all.push_back({"type '" + S(t->GetName()) + "' profile '" + q->GetProfile() + "'", q}); } }
    std::stable_sort(all.begin(), all.end(), [](auto& p, auto& q) { return p.first < q.first; });
    for (auto& p : all) { In k(d, p.first); for (size_t c = 0; c < p.second->GetChildNodeCount(); ++c) dump_enode(d, p.second->GetChildNode(c)); }
}
void dump_base(Dump& d, FCDEntity* e) {
    if (d.opt.ids) { d.s("id", S(e->GetDaeId())); d.s("name", S(e->GetName().empty() ? e->GetDaeId() : e->GetName())); } else d.s("name", S(e->GetName())); d.s("note", S(e->GetNote()));
    dump(d, const_cast<FCDAsset*>(const_cast<const FCDEntity*>(e)->GetAsset())); dump(d, e->GetExtra());
}
void dump_instance(Dump& d, FCDEntityInstance* i) {
    In in(d, pbt::cat("instance type ", (int) i->GetEntityType())); d.s("name", S(i->GetName())); d.s("sub-id", S(i->GetWantedSubId()));
    FCDEntity* e = i->GetEntity(); d.ref("entity", e); dump(d, i->GetExtra());
    if (i->HasType(FCDGeometryInstance::GetClassType())) { auto* g = (FCDGeometryInstance*) i;
        for (size_t k = 0; k < g->GetEffectParameterCount(); ++k) dump_effect_parameter(d, g->GetEffectParameter(k));
        for (size_t k = 0; k < g->GetMaterialInstanceCount(); ++k) dump_material_instance(d, g->GetMaterialInstance(k)); }
    if (i->HasType(FCDControllerInstance::GetClassType())) { auto* c = (FCDControllerInstance*) i; for (auto& u : c->GetSkeletonRoots()) d.s("skeleton", S(TO_STRING(u.GetFragment()))); for (size_t k = 0; k < c->GetJointCount(); ++k) d.ref("joint", c->GetJoint(k)); }
}
static bool in_extra(FCDEntityInstance* i) { return i->GetEntityType() == FCDEntity::FORCE_FIELD || i->GetEntityType() == FCDEntity::EMITTER; }
void dump_node(Dump& d, FCDSceneNode* n) {
    In in(d, "node"); dump_base(d, n);
    if (n->GetParentCount() || !d.opt.ids) { d.s("sub-id", S(n->GetSubId())); d.i("joint", n->GetJointFlag()); d.i("visible", n->IsVisible()); dump_animated(d, n->GetVisibility().GetAnimated()); }
    for (size_t i = 0; i < n->GetTransformCount(); ++i) { FCDTransform* t = n->GetTransform(i); const char* K[] = {"translation", "rotation", "scale", "matrix", "lookat", "skew"}; In k(d, K[t->GetType()]);
        { std::string id = S(*t->GetSubId()); for (const char* w : {"translation", "rotation", "scale", "transform", "matrix", "lookat", "lookAt", "skew", "rotate", "translate"}) if (d.opt.curves && t->IsAnimated() && id.find(w) == 0) id = ""; if (!d.opt.curves || !t->IsAnimated() || !id.empty()) d.s("sub-id", id); }
        switch (t->GetType()) {
        case FCDTransform::TRANSLATION: d.v3("t", *((FCDTTranslation*) t)->GetTranslation()); break;
        case FCDTransform::ROTATION: d.v3("axis", ((FCDTRotation*) t)->GetAxis()); d.f("angle", ((FCDTRotation*) t)->GetAngle()); break;
        case FCDTransform::SCALE: d.v3("s", *((FCDTScale*) t)->GetScale()); break;
        case FCDTransform::MATRIX: d.m44("m", *((FCDTMatrix*) t)->GetTransform()); break;
        case FCDTransform::LOOKAT: { auto* l = (FCDTLookAt*) t; d.v3("eye", l->GetPosition()); d.v3("target", l->GetTarget()); d.v3("up", l->GetUp()); break; }
        default: { auto* s = (FCDTSkew*) t; d.f("angle", s->GetAngle()); d.v3("rotate", s->GetRotateAxis()); d.v3("around", s->GetAroundAxis()); } }
        dump_animated(d, t->GetAnimated()); }
    for (int pass = 0; pass < 2; ++pass) for (size_t i = 0; i < n->GetInstanceCount(); ++i) if (in_extra(n->GetInstance(i)) == (pass == 1)) dump_instance(d, n->GetInstance(i));
    if (!d.opt.ids) { for (size_t i = 0; i < n->GetChildrenCount(); ++i) dump_node(d, n->GetChild(i)); return; } // the clone of a node has no parent, and copies of all its children
    std::vector<std::string> shared; for (size_t i = 0; i < n->GetChildrenCount(); ++i) if (n->GetChild(i)->GetParent() != n) shared.push_back(S(n->GetChild(i)->GetDaeId())); std::sort(shared.begin(), shared.end()); for (auto& s : shared) d.s("shared child", s);
    std::vector<std::string> more; for (size_t i = 1; i < n->GetParentCount(); ++i) more.push_back(S(n->GetParent(i)->GetDaeId())); if (n->GetParentCount()) d.ref("parent", n->GetParent(0)); std::sort(more.begin(), more.end()); for (auto& s : more) d.s("another parent", s);
    for (size_t i = 0; i < n->GetChildrenCount(); ++i) if (n->GetChild(i)->GetParent() == n) dump_node(d, n->GetChild(i));
}
static void dump_camera(Dump& d, FCDCamera* c) {
    d.i("projection", c->GetProjectionType()); d.i("has x", c->HasHorizontalFov()); d.i("has y", c->HasVerticalFov());
    if (c->HasHorizontalFov()) { In n(d, "x"); d.f("value", *c->GetFovX()); dump_animated(d, c->GetFovX().GetAnimated()); } if (c->HasVerticalFov()) { In n(d, "y"); d.f("value", *c->GetFovY()); dump_animated(d, c->GetFovY().GetAnimated()); } if (c->HasAspectRatio()) { In n(d, "aspect"); d.f("value", *c->GetAspectRatio()); dump_animated(d, c->GetAspectRatio().GetAnimated()); }
    { In n(d, "near"); d.f("value", *c->GetNearZ()); dump_animated(d, c->GetNearZ().GetAnimated()); } { In n(d, "far"); d.f("value", *c->GetFarZ()); dump_animated(d, c->GetFarZ().GetAnimated()); } d.ref("target", c->GetTargetNode());
}
static void dump_light(Dump& d, FCDLight* l) {
    auto f = [&](const char* k, FCDParameterAnimatableFloat& p) { In n(d, k); d.f("value", *p); dump_animated(d, p.GetAnimated()); };
    auto t = l->GetLightType(); d.i("kind", t); { In n(d, "color"); d.v3("value", *l->GetColor()); dump_animated(d, l->GetColor().GetAnimated()); } f("intensity", l->GetIntensity());
    if (t != FCDLight::AMBIENT) { f("constant", l->GetConstantAttenuationFactor()); f("linear", l->GetLinearAttenuationFactor()); f("quadratic", l->GetQuadraticAttenuationFactor()); }
    if (t == FCDLight::SPOT || t == FCDLight::DIRECTIONAL) { f("falloff angle", l->GetFallOffAngle()); f("falloff exponent", l->GetFallOffExponent()); f("outer", l->GetOuterAngle()); }
    if (t == FCDLight::SPOT) f("dropoff", l->GetDropoff()); d.ref("target", l->GetTargetNode());
}
void dump_entity(Dump& d, FCDEntity* e) {
    if (!e) { d.s("entity", "(none)"); return; }
    if (e->GetType() == FCDEntity::SCENE_NODE) { dump_node(d, (FCDSceneNode*) e); return; }
    if (e->GetType() == FCDEntity::ANIMATION) { dump_animation(d, (FCDAnimation*) e); return; }
    if (dump_physics_entity(d, e)) return;
    In in(d, pbt::cat("entity type ", (int) e->GetType())); dump_base(d, e);
    switch (e->GetType()) {
    case FCDEntity::CAMERA: dump_camera(d, (FCDCamera*) e); break;
    case FCDEntity::LIGHT: dump_light(d, (FCDLight*) e); break;
    case FCDEntity::FORCE_FIELD: { In n(d, "information"); dump(d, ((FCDForceField*) e)->GetInformation()); break; }
    case FCDEntity::EMITTER: break;
    case FCDEntity::GEOMETRY: dump_geometry(d, (FCDGeometry*) e); break;
    case FCDEntity::IMAGE: dump_image(d, (FCDImage*) e); break;
    case FCDEntity::MATERIAL: dump_material(d, (FCDMaterial*) e); break;
    case FCDEntity::EFFECT: dump_effect(d, (FCDEffect*) e); break;
    case FCDEntity::CONTROLLER: dump_controller(d, (FCDController*) e); break;
    default: break; }
}
template <class T> static void dump_library(Dump& d, const char* name, FCDLibrary<T>* l) { In in(d, name); dump(d, l->GetAsset(false)); dump(d, l->GetExtra()); for (auto* e : d.entities(l)) dump_entity(d, e); }
void dump_document(Dump& d, FCDocument* doc, unsigned parts) {
    if (parts & ASSET) dump(d, doc->GetAsset());
    if (parts & EXTRA) dump(d, doc->GetExtra());
    if (parts & CAMERAS) dump_library(d, "cameras", doc->GetCameraLibrary());
    if (parts & LIGHTS) dump_library(d, "lights", doc->GetLightLibrary());
    if (parts & FIELDS) { dump_library(d, "fields", doc->GetForceFieldLibrary()); dump_library(d, "emitters", doc->GetEmitterLibrary()); }
    if (parts & IMAGES) dump_library(d, "images", doc->GetImageLibrary());
    if (parts & EFFECTS) dump_library(d, "effects", doc->GetEffectLibrary());
    if (parts & MATERIALS) dump_library(d, "materials", doc->GetMaterialLibrary());
    if (parts & GEOMETRY) dump_library(d, "geometries", doc->GetGeometryLibrary());
    if (parts & CONTROLLERS) dump_library(d, "controllers", doc->GetControllerLibrary());
    if (parts & SCENES) { dump_library(d, "scenes", doc->GetVisualSceneLibrary()); d.ref("current scene", doc->GetVisualSceneInstance());
        if (doc->HasStartTime()) d.f("start", doc->GetStartTime()); if (doc->HasEndTime()) d.f("end", doc->GetEndTime());
        for (size_t i = 0; i < doc->GetLayerCount(); ++i) { FCDLayer* l = doc->GetLayer(i); In in(d, "layer"); d.s("name", S(l->name)); for (auto& o : l->objects) d.s("object", S(o)); } }
    dump_animation_libraries(d, doc, parts);
    if (parts & PHYSICS) dump_physics(d, doc);
}
Dump dumped(FCDocument* doc, unsigned parts) { Dump d; dump_document(d, doc, parts); finish(d); return d; }

// ---- generation ----
float Gen::fl() { switch (g.below(6)) { case 0: return (float) g.range(-10, 10); case 1: return 0; case 2: return (float) g.range(-80000, 80000) / 8; case 3: return (float) (g.unit() * 2 - 1); case 4: return (float) g.range(-999999, 999999) / 1000; default: return (float) ((g.unit() * 2 - 1) * pow(10.0, (double) g.range(-3, 6))); } }
float Gen::pos() { return (float) (1 + g.below(4000)) / (float) (1 << g.below(9)); }
FMVector3 Gen::axis() { switch (g.below(4)) { case 0: return FMVector3::XAxis; case 1: return FMVector3::YAxis; case 2: return FMVector3::ZAxis; default: { FMVector3 v((float) g.range(-9, 9), (float) g.range(-9, 9), (float) g.range(1, 9)); return v.Normalize(); } } }
FMMatrix44 Gen::m44() { FMMatrix44 m = FMMatrix44::Identity; if (g.chance(4, 5)) for (int c = 0; c < 4; ++c) for (int r = 0; r < 3; ++r) m.m[c][r] = fl(); return m; }
std::string Gen::word(const char* prefix) { std::string s = prefix; switch (g.below(4)) { case 0: break; case 1: s += "_"; break; case 2: s += "-"; break; default: for (size_t i = g.below(12); i-- > 0;) s += "abcXYZ_-019"[g.below(11)]; s += "_"; } return s + std::to_string(n++); }
std::string Gen::content() {
    std::string s; size_t k = 1 + g.len(16); int mode = (int) g.below(3);
    for (size_t i = 0; i < k; ++i) s += mode == 0 ? std::string(1, "abcdefgh ijklm"[g.below(14)]) : mode == 1 ? std::string(1, (char) g.range(' ', '~')) : std::string(g.oneof<const char*>({"&", "<", ">", "\"", "'", "%", "%41", "%%", "&amp;", "&#65;", "]]>", "<!--", "-->", "<a>", "</technique>", "\\", "/", "^", "`", "#", " ", "  ", "a", "0", "\n", "\t", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80"}));
    return s;
}
std::string Gen::attribute() {
    std::string s; size_t k = g.len(14); int mode = (int) g.below(3);
    for (size_t i = 0; i < k; ++i) s += mode == 0 ? std::string(1, "abcdefgh ijklm"[g.below(14)]) : mode == 1 ? std::string(1, (char) g.range(' ', '~')) : std::string(g.oneof<const char*>({"&", "<", ">", "\"", "'", "&amp;", "&#65;", "]]>", "<!--", "<a>", "\\", "/", "#", " ", "a", "0", "\n", "\t", "\xc3\xa9", "\xe2\x82\xac"}));
    // A percent sign followed by two hexadecimal digits is an escape in attributes
    for (size_t i = 0; i + 2 < s.size(); ++i) if (s[i] == '%' && isxdigit((uint8_t) s[i + 1]) && isxdigit((uint8_t) s[i + 2])) s[i] = '_';
    return s;
}
static const char* EXTRA_NAMES[] = {"alpha", "beta", "node", "a1", "B_2", "translate", "mesh", "extra", "asset", "technique", "float_array", "x"};
static void enode(Gen& G, FCDENode* n, int depth) {
    Src& g = G.g; size_t kids = depth < 3 ? g.len(4) : 0;
    if (depth) for (size_t i = g.below(3); i-- > 0;) { std::string a = g.oneof<const char*>({"type", "alpha", "value", "A_1", "x"}); if (!n->FindAttribute(a.c_str())) n->AddAttribute(a.c_str(), fstring(G.attribute().c_str())); }
    if (!depth && !kids) kids = 1;
    if (!kids && g.coin()) n->SetContent(G.content().c_str());
    for (size_t i = 0; i < kids; ++i) { const char* k = EXTRA_NAMES[g.below(12)]; if (g.chance(1, 4)) switch (g.below(3)) { case 0: n->AddParameter(k, (float) g.range(-100, 100) / 4); break; case 1: n->AddParameter(k, (int32) g.range(-100, 100)); break; default: n->AddParameter(k, fstring(G.content().c_str())); } else enode(G, n->AddChildNode(k), depth + 1); }
}
void Gen::extra(FCDExtra* x) {
    if (!extras || !x) return; size_t types = 1 + g.below(2);
    for (size_t i = 0; i < types; ++i) { FCDEType* t = g.coin() ? x->GetDefaultType() : x->AddType(g.oneof<const char*>({"T1", "custom", "some type", "a&b"}));
        for (size_t k = 1 + g.below(2); k-- > 0;) { FCDETechnique* q = t->AddTechnique(g.oneof<const char*>({"MAYA", "MAX3D", "FCOLLADA", "other", "my profile<>"})); if (g.chance(5, 6)) enode(*this, q, 0); } }
}
void Gen::asset(FCDAsset* a, bool top) {
    auto txt = [&] { return fstring(g.coin() ? content().c_str() : ""); };
    for (size_t i = g.below(top ? 4 : 2); i-- > 0;) { FCDAssetContributor* c = a->AddContributor(); c->SetAuthor(txt()); c->SetAuthoringTool(txt()); c->SetComments(txt()); c->SetCopyright(txt()); if (g.coin()) c->SetSourceData((std::string("file:///") + word("dir") + "/" + word("src") + ".ma").c_str()); }
    FUDateTime& t = a->GetCreationDateTime(); t.SetYear((uint32) g.range(1970, 2099)); t.SetMonth((uint32) g.range(1, 12)); t.SetDay((uint32) g.range(1, 28)); t.SetHour((uint32) g.below(24)); t.SetMinutes((uint32) g.below(60)); t.SetSeconds((uint32) g.below(60));
    a->SetKeywords(txt()); a->SetRevision(txt()); a->SetSubject(txt()); a->SetTitle(txt());
    if (g.coin()) { a->SetUnitConversionFactor(pos()); std::string u = attribute(); a->SetUnitName(u.empty() ? "inch" : u.c_str()); }
    if (g.coin()) a->SetUpAxis(g.oneof({FMVector3::XAxis, FMVector3::YAxis, FMVector3::ZAxis}));
}
void Gen::entity(FCDEntity* e) {
    if (g.chance(7, 8)) e->SetDaeId(fm::string(word("id").c_str()));
    if (g.chance(5, 6)) e->SetName(word("N").c_str());
    if (!extras) return;
    if (rich ? g.coin() : g.chance(1, 6)) e->SetNote(content().c_str());
    if (rich ? g.chance(1, 3) : g.chance(1, 8)) asset(e->GetAsset(), false);
    if (rich ? g.coin() : g.chance(1, 6)) extra(e->GetExtra());
}
void Gen::camera(FCDCamera* c) {
    entity(c); c->SetProjectionType(g.coin() ? FCDCamera::PERSPECTIVE : FCDCamera::ORTHOGRAPHIC); size_t k = g.below(3); auto near0 = [&] { return g.chance(1, 8) ? 0.0f : pos(); };
    if (k != 1) c->SetFovX(near0()); if (k != 0) c->SetFovY(near0()); if (c->HasAspectRatio() && g.coin()) c->SetAspectRatio(pos()); if (g.chance(7, 8)) { c->SetNearZ(fl()); c->SetFarZ(fl()); }
}
void Gen::light(FCDLight* l) {
    entity(l); l->SetLightType((FCDLight::LightType) g.below(4)); if (g.chance(7, 8)) l->SetColor(v3()); if (g.coin()) l->SetIntensity(fl());
    if (g.coin()) { l->SetConstantAttenuationFactor(fl()); l->SetLinearAttenuationFactor(fl()); } if (g.coin()) l->SetQuadraticAttenuationFactor(fl());
    if (g.coin()) l->SetFallOffAngle(fl()); if (g.coin()) l->SetFallOffExponent(fl()); if (g.coin()) l->SetOuterAngle(fl()); if (g.coin()) l->SetDropoff(fl());
}
void Gen::force_field(FCDForceField* f) { entity(f); if (extras && g.coin()) enode(*this, f->GetInformation()->GetDefaultType()->AddTechnique(g.oneof<const char*>({"MAYA", "FCOLLADA", "other"})), 0); }
void Gen::emitter(FCDEmitter* e) { entity(e); }
void Gen::transform(FCDSceneNode* nd) {
    size_t at = g.chance(1, 4) ? g.below(nd->GetTransformCount() + 1) : (size_t) -1; FCDTransform* t = nd->AddTransform((FCDTransform::Type) g.below(6), at);
    if (g.chance(1, 3)) t->SetSubId(fm::string(word("t").c_str()));
    switch (t->GetType()) {
    case FCDTransform::TRANSLATION: ((FCDTTranslation*) t)->SetTranslation(v3()); break;
    case FCDTransform::ROTATION: ((FCDTRotation*) t)->SetRotation(axis(), g.chance(1, 4) ? 0 : (float) g.range(-3600, 3600) / 8); break;
    case FCDTransform::SCALE: ((FCDTScale*) t)->SetScale(v3()); break;
    case FCDTransform::MATRIX: ((FCDTMatrix*) t)->SetTransform(m44()); break;
    case FCDTransform::LOOKAT: { auto* l = (FCDTLookAt*) t; l->SetPosition(v3()); l->SetTarget(v3()); l->SetUp(axis()); break; }
    default: { auto* s = (FCDTSkew*) t; s->SetAngle((float) g.range(-600, 600) / 8); s->SetRotateAxis(axis()); s->SetAroundAxis(axis()); } }
}
void Gen::instance(FCDEntityInstance* i) { if (g.chance(1, 4)) i->SetName(word("I").c_str()); if (g.chance(1, 4)) i->SetWantedSubId(fm::string(word("i").c_str())); if (extras && g.chance(1, 6)) extra(i->GetExtra()); }
template <class T> static void lib_extra(Gen& G, FCDLibrary<T>* l) { if (!l->IsEmpty() && G.g.chance(1, 12)) G.asset(l->GetAsset(true), false); if (G.g.chance(1, 12)) G.extra(l->GetExtra()); }
void Gen::libraries(unsigned parts) {
    if (!extras) return;
    if (parts & CAMERAS) lib_extra(*this, doc->GetCameraLibrary()); if (parts & LIGHTS) lib_extra(*this, doc->GetLightLibrary()); if (parts & FIELDS) { lib_extra(*this, doc->GetForceFieldLibrary()); lib_extra(*this, doc->GetEmitterLibrary()); }
    if (parts & IMAGES) lib_extra(*this, doc->GetImageLibrary()); if (parts & EFFECTS) lib_extra(*this, doc->GetEffectLibrary()); if (parts & MATERIALS) lib_extra(*this, doc->GetMaterialLibrary()); if (parts & GEOMETRY) lib_extra(*this, doc->GetGeometryLibrary());
    if (parts & CONTROLLERS) lib_extra(*this, doc->GetControllerLibrary()); if (parts & SCENES) lib_extra(*this, doc->GetVisualSceneLibrary()); if (parts & ANIMATIONS) lib_extra(*this, doc->GetAnimationLibrary()); if (parts & CLIPS) lib_extra(*this, doc->GetAnimationClipLibrary());
    if (parts & PHYSICS) { lib_extra(*this, doc->GetPhysicsMaterialLibrary()); lib_extra(*this, doc->GetPhysicsModelLibrary()); lib_extra(*this, doc->GetPhysicsSceneLibrary()); }
}
void Gen::scenes() {
    std::vector<FCDEntity*> pool;
    auto add = [&](auto* l) { for (size_t i = 0; i < l->GetEntityCount(); ++i) pool.push_back(l->GetEntity(i)); };
    add(doc->GetCameraLibrary()); add(doc->GetLightLibrary()); add(doc->GetForceFieldLibrary()); add(doc->GetEmitterLibrary()); add(doc->GetGeometryLibrary());
    size_t roots = 1 + g.below(3); std::vector<FCDSceneNode*> rt;
    for (size_t i = 0; i < roots; ++i) { FCDSceneNode* r = doc->AddVisualScene(); entity(r); rt.push_back(r); }
    std::vector<FCDSceneNode*> all = rt; size_t count = g.len(14);
    for (size_t i = 0; i < count; ++i) { FCDSceneNode* p = g.chance(1, 3) ? all.back() : all[g.below(all.size())]; FCDSceneNode* nd = p->AddChildNode(); entity(nd); if (g.chance(1, 3)) nd->SetSubId(fm::string(word("sub").c_str())); if (g.chance(1, 3)) nd->SetJointFlag(true); if (g.chance(1, 5)) nd->SetVisibility(false); all.push_back(nd); }
    std::vector<FCDSceneNode*> inner(all.begin() + (long) roots, all.end());
    for (auto* nd : all) { for (size_t k = g.len(4); k-- > 0;) transform(nd); if (!pool.empty()) for (size_t k = g.len(3); k-- > 0;) { FCDEntityInstance* i = nd->AddInstance(pool[g.below(pool.size())]); instance(i); if (i->HasType(FCDGeometryInstance::GetClassType())) material_instances((FCDGeometryInstance*) i); } }
    // A node under several parents
    if (!inner.empty()) for (size_t k = g.len(6); k-- > 0;) { FCDSceneNode* p = all[g.below(all.size())]; p->AddChildNode(inner[g.below(inner.size())]); }
    for (size_t i = 0; i < doc->GetCameraLibrary()->GetEntityCount(); ++i) if (!inner.empty() && g.chance(1, 4)) doc->GetCameraLibrary()->GetEntity(i)->SetTargetNode(inner[g.below(inner.size())]);
    for (size_t i = 0; i < doc->GetLightLibrary()->GetEntityCount(); ++i) if (!inner.empty() && g.chance(1, 4)) doc->GetLightLibrary()->GetEntity(i)->SetTargetNode(inner[g.below(inner.size())]);
    nodes = all;
    if (g.chance(3, 4)) doc->GetVisualSceneInstanceReference()->SetEntity(rt[g.below(roots)]); // AddVisualScene may have chosen one already
    if (doc->GetVisualSceneInstance()) { if (g.chance(1, 3)) doc->SetStartTime(fl()); if (g.chance(1, 3)) doc->SetEndTime(fl());
        for (size_t k = g.below(3); k-- > 0;) { FCDLayer* l = doc->AddLayer(); l->name = word("layer").c_str(); for (size_t q = g.below(4); q-- > 0;) l->objects.push_back(all[g.below(all.size())]->GetDaeId()); } }
}
void Gen::document(unsigned parts) {
    auto some = [&](size_t max) { return g.len(max); };
    if (parts & ASSET) asset(doc->GetAsset(), true);
    if ((parts & EXTRA) && g.coin()) extra(doc->GetExtra());
    if (parts & CAMERAS) for (size_t k = some(3); k-- > 0;) camera(doc->GetCameraLibrary()->AddEntity());
    if (parts & LIGHTS) for (size_t k = some(3); k-- > 0;) light(doc->GetLightLibrary()->AddEntity());
    if (parts & FIELDS) { for (size_t k = some(2); k-- > 0;) force_field(doc->GetForceFieldLibrary()->AddEntity()); for (size_t k = some(2); k-- > 0;) emitter(doc->GetEmitterLibrary()->AddEntity()); }
    if (parts & IMAGES) for (size_t k = some(3); k-- > 0;) image(doc->GetImageLibrary()->AddEntity());
    if (parts & EFFECTS) for (size_t k = some(3); k-- > 0;) effect(doc->GetEffectLibrary()->AddEntity());
    if ((parts & MATERIALS) && doc->GetEffectLibrary()->GetEntityCount()) for (size_t k = some(3); k-- > 0;) material(doc->GetMaterialLibrary()->AddEntity());
    if (parts & GEOMETRY) for (size_t k = some(3); k-- > 0;) geometry(doc->GetGeometryLibrary()->AddEntity());
    if (parts & SCENES) scenes();
    if (parts & CONTROLLERS) controllers();
    if (parts & PHYSICS) physics();
    if (parts & ANIMATIONS) animations();
    if (parts & CLIPS) clips();
    libraries(parts);
}
}
