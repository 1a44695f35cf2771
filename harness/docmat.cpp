// Images, effects, materials and their instances.
#include "docgen.h"
#include <algorithm>
namespace dg {
typedef FCDEffectParameterSurfaceInitFactory SF;
void dump_image(Dump& d, FCDImage* i) { d.s("file", S(i->GetFilename())); d.i("width", i->GetWidth()); d.i("height", i->GetHeight()); d.i("depth", i->GetDepth()); }
static void dump_surface(Dump& d, FCDEffectParameterSurface* s) {
    d.s("type", S(s->GetSurfaceType())); d.s("format", S(s->GetFormat())); d.v3("size", s->GetSize()); d.f("ratio", s->GetViewportRatio()); d.i("levels", s->GetMipLevelCount()); d.i("generate", s->IsGenerateMipMaps());
    for (size_t i = 0; i < s->GetImageCount(); ++i) d.ref("image", s->GetImage(i));
    if (auto* h = s->GetFormatHint()) { In in(d, "hint"); d.i("channels", h->channels); d.i("range", h->range); d.i("precision", h->precision); for (auto o : h->options) d.i("option", o); }
    auto* m = s->GetInitMethod(); d.i("init", m ? (int) m->GetInitType() : -1); if (!m) return;
    switch (m->GetInitType()) {
    case SF::FROM: { auto* f = (FCDEffectParameterSurfaceInitFrom*) m; for (auto& x : f->mip) d.s("mip", S(x)); for (auto& x : f->slice) d.s("slice", S(x)); for (auto& x : f->face) d.s("face", S(x)); break; }
    case SF::CUBE: d.i("cube", ((FCDEffectParameterSurfaceInitCube*) m)->cubeType); break;
    case SF::VOLUME: d.i("volume", ((FCDEffectParameterSurfaceInitVolume*) m)->volumeType); break;
    default: break; }
}
void dump_effect_parameter(Dump& d, FCDEffectParameter* p) {
    In in(d, pbt::cat("parameter type ", (int) p->GetType())); d.i("kind", p->GetParamType()); d.s("reference", S(p->GetReference())); d.s("semantic", S(p->GetSemantic()));
    for (size_t i = 0; i < p->GetAnnotationCount(); ++i) { In n(d, "annotation"); d.s("name", S(*p->GetAnnotation(i)->name)); d.i("type", *p->GetAnnotation(i)->type); d.s("value", S(*p->GetAnnotation(i)->value)); }
    if (p->IsAnimator() || p->IsReferencer()) return;
    switch (p->GetType()) {
    case FCDEffectParameter::INTEGER: d.i("value", ((FCDEffectParameterInt*) p)->GetValue()); break;
    case FCDEffectParameter::BOOLEAN: d.i("value", ((FCDEffectParameterBool*) p)->GetValue()); break;
    case FCDEffectParameter::STRING: d.s("value", S(((FCDEffectParameterString*) p)->GetValue())); break;
    case FCDEffectParameter::FLOAT: { auto* q = (FCDEffectParameterFloat*) p; d.i("half", q->GetFloatType()); d.f("value", *q->GetValue()); dump_animated(d, q->GetValue().GetAnimated()); break; }
    case FCDEffectParameter::FLOAT2: { auto* q = (FCDEffectParameterFloat2*) p; d.i("half", q->GetFloatType()); d.f("x", q->GetValue()->x); d.f("y", q->GetValue()->y); break; }
    case FCDEffectParameter::FLOAT3: { auto* q = (FCDEffectParameterFloat3*) p; d.i("half", q->GetFloatType()); d.v3("value", *q->GetValue()); dump_animated(d, q->GetValue().GetAnimated()); break; }
    case FCDEffectParameter::VECTOR: { auto* q = (FCDEffectParameterVector*) p; d.i("half", q->GetFloatType()); d.v4("value", *q->GetValue()); dump_animated(d, q->GetValue().GetAnimated()); break; }
    case FCDEffectParameter::MATRIX: { auto* q = (FCDEffectParameterMatrix*) p; d.i("half", q->GetFloatType()); d.m44("value", *q->GetValue()); break; }
    case FCDEffectParameter::SURFACE: dump_surface(d, (FCDEffectParameterSurface*) p); break;
    case FCDEffectParameter::SAMPLER: { auto* q = (FCDEffectParameterSampler*) p; auto t = q->GetSamplerType(); d.i("dimension", t); d.s("surface", q->GetSurface() ? S(q->GetSurface()->GetReference()) : "(none)");
        d.i("s", q->GetWrapS()); if (t != FCDEffectParameterSampler::SAMPLER1D) d.i("t", q->GetWrapT()); if (t == FCDEffectParameterSampler::SAMPLER3D || t == FCDEffectParameterSampler::SAMPLERCUBE) d.i("p", q->GetWrapP());
        d.i("min", q->GetMinFilter()); d.i("mag", q->GetMagFilter()); d.i("mip", q->GetMipFilter()); break; } }
}
// ---- render states: e enumeration, f float, i uint32, u uint8, b bool, h uint16, s text; an enumeration is followed by its letter ----
static std::string layout(FUDaePassState::State s) {
    namespace P = FUDaePassState;
    switch (s) {
    case P::ALPHA_FUNC: return "eFf"; case P::BLEND_FUNC: return "eBeB"; case P::BLEND_FUNC_SEPARATE: return "eBeBeBeB"; case P::BLEND_EQUATION: return "eE"; case P::BLEND_EQUATION_SEPARATE: return "eEeE";
    case P::COLOR_MATERIAL: return "eAeM"; case P::CULL_FACE: return "eA"; case P::DEPTH_FUNC: return "eF"; case P::FOG_MODE: return "eG"; case P::FOG_COORD_SRC: return "eC"; case P::FRONT_FACE: return "eW"; case P::LIGHT_MODEL_COLOR_CONTROL: return "eL"; case P::LOGIC_OP: return "eO"; case P::POLYGON_MODE: return "eAeP"; case P::SHADE_MODEL: return "eH";
    case P::STENCIL_FUNC: return "eFuu"; case P::STENCIL_OP: return "eSeSeS"; case P::STENCIL_FUNC_SEPARATE: return "eFeFuu"; case P::STENCIL_OP_SEPARATE: return "eAeSeSeS"; case P::STENCIL_MASK_SEPARATE: return "eAu";
    case P::LIGHT_AMBIENT: case P::LIGHT_DIFFUSE: case P::LIGHT_SPECULAR: case P::LIGHT_POSITION: case P::TEXTURE_ENV_COLOR: case P::CLIP_PLANE: return "uffff";
    case P::LIGHT_CONSTANT_ATTENUATION: case P::LIGHT_LINEAR_ATTENUATION: case P::LIGHT_QUADRATIC_ATTENUATION: case P::LIGHT_SPOT_CUTOFF: case P::LIGHT_SPOT_EXPONENT: return "uf"; case P::LIGHT_SPOT_DIRECTION: return "ufff";
    case P::TEXTURE1D: case P::TEXTURE2D: case P::TEXTURE3D: case P::TEXTURECUBE: case P::TEXTURERECT: case P::TEXTUREDEPTH: return "ui";
    case P::LIGHT_ENABLE: case P::TEXTURE1D_ENABLE: case P::TEXTURE2D_ENABLE: case P::TEXTURE3D_ENABLE: case P::TEXTURECUBE_ENABLE: case P::TEXTURERECT_ENABLE: case P::TEXTUREDEPTH_ENABLE: case P::CLIP_PLANE_ENABLE: return "ub";
    case P::TEXTURE_ENV_MODE: return "us";
    case P::BLEND_COLOR: case P::CLEAR_COLOR: case P::FOG_COLOR: case P::LIGHT_MODEL_AMBIENT: case P::MATERIAL_AMBIENT: case P::MATERIAL_DIFFUSE: case P::MATERIAL_EMISSION: case P::MATERIAL_SPECULAR: case P::SCISSOR: return "ffff";
    case P::POINT_DISTANCE_ATTENUATION: return "fff"; case P::DEPTH_BOUNDS: case P::DEPTH_RANGE: case P::POLYGON_OFFSET: return "ff"; case P::CLEAR_STENCIL: case P::STENCIL_MASK: return "i";
    case P::CLEAR_DEPTH: case P::FOG_DENSITY: case P::FOG_START: case P::FOG_END: case P::LINE_WIDTH: case P::MATERIAL_SHININESS: case P::POINT_FADE_THRESHOLD_SIZE: case P::POINT_SIZE: case P::POINT_SIZE_MIN: case P::POINT_SIZE_MAX: return "f";
    case P::COLOR_MASK: return "bbbb"; case P::LINE_STIPPLE: return "hh"; case P::MODEL_VIEW_MATRIX: case P::PROJECTION_MATRIX: return std::string(16, 'f');
    default: return "b"; }
}
static uint32 pick_enum(Src& g, char k) {
    switch (k) {
    case 'F': { namespace N = FUDaePassStateFunction; const uint32 v[] = {N::NEVER, N::LESS, N::EQUAL, N::LESS_EQUAL, N::GREATER, N::NOT_EQUAL, N::GREATER_EQUAL, N::ALWAYS}; return v[g.below(8)]; }
    case 'B': { namespace N = FUDaePassStateBlendType; const uint32 v[] = {N::ZERO, N::ONE, N::SOURCE_COLOR, N::ONE_MINUS_SOURCE_COLOR, N::DESTINATION_COLOR, N::ONE_MINUS_DESTINATION_COLOR, N::SOURCE_ALPHA, N::ONE_MINUS_SOURCE_ALPHA, N::DESTINATION_ALPHA, N::ONE_MINUS_DESTINATION_ALPHA, N::CONSTANT_COLOR, N::ONE_MINUS_CONSTANT_COLOR, N::CONSTANT_ALPHA, N::ONE_MINUS_CONSTANT_ALPHA, N::SOURCE_ALPHA_SATURATE}; return v[g.below(15)]; }
    case 'E': { namespace N = FUDaePassStateBlendEquation; const uint32 v[] = {N::ADD, N::SUBTRACT, N::REVERSE_SUBTRACT, N::MIN, N::MAX}; return v[g.below(5)]; }
    case 'A': { namespace N = FUDaePassStateFaceType; const uint32 v[] = {N::FRONT, N::BACK, N::FRONT_AND_BACK}; return v[g.below(3)]; }
    case 'M': { namespace N = FUDaePassStateMaterialType; const uint32 v[] = {N::EMISSION, N::AMBIENT, N::DIFFUSE, N::SPECULAR, N::AMBIENT_AND_DIFFUSE}; return v[g.below(5)]; }
    case 'G': { namespace N = FUDaePassStateFogType; const uint32 v[] = {N::LINEAR, N::EXP, N::EXP2}; return v[g.below(3)]; }
    case 'C': { namespace N = FUDaePassStateFogCoordinateType; const uint32 v[] = {N::FOG_COORDINATE, N::FRAGMENT_DEPTH}; return v[g.below(2)]; }
    case 'W': { namespace N = FUDaePassStateFrontFaceType; const uint32 v[] = {N::CLOCKWISE, N::COUNTER_CLOCKWISE}; return v[g.below(2)]; }
    case 'L': { namespace N = FUDaePassStateLightModelColorControlType; const uint32 v[] = {N::SINGLE_COLOR, N::SEPARATE_SPECULAR_COLOR}; return v[g.below(2)]; }
    case 'O': { namespace N = FUDaePassStateLogicOperation; const uint32 v[] = {N::CLEAR, N::AND, N::AND_REVERSE, N::COPY, N::AND_INVERTED, N::NOOP, N::XOR, N::OR, N::NOR, N::EQUIV, N::INVERT, N::OR_REVERSE, N::COPY_INVERTED, N::NAND, N::SET}; return v[g.below(15)]; }
    case 'P': { namespace N = FUDaePassStatePolygonMode; const uint32 v[] = {N::POINT, N::LINE, N::FILL}; return v[g.below(3)]; }
    case 'H': { namespace N = FUDaePassStateShadeModel; const uint32 v[] = {N::FLAT, N::SMOOTH}; return v[g.below(2)]; }
    default: { namespace N = FUDaePassStateStencilOperation; const uint32 v[] = {N::KEEP, N::ZERO, N::REPLACE, N::INCREMENT, N::DECREMENT, N::INVERT, N::INCREMENT_WRAP, N::DECREMENT_WRAP}; return v[g.below(8)]; } }
}
static void dump_state(Dump& d, FCDEffectPassState* s) {
    In in(d, "state " + S(FUDaePassState::ToString(s->GetType()))); d.i("size", (long long) s->GetDataSize()); const uint8* p = s->GetData(); std::string l = layout(s->GetType());
    for (size_t i = 0; i < l.size(); ++i) switch (l[i]) {
    case 'e': { uint32 v; memcpy(&v, p, 4); d.i("enum", v); p += 4; ++i; break; } case 'i': { uint32 v; memcpy(&v, p, 4); d.i("int", v); p += 4; break; } case 'f': { float v; memcpy(&v, p, 4); d.f("float", v); p += 4; break; }
    case 'h': { uint16 v; memcpy(&v, p, 2); d.i("short", v); p += 2; break; } case 's': { std::string v((const char*) p, strnlen((const char*) p, 254)); d.s("text", v); p += 254; break; } default: d.i("byte", *p++); }
}
static void fill_state(Gen& G, FCDEffectPassState* s) {
    Src& g = G.g; if (g.chance(1, 6)) return; uint8* p = s->GetData(); std::string l = layout(s->GetType());
    for (size_t i = 0; i < l.size(); ++i) switch (l[i]) {
    case 'e': { uint32 v = pick_enum(g, l[++i]); memcpy(p, &v, 4); p += 4; break; } case 'i': { uint32 v = g.coin() ? (uint32) g.below(1000) : (uint32) g.below(4294967296ull); memcpy(p, &v, 4); p += 4; break; } case 'f': { float v = G.fl(); memcpy(p, &v, 4); p += 4; break; }
    case 'h': { uint16 v = (uint16) g.below(65536); memcpy(p, &v, 2); p += 2; break; } case 'b': *p++ = (uint8) g.below(2); break; case 'u': *p++ = i || l.size() == 1 ? (uint8) g.below(256) : (uint8) g.below(8); break;
    default: { std::string t = G.word("MODE"); memset(p, 0, 254); memcpy(p, t.data(), t.size()); } }
}
static void dump_code(Dump& d, FCDEffectCode* c) { In in(d, "code"); d.s("sub-id", S(c->GetSubId())); d.i("type", c->GetType()); if (c->GetType() == FCDEffectCode::CODE) d.s("text", S(c->GetCode())); else d.s("file", S(c->GetFilename())); }
static void dump_texture(Dump& d, FCDTexture* t) { In in(d, "texture"); d.s("sampler", t->HasSampler() ? S(t->GetSampler()->GetReference()) : "(none)"); d.ref("image", t->GetImage()); d.s("set", S(t->GetSet()->GetSemantic())); d.i("set value", t->GetSet()->GetValue()); dump(d, t->GetExtra()); }
static void dump_color(Dump& d, const char* k, FCDEffectParameterColor4* p) { In in(d, k); d.i("referencer", p->IsReferencer()); if (p->IsReferencer()) d.s("reference", S(p->GetReference())); else d.v4("color", *p->GetValue()); if (!p->IsReferencer()) dump_animated(d, p->GetValue().GetAnimated()); }
static void dump_factor(Dump& d, const char* k, FCDEffectParameterFloat* p) { In in(d, k); d.i("referencer", p->IsReferencer()); if (p->IsReferencer()) d.s("reference", S(p->GetReference())); else d.f("factor", *p->GetValue()); if (!p->IsReferencer()) dump_animated(d, p->GetValue().GetAnimated()); }
namespace TC = FUDaeTextureChannel;
static void dump_standard(Dump& d, FCDEffectStandard* s) {
    auto L = s->GetLightingType(); d.i("lighting", L); bool constant = L == FCDEffectStandard::CONSTANT, shiny = L == FCDEffectStandard::PHONG || L == FCDEffectStandard::BLINN; auto none = [&](uint32 b) { return s->GetTextureCount(b) == 0; };
    // Textures take the place of the value of their channel
    d.i("emission by factor", s->IsEmissionFactor()); if (none(TC::EMISSION)) { if (s->IsEmissionFactor()) dump_factor(d, "emission factor", s->GetEmissionFactorParam()); else dump_color(d, "emission", s->GetEmissionColorParam()); }
    if (!constant) { if (none(TC::AMBIENT)) dump_color(d, "ambient", s->GetAmbientColorParam()); if (none(TC::DIFFUSE)) dump_color(d, "diffuse", s->GetDiffuseColorParam()); }
    if (shiny) { if (none(TC::SPECULAR)) dump_color(d, "specular", s->GetSpecularColorParam()); if (none(TC::SHININESS)) dump_factor(d, "shininess", s->GetShininessParam()); if (none(TC::SPECULAR_LEVEL)) dump_factor(d, "specular factor", s->GetSpecularFactorParam()); }
    d.i("reflective", s->IsReflective()); if (s->IsReflective()) { if (none(TC::REFLECTION)) dump_color(d, "reflective color", s->GetReflectivityColorParam()); dump_factor(d, "reflectivity", s->GetReflectivityFactorParam()); }
    d.i("refractive", s->IsRefractive()); if (s->IsRefractive() && none(TC::REFRACTION)) dump_factor(d, "index of refraction", s->GetIndexOfRefractionParam());
    d.i("transparency mode", s->GetTransparencyMode()); if (none(TC::TRANSPARENT)) dump_color(d, "transparent", s->GetTranslucencyColorParam()); dump_factor(d, "transparency", s->GetTranslucencyFactorParam());
    for (uint32 b = 0; b < TC::COUNT; ++b) { In in(d, pbt::cat("channel ", b)); for (size_t i = 0; i < s->GetTextureCount(b); ++i) dump_texture(d, s->GetTexture(b, i)); }
}
static void dump_technique(Dump& d, FCDEffectTechnique* t) {
    In in(d, "technique"); d.s("name", S(t->GetName())); for (size_t i = 0; i < t->GetCodeCount(); ++i) dump_code(d, t->GetCode(i)); for (size_t i = 0; i < t->GetEffectParameterCount(); ++i) dump_effect_parameter(d, t->GetEffectParameter(i));
    for (size_t i = 0; i < t->GetPassCount(); ++i) { FCDEffectPass* p = t->GetPass(i); In n(d, "pass"); d.s("name", S(p->GetPassName())); for (size_t k = 0; k < p->GetRenderStateCount(); ++k) dump_state(d, p->GetRenderState(k));
        for (size_t k = 0; k < p->GetShaderCount(); ++k) { FCDEffectPassShader* s = p->GetShader(k); In m(d, "shader"); d.s("name", S(s->GetName())); d.i("fragment", s->IsFragmentShader()); d.s("target", S(s->GetCompilerTarget())); d.s("options", S(s->GetCompilerOptions())); d.s("code", s->GetCode() ? S(s->GetCode()->GetSubId()) : "(none)");
            for (size_t b = 0; b < s->GetBindingCount(); ++b) { d.s("symbol", S(*s->GetBinding(b)->symbol)); d.s("bound to", S(*s->GetBinding(b)->reference)); } } }
}
void dump_effect(Dump& d, FCDEffect* e) {
    for (size_t i = 0; i < e->GetEffectParameterCount(); ++i) dump_effect_parameter(d, e->GetEffectParameter(i));
    for (size_t i = 0; i < e->GetProfileCount(); ++i) { FCDEffectProfile* p = e->GetProfile(i); In in(d, pbt::cat("profile ", (int) p->GetType())); for (size_t k = 0; k < p->GetEffectParameterCount(); ++k) dump_effect_parameter(d, p->GetEffectParameter(k));
        if (p->GetType() == FUDaeProfileType::COMMON) dump_standard(d, (FCDEffectStandard*) p);
        else { auto* x = (FCDEffectProfileFX*) p; d.s("platform", S(x->GetPlatform())); for (size_t k = 0; k < x->GetCodeCount(); ++k) dump_code(d, x->GetCode(k)); for (size_t k = 0; k < x->GetTechniqueCount(); ++k) dump_technique(d, x->GetTechnique(k)); }
        dump(d, p->GetExtra()); }
}
void dump_material(Dump& d, FCDMaterial* m) {
    if (!d.opt.deep) d.ref("effect", m->GetEffect()); else if (m->GetEffect()) dump_entity(d, m->GetEffect()); for (auto& h : m->GetTechniqueHints()) { d.s("hint platform", S(h.platform)); d.s("hint technique", S(h.technique)); }
    for (size_t i = 0; i < m->GetEffectParameterCount(); ++i) dump_effect_parameter(d, m->GetEffectParameter(i));
}
void dump_material_instance(Dump& d, FCDMaterialInstance* m) {
    In in(d, "material instance"); d.s("name", S(m->GetName())); d.s("sub-id", S(m->GetWantedSubId())); d.s("semantic", S(m->GetSemantic())); d.ref("material", m->GetMaterial()); dump(d, m->GetExtra());
    for (size_t i = 0; i < m->GetBindingCount(); ++i) { d.s("binding", S(*m->GetBinding(i)->semantic)); d.s("target", S(*m->GetBinding(i)->target)); }
    for (size_t i = 0; i < m->GetVertexInputBindingCount(); ++i) { auto* v = m->GetVertexInputBinding(i); d.s("vertex binding", S(*v->semantic)); d.i("input", v->GetInputSemantic()); d.i("set", *v->inputSet); }
}

// ---- generation ----
struct Scope { std::vector<FCDEffectParameterSurface*> surfaces; std::vector<FCDEffectParameterSampler*> samplers; std::vector<std::string> refs; };
static void fill_surface(Gen& G, FCDEffectParameterSurface* s) {
    Src& g = G.g; auto* lib = G.doc->GetImageLibrary(); size_t have = lib->GetEntityCount(); auto add = [&](size_t k) { for (size_t i = 0, at = g.below(have); i < k; ++i) s->AddImage(lib->GetEntity((at + i) % have)); };
    if (g.coin()) s->SetSurfaceType(g.oneof<const char*>({"1D", "2D", "3D", "CUBE", "RECT", "DEPTH", "UNTYPED"})); if (g.coin()) s->SetFormat(g.oneof<const char*>({"A8R8G8B8", "R32F", "DXT1", ""}));
    switch (g.below(3)) { case 0: { float a = (float) g.below(2049), b = (float) g.below(2049), c = (float) g.below(9); s->SetSize(FMVector3(a, b, c)); break; } case 1: s->SetViewportRatio(G.pos()); break; default: break; }
    if (g.chance(1, 3)) s->SetMipLevelCount((uint16) g.below(g.coin() ? 12 : 65536)); if (g.chance(1, 4)) s->SetGenerateMipMaps(g.coin());
    if (g.chance(1, 3)) { auto* h = s->AddFormatHint(); h->channels = (FCDFormatHint::channelValues) g.range(1, 7); h->range = (FCDFormatHint::rangeValue) g.range(1, 6); h->precision = (FCDFormatHint::precisionValue) g.range(1, 3); for (size_t k = g.below(4); k-- > 0;) h->options.push_back((FCDFormatHint::optionValue) g.below(4)); }
    size_t kind = g.below(have ? 8 : 3);
    switch (kind) {
    case 0: case 1: s->SetInitMethod(SF::Create(SF::AS_NULL)); break; case 2: s->SetInitMethod(SF::Create(SF::AS_TARGET)); break;
    case 3: { auto* m = (FCDEffectParameterSurfaceInitVolume*) SF::Create(SF::VOLUME); m->volumeType = g.coin() ? FCDEffectParameterSurfaceInitVolume::ALL : FCDEffectParameterSurfaceInitVolume::PRIMARY; s->SetInitMethod(m); add(1); break; }
    case 4: { auto* m = (FCDEffectParameterSurfaceInitCube*) SF::Create(SF::CUBE); m->cubeType = have >= 6 && g.chance(2, 3) ? FCDEffectParameterSurfaceInitCube::FACE : g.coin() ? FCDEffectParameterSurfaceInitCube::ALL : FCDEffectParameterSurfaceInitCube::PRIMARY; s->SetInitMethod(m); add(m->cubeType == FCDEffectParameterSurfaceInitCube::FACE ? 6 : 1); break; }
    case 5: s->SetInitMethod(SF::Create(SF::PLANAR)); add(1); break;
    default: { auto* m = (FCDEffectParameterSurfaceInitFrom*) SF::Create(SF::FROM); s->SetInitMethod(m); size_t k = 1 + g.below(have < 4 ? have : 4); add(k); unsigned bits = (unsigned) g.below(8); const char* F[] = {"POSITIVE_X", "NEGATIVE_X", "POSITIVE_Y", "NEGATIVE_Z"}; for (size_t i = 0; i < k; ++i) { if (bits & 1) m->mip.push_back(std::to_string(i).c_str()); if (bits & 2) m->slice.push_back(std::to_string(k - i).c_str()); if (bits & 4) m->face.push_back(F[g.below(4)]); } } }
}
static FCDEffectParameter::Type pick_type(Src& g) { return (FCDEffectParameter::Type) (g.chance(1, 4) ? (g.coin() ? FCDEffectParameter::SAMPLER : FCDEffectParameter::SURFACE) : g.below(10)); }
static void fill_parameter(Gen& G, FCDEffectParameter* p, Scope& sc, bool generator, const std::string& ref) {
    Src& g = G.g; if (generator) p->SetGenerator(); else p->SetModifier(); p->SetReference(ref.c_str()); sc.refs.push_back(ref);
    if (generator && g.chance(1, 3)) p->SetSemantic(G.word("SEM").c_str());
    for (size_t k = g.chance(1, 3) ? g.below(4) : 0; k-- > 0;) { std::string nm = G.word("ann"); switch (g.below(4)) { case 0: p->AddAnnotation(nm.c_str(), FCDEffectParameter::STRING, fstring(G.content().c_str())); break; case 1: p->AddAnnotation(nm.c_str(), FCDEffectParameter::BOOLEAN, fstring(g.coin() ? "true" : "false")); break; case 2: p->AddAnnotation(nm.c_str(), FCDEffectParameter::INTEGER, fstring(std::to_string(g.range(-99, 99)).c_str())); break; default: p->AddAnnotation(nm.c_str(), FCDEffectParameter::FLOAT, fstring(g.oneof<const char*>({"0.5", "-3", "1e-3"}))); } }
    auto half = [&](auto* q) { if (g.chance(1, 3)) q->SetFloatType(std::remove_pointer_t<decltype(q)>::HALF); };
    switch (p->GetType()) {
    case FCDEffectParameter::INTEGER: ((FCDEffectParameterInt*) p)->SetValue((int32) (g.coin() ? g.range(-100, 100) : g.range(-2147483647 - 1, 2147483647))); break;
    case FCDEffectParameter::BOOLEAN: ((FCDEffectParameterBool*) p)->SetValue(g.coin()); break;
    case FCDEffectParameter::STRING: ((FCDEffectParameterString*) p)->SetValue(fm::string(G.content().c_str())); break;
    case FCDEffectParameter::FLOAT: { auto* q = (FCDEffectParameterFloat*) p; half(q); q->SetValue(G.fl()); break; }
    case FCDEffectParameter::FLOAT2: { auto* q = (FCDEffectParameterFloat2*) p; half(q); float a = G.fl(), b = G.fl(); q->SetValue(FMVector2(a, b)); break; }
    case FCDEffectParameter::FLOAT3: { auto* q = (FCDEffectParameterFloat3*) p; half(q); q->SetValue(G.v3()); break; }
    case FCDEffectParameter::VECTOR: { auto* q = (FCDEffectParameterVector*) p; half(q); q->SetValue(G.v4()); break; }
    case FCDEffectParameter::MATRIX: { auto* q = (FCDEffectParameterMatrix*) p; half(q); q->SetValue(G.m44()); break; }
    case FCDEffectParameter::SURFACE: fill_surface(G, (FCDEffectParameterSurface*) p); sc.surfaces.push_back((FCDEffectParameterSurface*) p); break;
    case FCDEffectParameter::SAMPLER: { auto* q = (FCDEffectParameterSampler*) p; q->SetSurface(sc.surfaces[g.below(sc.surfaces.size())]); q->SetSamplerType((FCDEffectParameterSampler::SamplerType) g.below(4)); auto w = [&] { return (FUDaeTextureWrapMode::WrapMode) g.range(FUDaeTextureWrapMode::NONE, FUDaeTextureWrapMode::BORDER); }; auto f = [&] { return (FUDaeTextureFilterFunction::FilterFunction) g.range(FUDaeTextureFilterFunction::NONE, FUDaeTextureFilterFunction::LINEAR_MIPMAP_LINEAR); };
        if (g.coin()) { q->SetWrapS(w()); q->SetWrapT(w()); q->SetWrapP(w()); } if (g.coin()) { q->SetMinFilter(f()); q->SetMagFilter(f()); q->SetMipFilter(f()); } sc.samplers.push_back(q); break; } }
}
template <class T> static void parameters(Gen& G, T* owner, Scope& sc, size_t max, int modes /* 1 generators, 2 modifiers */, const Scope* names = nullptr) {
    Src& g = G.g; std::vector<std::string> used;
    for (size_t k = g.len(max); k-- > 0;) { auto t = pick_type(g); if (t == FCDEffectParameter::SAMPLER && sc.surfaces.empty()) t = FCDEffectParameter::SURFACE;
        std::string ref = names && !names->refs.empty() && g.coin() ? names->refs[g.below(names->refs.size())] : G.word("p"); if (std::find(used.begin(), used.end(), ref) != used.end()) ref = G.word("p"); used.push_back(ref);
        bool gen = modes == 1 || (modes == 3 && g.chance(2, 3)); fill_parameter(G, owner->AddEffectParameter(t), sc, gen, ref); }
}
void Gen::image(FCDImage* i) { entity(i); i->SetFilename((std::string("file:///") + word("dir") + "/" + word("img") + g.oneof<const char*>({".png", ".tga", ""})).c_str()); if (g.coin()) { i->SetWidth((uint32) g.below(5000)); i->SetHeight((uint32) g.below(5000)); } if (g.chance(1, 4)) i->SetDepth((uint32) g.below(64)); }
template <class T> static void codes(Gen& G, T* o, std::vector<FCDEffectCode*>& all) { Src& g = G.g; for (size_t k = g.below(3); k-- > 0;) { FCDEffectCode* c = o->AddCode(); c->SetSubId(fm::string(G.word("code").c_str())); if (g.coin()) c->SetCode(G.content().c_str()); else { c->SetType(FCDEffectCode::INCLUDE); c->SetFilename((std::string("file:///") + G.word("dir") + "/" + G.word("shader") + ".fx").c_str()); } all.push_back(c); } }
static void standard(Gen& G, FCDEffectStandard* s, Scope& sc) {
    Src& g = G.g; s->SetLightingType((FCDEffectStandard::LightingType) g.below(4)); auto L = s->GetLightingType(); bool constant = L == FCDEffectStandard::CONSTANT, shiny = L == FCDEffectStandard::PHONG || L == FCDEffectStandard::BLINN;
    auto c4 = [&] { float r = G.unit(), gg = G.unit(), b = G.unit(), a = g.chance(1, 2) ? 1.0f : G.unit(); return FMVector4(r, gg, b, a); };
    if (g.coin()) s->SetIsEmissionFactor(true); if (g.coin()) { s->SetEmissionColor(c4()); s->SetEmissionFactor(G.unit()); } if (g.coin()) s->SetAmbientColor(c4()); if (g.coin()) s->SetDiffuseColor(c4()); if (g.coin()) s->SetSpecularColor(c4()); if (g.coin()) s->SetSpecularFactor(g.coin() ? 1.0f : G.pos()); if (g.coin()) s->SetShininess(G.pos());
    if (g.coin()) { s->SetReflectivityColor(c4()); s->SetReflectivityFactor(G.unit()); } if (g.chance(1, 3)) s->SetReflective(g.coin()); if (g.coin()) s->SetIndexOfRefraction(G.pos()); if (g.chance(1, 3)) s->SetRefractive(g.coin());
    if (g.coin()) s->SetTransparencyMode(g.coin() ? FCDEffectStandard::A_ONE : FCDEffectStandard::RGB_ZERO); if (g.coin()) { s->SetTranslucencyColor(c4()); s->SetTranslucencyFactor(G.unit()); }
    FCDEffectParameterColor4* C[] = {s->GetEmissionColorParam(), s->GetAmbientColorParam(), s->GetDiffuseColorParam(), s->GetSpecularColorParam(), s->GetReflectivityColorParam(), s->GetTranslucencyColorParam()}; FCDEffectParameterFloat* F[] = {s->GetEmissionFactorParam(), s->GetShininessParam(), s->GetSpecularFactorParam(), s->GetReflectivityFactorParam(), s->GetIndexOfRefractionParam(), s->GetTranslucencyFactorParam()};
    if (!sc.refs.empty()) { for (auto* p : C) if (g.chance(1, 8)) { p->SetReferencer(); p->SetReference(sc.refs[g.below(sc.refs.size())].c_str()); } for (auto* p : F) if (g.chance(1, 8)) { p->SetReferencer(); p->SetReference(sc.refs[g.below(sc.refs.size())].c_str()); } }
    auto* lib = G.doc->GetImageLibrary(); if (sc.samplers.empty() && lib->GetEntityCount() == 0) return;
    for (size_t k = g.len(6); k-- > 0;) {
        uint32 b = (uint32) g.below(TC::COUNT); if (constant && (b == TC::AMBIENT || b == TC::DIFFUSE)) continue; if (!shiny && (b == TC::SPECULAR || b == TC::SHININESS || b == TC::SPECULAR_LEVEL)) continue;
        if (b == TC::REFLECTION) s->SetReflective(true); if (b == TC::REFRACTION) s->SetRefractive(true);
        FCDTexture* t = s->AddTexture(b); if (lib->GetEntityCount() && (sc.samplers.empty() || g.coin())) t->SetImage(lib->GetEntity(g.below(lib->GetEntityCount()))); else t->SetSampler(sc.samplers[g.below(sc.samplers.size())]);
        switch (g.below(3)) { case 0: break; case 1: { int v = (int) g.range(0, 12); t->GetSet()->SetSemantic(std::to_string(v).c_str()); t->GetSet()->SetValue(v); break; } default: t->GetSet()->SetSemantic(G.word("UV").c_str()); t->GetSet()->SetValue(0); }
        if (G.extras && g.chance(1, 4)) G.extra(t->GetExtra()); }
}
void Gen::effect(FCDEffect* e) {
    entity(e); Scope outer; parameters(*this, e, outer, 5, 3);
    for (size_t k = g.len(4); k-- > 0;) {
        bool common = g.coin(); const FUDaeProfileType::Type T[] = {FUDaeProfileType::CG, FUDaeProfileType::HLSL, FUDaeProfileType::GLSL, FUDaeProfileType::GLES};
        FCDEffectProfile* p = e->AddProfile(common ? FUDaeProfileType::COMMON : T[g.below(4)]); Scope sc = outer; parameters(*this, p, sc, 5, 1); if (extras && g.chance(1, 4)) extra(p->GetExtra());
        if (common) { standard(*this, (FCDEffectStandard*) p, sc); continue; }
        auto* x = (FCDEffectProfileFX*) p; if (g.coin()) x->SetPlatform(attribute().c_str()); std::vector<FCDEffectCode*> shared; codes(*this, x, shared);
        for (size_t q = g.below(3); q-- > 0;) { FCDEffectTechnique* t = x->AddTechnique(); t->SetName(word("tech").c_str()); Scope in = sc; parameters(*this, t, in, 4, 3); std::vector<FCDEffectCode*> own = shared; codes(*this, t, own);
            for (size_t r = 1 + g.below(2); r-- > 0;) { FCDEffectPass* ps = t->AddPass(); if (g.chance(3, 4)) ps->SetPassName(word("pass").c_str());
                for (size_t w = g.len(5); w-- > 0;) fill_state(*this, ps->AddRenderState((FUDaePassState::State) g.below(FUDaePassState::COUNT)));
                for (size_t w = g.below(3); w-- > 0;) { FCDEffectPassShader* s = ps->AddShader(); s->SetName(word("shader").c_str()); if (g.coin()) s->AffectsFragments(); else s->AffectsVertices(); if (g.coin()) s->SetCompilerTarget(content().c_str()); if (g.coin()) s->SetCompilerOptions(content().c_str()); if (!own.empty() && g.chance(3, 4)) s->SetCode(own[g.below(own.size())]); for (size_t b = g.below(3); b-- > 0;) { auto* bd = s->AddBinding(); bd->symbol = fm::string(word("sym").c_str()); bd->reference = fm::string((in.refs.empty() ? word("r") : in.refs[g.below(in.refs.size())]).c_str()); } } } } }
}
void Gen::material(FCDMaterial* m) {
    entity(m); auto* lib = doc->GetEffectLibrary(); 
    FCDEffect* e = lib->GetEntity(g.below(lib->GetEntityCount())); m->SetEffect(e); Scope names; for (size_t i = 0; i < e->GetEffectParameterCount(); ++i) names.refs.push_back(S(e->GetEffectParameter(i)->GetReference()));
    for (size_t k = g.below(3); k-- > 0;) { FCDMaterialTechniqueHint h; h.platform = fstring(attribute().c_str()); h.technique = fm::string(word("tech").c_str()); m->GetTechniqueHints().push_back(h); }
    Scope sc; parameters(*this, m, sc, 5, 2, &names);
}
void Gen::material_instances(FCDGeometryInstance* i) {
    auto* lib = doc->GetMaterialLibrary(); if (lib->GetEntityCount() == 0) return; FCDGeometry* gm = (FCDGeometry*) i->GetEntity();
    size_t count = g.len(3);
    for (size_t k = 0; k < count; ++k) {
        FCDMaterial* m = lib->GetEntity(g.below(lib->GetEntityCount())); FCDMaterialInstance* mi; FCDGeometryMesh* mesh = gm && gm->GetType() == FCDEntity::GEOMETRY && gm->IsMesh() ? gm->GetMesh() : NULL;
        if (mesh && mesh->GetPolygonsCount() && g.coin()) mi = i->AddMaterialInstance(m, mesh->GetPolygons(g.below(mesh->GetPolygonsCount()))); else mi = i->AddMaterialInstance(m, word("MAT").c_str());
        instance(mi); for (size_t b = g.below(3); b-- > 0;) mi->AddBinding(word("BIND").c_str(), (word("target") + "/" + word("t")).c_str());
        for (size_t b = g.below(3); b-- > 0;) mi->AddVertexInputBinding(word("VB").c_str(), g.oneof({FUDaeGeometryInput::TEXCOORD, FUDaeGeometryInput::COLOR, FUDaeGeometryInput::NORMAL, FUDaeGeometryInput::TEXTANGENT}), (int32) g.below(9)); }
    if (count) for (size_t k = g.chance(1, 3) ? g.below(3) : 0; k-- > 0;) { FCDEffectParameter* p = i->AddEffectParameter(FCDEffectParameter::FLOAT); p->SetAnimator(); p->SetReference(word("anim").c_str()); p->SetSemantic(word("ASEM").c_str()); }
}
}
