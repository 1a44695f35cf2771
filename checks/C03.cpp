#include "docgen.h"
using namespace pbt;
using namespace dg;
PBT_PROPERTY("C03", "a generated document with an effect that holds a profile or at least two parameters, or a material with an effect")
struct SetInit { SetInit() { worker_init = dg::init; } } setInit;
PBT_CASE(effects, 20000, 300000) {
    Doc a; Gen G(g, a); G.extras = g.chance(1, 3); for (size_t k = g.chance(1, 4) ? 5 : 0; k-- > 0;) G.image(a->GetImageLibrary()->AddEntity());
    G.document(g.chance(1, 3) ? IMAGES | EFFECTS | MATERIALS | GEOMETRY | SCENES : IMAGES | EFFECTS | MATERIALS); messages().clear();
    Dump before = dumped(a); c.note(text(before)); size_t states = 0, textures = 0;
    for (size_t i = 0; i < a->GetEffectLibrary()->GetEntityCount(); ++i) { FCDEffect* e = a->GetEffectLibrary()->GetEntity(i); c.nontrivial |= e->GetProfileCount() > 0 || e->GetEffectParameterCount() >= 2;
        for (size_t k = 0; k < e->GetProfileCount(); ++k) { FCDEffectProfile* p = e->GetProfile(k); if (p->GetType() == FUDaeProfileType::COMMON) for (uint32 b = 0; b < FUDaeTextureChannel::COUNT; ++b) textures += ((FCDEffectStandard*) p)->GetTextureCount(b); else states += ((FCDEffectProfileFX*) p)->GetTechniqueCount(); } }
    for (size_t i = 0; i < a->GetMaterialLibrary()->GetEntityCount(); ++i) c.nontrivial |= a->GetMaterialLibrary()->GetEntity(i)->GetEffect() != NULL;
    if (states) c.label("techniques"); if (textures) c.label("textures");
    std::string f = scratch_dir() + "/a.dae"; CHECK(save(a, f), "the document is saved"); clean("saving");
    Doc b(load(f)); CHECK(b.d != NULL, "the file is loaded: ", messages().all()); clean("loading");
    std::string d = diff(before, dumped(b)); CHECK(d.empty(), "the reloaded document differs: ", d);
}
