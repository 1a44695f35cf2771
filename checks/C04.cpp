#include "docgen.h"
using namespace pbt;
using namespace dg;
PBT_PROPERTY("C04", "a document with a skin that influences vertices through joints, or a morph with targets, or an instance bound to joints")
struct SetInit { SetInit() { worker_init = dg::init; } } setInit;
PBT_CASE(controllers, 12000, 300000) {
    Doc a; Gen G(g, a); G.extras = g.chance(1, 4);
    G.document(GEOMETRY | CONTROLLERS | (g.chance(2, 3) ? SCENES : 0) | (g.chance(1, 6) ? EFFECTS | MATERIALS : 0)); messages().clear();
    Dump before = dumped(a); c.note(text(before));
    for (size_t i = 0; i < a->GetControllerLibrary()->GetEntityCount(); ++i) { FCDController* k = a->GetControllerLibrary()->GetEntity(i);
        if (k->IsSkin()) { bool any = false; for (size_t v = 0; v < k->GetSkinController()->GetInfluenceCount(); ++v) any |= k->GetSkinController()->GetVertexInfluence(v)->GetPairCount() > 0; if (any && k->GetSkinController()->GetJointCount()) { c.nontrivial = true; c.label("skin"); } }
        else if (k->GetMorphController()->GetTargetCount()) { c.nontrivial = true; c.label("morph"); }
        if (k->GetBaseTarget() && k->GetBaseTarget()->GetType() == FCDEntity::CONTROLLER) c.label("controller over a controller"); }
    for (auto& t : before.t) if (t.path.find("instance type") != std::string::npos && t.path.size() > 6 && t.path.compare(t.path.size() - 6, 6, "/joint") == 0) { c.nontrivial = true; c.label("bound joints"); break; }
    std::string f = scratch_dir() + "/a.dae"; CHECK(save(a, f), "the document is saved"); clean("saving");
    Doc b(load(f)); CHECK(b.d != NULL, "the file is loaded: ", messages().all()); clean("loading");
    std::string d = diff(before, dumped(b)); CHECK(d.empty(), "the reloaded document differs: ", d);
}
