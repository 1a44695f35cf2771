#include "docgen.h"
using namespace pbt;
using namespace dg;
PBT_PROPERTY("C06", "a document with at least two cameras, lights, force fields or emitters")
struct SetInit { SetInit() { worker_init = dg::init; } } setInit;
PBT_CASE(entities, 14000, 300000) {
    Doc a; Gen G(g, a); G.extras = g.chance(1, 3);
    G.document(CAMERAS | LIGHTS | FIELDS | (g.chance(1, 3) ? SCENES : 0)); messages().clear();
    Dump before = dumped(a); c.note(text(before));
    c.nontrivial = a->GetCameraLibrary()->GetEntityCount() + a->GetLightLibrary()->GetEntityCount() + a->GetForceFieldLibrary()->GetEntityCount() + a->GetEmitterLibrary()->GetEntityCount() >= 2;
    std::string f = scratch_dir() + "/a.dae"; CHECK(save(a, f), "the document is saved"); clean("saving");
    Doc b(load(f)); CHECK(b.d != NULL, "the file is loaded: ", messages().all()); clean("loading");
    std::string d = diff(before, dumped(b)); CHECK(d.empty(), "the reloaded document differs: ", d);
}
