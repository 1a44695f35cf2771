#include "docgen.h"
using namespace pbt;
using namespace dg;
PBT_PROPERTY("C07", "a document with at least one rigid body, rigid constraint or model instance")
struct SetInit { SetInit() { worker_init = dg::init; } } setInit;
static void round_trip(Ctx& c, FCDocument* a) {
    messages().clear(); Dump before = dumped(a); c.note(text(before));
    for (auto& t : before.t) { for (const char* k : {"body/", "constraint/", "model instance/", "solid 1/", "reference node", "/animated/"}) if (t.path.find(k) != std::string::npos) c.label(k); if (t.path.find("/body/") != std::string::npos || t.path.find("constraint/") != std::string::npos || t.path.find("model instance/") != std::string::npos) c.nontrivial = true; }
    std::string f = scratch_dir() + "/a.dae"; CHECK(save(a, f), "the document is saved"); clean("saving");
    Doc b(load(f)); CHECK(b.d != NULL, "the file is loaded: ", messages().all()); clean("loading");
    std::string d = diff(before, dumped(b)); if (!d.empty() && getenv("KEEP")) spill(getenv("KEEP"), slurp(f)); CHECK(d.empty(), "the reloaded document differs: ", d);
}
PBT_CASE(physics, 7000, 220000) {
    Doc a; Gen G(g, a); G.extras = g.chance(1, 3); G.rich = G.extras && g.coin();
    unsigned parts = PHYSICS; for (unsigned p : {SCENES, FIELDS}) if (g.chance(3, 4)) parts |= p; if (g.chance(1, 3)) parts |= GEOMETRY;
    G.document(parts); round_trip(c, a);
}
PBT_CASE(animated_physics, 4000, 120000) {
    Doc a; Gen G(g, a); G.extras = false; G.document(PHYSICS | ANIMATIONS | SCENES | (g.coin() ? FIELDS : 0)); round_trip(c, a);
}
