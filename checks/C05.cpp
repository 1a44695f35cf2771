#include "docgen.h"
using namespace pbt;
using namespace dg;
PBT_PROPERTY("C05", "a document with at least one curve with keys attached to an animatable value")
struct SetInit { SetInit() { worker_init = dg::init; } } setInit;
PBT_CASE(animations, 12000, 300000) {
    Doc a; Gen G(g, a); G.extras = g.chance(1, 3); G.rich = G.extras && g.coin();
    unsigned parts = ANIMATIONS; for (unsigned p : {SCENES, SCENES, CAMERAS, LIGHTS, FIELDS, EFFECTS, MATERIALS, IMAGES}) if (g.chance(1, 3)) parts |= p;
    if (g.chance(1, 4)) parts |= GEOMETRY; if (g.chance(1, 4)) parts |= GEOMETRY | CONTROLLERS; if (g.chance(1, 3)) parts |= CLIPS;
    G.document(parts); messages().clear();
    Dump before = dumped(a); for (auto& t : before.t) if (t.path.find("/driver") != std::string::npos) c.note(t.path + " = " + t.s); c.note(text(before));
    for (auto& t : before.t) { if (t.path.find("/animated/") != std::string::npos && t.path.find("/key/input") != std::string::npos) c.nontrivial = true; if (t.path.find("/driver") != std::string::npos) c.label("driver"); if (t.path.find("curves of") != std::string::npos) c.label("clip"); }
    std::string f = scratch_dir() + "/a.dae"; CHECK(save(a, f), "the document is saved"); clean("saving");
    Doc b(load(f)); CHECK(b.d != NULL, "the file is loaded: ", messages().all()); clean("loading");
    std::string d = diff(before, dumped(b)); if (!d.empty() && getenv("KEEP")) spill(getenv("KEEP"), slurp(f)); CHECK(d.empty(), "the reloaded document differs: ", d);
}
