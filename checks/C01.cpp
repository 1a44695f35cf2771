#include "docgen.h"
using namespace pbt;
using namespace dg;
PBT_PROPERTY("C01", "a generated scene graph with at least three nodes")
struct SetInit { SetInit() { worker_init = dg::init; } } setInit;
PBT_CASE(scenes, 14000, 300000) {
    Doc a; Gen G(g, a); G.extras = g.chance(1, 4); G.document(SCENES | CAMERAS | LIGHTS | FIELDS); messages().clear();
    Dump before = dumped(a); c.note(text(before)); c.nontrivial = G.nodes.size() >= 3;
    std::string f = scratch_dir() + "/a.dae"; CHECK(save(a, f), "the document is saved"); clean("saving");
    Doc b(load(f)); CHECK(b.d != NULL, "the file is loaded: ", messages().all()); clean("loading");
    std::string d = diff(before, dumped(b)); CHECK(d.empty(), "the reloaded document differs: ", d);
}
