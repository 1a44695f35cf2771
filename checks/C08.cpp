#include "docgen.h"
using namespace pbt;
using namespace dg;
PBT_PROPERTY("C08", "a document with at least three notes, asset blocks, extra elements or attributes to carry")
struct SetInit { SetInit() { worker_init = dg::init; } } setInit;
static void round(Src& g, Ctx& c, unsigned parts) {
    Doc a; Gen G(g, a); G.extras = G.rich = true;
    G.document(parts); messages().clear();
    Dump before = dumped(a); c.note(text(before)); size_t k = 0;
    for (auto& t : before.t) if (t.path.find("note") != std::string::npos || t.path.find("asset") != std::string::npos || t.path.find("extra") != std::string::npos) ++k;
    c.nontrivial = k >= 12;
    std::string f = scratch_dir() + "/a.dae"; CHECK(save(a, f), "the document is saved"); clean("saving");
    Doc b(load(f)); CHECK(b.d != NULL, "the file is loaded: ", messages().all()); clean("loading");
    std::string d = diff(before, dumped(b)); CHECK(d.empty(), "the reloaded document differs: ", d);
}
PBT_CASE(document_level, 9000, 150000) { round(g, c, ASSET | EXTRA); }
PBT_CASE(entity_level, 9000, 150000) { round(g, c, ASSET | EXTRA | (g.coin() ? CAMERAS | LIGHTS : 0) | (g.coin() ? GEOMETRY : 0) | (g.coin() ? SCENES : 0) | (g.chance(1, 3) ? FIELDS : 0)); }
