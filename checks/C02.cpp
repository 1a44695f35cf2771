#include "docgen.h"
using namespace pbt;
using namespace dg;
PBT_PROPERTY("C02", "a generated document whose geometries hold at least eight mesh face-vertices or spline control points altogether")
struct SetInit { SetInit() { worker_init = dg::init; } } setInit;
PBT_CASE(geometries, 20000, 300000) {
    Doc a; Gen G(g, a); G.extras = g.chance(1, 3); G.document(g.chance(1, 4) ? GEOMETRY | SCENES : GEOMETRY); messages().clear();
    Dump before = dumped(a); c.note(text(before)); size_t weight = 0; auto* l = a->GetGeometryLibrary();
    for (size_t i = 0; i < l->GetEntityCount(); ++i) { FCDGeometry* e = l->GetEntity(i); if (e->IsMesh()) weight += e->GetMesh()->GetFaceVertexCount(); if (e->IsSpline()) weight += e->GetSpline()->GetTotalCVCount(); }
    c.nontrivial = weight >= 8; c.label(weight > 40 ? "large" : "small");
    std::string f = scratch_dir() + "/a.dae"; CHECK(save(a, f), "the document is saved"); clean("saving");
    Doc b(load(f)); CHECK(b.d != NULL, "the file is loaded: ", messages().all()); clean("loading");
    std::string d = diff(before, dumped(b)); CHECK(d.empty(), "the reloaded document differs: ", d);
}
