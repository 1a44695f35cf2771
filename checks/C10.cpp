#include "mutate.h"
#include <set>
using namespace pbt;
using namespace dg;
PBT_PROPERTY("C10", "a document with at least two kinds of content, loaded from a file with content and archived twice more")
static void silence(void*, const char*, ...) {}
struct SetInit { SetInit() { worker_init = [] { dg::init(); xmlSetGenericErrorFunc(NULL, silence); }; } } setInit;
static std::string normal(std::string s) { // the date of the last modification is the date of the export
    for (size_t i = 0; (i = s.find("<modified>", i)) != std::string::npos;) { size_t e = s.find("</modified>", i); s.erase(i + 10, e - i - 10); i += 10; } return s;
}
static std::string text_diff(const std::string& a, const std::string& b) {
    if (a == b) return ""; size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; size_t s = i > 200 ? i - 200 : 0;
    return pbt::cat("at byte ", i, "\nfirst:  ", a.substr(s, 400), "\nsecond: ", b.substr(s, 400));
}
PBT_CASE(cycles, 3500, 100000) {
    Doc a; Gen G(g, a); G.extras = g.chance(1, 3); G.rich = G.extras && g.coin(); unsigned parts = 0, kinds = 0;
    for (unsigned p = ASSET; p <= PHYSICS; p <<= 1) if (g.chance(1, p == PHYSICS || p == ANIMATIONS ? 4 : 3)) { parts |= p; ++kinds; }
    G.document(parts); messages().clear();
    std::string f0 = scratch_dir() + "/0.dae", f1 = scratch_dir() + "/1.dae", f2 = scratch_dir() + "/2.dae", f3 = scratch_dir() + "/3.dae";
    CHECK(save(a, f0), "the document is saved"); messages().clear(); fcu::no_asserts("saving"); CHECK(save(a, f1), "the document is saved again");
    std::string t0 = normal(slurp(f0)), t1 = normal(slurp(f1)); c.note(t0); CHECK(t0 == t1, "saving twice writes something else: ", text_diff(t0, t1));
    Doc b(load(f0)); CHECK(b.d != NULL, "the file is loaded: ", messages().all());
    Dump before = dumped(b); CHECK(save(b, f1), "the loaded document is saved"); std::string d = diff(before, dumped(b)); CHECK(d.empty(), "saving modified the document: ", d);
    CHECK(save(b, f2), "the loaded document is saved again"); t1 = normal(slurp(f1)); std::string t2 = normal(slurp(f2)); CHECK(t1 == t2, "saving the loaded document twice writes something else: ", text_diff(t1, t2));
    Doc e(load(f1)); CHECK(e.d != NULL, "the second file is loaded: ", messages().all()); CHECK(save(e, f3), "the reloaded document is saved"); std::string t3 = normal(slurp(f3));
    CHECK(t1 == t3, "archiving a loaded document again changed the file: ", text_diff(t1, t3)); fcu::no_asserts("archiving");
    c.nontrivial = kinds >= 2 && t0.size() > 1500; if (t0 == t1) c.label("first file already stable");
}
static size_t times(const std::string& s, const char* w) { size_t n = 0; for (size_t i = 0; (i = s.find(w, i)) != std::string::npos; ++i) ++n; return n; }
// What may differ between two documents that say the same: extras of a type in many parts, empty techniques, the order of the techniques of an extra
static void settle(X* x) { auto& k = x->kids;
    for (size_t i = 0; i < k.size(); ++i) if (k[i]->name == "extra") for (size_t j = i + 1; j < k.size();) if (k[j]->name == "extra" && k[j]->at == k[i]->at) { for (auto& y : k[j]->kids) k[i]->kids.push_back(std::move(y)); k.erase(k.begin() + (long) j); } else ++j;
    if (x->name == "extra") { k.erase(std::remove_if(k.begin(), k.end(), [](const std::unique_ptr<X>& y) { return y->name == "technique" && y->kids.empty() && y->text.empty(); }), k.end()); std::stable_sort(k.begin(), k.end(), [](const std::unique_ptr<X>& p, const std::unique_ptr<X>& q) { return p->at < q->at; }); } for (auto& y : k) settle(y.get()); k.erase(std::remove_if(k.begin(), k.end(), [](const std::unique_ptr<X>& y) { return y->name == "extra" && y->kids.empty() && y->text.empty(); }), k.end()); }
static std::string settled(const std::string& s) { auto x = parse(normal(s)); if (!x) return s; settle(x.get()); std::string o; write(o, *x); return o; }
// What has no meaning in the format, or no canonical spelling: relative source files, animations of one of many elements with an id, polygons without vertices, a source that is both per vertex and per face, splines without points
static bool meaningless(Doc& a, X* x) {
    std::vector<X*> v; flatten(x, v); for (auto* y : v) if (y->name == "target" && !y->kids.empty()) return true;
    if (a->GetAnimationLibrary()->GetEntityCount() > 0) { std::set<std::string> ids; for (auto* y : v) for (auto& t : y->at) if (t.first == "id" && !ids.insert(t.second).second) return true; }
    for (auto& w : messages().warnings) for (const char* t : {"nknown element", "target is invalid", "nit_from"}) if (w.find(t) != std::string::npos) return true; // (elements of the wrong library, animations of nothing, surfaces of nothing)
    FCDAsset* as = a->GetAsset(); for (size_t i = 0; i < as->GetContributorCount(); ++i) { std::string u = as->GetContributor(i)->GetSourceData().c_str(); if (!u.empty() && u.find("://") == std::string::npos) return true; }
    FCDGeometryLibrary* l = a->GetGeometryLibrary(); for (size_t i = 0; i < l->GetEntityCount(); ++i) { FCDGeometrySpline* sp = l->GetEntity(i)->GetSpline(); if (sp && sp->GetSplineCount() == 0) return true; FCDGeometryMesh* m = l->GetEntity(i)->GetMesh(); if (!m) continue;
        for (size_t k = 0; k < m->GetPolygonsCount(); ++k) { FCDGeometryPolygons* p = m->GetPolygons(k); if (m->GetVertexSourceCount() == 0) return true; for (size_t n = 0; n < p->GetInputCount(); ++n) for (size_t q = 0; q < n; ++q) if (p->GetInput(n)->GetSource() == p->GetInput(q)->GetSource()) return true; } }
    return false;
}
// (curves that animate nothing or what another one animates, surfaces of nothing, 0/0, dates that are not, elements without an id)
static bool odd(const std::string& t) { if (times(t, "<sampler id=") != times(t, "<channel ") || times(t, "<init_from/>") || times(t, "nan<") || times(t, "nan ") || times(t, "id=\"-array\"") || times(t, "id=\"\"")) return true;
    for (size_t i = 0; (i = t.find("<created>", i)) != std::string::npos; i += 9) if (t.compare(i + 28, 2, "Z<") != 0) return true;
    std::set<std::string> targets; for (size_t i = 0; (i = t.find("<channel ", i)) != std::string::npos; ++i) { size_t j = t.find("target=", i); if (!targets.insert(t.substr(j, t.find('"', j + 8) - j)).second) return true; }
    for (auto& w : targets) { size_t i = w.rfind('.'); if (i != std::string::npos && targets.count(w.substr(0, i))) return true; }
    return false; }
PBT_CASE(edited, 3000, 100000) {
    std::string s = start(g), log; auto x = parse(s); if (!x) throw Discard(); for (size_t k = 1 + g.len(3); k-- > 0;) breaks(g, x.get(), log); s = "<?xml version=\"1.0\"?>\n"; write(s, *x); c.note(log); c.note(s);
    std::string f0 = scratch_dir() + "/0.dae", f1 = scratch_dir() + "/1.dae", f2 = scratch_dir() + "/2.dae"; spill(f0, s); messages().clear(); FCollada::SetDereferenceFlag(false);
    Doc a(load(f0)); if (!a.d || !messages().errors.empty() || fcu::asserts()) { c.label("refused"); fcu::reset_asserts(); return; } if (log.find(":skew") != std::string::npos || log.find("target") != std::string::npos || meaningless(a, x.get())) { c.label("meaningless"); return; } messages().clear();
    if (!save(a, f1)) { c.label("not saved"); return; } std::string t1 = settled(slurp(f1)); if (odd(t1)) { c.label("meaningless"); return; }
    messages().clear(); fcu::reset_asserts();
    Doc b(load(f1)); CHECK(b.d != NULL, "what was saved is loaded: ", messages().all()); CHECK(save(b, f2), "and saved again"); std::string t2 = settled(slurp(f2));
    CHECK(t1 == t2, "archiving a loaded document again changed the file: ", text_diff(t1, t2)); c.nontrivial = s.size() > 1500; fcu::reset_asserts();
}
