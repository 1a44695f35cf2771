#include "mutate.h"
using namespace pbt;
using namespace dg;
PBT_PROPERTY("C09", "an input that differs from every document the library writes, of at least 200 bytes, which the library opened or refused")
// ---- the library keeps working ----
static std::string* good = nullptr; static Dump* good_dump = nullptr;
static void silence(void*, const char*, ...) {}
static void prepare() { dg::init(); xmlSetGenericErrorFunc(NULL, silence); // one document that every case loads afterwards
    Src g; g.rng[0] = 11; g.rng[1] = 5; Doc d; Gen G(g, d); G.document(ALL & ~PHYSICS & ~CLIPS); std::string f = scratch_dir() + "/good.dae"; if (!save(d, f)) fail("the reference document is not saved"); good = new std::string(slurp(f)); Doc b(load(f)); if (!b.d) fail("the reference document is not loaded"); good_dump = new Dump(dumped(b)); spill(scratch_dir() + "/other.dae", *good); messages().clear(); }
struct SetInit { SetInit() { worker_init = prepare; } } setInit;
static void drain() { while (true) { FCDocumentList l; FCollada::GetAllDocuments(l); if (l.empty()) return; l[0]->Release(); } }
static void attempt(Src& g, Ctx& c, const std::string& s, bool saves) {
    std::string f = scratch_dir() + "/self.dae"; spill(f, s); messages().clear(); fcu::reset_asserts(); FCDocument* d = NULL;
    if (g.chance(3, 4)) d = load(f); else { d = FCollada::NewTopDocument(); std::string copy = s; if (!FCollada::LoadDocumentFromMemory(f.c_str(), d, (void*) copy.data(), copy.size())) { d->Release(); d = NULL; } }
    if (d) { c.label("opened"); Dump x = dumped(d); (void) x; if (saves) { d->SetFileUrl(fstring((scratch_dir() + "/out.dae").c_str())); bool ok = FCollada::SaveDocument(d, (scratch_dir() + "/out.dae").c_str()); c.label(ok ? "saved again" : "not saved"); Dump y = dumped(d); (void) y; } d->Release(); }
    else { c.label("refused"); CHECK(!messages().errors.empty() || !messages().warnings.empty() || fcu::asserts(), "the load failed without a report"); }
    drain(); messages().clear(); fcu::reset_asserts(); c.nontrivial = s.size() >= 200;
    if (g.chance(1, 4)) { c.label("loaded a document afterwards"); std::string o = scratch_dir() + "/good.dae"; spill(o, *good); Doc b(load(o)); CHECK(b.d != NULL, "a correct document is no longer loaded: ", messages().all()); std::string e = diff(*good_dump, dumped(b)); CHECK(e.empty(), "a correct document is loaded differently: ", e); clean("a correct document"); CHECK(save(b, o), "a correct document is no longer saved"); }
    drain(); }
PBT_CASE(mutated, 6000, 400000) { std::string s = start(g), log; auto x = parse(s); if (!x) throw Discard(); for (size_t k = 1 + g.len(6); k-- > 0;) breaks(g, x.get(), log); s = "<?xml version=\"1.0\"?>\n"; write(s, *x); c.note(log); c.note(s); attempt(g, c, s, true); }
PBT_CASE(grammar, 3000, 200000) { X root; root.name = "COLLADA"; root.at = {{"xmlns", "http://www.collada.org/2005/11/COLLADASchema"}, {"version", "1.4.1"}}; for (size_t k = 1 + g.below(6); k-- > 0;) root.kids.push_back(grown(g, 0, &root)); for (auto& k : root.kids) if (g.coin()) k->name = g.oneof<const char*>({"library_geometries", "library_controllers", "library_visual_scenes", "library_nodes", "library_animations", "library_effects", "library_materials", "library_images", "library_cameras", "library_lights", "library_physics_models", "library_physics_scenes", "library_physics_materials", "library_animation_clips", "library_force_fields", "scene", "asset", "extra"}); std::string s = "<?xml version=\"1.0\"?>\n"; write(s, root); c.note(s); attempt(g, c, s, true); }
PBT_CASE(damaged, 1500, 100000) { std::string s = start(g); bytes(g, s); c.note(s); attempt(g, c, s, true); }
PBT_CASE(noise, 600, 20000) { std::string s; switch (g.below(3)) { case 0: for (size_t k = g.len(400); k-- > 0;) s += (char) g.below(256); break; case 1: for (size_t k = g.len(200); k-- > 0;) s += g.oneof<const char*>({"<", ">", "/", "COLLADA", " ", "=", "\"", "a", "<COLLADA>", "</COLLADA>", "<!--", "-->", "&", ";", "#", "\n"}); break; default: s = std::string("<?xml version=\"1.0\"?>") + g.oneof<const char*>({"<COLLADA/>", "<collada/>", "<x/>", "<COLLADA version=\"9\"/>", "<COLLADA", "", "<COLLADA><scene/></COLLADA>", "<COLLADA xmlns=\"urn:x\" version=\"\"><asset/></COLLADA>"}); } c.note(s); attempt(g, c, s, true); }
// Indices in or out of the range of what they index: those out of range are reported, and whatever is loaded is in range.
PBT_CASE(indices, 2500, 100000) {
    std::string s; { Doc a; Gen G(g, a); G.extras = false; G.document(SCENES | GEOMETRY | CONTROLLERS); std::string f = scratch_dir() + "/self.dae"; CHECK(save(a, f), "the document is saved"); s = slurp(f); } auto x = parse(s); if (!x) throw Discard(); std::vector<X*> v, skins; flatten(x.get(), v); for (auto* e : v) if (e->name == "skin") skins.push_back(e); if (skins.empty()) throw Discard();
    auto count = [](X* skin, const char* array, const char* kind) { std::vector<X*> k; flatten(skin, k); std::string id; for (auto* e : k) if (e->name == "vertex_weights") for (auto& i : e->kids) if (i->name == "input") { std::string sem, src; for (auto& a : i->at) { if (a.first == "semantic") sem = a.second; if (a.first == "source") src = a.second; } if (sem == kind) id = src.substr(1); }
        for (auto* e : k) if (e->name == "source") for (auto& a : e->at) if (a.first == "id" && a.second == id) for (auto& i : e->kids) if (i->name.find(array) != std::string::npos) for (auto& b : i->at) if (b.first == "count") return (long) strtol(b.second.c_str(), NULL, 10); return 0l; };
    bool joint = false, weight = false; size_t changed = 0; for (auto* k : skins) { long jc = count(k, "_array", "JOINT"), wc = count(k, "float_array", "WEIGHT"); std::vector<X*> in; flatten(k, in); for (auto* e : in) if (e->name == "v" && e->up->name == "vertex_weights") { std::vector<std::string> t; std::string w; for (char ch : e->text + " ") if (isspace((unsigned char) ch)) { if (!w.empty()) t.push_back(w); w.clear(); } else w += ch;
        long off[2] = {0, 1}; for (auto& i : e->up->kids) if (i->name == "input") { bool wgt = false; long o = 0; for (auto& a : i->at) { if (a.first == "semantic") wgt = a.second == "WEIGHT"; if (a.first == "offset") o = strtol(a.second.c_str(), NULL, 10); } off[wgt] = o; } if (off[0] + off[1] != 1 || t.size() % 2) continue;
        for (size_t n = t.empty() ? 0 : g.below(3); n-- > 0;) { size_t i = g.below(t.size()); bool wt = (long) (i % 2) == off[1]; long c0 = wt ? wc : jc, val = g.pick(std::vector<long>{c0, c0, c0 + 1, c0 - 1, 0, -1, -2, 2147483647, -2147483647, wt ? jc : wc, c0 * 4}); t[i] = std::to_string(val); ++changed; }
        for (size_t i = 0; i < t.size(); ++i) { long val = strtol(t[i].c_str(), NULL, 10); if ((long) (i % 2) == off[1]) weight |= val < 0 || val >= wc; else joint |= val < -1 || val >= jc; } e->text.clear(); for (auto& q : t) e->text += q + " "; } }
    s = "<?xml version=\"1.0\"?>\n"; write(s, *x); c.note(s); std::string f = scratch_dir() + "/self.dae"; spill(f, s); messages().clear(); Doc d(load(f)); if (!d.d) { CHECK(joint || weight, "a correct document is not loaded: ", messages().all()); c.label("refused"); return; }
    size_t rj = 0, rw = 0; for (auto* l : {&messages().warnings, &messages().errors}) for (auto& m : *l) { rj += m.find(FUError::GetErrorString(FUError::WARNING_INVALID_JOINT_INDEX)) == 0; rw += m.find(FUError::GetErrorString(FUError::WARNING_INVALID_WEIGHT_INDEX)) == 0; }
    CHECK_EQ(rj > 0, joint, "whether joint indices out of range are reported"); CHECK_EQ(rw > 0, weight, "whether weight indices out of range are reported"); if (joint) c.label("a joint index out of range"); if (weight) c.label("a weight index out of range");
    auto* l = d->GetControllerLibrary(); for (size_t i = 0; i < l->GetEntityCount(); ++i) if (l->GetEntity(i)->IsSkin()) { auto* k = l->GetEntity(i)->GetSkinController(); for (size_t n = 0; n < k->GetInfluenceCount(); ++n) for (size_t p = 0; p < k->GetVertexInfluence(n)->GetPairCount(); ++p) { auto* q = k->GetVertexInfluence(n)->GetPair(p); CHECK(q->jointIndex >= -1 && q->jointIndex < (int32) k->GetJointCount(), "the joint index ", q->jointIndex, " is loaded, of ", k->GetJointCount(), " joints"); } }
    c.nontrivial = changed > 0 && (joint || weight);
}
