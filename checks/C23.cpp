#include "docgen.h"
#include <sanitizer/asan_interface.h>
#include <sys/stat.h>
using namespace pbt;
using namespace dg;
PBT_PROPERTY("C23", "a history in which at least two references to other files are resolved, or found closed, and at least one document is released while others still reference it")
struct SetInit { SetInit() { worker_init = dg::init; } } setInit;

// ---- the model: what every reference means, what every file holds, and what is in every open document ----
enum Kind { NODE, EFFECT, SCENE, MATERIAL }; // the instance of a node, the effect of a material, the scene of a document, the material bound by the geometry instance of a node
struct Ref { Kind kind; std::string key; std::string url, id; FCDEntity::Type type; };
struct State { std::vector<Ref> refs; std::map<std::string, FCDEntity::Type> ids; };
struct World {
    Src& g; Ctx& c; std::map<std::string, State> files; std::map<FCDocument*, State> docs; std::vector<FCDocument*> orphans; unsigned n = 0, remote = 0, widowed = 0; std::vector<std::string> paths;
    World(Src& g_, Ctx& c_) : g(g_), c(c_) {}
    static bool dead(const void* p) { return __asan_address_is_poisoned(p); }
    static std::string url(FCDocument* d) { return d->GetFileUrl().c_str(); }
    // Every document that can be reached: the top ones, and those their references hold open.
    std::vector<FCDocument*> reachable() { std::vector<FCDocument*> v; for (size_t i = 0; i < FCollada::GetTopDocumentCount(); ++i) v.push_back(FCollada::GetTopDocument(i));
        for (size_t i = 0; i < v.size(); ++i) { CHECK(!dead(v[i]), "a document that was released is still listed or referenced"); FCDExternalReferenceManager* m = v[i]->GetExternalReferenceManager(); for (size_t k = 0; k < m->GetPlaceHolderCount(); ++k) { FCDocument* t = ((const FCDPlaceHolder*) m->GetPlaceHolder(k))->GetTarget(); if (t && std::find(v.begin(), v.end(), t) == v.end()) v.push_back(t); } }
        return v; }
    void sync(const char* what) { std::vector<FCDocument*> v = reachable(); std::set<FCDocument*> in(v.begin(), v.end()); std::set<std::string> urls;
        for (auto it = docs.begin(); it != docs.end();) if (in.count(it->first)) ++it; else { if (!dead(it->first)) { CHECK(it->first->GetTrackerCount() > 0, "after ", what, " nothing holds ", url(it->first), " open any longer, yet it isn't released"); orphans.push_back(it->first); } it = docs.erase(it); }
        for (auto* d : v) { std::string u = url(d); CHECK(u.empty() || urls.insert(u).second, "after ", what, " the file ", u, " is open twice"); if (!docs.count(d)) { CHECK(files.count(u), "after ", what, " a document was opened from ", u, ", which was never saved"); docs[d] = files[u]; } CHECK(FCollada::IsTopDocument(d) || d->GetTrackerCount() > 0, "after ", what, " an untracked document is referenced"); }
        FCDocumentList all; FCollada::GetAllDocuments(all); std::set<FCDocument*> a(all.begin(), all.end()); CHECK(a == in && a.size() == all.size(), "after ", what, " GetAllDocuments finds ", all.size(), " documents, ", in.size(), " are open"); }
    FCDocument* open_at(const std::string& u) { for (auto& d : docs) if (url(d.first) == u) return d.first; return NULL; }
    FCDocument* any_doc() { std::vector<FCDocument*> v = reachable(); return v.empty() ? NULL : v[g.below(v.size())]; }
    static FCDEntityReference* at(FCDocument* d, const Ref& r) { switch (r.kind) {
        case NODE: { FCDSceneNode* x = d->FindSceneNode(r.key.c_str()); CHECK(x && x->GetInstanceCount() == 1, "the node ", r.key, " lost its instance in ", url(d), " to ", r.url, "#", r.id, " ", (int) r.type); return x->GetInstance(0)->GetEntityReference(); }
        case EFFECT: { FCDMaterial* x = d->FindMaterial(r.key.c_str()); CHECK(x != NULL, "the material ", r.key, " disappeared from ", url(d)); return x->GetEffectReference(); }
        case MATERIAL: { FCDSceneNode* x = d->FindSceneNode(r.key.c_str()); CHECK(x && x->GetInstanceCount() == 1, "the node ", r.key, " lost its instance in ", url(d)); FCDGeometryInstance* i = (FCDGeometryInstance*) x->GetInstance(0); CHECK(i->GetMaterialInstanceCount() == 1, "a material binding of ", r.key, " disappeared in ", url(d)); return i->GetMaterialInstance(0)->GetEntityReference(); }
        default: return d->GetVisualSceneInstanceReference(); } }
    // Looks up a reference, against the model.
    void query(FCDocument* d, size_t k, bool deref) { Ref r = docs[d].refs[k]; std::string self = url(d), what = cat("the ", r.kind == NODE ? "instance" : r.kind == EFFECT ? "effect" : r.kind == SCENE ? "scene" : "material", " reference of ", r.key.empty() ? "the scene" : r.key, " in ", self, " to ", r.url, "#", r.id, deref ? " (opening it)" : "");
        FCDocument* t = r.url == self || r.url.empty() ? d : open_at(r.url); bool loads = false; if (t != d) ++remote;
        if (!t && deref && files.count(r.url) && !r.id.empty()) loads = true;
        const std::map<std::string, FCDEntity::Type>* ids = t ? &docs[t].ids : loads ? &files[r.url].ids : NULL; bool found = ids && !r.id.empty() && ids->count(r.id) && ids->at(r.id) == r.type;
        FCollada::SetDereferenceFlag(deref); fcu::reset_asserts(); FCDEntityReference* q = at(d, r); FCDEntity* e = q->GetEntity(); bool quiet = !fcu::asserts(); FCollada::SetDereferenceFlag(false);
        if (!found) CHECK(e == NULL, what, " resolves to ", e ? S(e->GetDaeId()) : "", " although there is no such entity open");
        else {  CHECK(e != NULL, what, " resolves to nothing"); CHECK(!dead(e) && !dead(e->GetDocument()), what, " resolves to a released entity"); CHECK(S(e->GetDaeId()) == r.id && e->GetType() == r.type, what, " resolves to ", S(e->GetDaeId())); CHECK(url(e->GetDocument()) == (r.url.empty() ? self : r.url), what, " resolves to an entity of ", url(e->GetDocument())); if (t) CHECK(e->GetDocument() == t, what, " resolves to another copy of the document"); CHECK(q->GetEntity() == e, what, " resolves to something else the second time"); }
        if (found ? !loads : !deref && !t) CHECK(quiet, what, " raises an assertion"); // (what can't be found is reported)
        fcu::reset_asserts(); sync("a look-up"); CHECK(docs.count(d), "the document is closed by a look-up"); if (loads) { CHECK(open_at(r.url) != NULL, what, " doesn't open the file"); c.label("a file opened by a reference"); } }
    void query_all(bool deref) { for (auto* d : reachable()) for (size_t k = 0; k < docs[d].refs.size(); ++k) query(d, k, deref); }

    std::string add_entity(FCDocument* d, FCDEntity::Type t) { std::string id = "e" + std::to_string(n++); FCDEntity* e = NULL; switch (t) { case FCDEntity::CAMERA: e = d->GetCameraLibrary()->AddEntity(); ((FCDCamera*) e)->SetFovX(30); break; case FCDEntity::LIGHT: e = d->GetLightLibrary()->AddEntity(); break; case FCDEntity::GEOMETRY: e = d->GetGeometryLibrary()->AddEntity(); ((FCDGeometry*) e)->CreateMesh(); break; case FCDEntity::FORCE_FIELD: e = d->GetForceFieldLibrary()->AddEntity(); break; case FCDEntity::EFFECT: e = d->GetEffectLibrary()->AddEntity(); ((FCDEffect*) e)->AddProfile(FUDaeProfileType::COMMON); break;
        case FCDEntity::MATERIAL: e = d->GetMaterialLibrary()->AddEntity(); ((FCDMaterial*) e)->GetEffectReference()->SetEntity(d->GetEffectLibrary()->GetEntity(0)); break; default: e = scene(d)->AddChildNode(); } e->SetDaeId(id.c_str()); docs[d].ids[id] = t; return id; }
    static FCDSceneNode* scene(FCDocument* d) { return d->GetVisualSceneLibrary()->GetEntity(0); }
    static FCDEntity* find(FCDocument* d, const std::string& id) { return d->FindEntity(id.c_str()); }
    static FCDEntity::Type target_type(Src& g) { return g.oneof<FCDEntity::Type>({FCDEntity::CAMERA, FCDEntity::LIGHT, FCDEntity::GEOMETRY, FCDEntity::FORCE_FIELD, FCDEntity::SCENE_NODE}); }
    std::string some_id(const State& s, FCDEntity::Type t) { std::vector<std::string> v; for (auto& i : s.ids) if (i.second == t || g.chance(1, 40)) v.push_back(i.first); return v.empty() || g.chance(1, 12) ? "nothing" : g.pick(v); }
    // A new reference in the document, to an entity of the other one.
    void add_ref(FCDocument* d, FCDocument* to) { State& s = docs[d]; Ref r; r.key = "n" + std::to_string(n++); r.url = url(to); size_t w = g.below(6); r.kind = w == 0 ? EFFECT : w == 1 ? MATERIAL : NODE; r.type = r.kind == EFFECT ? FCDEntity::EFFECT : r.kind == MATERIAL ? FCDEntity::MATERIAL : target_type(g); std::vector<std::string> v; for (auto& i : docs[to].ids) if (i.second == r.type) v.push_back(i.first); if (v.empty()) return; r.id = g.pick(v); FCDEntity* e = find(to, r.id); CHECK(e != NULL, "an entity disappeared: ", r.id);
        if (r.kind == EFFECT) { FCDMaterial* m = d->GetMaterialLibrary()->AddEntity(); m->SetDaeId(r.key.c_str()); m->SetEffect((FCDEffect*) e); s.ids[r.key] = FCDEntity::MATERIAL; }
        else { FCDSceneNode* x = scene(d)->AddChildNode(); x->SetDaeId(r.key.c_str()); s.ids[r.key] = FCDEntity::SCENE_NODE; if (r.kind == NODE) { if (r.type == FCDEntity::SCENE_NODE && to == d) { Ref q = r; r.type = FCDEntity::LIGHT; r.id = add_entity(d, r.type); e = find(d, r.id); } x->AddInstance(e); } else { FCDGeometryInstance* i = (FCDGeometryInstance*) x->AddInstance(d->GetGeometryLibrary()->GetEntity(0)); FCDMaterialInstance* m = i->AddMaterialInstance((FCDMaterial*) e, "sym"); (void) m; } }
        docs[d].refs.push_back(r); }
    // (Instances of nothing are not written, and neither are ids that aren't in their own document.)
    void saved(FCDocument* d) { State s = docs[d]; std::string u = url(d); s.refs.erase(std::remove_if(s.refs.begin(), s.refs.end(), [&](const Ref& r) { return r.url.empty() || (r.url == u && !(s.ids.count(r.id) && s.ids[r.id] == r.type)); }), s.refs.end()); files[u] = s; }
    void store(FCDocument* d, const std::string& path) { std::vector<std::pair<Ref*, FCDocument*>> none; std::string was = url(d); CHECK(FCollada::SaveDocument(d, path.c_str()), "the document is not saved: ", messages().all()); std::string now = url(d); if (now != was) for (auto& x : docs) for (auto& r : x.second.refs) if (r.url == was) r.url = now; saved(d); }
};
static void history(Src& g, Ctx& c, size_t max_docs, bool deref_loads) {
    World w(g, c); FCollada::SetDereferenceFlag(false); std::string base = scratch_dir(); size_t nd = 2 + g.below(max_docs - 1); std::string log;
    for (const char* s : {"/x", "/x/y", "/z"}) mkdir((base + s).c_str(), 0700);
    for (size_t i = 0; i < nd + 2; ++i) w.paths.push_back(base + g.oneof<const char*>({"/", "/x/", "/x/y/", "/z/"}) + "f" + std::to_string(i) + ".dae");
    for (size_t i = 0; i < w.paths.size(); ++i) remove(w.paths[i].c_str());
    std::vector<FCDocument*> v; for (size_t i = 0; i < nd; ++i) { FCDocument* d = FCollada::NewTopDocument(); d->SetFileUrl(fstring(w.paths[i].c_str())); d->AddVisualScene()->SetDaeId(cat("scene", i).c_str()); w.docs[d]; v.push_back(d); Ref r{SCENE, "", World::url(d), cat("scene", i), FCDEntity::SCENE_NODE}; w.docs[d].refs.push_back(r); w.docs[d].ids[r.id] = FCDEntity::SCENE_NODE; for (auto t : {FCDEntity::EFFECT, FCDEntity::MATERIAL, FCDEntity::GEOMETRY, FCDEntity::CAMERA, FCDEntity::LIGHT, FCDEntity::FORCE_FIELD, FCDEntity::SCENE_NODE}) for (size_t k = 1 + g.below(2); k-- > 0;) w.add_entity(d, t); }
    for (size_t i = 0; i < nd; ++i) for (size_t k = g.below(6); k-- > 0;) { size_t j = g.below(nd); if (j == i && g.coin()) j = (i + 1) % nd; w.add_ref(v[i], v[j]); log += cat(" ", i, ">", j); }
    w.sync("building the documents"); w.query_all(false); for (auto* d : v) w.store(d, World::url(d));
    if (g.chance(3, 4)) { for (size_t i = v.size(); i-- > 1;) std::swap(v[i], v[g.below(i + 1)]); for (auto* d : v) { d->Release(); w.sync("the release of a document"); } }
    size_t steps = 1 + g.len(24);
    for (size_t s = 0; s < steps; ++s) { size_t op = g.below(18); FCDocument* d = w.any_doc(); c.note(log); log = cat(op); messages().clear();
        if (!d) op = 0;
        switch (op) {
        case 0: case 1: case 2: { std::vector<std::string> shut; for (auto& f : w.files) if (!w.open_at(f.first)) shut.push_back(f.first); if (shut.empty()) break; std::string f = g.pick(shut); log += "=" + f.substr(f.rfind('/') + 1); FCollada::SetDereferenceFlag(deref_loads && g.coin()); fcu::reset_asserts(); FCDocument* n = FCollada::NewTopDocument(); bool ok = FCollada::LoadDocumentFromFile(n, f.c_str()); FCollada::SetDereferenceFlag(false); CHECK(ok, f, " is not opened: ", messages().all()); CHECK(World::url(n) == f, "the document opened from ", f, " says it is ", World::url(n)); w.docs[n] = w.files[f]; w.sync("opening a file"); fcu::reset_asserts(); break; }
        case 3: case 4: { std::vector<FCDocument*> t; for (size_t i = 0; i < FCollada::GetTopDocumentCount(); ++i) t.push_back(FCollada::GetTopDocument(i)); d = g.pick(t); log += "=" + World::url(d).substr(World::url(d).rfind('/') + 1); if (d->GetTrackerCount() > 1) { ++w.widowed; c.label("a referenced document released"); } d->Release(); CHECK(World::dead(d), "the document isn't released"); w.sync("releasing a document"); break; }
        case 5: case 6: case 7: { auto& rs = w.docs[d].refs; if (!rs.empty()) w.query(d, g.below(rs.size()), true); break; }
        case 8: w.query_all(false); break;
        case 9: { w.query_all(false); std::string was = World::url(d); if (g.chance(1, 3)) { std::string p = g.pick(w.paths); if (!w.open_at(p)) { w.store(d, p); c.label("saved under another name"); } } else w.store(d, was); w.sync("saving"); break; }
        case 10: { auto& rs = w.docs[d].refs; if (rs.empty()) break; size_t k = g.below(rs.size()); FCDocument* to = w.any_doc(); std::string id = w.some_id(w.docs[to], rs[k].type); FCDEntity* e = World::find(to, id); if (rs[k].kind == SCENE ? to != d : rs[k].type == FCDEntity::SCENE_NODE && to == d) break; /* (a local node instance is a child) */ bool fits = e && e->GetType() == rs[k].type; std::string tu = World::url(to); World::at(d, rs[k])->SetEntity(fits ? e : NULL); if (fits) { rs[k].url = tu; rs[k].id = id; } else { rs[k].url.clear(); rs[k].id.clear(); } c.label("a reference moved to another entity"); w.sync("moving a reference"); break; }
        case 11: { auto& rs = w.docs[d].refs; if (rs.empty()) break; size_t k = g.below(rs.size()); std::string u = g.chance(1, 8) ? base + "/nothing.dae" : g.pick(w.paths); FCDocument* o = w.open_at(u); std::string id = o ? w.some_id(w.docs[o], rs[k].type) : w.files.count(u) ? w.some_id(w.files[u], rs[k].type) : "nothing"; if (rs[k].kind != SCENE && rs[k].type == FCDEntity::SCENE_NODE && o == d) break; World::at(d, rs[k])->SetUri(FUUri(fstring((u + "#" + id).c_str()))); rs[k].url = u; rs[k].id = id; c.label("a reference moved to another address"); w.sync("moving a reference"); break; }
        case 12: { auto& rs = w.docs[d].refs; if (rs.empty()) break; size_t k = g.below(rs.size()); if (rs[k].kind == SCENE) break; std::string key = rs[k].key; if (rs[k].kind == NODE && g.coin()) { d->FindSceneNode(key.c_str())->GetInstance(0)->Release(); } else { World::find(d, key)->Release(); for (auto& x : w.docs) for (auto& r : x.second.refs) if (x.first == d && r.id == key && r.url == World::url(d)) { r.id.clear(); r.url.clear(); } w.docs[d].ids.erase(key); } rs.erase(rs.begin() + (long) k); c.label("a reference removed"); w.sync("removing a reference"); break; }
        case 13: { std::vector<std::string> ids; for (auto& i : w.docs[d].ids) if (i.first[0] == 'e') ids.push_back(i.first); if (ids.size() < 9) break; std::string id = g.pick(ids); FCDEntity* e = World::find(d, id); if (e == d->GetEffectLibrary()->GetEntity(0) || e == d->GetGeometryLibrary()->GetEntity(0)) break; w.query_all(false); std::string u = World::url(d); e->Release(); w.docs[d].ids.erase(id); for (auto& r : w.docs[d].refs) if (r.url == u && r.id == id) { r.id.clear(); r.url.clear(); } c.label("a referenced entity released"); w.sync("releasing an entity"); break; }
        case 14: { FCDExternalReferenceManager* m = d->GetExternalReferenceManager(); if (!m->GetPlaceHolderCount()) break; FCDPlaceHolder* p = m->GetPlaceHolder(g.below(m->GetPlaceHolderCount())); std::string u = p->GetFileUrl().c_str(); bool was = w.open_at(u) != NULL; if (g.coin()) { if (!p->IsTargetLoaded()) break; p->UnloadTarget(); c.label("a target unloaded"); w.sync("unloading a target"); } else { FCDocument* t = p->GetTarget(true); if (t) { CHECK(World::url(t) == u, "the placeholder of ", u, " holds ", World::url(t)); CHECK(!was || w.open_at(u) == t, "the placeholder of ", u, " opened it again"); } else CHECK(!w.files.count(u), "the placeholder of ", u, " doesn't open it"); w.sync("asking for a target"); } fcu::reset_asserts(); break; }
        case 16: case 17: { std::vector<std::string> ids; for (auto& i : w.docs[d].ids) if (i.first[0] == 'e') ids.push_back(i.first); if (ids.empty()) break; std::string id = g.pick(ids), now = "e" + std::to_string(w.n++); FCDEntity::Type type = w.docs[d].ids[id]; w.query_all(false); std::string u = World::url(d); World::find(d, id)->SetDaeId(now.c_str()); w.docs[d].ids.erase(id); w.docs[d].ids[now] = type; for (auto& x : w.docs) for (auto& r : x.second.refs) if (r.url == u && r.id == id && r.type == type) r.id = now; c.label("a referenced entity renamed"); log += "=" + id + ">" + now; w.sync("renaming an entity"); break; } // (what is resolved follows)
        default: if (g.coin()) { d->SetCurrentTime((float) g.below(10)); break; } w.add_ref(d, w.any_doc()); w.sync("adding a reference"); }
        if (g.coin()) w.query_all(false);
    }
    w.query_all(false); while (FCollada::GetTopDocumentCount()) { FCDocument* d = FCollada::GetTopDocument(g.below(FCollada::GetTopDocumentCount())); if (d->GetTrackerCount() > 1) ++w.widowed; d->Release(); CHECK(World::dead(d), "the document isn't released"); w.sync("releasing a document"); w.query_all(false); }
    for (auto* d : w.orphans) if (!World::dead(d)) c.label("documents that keep each other open");
    c.nontrivial = w.remote >= 2 && w.widowed >= 1;
}
PBT_CASE(closed, 3000, 150000) { history(g, c, 4, false); }
PBT_CASE(dereferencing, 4000, 200000) { history(g, c, 4, true); }
