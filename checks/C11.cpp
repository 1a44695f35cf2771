// NODOCGEN
#include "fcu.h"
#include "FCollada.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDocumentTools.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDAnimation.h"
#include "FCDocument/FCDAnimationClip.h"
#include "FCDocument/FCDCamera.h"
#include "FCDocument/FCDController.h"
#include "FCDocument/FCDEffect.h"
#include "FCDocument/FCDEmitter.h"
#include "FCDocument/FCDForceField.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometrySource.h"
#include "FCDocument/FCDImage.h"
#include "FCDocument/FCDLight.h"
#include "FCDocument/FCDMaterial.h"
#include "FCDocument/FCDPhysicsMaterial.h"
#include "FCDocument/FCDPhysicsModel.h"
#include "FCDocument/FCDPhysicsScene.h"
#include "FCDocument/FCDSceneNode.h"
#include "FUtils/FUUniqueStringMap.h"
#include <map>
#include <set>
using namespace pbt;
PBT_PROPERTY("C11", "Histories of requests and releases on a name table, of creations, renamings, clones, lookups and releases over the identified objects of two documents, and of sub-ids given in a node graph, in step with a model. Non-trivial: at least one request for a name or id that is taken, and at least one release followed by a request.")
struct SetInit { SetInit() { worker_init = [] { fcu::install(); FCollada::Initialize(); }; } } setInit;
static std::string S(const fm::string& s) { return std::string(s.c_str()); }
static bool digit(char c) { return c >= '0' && c <= '9'; }
static std::string canonical(const std::string& s) { // the table keeps the number at the end of a name as 32 bits, all of them set when there is no number
    size_t n = s.size(); while (n && digit(s[n - 1])) --n; if (n == s.size()) return s; unsigned v = 0; for (size_t i = n; i < s.size(); ++i) v = v * 10u + (unsigned) (s[i] - '0'); return v == ~0u ? s.substr(0, n) : s.substr(0, n) + std::to_string(v);
}
static std::string text(Src& g, const char* from, size_t n) { std::string s; std::string f = from; for (size_t i = g.below(n + 1); i-- > 0;) s += f[g.below(f.size())]; return s; }
static std::string name(Src& g) {
    static const char* stems[] = { "a", "a", "node", "x_", "b.c", "n0de", "Lamp-", "a1b" };
    std::string s = stems[g.below(8)];
    switch (g.weighted({6, 6, 2, 1, 1, 2})) { case 0: break; case 1: s += std::to_string(g.below(6)); break; case 2: s += "0" + std::to_string(g.below(12)); break; case 3: s += std::to_string(4294967290u + g.below(12)); break; case 4: s += std::to_string(g.below(1000000000)); break; default: s += std::to_string(g.below(4)) + "x"; }
    return s;
}
PBT_CASE(table, 60000, 2000000) {
    FUSUniqueStringMap t; std::set<std::string> in; std::set<std::string> canon; std::set<std::string> once; bool taken = false, again = false;
    for (size_t n = g.steps(60); n-- > 0;) {
        if (in.empty() || g.chance(3, 5)) {
            std::string w = g.chance(1, 3) && !once.empty() ? *std::next(once.begin(), g.below(once.size())) : g.chance(1, 30) ? std::to_string(g.below(5)) : name(g); bool hit = in.count(w) > 0; c.note("+" + w);
            fm::string s = w.c_str(); t.insert(s); std::string got = S(s); CHECK(!in.count(got), "asking for ", w, " gave ", got, " which is registered");
            if (!canon.count(canonical(w))) CHECK(got == w, "asking for the free name ", w, " gave ", got); CHECK(got.compare(0, 1, w, 0, 1) == 0 || digit(w[0]), "the name given, ", got, " has nothing of ", w);
            taken |= hit; again |= once.count(got) > 0; in.insert(got); canon.insert(canonical(got)); once.insert(got);
        } else { std::string r = *std::next(in.begin(), g.below(in.size())); c.note("-" + r); t.erase(r.c_str()); in.erase(r); canon.erase(canonical(r)); }
        for (auto& s : in) CHECK(t.contains(s.c_str()), s, " is registered but not contained"); for (auto& s : once) if (!canon.count(canonical(s))) CHECK(!t.contains(s.c_str()), s, " was released but is contained");
    }
    c.nontrivial = taken && again; fcu::no_asserts("the name table");
}
// ---- documents
struct Held { FCDObjectWithId* o; int doc; std::string id; };
static void collect(FCDSceneNode* n, std::set<FCDObjectWithId*>& out) { if (!out.insert(n).second) return; for (size_t i = 0; i < n->GetChildrenCount(); ++i) collect(n->GetChild(i), out); }
static void collect(FCDAnimation* n, std::set<FCDObjectWithId*>& out) { out.insert(n); for (size_t i = 0; i < n->GetChildrenCount(); ++i) collect(n->GetChild(i), out); }
template <class T> static void each(FCDLibrary<T>* l, std::set<FCDObjectWithId*>& out) { for (size_t i = 0; i < l->GetEntityCount(); ++i) out.insert(l->GetEntity(i)); }
static std::set<FCDObjectWithId*> live(FCDocument* d) {
    std::set<FCDObjectWithId*> s; each(d->GetCameraLibrary(), s); each(d->GetLightLibrary(), s); each(d->GetImageLibrary(), s); each(d->GetMaterialLibrary(), s); each(d->GetEffectLibrary(), s); each(d->GetControllerLibrary(), s); each(d->GetForceFieldLibrary(), s); each(d->GetEmitterLibrary(), s); each(d->GetPhysicsMaterialLibrary(), s); each(d->GetPhysicsModelLibrary(), s); each(d->GetPhysicsSceneLibrary(), s); each(d->GetAnimationClipLibrary(), s); each(d->GetGeometryLibrary(), s);
    for (size_t i = 0; i < d->GetGeometryLibrary()->GetEntityCount(); ++i) if (FCDGeometryMesh* m = d->GetGeometryLibrary()->GetEntity(i)->GetMesh()) for (size_t k = 0; k < m->GetSourceCount(); ++k) s.insert(m->GetSource(k));
    for (size_t i = 0; i < d->GetVisualSceneLibrary()->GetEntityCount(); ++i) collect(d->GetVisualSceneLibrary()->GetEntity(i), s);
    for (size_t i = 0; i < d->GetAnimationLibrary()->GetEntityCount(); ++i) collect(d->GetAnimationLibrary()->GetEntity(i), s);
    return s;
}
template <class F> static auto with_library(FCDocument* d, unsigned kind, F f) {
    switch (kind) {
    case 0: return f(d->GetCameraLibrary()); case 1: return f(d->GetLightLibrary()); case 2: return f(d->GetImageLibrary()); case 3: return f(d->GetMaterialLibrary()); case 4: return f(d->GetEffectLibrary()); case 5: return f(d->GetForceFieldLibrary()); case 6: return f(d->GetEmitterLibrary()); case 7: return f(d->GetPhysicsMaterialLibrary()); case 8: return f(d->GetPhysicsModelLibrary()); case 9: return f(d->GetPhysicsSceneLibrary()); case 10: return f(d->GetAnimationClipLibrary()); case 11: return f(d->GetControllerLibrary()); case 12: return f(d->GetAnimationLibrary()); case 13: return f(d->GetGeometryLibrary()); default: return f(d->GetVisualSceneLibrary()); }
}
static bool valid_id(const std::string& s) { if (s.empty() || !(isalpha((unsigned char) s[0]) || s[0] == '_')) return false; for (unsigned char ch : s) if (ch > 127 || !(isalnum(ch) || ch == '_' || ch == '-' || ch == '.')) return false; return true; }
static FCDEntity* lookup(FCDocument* d, FCDObjectWithId* o, const fm::string& id, std::string& how) {
    FCDObjectWithId* e = o; if (e->HasType(FCDCamera::GetClassType())) { how = "FindCamera"; return d->FindCamera(id); } if (e->HasType(FCDLight::GetClassType())) { how = "FindLight"; return d->FindLight(id); } if (e->HasType(FCDImage::GetClassType())) { how = "FindImage"; return d->FindImage(id); }
    if (e->HasType(FCDMaterial::GetClassType())) { how = "FindMaterial"; return d->FindMaterial(id); } if (e->HasType(FCDEffect::GetClassType())) { how = "FindEffect"; return d->FindEffect(id); } if (e->HasType(FCDForceField::GetClassType())) { how = "FindForceField"; return d->FindForceField(id); } if (e->HasType(FCDEmitter::GetClassType())) { how = "FindEmitter"; return d->FindEmitter(id); }
    if (e->HasType(FCDPhysicsMaterial::GetClassType())) { how = "FindPhysicsMaterial"; return d->FindPhysicsMaterial(id); } if (e->HasType(FCDPhysicsModel::GetClassType())) { how = "FindPhysicsModel"; return d->FindPhysicsModel(id); } if (e->HasType(FCDPhysicsScene::GetClassType())) { how = "FindPhysicsScene"; return d->FindPhysicsScene(id); }
    if (e->HasType(FCDAnimationClip::GetClassType())) { how = "FindAnimationClip"; return d->FindAnimationClip(id); } if (e->HasType(FCDController::GetClassType())) { how = "FindController"; return d->FindController(id); } if (e->HasType(FCDAnimation::GetClassType())) { how = "FindAnimation"; return d->FindAnimation(id); } if (e->HasType(FCDGeometry::GetClassType())) { how = "FindGeometry"; return d->FindGeometry(id); }
    how = "FindSceneNode"; return d->FindSceneNode(id.c_str());
}
struct World {
    Ctx& c; FCDocument* d[2]; std::map<FCDObjectWithId*, Held> known; std::set<std::string> released; bool all_known[2] = { true, true }; bool hit = false, reuse = false;
    World(Ctx& c_) : c(c_) { for (auto& x : d) x = FCollada::NewTopDocument(); }
    ~World() { for (auto* x : d) x->Release(); }
    int doc_of(FCDObjectWithId* o) { return o->GetDocument() == d[0] ? 0 : 1; }
    void prune() { std::set<FCDObjectWithId*> l[2] = { live(d[0]), live(d[1]) }; for (auto i = known.begin(); i != known.end();) if (!l[0].count(i->first) && !l[1].count(i->first)) { released.insert(i->second.id); i = known.erase(i); } else ++i; }
    void learn(FCDObjectWithId* o) { std::string id = S(o->GetDaeId()); CHECK(valid_id(id), "the id '", id, "' is not an identifier"); int k = doc_of(o);
        for (auto& x : known) if (x.first != o && x.second.doc == k) CHECK(x.second.id != id, "two objects have the id ", id);
        auto f = known.find(o); if (f != known.end()) CHECK(f->second.id == id, "the id of an object changed from ", f->second.id, " to ", id); known[o] = { o, k, id }; }
    void verify(bool all) {
        for (auto& x : known) { std::string id = S(x.first->GetDaeId()); CHECK(id == x.second.id, "the id of an object changed from ", x.second.id, " to ", id); }
        if (all) for (int k = 0; k < 2; ++k) { for (auto* o : live(d[k])) learn(o); all_known[k] = true; }
    }
    bool free_id(int k, const std::string& s) { for (auto& x : known) if (x.second.doc == k && canonical(x.second.id) == canonical(s)) return false; return true; }
    void rename(Src& g, FCDObjectWithId* o, const std::string& want) {
        int k = doc_of(o); known.erase(o); std::string clean; for (size_t i = 0; i < want.size() && i < 512; ++i) { unsigned char ch = want[i]; bool ok = ch < 128 && (isalpha(ch) || ch == '_' || (i && (isdigit(ch) || ch == '-' || ch == '.'))); clean += ok ? (char) ch : '_'; }
        bool avail = free_id(k, clean); hit |= !avail; reuse |= avail && released.count(clean);
        if (g.coin()) { fm::string s = want.c_str(); o->SetDaeId(s); CHECK(s == o->GetDaeId(), "the id given back is not that of the object"); } else { const fm::string s = want.c_str(); o->SetDaeId(s); }
        if (all_known[k] && avail) CHECK(S(o->GetDaeId()) == clean, "the free id ", clean, " was given as ", S(o->GetDaeId()));
        learn(o);
    }
};
PBT_CASE(documents, 25000, 600000) {
    World w(c); std::vector<std::string> used;
    for (size_t n = g.steps(40); n-- > 0;) {
        int k = g.chance(1, 4) ? 1 : 0; FCDocument* d = w.d[k]; std::set<FCDObjectWithId*> l = live(d); std::vector<FCDObjectWithId*> v(l.begin(), l.end());
        std::sort(v.begin(), v.end(), [](FCDObjectWithId* a, FCDObjectWithId* b) { return a->GetObjectType().GetTypeName() != b->GetObjectType().GetTypeName() ? std::string(a->GetObjectType().GetTypeName()) < b->GetObjectType().GetTypeName() : S(a->GetDaeId()) < S(b->GetDaeId()); });
        if (!v.empty()) w.all_known[k] = false; FCDObjectWithId* o = v.empty() ? NULL : v[g.below(v.size())]; unsigned kind = (unsigned) g.below(15);
        switch (o ? g.weighted({5, 6, 2, 4, 4, 2, 3}) : 0) {
        case 0: { FCDObjectWithId* e = with_library(d, kind, [](auto* lib) -> FCDObjectWithId* { return lib->AddEntity(); }); c.note(cat("create kind ", kind));
            if (kind >= 14) for (size_t m = g.len(3); m-- > 0;) { FCDSceneNode* ch = ((FCDSceneNode*) e)->AddChildNode(); if (g.coin()) ch->AddChildNode(); }
            if (kind == 12) for (size_t m = g.len(2); m-- > 0;) ((FCDAnimation*) e)->AddChild();
            if (kind == 13) { FCDGeometryMesh* m = ((FCDGeometry*) e)->CreateMesh(); for (size_t q = g.len(3); q-- > 0;) m->AddSource(FUDaeGeometryInput::NORMAL); }
            w.all_known[k] = false; if (g.coin()) w.learn(e); break; }
        case 1: { std::string want = !used.empty() && g.chance(1, 3) ? used[g.below(used.size())] : !w.released.empty() && g.chance(1, 3) ? *std::next(w.released.begin(), g.below(w.released.size())) : !w.known.empty() && g.chance(1, 3) ? std::next(w.known.begin(), g.below(w.known.size()))->second.id : g.chance(1, 8) ? std::string(g.below(3) ? 600 : 511 + g.below(3), 'z') : g.chance(1, 6) ? text(g, "ab1 :#\xc3\xa9-._", 6) + "q" : name(g);
            if (want.empty()) want = "q"; c.note("rename to " + want.substr(0, 40)); used.push_back(want); w.rename(g, o, want); break; }
        case 2: c.note("forget an id"); { auto f = w.known.find(o); if (f != w.known.end()) { w.released.insert(f->second.id); w.known.erase(f); } } o->RemoveDaeId(); w.all_known[k] = false; break;
        case 3: { if (!o->HasType(FCDEntity::GetClassType())) { w.learn(o); break; } c.note("release"); std::string id = S(o->GetDaeId()); w.learn(o); ((FCDEntity*) o)->Release(); w.prune(); break; }
        case 4: { if (!o->HasType(FCDEntity::GetClassType()) || (o->HasType(FCDSceneNode::GetClassType()) && g.coin())) break; FCDocument* to = w.d[g.chance(1, 3) ? 1 - k : k]; int tk = to == w.d[0] ? 0 : 1; c.note(to == d ? "clone" : "clone into the other document");
            if (g.coin()) w.learn(o); FCDEntity* e = (FCDEntity*) o; bool named = g.chance(1, 3), kids = g.coin(); FCDEntity* copy = NULL; FCDObjectWithId* created = NULL;
            for (unsigned q = 0; q < 15 && !created; ++q) created = with_library(w.d[0], q, [&](auto* lib) -> FCDObjectWithId* { if (lib->GetEntityCount() == 0) return NULL; if (&lib->GetEntity(0)->GetObjectType() != &e->GetObjectType()) return NULL; return lib->GetEntity(0); }) ? (FCDObjectWithId*) with_library(to, q, [](auto* lib) -> FCDObjectWithId* { return lib->AddEntity(); }) : NULL;
            if (!created) break; copy = (FCDEntity*) created; if (named) w.rename(g, copy, name(g)); if (w.known.count(copy)) { w.released.insert(w.known[copy].id); w.known.erase(copy); } w.all_known[tk] = w.all_known[k] = false; w.hit = true;
            e->Clone(copy, kids); if (g.coin()) w.learn(copy); if (g.coin()) w.learn(e); break; }
        case 5: { if (!o->HasType(FCDSceneNode::GetClassType())) break; c.note("add a child node"); w.learn(((FCDSceneNode*) o)->AddChildNode()); break; }
        default: { w.learn(o); if (!o->HasType(FCDEntity::GetClassType())) break; std::string how; fm::string id = o->GetDaeId(); c.note("find " + S(id)); FCDEntity* f = lookup(d, o, id, how); CHECK((FCDObjectWithId*) f == o, how, "(", S(id), ") finds ", f ? "another object" : "nothing");
            f = d->FindEntity(id); CHECK((FCDObjectWithId*) f == o, "FindEntity(", S(id), ") finds ", f ? "another object" : "nothing"); CHECK(d->FindEntity(id + "-nobody") == NULL, "an id nobody has is found"); break; }
        }
        w.verify(g.coin()); fcu::no_asserts("the step");
    }
    w.verify(true);
    for (int k = 0; k < 2; ++k) for (auto* o : live(w.d[k])) if (o->HasType(FCDEntity::GetClassType())) { std::string how; fm::string id = o->GetDaeId(); CHECK((FCDObjectWithId*) lookup(w.d[k], o, id, how) == o, how, "(", S(id), ") does not find the object"); CHECK((FCDObjectWithId*) w.d[k]->FindEntity(id) == o, "FindEntity(", S(id), ") does not find the object"); } else { std::string id = S(o->GetDaeId()); bool found = false; for (size_t i = 0; i < w.d[k]->GetGeometryLibrary()->GetEntityCount(); ++i) { auto* m = w.d[k]->GetGeometryLibrary()->GetEntity(i)->GetMesh(); if (m) { auto* s = m->FindSourceById(id.c_str()); if (s) { CHECK((FCDObjectWithId*) s == o, "FindSourceById finds another source"); found = true; } } } CHECK(found, "FindSourceById(", id, ") finds nothing"); }
    c.nontrivial = w.hit && w.reuse; if (w.hit) c.label("an id that is taken was asked for"); if (w.reuse) c.label("a released id was asked for again");
}
// ---- sub-ids of nodes
static bool valid_sid(const std::string& s) { if (s.empty() || !(isalpha((unsigned char) s[0]) || s[0] == '_')) return false; for (unsigned char ch : s) if (ch > 127 || !(isalnum(ch) || ch == '_' || ch == '-')) return false; return true; }
PBT_CASE(subids, 40000, 1000000) {
    FCDocument* d = FCollada::NewTopDocument(); std::vector<FCDSceneNode*> v; std::vector<std::set<size_t>> kids; bool hit = false, two = false; v.push_back(d->AddVisualScene()); kids.push_back({});
    auto reach = [&](size_t from) { std::set<size_t> s; std::vector<size_t> q(kids[from].begin(), kids[from].end()); while (!q.empty()) { size_t x = q.back(); q.pop_back(); if (s.insert(x).second) q.insert(q.end(), kids[x].begin(), kids[x].end()); } return s; };
    for (size_t n = g.steps(30); n-- > 0;) {
        size_t i = g.below(v.size());
        if (v.size() < 2 || g.chance(1, 3)) { kids[i].insert(v.size()); v.push_back(v[i]->AddChildNode()); kids.push_back({}); c.note(cat("node ", v.size() - 1, " below ", i)); }
        else if (g.chance(1, 4)) { size_t j = 1 + g.below(v.size() - 1); bool bad = i == j || kids[i].count(j) || reach(j).count(i); bool conflict = false; if (bad) continue;
            auto below = reach(j); below.insert(j); std::set<size_t> above; for (size_t x = 0; x < v.size(); ++x) if (x == i || reach(x).count(i)) above.insert(x);
            for (auto x : above) for (auto y : below) conflict |= !v[x]->GetSubId().empty() && v[x]->GetSubId() == v[y]->GetSubId(); if (conflict) continue; // linking does not rename
            CHECK(v[i]->AddChildNode(v[j]), "the node is added"); kids[i].insert(j); two = true; c.note(cat("node ", j, " also below ", i)); }
        else { std::string want = g.coin() ? S(v[g.below(v.size())]->GetSubId()) : g.chance(1, 6) ? text(g, "a1 :#.-_", 3) : g.chance(1, 12) ? "" : name(g); c.note(cat("node ", i, " wants ", want)); v[i]->SetSubId(want.c_str()); std::string got = S(v[i]->GetSubId());
            if (want.empty()) { CHECK(got.empty(), "an empty sub-id became ", got); continue; }
            CHECK(valid_sid(got), "asking for the sub-id '", want, "' gave '", got, "' which is not an identifier"); auto down = reach(i); bool taken = false; std::string clean = S(FCDObjectWithId::CleanSubId(want.c_str()));
            for (size_t x = 0; x < v.size(); ++x) if (x != i && (down.count(x) || reach(x).count(i))) { CHECK(S(v[x]->GetSubId()) != got, "node ", i, " was given ", got, ", the sub-id of node ", x, down.count(x) ? " below it" : " above it"); taken |= S(v[x]->GetSubId()) == clean; }
            hit |= taken; if (!taken) CHECK(got == clean, "the free sub-id ", clean, " was given as ", got); CHECK(v[i]->FindSubId(got.c_str()) == v[i], "the node is not found by its sub-id"); CHECK(v[0]->FindSubId(got.c_str()) != NULL, "the sub-id is not found from the root"); }
        fcu::no_asserts("the step");
    }
    c.nontrivial = hit; if (two && hit) c.label("a taken sub-id in a graph with shared nodes"); d->Release();
}
