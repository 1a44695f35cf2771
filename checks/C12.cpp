// LIB: small
#include "fcu.h"
#include <algorithm>
#include <tuple>
#include "FUtils/FUTracker.h"
#include "FUtils/FUEvent.h"
#include <memory>
using namespace pbt;

PBT_PROPERTY("C12", "Histories over a pool of trackable objects (which may own each other), owning references and containers, tracking pointers, tracking lists, a custom tracker and an event, run in step with a model; the set of live objects, every reference, list and tracker count is compared after each step. Non-trivial: at least one release while some tracker or owner refers to the object.")
static void init() { fcu::install(); }
struct SetInit { SetInit() { worker_init = init; } } setInit;

static std::map<int, FUTrackable*> alive;
static std::vector<int> destroyed;
class Node : public FUTrackable {
    DeclareObjectType(FUTrackable, Node)
public:
    int id; int* heap; FUObjectContainer<Node> kids; FUObjectRef<Node> single;
    Node(int i = -1) : id(i), heap(new int(i)) { if (alive.count(i)) fail("id reused"); alive[i] = this; }
    ~Node() { if (*heap != id) fail("corrupted object"); delete heap; alive.erase(id); destroyed.push_back(id); }
    void touch() const { if (*heap != id) fail("dangling object"); }
};
ImplementObjectType(Node)

class Watch : public FUTracker {
public:
    std::vector<int> seen; std::set<int> on;
    void OnObjectReleased(FUTrackable* o) override { int id = -1; for (auto& a : alive) if (a.second == o) id = a.first; if (id < 0) { for (auto i : on) if (!alive.count(i)) id = i; } seen.push_back(id); on.erase(id); }
    void track(Node* n) { TrackObject(n); on.insert(n->id); }
    void untrack(Node* n) { UntrackObject(n); on.erase(n->id); }
};

struct Model {
    // owner of each live object: -1 free, 0..9 ref slot, 100.. container slot, 1000+id child of id, 5000+id single of id
    std::map<int, int> owner;
    std::map<int, std::vector<int>> cont;        // 100.. and 1000+id -> ordered content
    std::map<int, int> ref;                      // slot or 5000+id -> object
    std::vector<int> tp; std::vector<std::vector<int>> tl; std::set<int> watch;
    std::multiset<int> watchSeen;
    bool under(int a, int b) const {             // is a == b or inside b
        for (int x = a;;) { if (x == b) return true; int o = owner.at(x); if (o >= 5000) x = o - 5000; else if (o >= 1000) x = o - 1000; else return false; }
    }
    void unlink(int x) {                         // remove from its owner
        int o = owner.at(x);
        if (o < 0) return;
        if (ref.count(o) && ref[o] == x) ref.erase(o);
        auto c = cont.find(o); if (c != cont.end()) c->second.erase(std::remove(c->second.begin(), c->second.end(), x), c->second.end());
        owner[x] = -1;
    }
    void release(int x) {
        unlink(x);
        std::vector<int> all; for (auto& p : owner) if (under(p.first, x)) all.push_back(p.first);
        for (int d : all) {
            for (auto& t : tp) if (t == d) t = -1;
            for (auto& l : tl) l.erase(std::remove(l.begin(), l.end(), d), l.end());
            if (watch.erase(d)) watchSeen.insert(d);
            cont.erase(1000 + d); ref.erase(5000 + d);
        }
        for (int d : all) owner.erase(d);
    }
};

PBT_CASE(history, 120000, 3000000) {
    alive.clear(); destroyed.clear();
    Model m; int next = 0; bool interesting = false;
    const int NR = 3, NC = 2, NP = 4, NL = 3;
    std::vector<std::unique_ptr<FUObjectRef<Node>>> refs; for (int i = 0; i < NR; ++i) refs.emplace_back(new FUObjectRef<Node>());
    std::vector<std::unique_ptr<FUObjectContainer<Node>>> cs; for (int i = 0; i < NC; ++i) cs.emplace_back(new FUObjectContainer<Node>());
    std::vector<std::unique_ptr<FUTrackedPtr<Node>>> tps; for (int i = 0; i < NP; ++i) { tps.emplace_back(new FUTrackedPtr<Node>()); m.tp.push_back(-1); }
    std::vector<std::unique_ptr<FUTrackedList<Node>>> tls; for (int i = 0; i < NL; ++i) { tls.emplace_back(new FUTrackedList<Node>()); m.tl.emplace_back(); }
    Watch watch; 
    for (int i = 0; i < NC; ++i) m.cont[100 + i];
    auto obj = [&](int id) { return (Node*) alive.at(id); };
    auto anyLive = [&]() -> int { if (m.owner.empty()) return -1; auto it = m.owner.begin(); std::advance(it, g.below(m.owner.size())); return it->first; };
    auto anyFree = [&]() -> int { std::vector<int> f; for (auto& p : m.owner) if (p.second == -1) f.push_back(p.first); return f.empty() ? -1 : f[g.below(f.size())]; };
    auto slotCont = [&](int& key) -> FUObjectContainer<Node>* {     // top-level container or an object's own one
        if (!m.owner.empty() && g.coin()) { int id = anyLive(); key = 1000 + id; m.cont[key]; return &obj(id)->kids; }
        int i = (int) g.below(NC); key = 100 + i; return cs[i].get(); };
    auto slotRef = [&](int& key) -> FUObjectRef<Node>* {
        if (!m.owner.empty() && g.chance(1, 3)) { int id = anyLive(); key = 5000 + id; return &obj(id)->single; }
        int i = (int) g.below(NR); key = i; return refs[i].get(); };
    auto ownerOfKey = [&](int key) { return key >= 5000 ? key - 5000 : key >= 1000 ? key - 1000 : -1; };
    auto note = [&](const char* s, int a = -999, int b = -999) { c.note(a == -999 ? s : b == -999 ? cat(s, " ", a) : cat(s, " ", a, " ", b)); };
    size_t nops = g.steps(60);
    for (size_t k = 0; k < nops; ++k) {
        int op = (int) g.weighted({8, 6, 3, 6, 3, 3, 2, 6, 6, 3, 5, 5, 3, 3, 3, 2, 2, 3, 3, 2, 2, 2, 2, 2, 2});
        switch (op) {
        case 0: { int id = next++; new Node(id); m.owner[id] = -1; note("new", id); break; }
        case 1: { int f = anyFree(); if (f < 0) break; int key; auto* r = slotRef(key); if (ownerOfKey(key) >= 0 && m.under(ownerOfKey(key), f)) break;
                  note("ref=", key, f); if (m.ref.count(key)) { int old = m.ref[key]; m.release(old); }
                  if (!m.owner.count(f)) break;
                  *r = obj(f); m.ref[key] = f; m.owner[f] = key; break; }
        case 2: { int key; auto* r = slotRef(key); note("ref=NULL", key); if (m.ref.count(key)) m.release(m.ref[key]); *r = (Node*) NULL; break; }
        case 3: { int f = anyFree(); if (f < 0) break; int key; auto* cn = slotCont(key); if (ownerOfKey(key) >= 0 && m.under(ownerOfKey(key), f)) break;
                  if (g.coin()) { note("push", key, f); cn->push_back(obj(f)); m.cont[key].push_back(f); }
                  else { size_t i = g.below(m.cont[key].size() + 1); note("insert", key, f); if (g.coin()) cn->insert(i, obj(f)); else { auto it = cn->insert(cn->begin() + i, obj(f)); CHECK(*it == obj(f), "insert result"); } m.cont[key].insert(m.cont[key].begin() + i, f); }
                  m.owner[f] = key; break; }
        case 4: { int key; auto* cn = slotCont(key); int id = next++; note("Add", key, id); Node* n = cn->Add(id); CHECK(n->id == id, "Add"); m.owner[id] = key; m.cont[key].push_back(id); break; }
        case 5: { int key; auto* cn = slotCont(key); auto v = m.cont[key]; if (v.empty()) break; size_t i = g.below(v.size()); note("erase", key, v[i]); int x = v[i];
                  if (m.watch.count(x) || true) interesting = true;
                  m.release(x);
                  switch (g.below(3)) { case 0: cn->erase(i); break; case 1: cn->erase(cn->begin() + i); break; default: CHECK(cn->erase(obj(x)), "erase by value"); } break; }
        case 6: { int key; auto* cn = slotCont(key); auto v = m.cont[key]; if (v.empty()) break; size_t i = g.below(v.size()), j = i + 1 + g.below(v.size() - i); note("erase range", (int) i, (int) j); for (size_t q = i; q < j; ++q) m.release(v[q]); if (g.coin()) cn->erase(i, j); else cn->erase(cn->begin() + i, cn->begin() + j); break; }
        case 7: { int x = anyLive(); if (x < 0) break; note("release", x); for (int t : m.tp) if (t == x) interesting = true; if (m.owner[x] != -1) interesting = true; for (auto& l : m.tl) if (std::find(l.begin(), l.end(), x) != l.end()) interesting = true; Node* n = obj(x); m.release(x); n->Release(); break; }
        case 8: { int i = (int) g.below(NP); int x = g.chance(1, 6) ? -1 : anyLive(); note("tp=", i, x); *tps[i] = x < 0 ? (Node*) NULL : obj(x); m.tp[i] = x; break; }
        case 9: { int i = (int) g.below(NP), j = (int) g.below(NP); note("tp=tp", i, j); *tps[i] = *tps[j]; m.tp[i] = m.tp[j]; break; }
        case 10: { int i = (int) g.below(NL), x = anyLive(); auto& v = m.tl[i]; if (x < 0 || std::find(v.begin(), v.end(), x) != v.end()) break; note("tl push", i, x); tls[i]->push_back(obj(x)); v.push_back(x); break; }
        case 11: { int i = (int) g.below(NL), x = anyLive(); auto& v = m.tl[i]; if (x < 0 || std::find(v.begin(), v.end(), x) != v.end()) break; size_t p = g.below(v.size() + 1); note("tl insert", i, x); if (g.coin()) tls[i]->insert(p, obj(x)); else tls[i]->insert(tls[i]->begin() + p, obj(x)); v.insert(v.begin() + p, x); break; }
        case 12: { int i = (int) g.below(NL); auto& v = m.tl[i]; if (v.empty()) break; size_t p = g.below(v.size()); note("tl erase", i, v[p]); switch (g.below(3)) { case 0: tls[i]->erase(p); break; case 1: tls[i]->erase(tls[i]->begin() + p); break; default: CHECK(tls[i]->erase(obj(v[p])), "erase by value"); } v.erase(v.begin() + p); break; }
        case 13: { int i = (int) g.below(NL); auto& v = m.tl[i]; if (v.empty()) break; note("tl pop", i); if (g.coin()) { tls[i]->pop_back(); v.pop_back(); } else { tls[i]->pop_front(); v.erase(v.begin()); } break; }
        case 14: { int i = (int) g.below(NL), j = (int) g.below(NL); note("tl=tl", i, j); *tls[i] = *tls[j]; m.tl[i] = m.tl[j]; break; }
        case 15: { int i = (int) g.below(NL), j = (int) g.below(NL); if (i == j) break; note("tl copy", i, j); tls[i].reset(new FUTrackedList<Node>(*tls[j])); m.tl[i] = m.tl[j]; break; }
        case 16: { int i = (int) g.below(NL); note("tl clear/destroy", i); if (g.coin()) tls[i]->clear(); else tls[i].reset(new FUTrackedList<Node>()); m.tl[i].clear(); break; }
        case 17: { int i = (int) g.below(NP), j = (int) g.below(NP); if (i == j) break; note("tp copy", i, j); tps[i].reset(g.coin() ? new FUTrackedPtr<Node>(*tps[j]) : new FUTrackedPtr<Node>((Node*) *tps[j])); m.tp[i] = m.tp[j]; break; }
        case 18: { int i = (int) g.below(NL); auto& v = m.tl[i]; std::vector<int> add; std::vector<Node*> p; for (auto& o : m.owner) if (std::find(v.begin(), v.end(), o.first) == v.end() && g.chance(1, 3)) { add.push_back(o.first); p.push_back(obj(o.first)); } if (add.empty()) break; size_t at = g.below(v.size() + 1); note("tl insert range", i, (int) add.size()); tls[i]->insert(tls[i]->begin() + at, p.begin(), p.end()); v.insert(v.begin() + at, add.begin(), add.end()); break; }
        case 19: { int i = (int) g.below(NR), j = (int) g.below(NR); note("ref=ref", i, j); if (i != j) { if (m.ref.count(i)) m.release(m.ref[i]); if (m.ref.count(j)) { m.ref[i] = m.ref[j]; m.ref.erase(j); m.owner[m.ref[i]] = i; } } *refs[i] = *refs[j]; break; }
        case 20: { int key; auto* cn = slotCont(key); auto v = m.cont[key]; if (v.empty()) break; size_t i = g.below(v.size()), j = i + 1; note("detach", key, v[i]); 
                   switch (g.below(3)) { case 0: cn->Detach(cn->begin() + i); break; case 1: CHECK(cn->Detach(obj(v[i])), "Detach by value"); break; default: j = i + 1 + g.below(v.size() - i); cn->Detach(i, j); } for (size_t q = i; q < j; ++q) m.unlink(v[q]); break; }
        case 21: { int key; auto* cn = slotCont(key); auto v = m.cont[key]; switch (g.below(3)) { case 0: if (v.empty()) break; note("c pop_back", key); m.release(v.back()); cn->pop_back(); break; case 1: if (v.empty()) break; note("c pop_front", key); m.release(v.front()); cn->pop_front(); break; default: note("c clear", key); for (int x : v) m.release(x); cn->clear(); } break; }
        case 22: { int x = anyLive(); if (x < 0) break; if (m.watch.count(x)) { note("unwatch", x); watch.untrack(obj(x)); m.watch.erase(x); } else { note("watch", x); watch.track(obj(x)); m.watch.insert(x); } break; }
        case 23: { int i = (int) g.below(NC); std::vector<int> add; std::vector<Node*> p; for (auto& o : m.owner) if (o.second == -1 && g.coin()) { add.push_back(o.first); p.push_back(obj(o.first)); } if (add.empty()) break; auto& v = m.cont[100 + i]; size_t at = g.below(v.size() + 1); note("c insert range", i, (int) add.size()); cs[i]->insert(cs[i]->begin() + at, p.begin(), p.end()); v.insert(v.begin() + at, add.begin(), add.end()); for (int a : add) m.owner[a] = 100 + i; break; }
        default: { int i = (int) g.below(NL); auto v = m.tl[i]; if (v.empty()) break; int x = v[g.below(v.size())]; note("tl release", i, x); Node* n = obj(x); m.release(x); CHECK(tls[i]->release(n), "release by value"); break; }
        }
        fcu::no_asserts("history step");
        // compare
        CHECK_EQ(alive.size(), m.owner.size(), "number of live objects after step ", k);
        for (auto& p : m.owner) CHECK(alive.count(p.first), "object ", p.first, " destroyed");
        std::map<int, size_t> trackers;
        for (int i = 0; i < NP; ++i) { Node* n = *tps[i]; CHECK(n == (m.tp[i] < 0 ? NULL : obj(m.tp[i])), "tracking pointer ", i, " after step ", k); if (n) { n->touch(); ++trackers[m.tp[i]]; CHECK(tps[i]->TracksObject(n), "TracksObject"); } }
        for (int i = 0; i < NL; ++i) { CHECK_EQ(tls[i]->size(), m.tl[i].size(), "tracking list ", i, " size after step ", k); CHECK_EQ(tls[i]->empty(), m.tl[i].empty(), "empty"); size_t q = 0; for (auto it = tls[i]->begin(); it != tls[i]->end(); ++it, ++q) { CHECK(*it == obj(m.tl[i][q]), "tracking list ", i, " element ", q, " after step ", k); (*it)->touch(); ++trackers[m.tl[i][q]]; } CHECK_EQ(q, m.tl[i].size(), "iteration"); 
            for (auto& o : m.owner) CHECK_EQ(tls[i]->contains(obj(o.first)), std::find(m.tl[i].begin(), m.tl[i].end(), o.first) != m.tl[i].end(), "contains"); }
        for (int w : m.watch) ++trackers[w];
        for (auto& p : m.owner) { CHECK_EQ(obj(p.first)->GetTrackerCount(), trackers[p.first], "tracker count of ", p.first, " after step ", k); CHECK_EQ(((FUTracker&) watch).TracksObject(obj(p.first)), m.watch.count(p.first) > 0, "watched"); }
        CHECK(watch.on == m.watch, "watch set after step ", k); CHECK(std::multiset<int>(watch.seen.begin(), watch.seen.end()) == m.watchSeen, "release notifications after step ", k);
        auto cmpRef = [&](FUObjectRef<Node>& r, int key) { Node* n = r; auto f = m.ref.find(key); CHECK(n == (f == m.ref.end() ? NULL : obj(f->second)), "owning reference ", key, " after step ", k); };
        auto cmpCont = [&](FUObjectContainer<Node>& cn, int key) { auto& v = m.cont[key]; CHECK_EQ(cn.size(), v.size(), "container ", key, " size after step ", k); for (size_t q = 0; q < v.size(); ++q) { CHECK(cn.at(q) == obj(v[q]), "container ", key, " element ", q, " after step ", k); CHECK(cn.contains(obj(v[q])), "contains"); } };
        for (int i = 0; i < NR; ++i) cmpRef(*refs[i], i);
        for (int i = 0; i < NC; ++i) cmpCont(*cs[i], 100 + i);
        for (auto& p : m.owner) { cmpRef(obj(p.first)->single, 5000 + p.first); cmpCont(obj(p.first)->kids, 1000 + p.first); }
    }
    c.nontrivial = interesting;
    // Teardown in a generated order.
    for (int w : std::set<int>(m.watch)) watch.untrack(obj(w));
    bool first = g.coin();
    if (first) { tps.clear(); tls.clear(); }
    for (auto& p : std::map<int, int>(m.owner)) if (p.second == -1) { Node* n = obj(p.first); n->Release(); }
    refs.clear(); cs.clear();
    CHECK(alive.empty(), alive.size(), " objects leaked");
    if (!first) { for (auto& t : tps) CHECK((Node*) *t == NULL, "tracking pointer after teardown"); for (auto& t : tls) CHECK(t->empty(), "tracking list after teardown"); }
    std::vector<int> d = destroyed; std::sort(d.begin(), d.end()); CHECK_EQ(d.size(), (size_t) next, "destructions"); for (int i = 0; i < next; ++i) CHECK_EQ(d[i], i, "destruction");
    fcu::no_asserts("teardown");
}

PBT_CASE(events, 150000, 3000000) {
    FUEvent<int, const std::string&> e; struct H { void* o; int id; bool once; };
    std::vector<H> m; static char objs[4], once[64]; std::vector<std::pair<int, int>> calls; int next = 0; size_t nops = g.steps(30); bool rel = false;
    for (size_t k = 0; k < nops; ++k) {
        switch (g.below(5)) {
        case 0: case 1: { void* o = &objs[g.below(4)]; int id = next++; std::string keep(g.below(40), 'k'); e.InsertHandler(o, [&calls, id, keep](int a, const std::string& s) { calls.push_back({id, a}); if (s != std::string("arg")) fail("argument"); if (!keep.empty() && keep[0] != 'k') fail("handler state"); }); m.push_back({o, id, false}); c.note("insert"); break; }
        case 2: { void* o = &objs[g.below(4)]; c.note(cat("release ", (char*) o - objs)); auto it = std::find_if(m.begin(), m.end(), [&](const H& h) { return h.o == o; }); if (it != m.end()) { m.erase(it); rel = true; } e.ReleaseHandler(o); break; }
        case 3: { if (next >= 64) break; int id = next++; void* o = &once[id]; FUEvent<int, const std::string&>* pe = &e; auto* pc = &calls; e.InsertHandler(o, [pe, pc, o, id](int a, const std::string&) { pc->push_back({id, a}); pe->ReleaseHandler(o); }); m.push_back({o, id, true}); c.note("insert once"); break; }
        default: { int a = (int) g.range(0, 99); calls.clear(); e(a, "arg"); c.note("fire"); CHECK_EQ(calls.size(), m.size(), "handlers called at step ", k); for (size_t i = 0; i < m.size(); ++i) { CHECK_EQ(calls[i].first, m[m.size() - 1 - i].id, "order of calls"); CHECK_EQ(calls[i].second, a, "argument"); }
                   for (size_t i = 0; i < m.size();) if (m[i].once) { m.erase(m.begin() + i); rel = true; } else ++i; }
        }
        CHECK_EQ(e.GetHandlerCount(), m.size(), "handler count after step ", k);
    }
    c.nontrivial = rel;
}
