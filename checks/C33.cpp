// C33: animation clips reposition the curves they use.
#include "docgen.h"
#include "FCDocument/FCDAnimationClipTools.h"
using namespace pbt;
using namespace dg;
PBT_PROPERTY("C33", "Histories of curves of every kind of key and of clips that use them: clips added and released, made current on a curve, reset to a common time, curves and clips cloned and released; every curve is compared with its original position after every step; documents with clips that instantiate animations and use their curves, saved and loaded; non-trivial: at least three moves of a curve with at least two keys.");
struct SetInit { SetInit() { worker_init = dg::init; } } setInit;

struct Key { int kind; float in, out, ix, iy, ox, oy; };
struct Clip { FCDAnimationClip* c; float start, end; bool library; std::vector<int> curves; };
struct Use { int clip; float offset; };
struct Curve { FCDAnimationCurve* c; bool owned; std::vector<Key> base; float now = 0; std::vector<Use> uses; int current = -1; bool fuzzy = false; FCDAnimationCurve* still = NULL; }; // fuzzy: its current clip has got another offset meanwhile; still: a copy that no clip moves
static float eighth(Src& g, int lo, int hi) { return (float) g.range(lo * 8, hi * 8) / 8; }

PBT_CASE(histories, 30000, 600000) {
    Doc d; FCDAnimationChannel* ch = d.d->GetAnimationLibrary()->AddEntity()->AddChannel(); std::map<int, Curve> curves; std::map<int, Clip> clips; int ids = 0; size_t moves = 0; bool reset = false;
    auto any = [&](auto& m) { auto it = m.begin(); std::advance(it, g.below(m.size())); return it->first; };
    auto use = [&](int k, int q) { if (g.coin()) clips[q].c->AddClipCurve(curves[k].c); else clips[q].c->AddClipCurve(curves[k].c); curves[k].uses.push_back({q, -clips[q].start}); clips[q].curves.push_back(k); };
    auto used = [&](int k, int q) { for (auto& u : curves[k].uses) if (u.clip == q) return true; return false; };
    auto check = [&](const std::string& what) {
        for (auto& kv : curves) { Curve& k = kv.second; std::string who = cat("curve ", kv.first, " after ", what, ": "); CHECK_EQ(k.c->GetKeyCount(), k.base.size(), who + "keys");
            if (k.fuzzy && k.c->GetKeyCount()) { float at = k.c->GetKey(0)->input - k.base[0].in; for (auto& u : k.uses) if (u.clip == k.current && at == u.offset) { k.now = at; k.fuzzy = false; } } // moved at once is as good as moved later
            for (size_t i = 0; i < k.base.size(); ++i) { const Key& b = k.base[i]; FCDAnimationKey* y = k.c->GetKey(i); CHECK_EQ((int) y->interpolation, b.kind, who + "interpolation"); CHECK_EQ(y->input, b.in + k.now, who + "input"); CHECK_EQ(y->output, b.out, who + "output");
                if (b.kind == FUDaeInterpolation::BEZIER) { FCDAnimationKeyBezier* z = (FCDAnimationKeyBezier*) y; CHECK_EQ(z->inTangent.x, b.ix + k.now, who + "tangent into the key"); CHECK_EQ(z->inTangent.y, b.iy, who + "height of the tangent into the key"); CHECK_EQ(z->outTangent.x, b.ox + k.now, who + "tangent out of the key"); CHECK_EQ(z->outTangent.y, b.oy, who + "height of the tangent out of the key"); }
                else if (b.kind == FUDaeInterpolation::TCB) { FCDAnimationKeyTCB* z = (FCDAnimationKeyTCB*) y; CHECK_EQ(z->tension, b.ix, who + "tension"); CHECK_EQ(z->continuity, b.iy, who + "continuity"); CHECK_EQ(z->bias, b.ox, who + "bias"); } }
            CHECK_EQ(k.c->GetClipCount(), k.uses.size(), who + "clips"); std::multiset<std::pair<FCDAnimationClip*, float>> w, h; for (auto& u : k.uses) w.insert({clips[u.clip].c, u.offset}); for (size_t i = 0; i < k.c->GetClipCount(); ++i) h.insert({k.c->GetClip(i), k.c->GetClipOffset(i)}); CHECK(w == h); }
        for (auto& qv : clips) { Clip& q = qv.second; std::string who = cat("clip ", qv.first, " after ", what, ": "); CHECK_EQ((float) q.c->GetStart(), q.start, who + "start"); CHECK_EQ((float) q.c->GetEnd(), q.end, who + "end");
            std::multiset<FCDAnimationCurve*> w, h; for (int k : q.curves) w.insert(curves[k].c); for (auto it = q.c->GetClipCurves().begin(); it != q.c->GetClipCurves().end(); ++it) h.insert(*it); CHECK(w == h); }
        fcu::no_asserts(what.c_str()); };
    auto drop = [&](int k) { for (auto& q : clips) { auto& v = q.second.curves; v.erase(std::remove(v.begin(), v.end(), k), v.end()); } SAFE_RELEASE(curves[k].still); curves[k].c->Release(); curves.erase(k); };
    auto dropClip = [&](int q) { for (auto& k : curves) { auto& v = k.second.uses; v.erase(std::remove_if(v.begin(), v.end(), [&](Use& u) { return u.clip == q; }), v.end()); if (k.second.current == q) { k.second.current = -1; k.second.fuzzy = false; } } clips[q].c->Release(); clips.erase(q); };
    for (size_t n = 6 + g.steps(40); n-- > 0;) {
        int op = curves.empty() ? 0 : clips.empty() ? (int) g.below(2) : (int) g.weighted({2, 2, 4, 14, 1, 2, 1, 1, 1, 3}); std::string what;
        switch (op) {
        case 0: { int id = ids++; Curve k; k.c = ch->AddCurve(); k.owned = true; float t = eighth(g, -10, 10); int kind = (int) g.pick(std::vector<int>{FUDaeInterpolation::LINEAR, FUDaeInterpolation::BEZIER, FUDaeInterpolation::STEP, FUDaeInterpolation::TCB}); bool mixed = g.coin();
            for (size_t m = g.below(5); m-- > 0;) { if (mixed) kind = (int) g.pick(std::vector<int>{FUDaeInterpolation::LINEAR, FUDaeInterpolation::BEZIER, FUDaeInterpolation::STEP, FUDaeInterpolation::TCB}); Key b{kind, t, eighth(g, -5, 5), 0, 0, 0, 0}; FCDAnimationKey* y = k.c->AddKey((FUDaeInterpolation::Interpolation) kind); y->input = t; y->output = b.out;
                if (kind == FUDaeInterpolation::BEZIER) { b.ix = t - 0.25f; b.iy = eighth(g, -5, 5); b.ox = t + 0.125f; b.oy = eighth(g, -5, 5); FCDAnimationKeyBezier* z = (FCDAnimationKeyBezier*) y; z->inTangent = FMVector2(b.ix, b.iy); z->outTangent = FMVector2(b.ox, b.oy); }
                else if (kind == FUDaeInterpolation::TCB) { FCDAnimationKeyTCB* z = (FCDAnimationKeyTCB*) y; b.ix = z->tension = eighth(g, 0, 1); b.iy = z->continuity = eighth(g, 0, 1); b.ox = z->bias = eighth(g, 0, 1); z->easeIn = z->easeOut = 0; }
                k.base.push_back(b); t += 0.5f + eighth(g, 0, 4); }
            k.still = k.c->Clone(NULL, false); curves[id] = k; what = cat("new curve ", id, " of ", k.base.size(), " keys"); break; }
        case 1: { int id = ids++; Clip q; q.c = d.d->GetAnimationClipLibrary()->AddEntity(); q.library = true; q.start = eighth(g, -5, 5); q.end = q.start + eighth(g, 0, 8); q.c->SetStart(q.start); q.c->SetEnd(q.end); clips[id] = q; for (auto& k : curves) if (g.chance(2, 3)) use(k.first, id); what = cat("new clip ", id); break; }
        case 2: { int k = any(curves), q = any(clips); if (used(k, q)) continue; use(k, q); what = cat("clip ", q, " uses curve ", k); break; }
        case 3: { int k = any(curves); Curve& c2 = curves[k]; int q = !c2.uses.empty() && g.chance(4, 5) ? c2.uses[g.below(c2.uses.size())].clip : g.coin() ? any(clips) : -1; what = cat("curve ", k, " is that of clip ", q); c2.c->SetCurrentAnimationClip(q < 0 ? NULL : clips[q].c);
            if (q != c2.current) { c2.current = -1; for (auto& u : c2.uses) if (u.clip == q) { if (c2.now != u.offset && c2.base.size() > 1) ++moves; c2.current = q; c2.now = u.offset; } c2.fuzzy = false; } break; }
        case 4: { if (reset) continue; reset = true; float t = eighth(g, -5, 5); FCDAnimationClipTools::ResetAnimationClipTimes(d.d, t); what = "reset of the clips"; // judged once only: the offsets of a second reset are measured from the first
            for (auto& qv : clips) if (qv.second.library) { Clip& q = qv.second; float by = t - q.start; q.start += by; q.end += by; for (int k : q.curves) for (auto& u : curves[k].uses) if (u.clip == qv.first) { u.offset = by; if (curves[k].current == qv.first) curves[k].fuzzy = true; } } break; }
        case 5: { int k = any(curves); bool with = g.coin(); Curve& o = curves[k]; Curve n2; n2.base = o.base; n2.now = o.now; n2.owned = false; n2.c = o.c->Clone(NULL, with); n2.still = o.still->Clone(NULL, false); int id = ids++; what = cat("clone ", id, " of curve ", k, with ? " with its clips" : "");
            if (with) { CHECK_EQ(n2.c->GetClipCount(), o.uses.size(), what + ": clips of the clone"); for (size_t i = 0; i < o.c->GetClipCount(); ++i) { FCDAnimationClip* theirs = o.c->GetClip(i); int src = -1; float off = 0; for (auto& u : o.uses) if (clips[u.clip].c == theirs) { src = u.clip; off = u.offset; } CHECK(src >= 0); int qid = ids++; clips[qid] = {n2.c->GetClip(i), clips[src].start, clips[src].end, false, {id}}; n2.uses.push_back({qid, off}); } }
            curves[id] = n2; break; }
        case 6: { int q = any(clips); bool with = g.coin(); FCDAnimationClip* cl = (FCDAnimationClip*) clips[q].c->Clone(NULL, with); int qid = ids++; what = cat("clone ", qid, " of clip ", q, with ? " with its curves" : ""); Clip n2{cl, clips[q].start, clips[q].end, false, {}};
            size_t i = 0; if (with) { CHECK_EQ(cl->GetClipCurves().size(), clips[q].curves.size(), what + ": curves of the clone"); for (auto it = clips[q].c->GetClipCurves().begin(); it != clips[q].c->GetClipCurves().end(); ++it, ++i) { int src = -1; for (auto& k : curves) if (k.second.c == *it) src = k.first; CHECK(src >= 0); Curve o = curves[src]; o.still = o.still->Clone(NULL, false); float off = 0; for (auto& u : o.uses) if (u.clip == q) off = u.offset; o.c = cl->GetClipCurves().at(i); o.owned = false; o.uses = {{qid, off}}; o.current = -1; o.fuzzy = false; int id = ids++; curves[id] = o; n2.curves.push_back(id); } }
            clips[qid] = n2; break; }
        case 7: { int k = any(curves); what = cat("release of curve ", k); drop(k); break; }
        case 8: { int q = any(clips); what = cat("release of clip ", q); dropClip(q); break; }
        default: { int k = any(curves); Curve& c2 = curves[k]; if (c2.base.empty() || c2.fuzzy) continue; what = "evaluation"; float first = c2.base.front().in, span = c2.base.back().in - first; for (int i = 0; i < 6; ++i) { float t = first + (i == 0 ? -1 : i == 1 ? span + 1 : span * (float) g.unit()); float x = c2.c->Evaluate(t + c2.now), y = c2.still->Evaluate(t); // a step may fall on either side of its key
                bool edge = false; for (auto& b : c2.base) edge |= fabs(t - b.in) < 1e-3; if (!edge && !(fabs(x - y) <= 0.02 * (1 + fabs(y)))) fail(cat("curve ", k, " moved by ", c2.now, " at ", t + c2.now, ": ", x, " instead of ", y)); } }
        }
        c.note(what); check(what);
    }
    while (!clips.empty()) { if (clips.begin()->second.library) { clips.erase(clips.begin()); continue; } for (auto& k : curves) { auto& v = k.second.uses; int q = clips.begin()->first; v.erase(std::remove_if(v.begin(), v.end(), [&](Use& u) { return u.clip == q; }), v.end()); } clips.begin()->second.c->Release(); clips.erase(clips.begin()); }
    for (auto& k : curves) { SAFE_RELEASE(k.second.still); if (!k.second.owned) k.second.c->Release(); }
    c.nontrivial = moves >= 3; if (reset) c.label("reset");
}

// ---- the animations that clips instantiate, through a file ----
PBT_CASE(instances, 4000, 80000) {
    Doc d; FCDSceneNode* root = d.d->AddVisualScene(); FCDSceneNode* node = root->AddChildNode(); std::vector<FCDAnimation*> as; std::vector<std::vector<FCDAnimationCurve*>> cs; std::vector<int> up; auto* lib = d.d->GetAnimationLibrary();
    for (size_t n = 1 + g.below(4), i = 0; i < n; ++i) { int p = i && g.chance(1, 3) ? (int) g.below(i) : -1; FCDAnimation* a = p < 0 ? lib->AddEntity() : as[(size_t) p]->AddChild(); fm::string id = cat("anim", i).c_str(); a->SetDaeId(id); std::vector<FCDAnimationCurve*> l;
        for (size_t k = 1 + g.below(2); k-- > 0;) { FCDTTranslation* t = (FCDTTranslation*) node->AddTransform(FCDTransform::TRANSLATION); t->SetSubId(cat("t", i, k).c_str()); FCDAnimationCurve* q = a->AddChannel()->AddCurve(); for (int x = 0; x < 2; ++x) { FCDAnimationKey* key = q->AddKey(FUDaeInterpolation::LINEAR); key->input = (float) x; key->output = (float) g.below(100); } t->GetTranslation().GetAnimated()->AddCurve(0, q); l.push_back(q); }
        as.push_back(a); cs.push_back(l); up.push_back(p); }
    auto within = [&](size_t a, size_t b) { for (int x = (int) a; x >= 0; x = up[(size_t) x]) if (x == (int) b) return true; return false; }; // a is b or below it
    struct Want { std::vector<std::pair<std::string, std::string>> given; std::set<std::string> more; size_t curves; }; std::map<std::string, Want> want;
    for (size_t n = 1 + g.below(3), i = 0; i < n; ++i) { FCDAnimationClip* k = d.d->GetAnimationClipLibrary()->AddEntity(); fm::string id = cat("clip", i).c_str(); k->SetDaeId(id); k->SetStart(0.0f); k->SetEnd(1.0f); Want w; std::set<size_t> has, of; c.note(k->GetDaeId().c_str());
        for (size_t m = g.below(3); m-- > 0;) { size_t a = g.below(as.size()); if (!has.insert(a).second) continue; std::string name = g.coin() ? cat("name", g.below(9)) : ""; FCDEntityInstance* in = g.coin() ? k->AddInstanceAnimation(as[a]) : k->AddInstanceAnimation(); if (in->GetEntity() == NULL) in->SetEntity(as[a]); CHECK_EQ(k->GetAnimationCount(), has.size(), "instances of a clip"); CHECK(k->GetAnimationInstance(has.size() - 1) == in && k->GetAnimation(has.size() - 1) == as[a]); k->SetAnimationName(name.c_str(), has.size() - 1); w.given.push_back({cat("anim", a), name}); c.note(cat("instance of ", a, " ", name)); }
        for (size_t a = 0; a < as.size(); ++a) for (auto* q : cs[a]) if (g.chance(1, 3)) { k->AddClipCurve(q); c.note(cat("curve of ", a)); bool in = false; for (size_t h : has) in |= within(a, h); if (!in) { w.more.insert(cat("anim", a)); of.insert(a); } }
        std::set<FCDAnimationCurve*> all; for (auto& s : {has, of}) for (size_t h : s) for (size_t a = 0; a < as.size(); ++a) if (within(a, h)) all.insert(cs[a].begin(), cs[a].end()); w.curves = all.size(); want[cat("clip", i)] = w; if (w.given.size() + w.more.size() >= 2) c.nontrivial = true; }
    std::string file = scratch_dir() + "/c33.dae"; messages().clear(); CHECK(FCollada::SaveDocument(d.d, file.c_str())); Doc e; if (!FCollada::LoadDocumentFromFile(e.d, file.c_str())) fail("the document does not load: " + messages().all());
    auto* l = e.d->GetAnimationClipLibrary(); CHECK_EQ(l->GetEntityCount(), want.size(), "clips loaded");
    for (size_t i = 0; i < l->GetEntityCount(); ++i) { FCDAnimationClip* k = l->GetEntity(i); auto it = want.find(std::string(k->GetDaeId().c_str())); CHECK(it != want.end()); Want& w = it->second; std::vector<std::pair<std::string, std::string>> got; std::set<std::string> more;
        CHECK_EQ(k->GetAnimationCount(), w.given.size() + w.more.size(), "instances loaded"); for (size_t j = 0; j < k->GetAnimationCount(); ++j) { CHECK(k->GetAnimation(j) != NULL); std::string id = k->GetAnimation(j)->GetDaeId().c_str(), name = k->GetAnimationName(j).c_str(); if (j < w.given.size()) { CHECK_EQ(id, w.given[j].first, "animation of an instance"); CHECK_EQ(name, w.given[j].second, "name of an instance"); } else { CHECK_EQ(name, std::string(), "name of an instance"); more.insert(id); } }
        CHECK(more == w.more); CHECK_EQ(k->GetClipCurves().size(), w.curves, "curves of a clip that was loaded"); std::set<const FCDAnimationCurve*> once; for (auto& q : k->GetClipCurves()) { CHECK(once.insert(q).second); bool back = false; for (size_t o = 0; o < q->GetClipCount(); ++o) back |= q->GetClips()[o] == k; CHECK(back); } }
}
