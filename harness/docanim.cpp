// Animations, the curves attached to animatable values, and clips: rendering and generation.
#include "docgen.h"
#include <algorithm>
namespace dg {
static bool constant_at(FCDAnimationCurve* c, float v) { // such curves are added to the components nobody animates when curves are archived together
    auto near = [&](float x) { return fabs((double) x - v) <= 6e-6 * std::max(fabs((double) x), fabs((double) v)) + 3e-7; };
    for (size_t k = 0; k < c->GetKeyCount(); ++k) { FCDAnimationKey* q = c->GetKey(k); if (!near(q->output)) return false; if (q->interpolation == FUDaeInterpolation::BEZIER && (!near(((FCDAnimationKeyBezier*) q)->inTangent.y) || !near(((FCDAnimationKeyBezier*) q)->outTangent.y))) return false; if (q->interpolation == FUDaeInterpolation::TCB) return false; }
    return true;
}
void dump_curve(Dump& d, FCDAnimationCurve* c) {
    d.i("pre", c->GetPreInfinity()); d.i("post", c->GetPostInfinity());
    if (c->HasDriver()) { d.drivers.push_back({d.t.size(), c->GetDriverPtr()}); d.s("driver", std::to_string(c->GetDriverIndex())); }
    for (size_t k = 0; k < c->GetKeyCount(); ++k) { FCDAnimationKey* q = c->GetKey(k); In n(d, "key"); d.f("input", q->input); d.f("output", q->output); d.i("interpolation", q->interpolation);
        if (q->interpolation == FUDaeInterpolation::BEZIER) { auto* b = (FCDAnimationKeyBezier*) q; d.f("in.u", b->inTangent.x, q->input); d.f("in.v", b->inTangent.y, q->output); d.f("out.u", b->outTangent.x, q->input); d.f("out.v", b->outTangent.y, q->output); }
        if (q->interpolation == FUDaeInterpolation::TCB) { auto* t = (FCDAnimationKeyTCB*) q; d.f("tension", t->tension); d.f("continuity", t->continuity); d.f("bias", t->bias); d.f("ease in", t->easeIn); d.f("ease out", t->easeOut); } }
}
void dump_animated(Dump& d, FCDAnimated* a) {
    if (!a || !d.opt.curves) return; std::string at = d.at("animated");
    d.animateds.push_back({a, at + " #" + std::to_string(a->HasCurve() ? d.counts[at]++ : -1)});
    if (!a->HasCurve()) return;
    In in(d, "animated");
    for (size_t i = 0; i < a->GetValueCount(); ++i) for (size_t k = 0; k < a->GetCurveCount(i); ++k) { FCDAnimationCurve* c = a->GetCurve(i, k); float v = a->GetRelativeAnimationFlag() ? 0 : a->GetValue(i) ? *a->GetValue(i) : 0;
        if (c->GetKeyCount() == 0 || constant_at(c, v)) continue;
        In n(d, "component " + std::to_string(i)); d.i("relative", a->GetRelativeAnimationFlag()); dump_curve(d, c); }
}
void finish(Dump& d) { // a driver is rendered as the place where the driving value appears
    for (auto& p : d.drivers) { std::string at = "(elsewhere)"; for (auto& a : d.animateds) if (a.first == p.second) { at = a.second; break; } d.t[p.first].s = at + " component " + d.t[p.first].s; }
    d.drivers.clear();
}
void dump_animation(Dump& d, FCDAnimation* a) { In in(d, "animation"); dump_base(d, a); if (!d.opt.ids) for (size_t i = 0; i < a->GetChannelCount(); ++i) { In c(d, "channel"); for (size_t k = 0; k < a->GetChannel(i)->GetCurveCount(); ++k) { In q(d, "curve"); dump_curve(d, a->GetChannel(i)->GetCurve(k)); } }
    for (size_t i = 0; i < a->GetChildrenCount(); ++i) dump_animation(d, a->GetChild(i)); }
void dump_animation_libraries(Dump& d, FCDocument* doc, unsigned parts) {
    if (parts & ANIMATIONS) { In in(d, "animations"); auto* l = doc->GetAnimationLibrary(); dump(d, l->GetAsset(false)); dump(d, l->GetExtra()); for (auto* e : d.entities(l)) dump_animation(d, e); }
    if (parts & CLIPS) { In in(d, "clips"); auto* l = doc->GetAnimationClipLibrary(); dump(d, l->GetAsset(false)); dump(d, l->GetExtra());
        for (FCDAnimationClip* c : d.entities(l)) { In k(d, "clip"); dump_base(d, c); d.f("start", c->GetStart()); d.f("end", c->GetEnd());
            // The curves of a clip are those of the animations it instantiates
            std::vector<std::string> used; std::set<FCDAnimationCurve*> curves; std::map<std::string, int> count; for (size_t q = 0; q < c->GetClipCurves().size(); ++q) curves.insert(c->GetClipCurves()[q]);
            for (auto* q : curves) if (q->GetKeyCount() && q->GetParent()) { bool flat = true; for (size_t z = 1; z < q->GetKeyCount(); ++z) flat &= q->GetKey(z)->output == q->GetKey(0)->output; if (!flat) ++count[S(q->GetParent()->GetParent()->GetDaeId())]; }
            for (auto& p : count) d.s("curves of", p.first + " " + std::to_string(p.second)); } }
}
// ---- generation ----
static void keys(Gen& G, FCDAnimationCurve* c, size_t count, uint64_t times, int mode) {
    pbt::Src& g = G.g; float t = (float) (int) (times % 17) - 4; bool flat = g.chance(1, 8); float level = G.fl();
    auto val = [&] { return flat ? level : g.coin() ? (float) g.range(-100, 100) / 4 : G.fl(); };
    for (size_t k = 0; k < count; ++k) { t += (float) (1 + (times >> (4 * (k % 15)) & 15)) / 8;
        FUDaeInterpolation::Interpolation ip = (FUDaeInterpolation::Interpolation) (mode < 4 ? mode : (int) ((times >> (3 * (k % 20))) + k) & 3); // STEP, LINEAR, BEZIER, TCB
        FCDAnimationKey* q = c->AddKey(ip); q->input = t; q->output = val();
        if (ip == FUDaeInterpolation::BEZIER) { auto* b = (FCDAnimationKeyBezier*) q; b->inTangent = FMVector2(t - (float) (1 + g.below(8)) / 16, val()); b->outTangent = FMVector2(t + (float) (1 + g.below(8)) / 16, val()); }
        if (ip == FUDaeInterpolation::TCB) { auto* b = (FCDAnimationKeyTCB*) q; b->tension = G.unit(); b->continuity = G.unit(); b->bias = G.unit(); b->easeIn = G.unit(); b->easeOut = G.unit(); } }
}
bool Gen::can_animate(const std::string& path) { for (int t : {FCDEntity::FORCE_FIELD, FCDEntity::EMITTER}) if (path.find(pbt::cat("instance type ", t, "/")) != std::string::npos) return false; return path.find("extra/") != 0; } // extra elements of the document itself, or of instances archived as extra elements, cannot be addressed
static void some_list_elements(Gen& G) {
    auto* l = G.doc->GetGeometryLibrary(); for (size_t i = 0; i < l->GetEntityCount(); ++i) if (l->GetEntity(i)->IsMesh()) { FCDGeometryMesh* m = l->GetEntity(i)->GetMesh(); for (size_t s = 0; s < m->GetSourceCount(); ++s) { FCDGeometrySource* q = m->GetSource(s);
        if ((q->GetType() == FUDaeGeometryInput::POSITION || q->GetType() == FUDaeGeometryInput::COLOR) && q->GetDataCount() && G.g.chance(1, 3)) for (size_t k = 1 + G.g.below(3); k-- > 0;) { FCDAnimated* a = q->GetSourceData().GetAnimated(G.g.below(q->GetDataCount())); if (q->GetType() == FUDaeGeometryInput::POSITION) a->SetRelativeAnimationFlag(); } } }
}
void Gen::animations() {
    auto* l = doc->GetAnimationLibrary(); some_list_elements(*this);
    Dump d; d.opt.ids = true; dump_document(d, doc, ALL & ~ANIMATIONS & ~CLIPS);
    std::vector<FCDAnimation*> all; for (size_t k = g.len(3); k-- > 0;) { FCDAnimation* a = l->AddEntity(); entity(a); all.push_back(a); }
    if (all.empty()) return; for (size_t k = g.len(3); k-- > 0;) { FCDAnimation* a = all[g.below(all.size())]->AddChild(); entity(a); all.push_back(a); }
    struct One { FCDAnimationCurve* c; }; std::vector<FCDAnimationCurve*> made; std::vector<FCDAnimated*> targets; std::set<FCDAnimated*> addressed; std::vector<std::pair<FCDAnimated*, std::string>> pool;
    std::set<FCDAnimated*> seen; for (auto& p : d.animateds) if (seen.insert(p.first).second && p.first->GetValueCount() && can_animate(p.second)) pool.push_back(p);
    if (pool.empty()) return; size_t want = g.len(8);
    for (size_t k = 0; k < want; ++k) {
        auto& p = pool[g.below(pool.size())]; FCDAnimated* a = p.first; if (a->HasCurve()) continue; targets.push_back(a); ++animated;
        for (const char* w : {"/translation/", "/rotation/", "/scale/", "/matrix/", "/lookat/", "/skew/", "/source/", "/weight"}) if (p.second.find(w) != std::string::npos) addressed.insert(a); // (copies of values archived in extra trees cannot be addressed as drivers)
        bool custom = a->HasType(FCDAnimatedCustom::GetClassType()); uint64_t times = g.below(~0ull); size_t count = 1 + g.below(5); int mode = (int) g.below(6); bool together = g.chance(2, 3), one_channel = g.coin(); auto pre = (FUDaeInfinity::Infinity) g.below(5), post = (FUDaeInfinity::Infinity) g.below(5);
        FCDAnimation* an = all[g.below(all.size())]; FCDAnimationChannel* ch = an->AddChannel(); bool all_components = g.coin();
        for (size_t i = 0; i < a->GetValueCount(); ++i) if (custom ? i == 0 : all_components || g.coin()) {
            if (!one_channel && ch->GetCurveCount()) { if (g.coin()) an = all[g.below(all.size())]; ch = an->AddChannel(); }
            FCDAnimationCurve* c = ch->AddCurve(); a->AddCurve(i, c); made.push_back(c);
            if (together) { keys(*this, c, count, times, mode); c->SetPreInfinity(pre); c->SetPostInfinity(post);
                if (g.chance(1, 6)) switch (g.below(4)) { // alike but for one thing
                    case 0: c->SetPreInfinity((FUDaeInfinity::Infinity) g.below(5)); break; case 1: c->SetPostInfinity((FUDaeInfinity::Infinity) g.below(5)); break;
                    case 2: { FCDAnimationKey* q = c->GetKey(g.below(c->GetKeyCount())); q->input += 1.0f / 32; if (q->interpolation == FUDaeInterpolation::BEZIER) ((FCDAnimationKeyBezier*) q)->outTangent.x += 1.0f / 32; break; }
                    default: { FCDAnimationKey* q = c->GetKey(g.below(c->GetKeyCount())); if (q->interpolation < FUDaeInterpolation::BEZIER) q->interpolation = g.coin() ? FUDaeInterpolation::STEP : FUDaeInterpolation::LINEAR; } } } else { keys(*this, c, 1 + g.below(5), g.below(~0ull), (int) g.below(6)); c->SetPreInfinity((FUDaeInfinity::Infinity) g.below(5)); c->SetPostInfinity((FUDaeInfinity::Infinity) g.below(5)); } }
    }
    // Curves driven by another animated value
    for (auto* c : made) if (c->GetKeyCount() && g.chance(1, 8)) { FCDAnimated* q = targets[g.below(targets.size())]; if (q->HasCurve() && addressed.count(q)) c->SetDriver(q, (int32) g.below(q->GetValueCount())); }
}
void Gen::clips() {
    auto* l = doc->GetAnimationLibrary(); std::vector<FCDAnimation*> all; for (size_t i = 0; i < l->GetEntityCount(); ++i) all.push_back(l->GetEntity(i)); for (size_t i = 0; i < all.size(); ++i) for (size_t k = 0; k < all[i]->GetChildrenCount(); ++k) all.push_back(all[i]->GetChild(k));
    for (size_t k = g.len(3); k-- > 0 && !all.empty();) { std::vector<FCDAnimationCurve*> curves; std::set<FCDAnimationCurve*> used;
        for (size_t q = 1 + g.below(2); q-- > 0;) { FCDAnimationCurveList c; all[g.below(all.size())]->GetCurves(c); for (auto* x : c) if (used.insert(x).second) curves.push_back(x); }
        if (curves.empty()) continue; FCDAnimationClip* c = doc->GetAnimationClipLibrary()->AddEntity(); entity(c); float s = (float) g.range(-40, 40) / 8; c->SetStart(s); c->SetEnd(s + (float) (1 + g.below(80)) / 8); for (auto* x : curves) c->AddClipCurve(x); }
}
}
