#include "docgen.h"
#include "FCDocument/FCDAnimationCurveTools.h"
#include <algorithm>
using namespace pbt;
using namespace dg;
// Curves whose keys and evaluation times lie on a grid (so that sums and differences of times are exact) against a reference evaluator.
PBT_PROPERTY("C20", "a curve with at least two keys evaluated strictly between or outside its keys")
struct SetInit { SetInit() { worker_init = dg::init; } } setInit;
namespace FI = FUDaeInterpolation; namespace IN = FUDaeInfinity;
struct Key { float in, out; int ip; FMVector2 it, ot; float tcb[5]; };
struct Model { std::vector<Key> k; int pre = 0, post = 0; };
static Key make(Src& g, float in, int ip) {
    Key k{}; k.in = in; k.ip = ip; auto v = [&] { return g.coin() ? (float) g.range(-40, 40) / 4 : (float) (g.unit() * 2000 - 1000); }; k.out = v(); k.it.y = v(); k.ot.y = v(); for (float& f : k.tcb) f = (float) g.below(101) / 100; return k;
}
static void tangents(Src& g, Model& m) { for (size_t i = 0; i < m.k.size(); ++i) { // between the neighbouring keys, so that time is monotonous along a segment
        float p = i ? m.k[i].in - m.k[i - 1].in : 1, n = i + 1 < m.k.size() ? m.k[i + 1].in - m.k[i].in : 1; m.k[i].it.x = m.k[i].in - p * (float) (1 + g.below(8)) / 8; m.k[i].ot.x = m.k[i].in + n * (float) (1 + g.below(8)) / 8; } }
static Model model(Src& g, int forced = -1) {
    Model m; size_t n = g.len(9); float t = (float) g.range(-80, 80) / 8; int mode = forced >= 0 ? forced : (int) g.below(6);
    for (size_t i = 0; i < n; ++i) { t += (float) (1 + g.below(40)) / 8; m.k.push_back(make(g, t, mode < 4 ? mode : (int) g.below(4))); }
    tangents(g, m); m.pre = (int) g.below(5); m.post = (int) g.below(5); return m;
}
static void set(FCDAnimationKey* q, const Key& k) {
    q->input = k.in; q->output = k.out; if (k.ip == FI::BEZIER) { ((FCDAnimationKeyBezier*) q)->inTangent = k.it; ((FCDAnimationKeyBezier*) q)->outTangent = k.ot; }
    if (k.ip == FI::TCB) { auto* t = (FCDAnimationKeyTCB*) q; t->tension = k.tcb[0]; t->continuity = k.tcb[1]; t->bias = k.tcb[2]; t->easeIn = k.tcb[3]; t->easeOut = k.tcb[4]; }
}
static FCDAnimationCurve* build(FCDAnimationChannel* ch, const Model& m) {
    FCDAnimationCurve* c = ch->AddCurve(); for (auto& k : m.k) set(c->AddKey((FI::Interpolation) k.ip), k); c->SetPreInfinity((IN::Infinity) m.pre); c->SetPostInfinity((IN::Infinity) m.post); return c;
}
struct Range { double lo, hi; bool any = false; Range(double a, double b) : lo(std::min(a, b)), hi(std::max(a, b)) {} Range(double v) : lo(v), hi(v) {} };
static double bez(double a, double b, double c, double d, double t) { double s = 1 - t; return a * s * s * s + 3 * b * t * s * s + 3 * c * t * t * s + d * t * t * t; }
// The handles of key i of a curve of TCB keys: weighted sums of the steps to its neighbours (flat ones where there is none), added on the left and subtracted on the right.
struct Pt { double x, y; };
static Pt handle(const Model& m, size_t i, bool left) {
    const Key& k = m.k[i]; double t = k.tcb[0], c = k.tcb[1], b = k.tcb[2]; bool hp = i > 0, hn = i + 1 < m.k.size();
    Pt p = hp ? Pt{(double) m.k[i - 1].in - k.in, (double) m.k[i - 1].out - k.out} : Pt{hn ? (double) m.k[i + 1].in - k.in : 0.5, 0}, n = hn ? Pt{(double) m.k[i + 1].in - k.in, (double) m.k[i + 1].out - k.out} : Pt{hp ? (double) k.in - m.k[i - 1].in : 0.5, 0};
    double w = (1 - t) * (1 + (left ? -c : c)) * (1 + b) / 2, z = (1 - t) * (1 + (left ? c : -c)) * (1 - b) / 2, s = left ? 1 : -1; return Pt{k.in + s * (w * p.x + z * n.x), k.out + s * (w * p.y + z * n.y)};
}
static bool two_dimensional = true;
// The control points of a curved segment
static void controls(const Model& m, size_t i, Pt& b, Pt& c) {
    const Key &p = m.k[i - 1], &q = m.k[i]; b = p.ip == FI::TCB ? handle(m, i - 1, false) : Pt{p.ot.x, p.ot.y}; c = q.ip == FI::TCB ? handle(m, i, true) : Pt{q.it.x, q.it.y};
}
// The values allowed at a time inside the keys
static Range inside(const Model& m, double x) {
    for (auto& k : m.k) if (k.in == x) return Range(k.out);
    size_t i = 1; while (m.k[i].in < x) ++i; const Key &a = m.k[i - 1], &b = m.k[i];
    int ip = a.ip; if ((ip == FI::BEZIER || ip == FI::TCB) && (b.ip == FI::LINEAR || b.ip == FI::STEP)) ip = b.ip; // a curved segment towards a straight key is straight
    if (ip == FI::STEP) return Range(a.out);
    if (ip == FI::LINEAR) return Range(a.out + (x - a.in) / (b.in - a.in) * ((double) b.out - a.out));
    Pt bc, cc; controls(m, i, bc, cc); double t = (x - a.in) / ((double) b.in - a.in), u = 1 - t;
    if (!two_dimensional) { // the parameter is the time, and Bezier handles weigh by their length
        if (ip == FI::TCB) return Range(bez(a.out, bc.y, cc.y, b.out, t)); auto w = [](double v) { return std::isnan(v) ? v : std::max(0.01, std::min(100.0, v)); }; double in = (double) b.in - a.in;
        return Range(a.out * u * u * u + w(in / (bc.x - a.in)) * bc.y * u * u * t + w(in / (b.in - cc.x)) * cc.y * u * t * t + b.out * t * t * t); }
    if (ip == FI::TCB || b.ip == FI::TCB) { // handles may reach beyond the segment: any crossing of the wanted time will do
        const int N = 1024; bool any = false; Range r(0); double yw = 0; std::vector<double> X(N + 1), Y(N + 1); for (int k = 0; k <= N; ++k) { double q = (double) k / N; X[k] = bez(a.in, bc.x, cc.x, b.in, q); Y[k] = bez(a.out, bc.y, cc.y, b.out, q); if (k) yw = std::max(yw, fabs(Y[k] - Y[k - 1])); }
        for (int k = 0; k <= N; ++k) { double lo = 1e300, hi = -1e300; for (int j = std::max(0, k - 3); j <= std::min(N, k + 3); ++j) { lo = std::min(lo, X[j]); hi = std::max(hi, X[j]); } if (x >= lo - 0.002 && x <= hi + 0.002) { if (!any) r = Range(Y[k]); any = true; r.lo = std::min(r.lo, Y[k]); r.hi = std::max(r.hi, Y[k]); } }
        r.lo -= yw * 2; r.hi += yw * 2; return r; }
    if (ip == FI::BEZIER && b.ip == FI::BEZIER) { // solved to a thousandth in time or in parameter
        auto solve = [&](double want) { double lo = 0, hi = 1; for (int k = 0; k < 60; ++k) { double t = (lo + hi) / 2; (bez(a.in, a.ot.x, b.it.x, b.in, t) < want ? lo : hi) = t; } return (lo + hi) / 2; };
        double lo = std::max(0.0, std::min(solve(x - 0.0011), solve(x) - 0.0011)), hi = std::min(1.0, std::max(solve(x + 0.0011), solve(x) + 0.0011)); Range r(bez(a.out, a.ot.y, b.it.y, b.out, lo)); for (int k = 0; k <= 64; ++k) { double y = bez(a.out, a.ot.y, b.it.y, b.out, lo + (hi - lo) * k / 64); r.lo = std::min(r.lo, y); r.hi = std::max(r.hi, y); } double slack = (r.hi - r.lo) * 0.02; r.lo -= slack; r.hi += slack; return r; }
    Range r(0); r.any = true; return r;
}
static std::vector<Range> expected(const Model& m, double x) {
    if (m.k.empty()) return {Range(0)}; if (m.k.size() == 1) return {Range(m.k[0].out)};
    double s = m.k.front().in, e = m.k.back().in, span = e - s, os = m.k.front().out, oe = m.k.back().out; if (x >= s && x <= e) return {inside(m, x)};
    bool before = x < s; int mode = before ? m.pre : m.post; double d = before ? s - x : x - e;
    auto shift = [](Range r, double o) { r.lo += o; r.hi += o; return r; };
    switch (mode) {
    case IN::CONSTANT: return {Range(before ? os : oe)};
    case IN::LINEAR: { const Key &p = before ? m.k[0] : m.k[m.k.size() - 2], &q = before ? m.k[1] : m.k.back(); double slope = ((double) q.out - p.out) / (q.in - p.in); return {Range(before ? os - d * slope : oe + d * slope)}; }
    case IN::OSCILLATE: { double q = fmod(x - s, 2 * span); if (q < 0) q += 2 * span; if (q > span) q = 2 * span - q; return {inside(m, s + q)}; }
    default: { double n = floor((x - s) / span), y = x - n * span, o = mode == IN::CYCLE_RELATIVE ? n * (oe - os) : 0; if (y == s) return {shift(Range(os), o), shift(Range(oe), mode == IN::CYCLE_RELATIVE ? o - (oe - os) : o)}; return {shift(inside(m, y), o)}; } }
}
static void verify(Ctx& c, const Model& m, FCDAnimationCurve* q, float x, const char* what) {
    float y = q->Evaluate(x); CHECK(std::isfinite(y), what, " at ", x, ": ", y); bool ok = false; std::string s;
    for (auto& r : expected(m, x)) { double big = 1; for (auto& k : m.k) big = std::max({big, fabs((double) k.out), fabs((double) k.it.y), fabs((double) k.ot.y)}); double cycles = m.k.size() > 1 ? fabs(x - m.k[0].in) / (m.k.back().in - m.k[0].in) : 0, tol = (big * (1 + cycles * 4) + std::max(fabs(r.lo), fabs(r.hi))) * (two_dimensional ? 4e-6 : 2e-4); s += cat("[", r.lo, ", ", r.hi, "] "); ok |= r.any || (y >= r.lo - tol && y <= r.hi + tol); }
    CHECK(ok, what, " at ", x, ": ", y, " expected within ", s);
}
static std::string show(const Model& m) { std::string s = cat("pre ", m.pre, " post ", m.post); for (auto& k : m.k) s += cat("\n  key ", k.in, " -> ", k.out, " interpolation ", k.ip, " in (", k.it.x, ", ", k.it.y, ") out (", k.ot.x, ", ", k.ot.y, ") tcb ", k.tcb[0], " ", k.tcb[1], " ", k.tcb[2]); return s; }
static float time_for(Src& g, const Model& m) {
    if (m.k.empty()) return (float) g.range(-100, 100) / 8; float s = m.k.front().in, e = m.k.back().in, span = e - s;
    switch (g.below(5)) { case 0: return m.k[g.below(m.k.size())].in; case 1: return s + (float) g.below((uint64_t) (span * 16) + 1) / 16; case 2: return s - (float) g.below((uint64_t) (span * 64) + 64) / 16; case 3: return e + (float) g.below((uint64_t) (span * 64) + 64) / 16; default: { float k = (float) g.range(-5, 5); return g.coin() ? s + k * span : e + k * span; } }
}
PBT_CASE(evaluation, 200000, 3000000) {
    Doc d; FCDAnimationChannel* ch = d->GetAnimationLibrary()->AddEntity()->AddChannel(); Model m = model(g); FCDAnimationCurve* q = build(ch, m); c.note(show(m)); c.nontrivial = m.k.size() > 1;
    for (int k = 0; k < 12; ++k) verify(c, m, q, time_for(g, m), "value");
    // A value depends on the keys around it only, and affinely on the outputs
    if (m.k.size() > 1) { float a = (float) (1 + g.below(8)) / 2 * (g.coin() ? 1 : -1), b = (float) g.range(-64, 64) / 4; Model n = m; for (auto& k : n.k) { k.out = k.out * a + b; k.it.y = k.it.y * a + b; k.ot.y = k.ot.y * a + b; } FCDAnimationCurve* r = build(ch, n); float x = time_for(g, m);
        double u = (double) q->Evaluate(x) * a + b, v = r->Evaluate(x), big = 1; for (auto& k : n.k) big = std::max({big, fabs((double) k.out), fabs((double) k.it.y), fabs((double) k.ot.y)}); double cycles = fabs(x - m.k[0].in) / (m.k.back().in - m.k[0].in); bool cyc = x < m.k.front().in ? m.pre == IN::CYCLE_RELATIVE : x > m.k.back().in && m.post == IN::CYCLE_RELATIVE; (void) cyc;
        CHECK(fabs(u - v) <= (big + fabs(b)) * (1 + cycles * 4) * 2e-5, "outputs scaled by ", a, " and moved by ", b, ": at ", x, " got ", v, " expected ", u);
        // far keys
        size_t i = 1; while (i < m.k.size() - 1 && m.k[i].in < x) ++i; if (x >= m.k.front().in && x <= m.k.back().in) { Model f = m; for (size_t k = 0; k < f.k.size(); ++k) if (k + 2 < i || k > i + 1) { f.k[k].out += 17; f.k[k].it.y -= 9; f.k[k].ot.y += 5; f.k[k].tcb[0] = 1 - f.k[k].tcb[0]; if (k + 2 < i) { f.k[k].in -= 64; f.k[k].it.x -= 64; f.k[k].ot.x -= 64; } else { f.k[k].in += 64; f.k[k].it.x += 64; f.k[k].ot.x += 64; } } FCDAnimationCurve* w = build(ch, f); CHECK(w->Evaluate(x) == q->Evaluate(x), "changing keys away from ", x, " changed the value from ", q->Evaluate(x), " to ", w->Evaluate(x)); } }
    // and so the other keys may as well not be there
    if (m.k.size() > 1) { float x = time_for(g, m); if (x > m.k.front().in && x < m.k.back().in) { size_t i = 1; while (m.k[i].in < x) ++i; if (m.k[i].in != x) { Model f = m; f.k.assign(m.k.begin() + (long) (i > 1 ? i - 2 : 0), m.k.begin() + (long) std::min(m.k.size(), i + 2)); CHECK_EQ(build(ch, f)->Evaluate(x), q->Evaluate(x)); } } }
    fcu::no_asserts("evaluation");
}
// Evaluation in one dimension: the position along a segment is the time itself.
PBT_CASE(one_dimension, 40000, 600000) {
    Doc d; FCDAnimationChannel* ch = d->GetAnimationLibrary()->AddEntity()->AddChannel(); Model m = model(g); FCDAnimationCurve* q = build(ch, m); c.note(show(m)); c.nontrivial = m.k.size() > 1;
    struct Mode { Mode() { FCDAnimationCurve::Set2DCurveEvaluation(false); two_dimensional = false; } ~Mode() { FCDAnimationCurve::Set2DCurveEvaluation(true); two_dimensional = true; } } mode;
    for (int k = 0; k < 12; ++k) verify(c, m, q, time_for(g, m), "value");
    fcu::no_asserts("evaluation");
}
PBT_CASE(any_time, 80000, 600000) { // total for every time and every key spacing
    Doc d; FCDAnimationChannel* ch = d->GetAnimationLibrary()->AddEntity()->AddChannel(); Model m; size_t n = g.len(6); std::vector<float> t; for (size_t i = 0; i < n; ++i) t.push_back(g.chance(1, 4) && i ? t.back() : (float) ((g.unit() * 2 - 1) * pow(10.0, (double) g.range(-6, 6)))); std::sort(t.begin(), t.end());
    for (float x : t) m.k.push_back(make(g, x, (int) g.below(4))); for (auto& k : m.k) { k.it.x = k.in - (float) g.unit(); k.ot.x = k.in + (float) g.unit(); } m.pre = (int) g.below(6); m.post = (int) g.below(6); FCDAnimationCurve* q = build(ch, m); c.note(show(m)); c.nontrivial = n > 1;
    for (int k = 0; k < 10; ++k) { float x = g.oneof<float>({0, 1e30f, -1e30f, 3e38f, -3e38f, (float) INFINITY, (float) -INFINITY, (float) NAN, 1e-30f, (float) ((g.unit() * 2 - 1) * pow(10.0, (double) g.range(-8, 9)))}); if (n && g.chance(1, 3)) x = t[g.below(n)]; if (n && g.chance(1, 6)) x = nextafterf(t[g.below(n)], g.coin() ? INFINITY : -INFINITY); c.note(cat("time ", x)); float y = q->Evaluate(x);
        if (n && x >= t.front() && x <= t.back()) { bool distinct = true; for (size_t i = 1; i < n; ++i) distinct &= t[i] > t[i - 1]; if (distinct) { CHECK(std::isfinite(y), "value at ", x, " is ", y); for (auto& p : m.k) if (p.in == x) CHECK_EQ(y, p.out); } } }
    FCDAnimationCurveConstList l; l.push_back(q); l.push_back(NULL); FloatList def; def.push_back(1); def.push_back(2); FCDAnimationMultiCurve* mc = FCDAnimationCurveTools::MergeCurves(l, def); if (mc) { float o[2]; for (float x : {0.0f, 1e30f, -1e30f, (float) NAN, n ? t[0] : 0.0f, n ? t[n - 1] : 0.0f}) mc->Evaluate(x, o); mc->Release(); }
    fcu::no_asserts("evaluation");
}
PBT_CASE(editing, 80000, 600000) {
    Doc d; FCDAnimationChannel* ch = d->GetAnimationLibrary()->AddEntity()->AddChannel(); Model m; FCDAnimationCurve* q = ch->AddCurve(); int kinds = (int) g.below(3); m.pre = (int) g.below(5); m.post = (int) g.below(5); q->SetPreInfinity((IN::Infinity) m.pre); q->SetPostInfinity((IN::Infinity) m.post);
    for (size_t ops = g.steps(18); ops-- > 0;) switch (g.weighted({8, 3, 2, 2, 1, 1})) {
        case 0: { float in = (float) g.range(-200, 200) / 8; bool dup = false; for (auto& k : m.k) dup |= k.in == in; if (dup) break; Key k = make(g, in, kinds == 0 ? (int) g.below(2) : kinds == 1 ? 2 : (int) g.below(4)); k.it.x = in - 0.125f / 2; k.ot.x = in + 0.125f / 2; c.note(cat("insert at ", in, " kind ", k.ip)); size_t index = 999; FCDAnimationKey* p = g.coin() ? q->AddKey((FI::Interpolation) k.ip, in, index) : q->AddKey((FI::Interpolation) k.ip, in); CHECK_EQ(p->input, in); CHECK_EQ(p->interpolation, (uint32) k.ip); set(p, k);
            auto at = std::find_if(m.k.begin(), m.k.end(), [&](auto& o) { return o.in > in; }); if (index != 999) CHECK_EQ(index, (size_t) (at - m.k.begin())); m.k.insert(at, k); break; }
        case 1: if (!m.k.empty()) { size_t i = g.below(m.k.size()); c.note(cat("delete ", i)); CHECK(q->DeleteKey(q->GetKey(i)), "the key is deleted"); m.k.erase(m.k.begin() + (long) i); } break;
        case 2: { float s = g.oneof<float>({2, 0.5f, -1, 4}); c.note(cat("scale values ", s)); FCDConversionScaleFunctor f(s); q->ConvertValues(&f, &f); for (auto& k : m.k) { k.out *= s; k.it.y *= s; k.ot.y *= s; } break; }
        case 3: { bool mul = g.coin(); float s = mul ? g.oneof<float>({2, 0.5f, 4}) : (float) g.range(-16, 16) / 8; float most = 0, gap = 1e9f; for (size_t i = 0; i < m.k.size(); ++i) { most = std::max(most, fabsf(m.k[i].in)); if (i) gap = std::min(gap, m.k[i].in - m.k[i - 1].in); } if (mul && (most * s > 2000 || gap * s < 0.1f)) break; c.note(cat("times ", mul ? "scaled " : "moved ", s)); FCDConversionScaleFunctor f(s); FCDConversionOffsetFunctor o(s); if (mul) q->ConvertInputs(&f, &f); else q->ConvertInputs(&o, &o); for (auto& k : m.k) for (float* p : {&k.in, &k.it.x, &k.ot.x}) *p = mul ? *p * s : *p + s; break; }
        case 4: { c.note("clone"); FCDAnimationCurve* r = q->Clone(); CHECK_EQ(r->GetKeyCount(), m.k.size()); for (size_t i = 0; i < m.k.size(); ++i) { CHECK(r->GetKey(i) != q->GetKey(i), "keys are not shared"); CHECK_EQ(r->GetKey(i)->output, m.k[i].out); } if (!m.k.empty()) { float x = time_for(g, m); CHECK_EQ(r->Evaluate(x), q->Evaluate(x)); } r->Release(); break; }
        default: { size_t n = g.below(m.k.size() + 1); c.note(cat("truncate ", n)); q->SetKeyCount(n, FI::LINEAR); m.k.resize(n); } }
    c.nontrivial = m.k.size() > 1; c.note(show(m)); CHECK_EQ(q->GetKeyCount(), m.k.size());
    for (size_t i = 0; i < m.k.size(); ++i) { FCDAnimationKey* p = q->GetKey(i); CHECK_EQ(p->input, m.k[i].in); CHECK_EQ(p->output, m.k[i].out); CHECK_EQ((int) p->interpolation, m.k[i].ip); if (m.k[i].ip == FI::BEZIER) { CHECK(((FCDAnimationKeyBezier*) p)->inTangent == m.k[i].it && ((FCDAnimationKeyBezier*) p)->outTangent == m.k[i].ot, "tangents of key ", i); } }
    bool grid = true; for (auto& k : m.k) grid &= fabsf(k.in) < 4096 && k.in * 64 == floorf(k.in * 64); if (grid) for (int k = 0; k < 6; ++k) verify(c, m, q, time_for(g, m), "value after editing");
    fcu::no_asserts("editing");
}
// Curves merged into one evaluate as they did, and collapsing gives the wanted combination of them.
PBT_CASE(merging, 80000, 600000) {
    Doc d; FCDAnimationChannel* ch = d->GetAnimationLibrary()->AddEntity()->AddChannel(); size_t n = 1 + g.below(4); bool same = g.coin(); int kind = (int) g.below(3); std::vector<Model> m; Model base = model(g, kind); if (base.k.empty()) return; std::vector<FCDAnimationCurve*> q; FCDAnimationCurveConstList l; FloatList def;
    for (size_t i = 0; i < n; ++i) { Model x = same || kind == FI::BEZIER ? base : model(g, kind); if (x.k.empty()) x = base; for (auto& k : x.k) { Key f = make(g, k.in, k.ip); k.out = f.out; k.it.y = f.it.y; k.ot.y = f.ot.y; } m.push_back(x); bool absent = i && g.chance(1, 5); q.push_back(absent ? NULL : build(ch, x)); l.push_back(q.back()); def.push_back((float) g.range(-9, 9)); c.note(absent ? "no curve, " + cat(def.back()) : show(x)); }
    FCDAnimationMultiCurve* mc = FCDAnimationCurveTools::MergeCurves(l, def); CHECK(mc != NULL, "curves are merged"); CHECK_EQ(mc->GetDimension(), (uint32) n); c.nontrivial = n > 1 && mc->GetKeyCount() > 1;
    for (size_t k = 1; k < mc->GetKeyCount(); ++k) CHECK(mc->GetKey(k - 1)->input < mc->GetKey(k)->input, "merged keys are ordered");
    std::vector<float> out(n);
    for (int k = 0; k < 8; ++k) { float x = time_for(g, base); mc->Evaluate(x, out.data()); for (size_t i = 0; i < n; ++i) { if (!q[i]) { CHECK(fabsf(out[i] - def[i]) < 1e-4f, "component without a curve: ", out[i], " expected ", def[i]); continue; }
            Model f = m[i]; if ((x < f.k.front().in && f.pre != IN::CONSTANT) || (x > f.k.back().in && f.post != IN::CONSTANT)) continue; f.pre = f.post = IN::CONSTANT; double big = 1; for (auto& p : f.k) big = std::max({big, fabs((double) p.out), fabs((double) p.it.y), fabs((double) p.ot.y)}); Range r = expected(f, x)[0]; CHECK(out[i] >= r.lo - big * 2e-5 && out[i] <= r.hi + big * 2e-5, "component ", i, " at ", x, ": ", out[i], " expected within [", r.lo, ", ", r.hi, "]"); } }
    if (same) { FCDAnimationCurve* col = FCDAnimationCurveTools::Collapse(mc); CHECK(col != NULL, "collapsed"); CHECK_EQ(col->GetKeyCount(), mc->GetKeyCount()); float x = time_for(g, base); mc->Evaluate(x, out.data()); double avg = 0, big = 1; for (float f : out) { avg += f / (double) n; big = std::max(big, fabs((double) f)); } for (auto& p : m) for (auto& k : p.k) big = std::max({big, fabs((double) k.out), fabs((double) k.it.y), fabs((double) k.ot.y)});
        double y = col->Evaluate(x); CHECK(fabs(y - avg) <= big * 2e-5, "collapsed value at ", x, ": ", y, " expected ", avg); col->Release(); }
    mc->Release(); fcu::no_asserts("merging");
}
