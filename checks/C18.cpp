// LIB: small
#include "fcu.h"
#include <cfloat>
#include <algorithm>
#include "FUtils/FUBoundingBox.h"
#include "FUtils/FUBoundingSphere.h"
using namespace pbt;

PBT_PROPERTY("C18", "Histories of including random points, boxes and spheres (grid and continuous coordinates between 1e-2 and 1e4, degenerate and freshly reset volumes included) into boxes and spheres, transforms by generic affine matrices (boxes) and by rotation-scale-translation (spheres), and pairs of volumes that are apart, touching, overlapping, nested and concentric. The oracle keeps the list of included contents and measures distances in double precision. Non-trivial: at least two different volumes or three different points were included, or the two volumes of an overlap test share points without being equal.")
static void init() { fcu::install(); }
struct SetInit { SetInit() { worker_init = init; } } setInit;

typedef FMVector3 V;
static double dist(const V& a, const V& b) { double x = (double) a.x - b.x, y = (double) a.y - b.y, z = (double) a.z - b.z; return sqrt(x * x + y * y + z * z); }
static double mag(const V& a) { return std::max(fabs((double) a.x), std::max(fabs((double) a.y), fabs((double) a.z))); }
static float coord(Src& g, double m) { return g.coin() ? (float) g.range(-4, 4) : (float) ((g.unit() * 2 - 1) * m); }
static double magn(Src& g) { static const double m[] = {4, 0.05, 100, 1e4}; return m[g.weighted({4, 1, 2, 1})]; }
static V point(Src& g, double m) { float x = coord(g, m), y = coord(g, m), z = coord(g, m); return V(x, y, z); }
static std::string str(const V& p) { return cat("(", p.x, " ", p.y, " ", p.z, ")"); }
static std::string str(const FUBoundingBox& b) { return cat("box", str(b.GetMin()), str(b.GetMax())); }
static std::string str(const FUBoundingSphere& s) { return cat("sphere", str(s.GetCenter()), s.GetRadius()); }
static FUBoundingBox box(Src& g, double m) { V a = point(g, m), b = point(g, m); if (g.chance(1, 6)) b.x = a.x; if (g.chance(1, 8)) b = a; V lo(std::min(a.x, b.x), std::min(a.y, b.y), std::min(a.z, b.z)), hi(std::max(a.x, b.x), std::max(a.y, b.y), std::max(a.z, b.z)); return FUBoundingBox(lo, hi); }
static FUBoundingSphere sphere(Src& g, double m) { V p = point(g, m); float r = g.chance(1, 8) ? 0.0f : fabsf(coord(g, m)); return FUBoundingSphere(p, r); }
static V inBox(Src& g, const FUBoundingBox& b) { auto c = [&](float lo, float hi) { switch (g.below(4)) { case 0: return lo; case 1: return hi; default: return std::min(hi, std::max(lo, (float) (lo + (hi - (double) lo) * g.unit()))); } }; float x = c(b.GetMin().x, b.GetMax().x), y = c(b.GetMin().y, b.GetMax().y), z = c(b.GetMin().z, b.GetMax().z); return V(x, y, z); }
static V dirOf(Src& g) { V d((float) (g.unit() * 2 - 1), (float) (g.unit() * 2 - 1), (float) (g.unit() * 2 - 1)); if (d.LengthSquared() < 0.01f) d = V(0, 1, 0); return d.Normalize(); }
static V inSphere(Src& g, const FUBoundingSphere& s) { double f = g.coin() ? 1.0 : g.unit(); V d = dirOf(g); return s.GetCenter() + d * (float) (s.GetRadius() * f); }
static double dBox(const V& p, const FUBoundingBox& b) { auto c = [](double v, double lo, double hi) { return v < lo ? lo - v : v > hi ? v - hi : 0.0; }; double x = c(p.x, b.GetMin().x, b.GetMax().x), y = c(p.y, b.GetMin().y, b.GetMax().y), z = c(p.z, b.GetMin().z, b.GetMax().z); return sqrt(x * x + y * y + z * z); }
static bool holds(const FUBoundingBox& b, const V& p) { return p.x >= b.GetMin().x && p.x <= b.GetMax().x && p.y >= b.GetMin().y && p.y <= b.GetMax().y && p.z >= b.GetMin().z && p.z <= b.GetMax().z; }

static FMMatrix44 affine(Src& g, bool skew) {
    FMMatrix44 r = FMMatrix44::Identity; if (g.chance(1, 8)) return r;
    if (skew && g.coin()) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) r[i][j] = coord(g, 3); return r; }
    V d = dirOf(g); float t = (float) (g.unit() * 7), sx = coord(g, 2), sy = g.coin() ? sx : coord(g, 2), sz = g.coin() ? sx : coord(g, 2); V p = point(g, 10);
    return FMMatrix44::TranslationMatrix(p) * FMMatrix44::AxisRotationMatrix(d, t) * FMMatrix44::ScaleMatrix(V(sx, sy, sz));
}

PBT_CASE(box_history, 250000, 6000000) {
    FUBoundingBox b; CHECK(!b.IsValid(), "a new box is invalid");
    double m = magn(g); V lo(FLT_MAX, FLT_MAX, FLT_MAX), hi(-FLT_MAX, -FLT_MAX, -FLT_MAX); std::vector<V> pts; std::vector<FUBoundingBox> boxes; bool any = false;
    auto grow = [&](const V& p) { lo.x = std::min(lo.x, p.x); lo.y = std::min(lo.y, p.y); lo.z = std::min(lo.z, p.z); hi.x = std::max(hi.x, p.x); hi.y = std::max(hi.y, p.y); hi.z = std::max(hi.z, p.z); any = true; };
    size_t n = g.steps(8); int kinds = 0;
    for (size_t i = 0; i < n; ++i) {
        switch (g.below(8)) {
        case 0: case 1: case 2: case 3: { V p = point(g, m); c.note("include " + str(p) + "; "); b.Include(p); grow(p); pts.push_back(p); break; }
        case 4: case 5: { FUBoundingBox o = box(g, m); c.note("include " + str(o) + "; "); b.Include(o); grow(o.GetMin()); grow(o.GetMax()); boxes.push_back(o); ++kinds; break; }
        case 6: { c.note("include empty; "); FUBoundingBox o; if (g.coin()) { o = box(g, m); o.Reset(); } CHECK(!o.IsValid(), "reset box"); b.Include(o); break; }
        default: if (g.chance(1, 4)) { c.note("reset; "); b.Reset(); lo = V(FLT_MAX, FLT_MAX, FLT_MAX); hi = V(-FLT_MAX, -FLT_MAX, -FLT_MAX); any = false; pts.clear(); boxes.clear(); }
        }
        CHECK_EQ(b.IsValid(), any, "validity after step ", i);
        if (any) { CHECK(b.GetMin() == lo && b.GetMax() == hi && b.GetMin().x == lo.x && b.GetMin().y == lo.y && b.GetMin().z == lo.z && b.GetMax().x == hi.x && b.GetMax().y == hi.y && b.GetMax().z == hi.z, "smallest box: got ", str(b), " want ", str(lo), str(hi)); }
        for (auto& p : pts) CHECK(b.Contains(p), "box contains its point ", str(p));
        for (auto& o : boxes) { V p = inBox(g, o); CHECK(b.Contains(p), "box contains a point of an included box ", str(p)); }
        V q = point(g, m * 1.5); CHECK_EQ(b.Contains(q), any && holds(b, q), "containment of ", str(q));
    }
    c.nontrivial = pts.size() + 2 * kinds >= 3;
    FUBoundingBox cp(b); CHECK(cp.Equals(b) && b.Equals(cp), "copy"); 
    if (!any) { CHECK(!b.Transform(affine(g, true)).IsValid(), "transformed empty box"); return; }
    V e = b.GetCenter(); for (int k = 0; k < 3; ++k) CHECK(fabs((double) ((const float*) e)[k] - ((double) ((const float*) lo)[k] + ((const float*) hi)[k]) / 2) <= 1e-6 * m * 8 + 1e-6, "center");
    { FUBoundingBox d(b); V x = d.GetMax(); ((float*) x)[g.below(3)] += (float) (1 + m); d.SetMax(x); CHECK(!d.Equals(b) && !b.Equals(d), "boxes differ"); CHECK(d.GetMax() == x && d.GetMin() == b.GetMin(), "SetMax"); x = d.GetMin(); ((float*) x)[g.below(3)] -= (float) (1 + m); d = b; d.SetMin(x); CHECK(!d.Equals(b) && !b.Equals(d), "boxes differ"); }
    FMMatrix44 t = affine(g, true); FUBoundingBox tb = b.Transform(t);
    double tm = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) tm = std::max(tm, fabs((double) t[i][j])); double tol = 4e-6 * tm * (std::max(mag(lo), mag(hi)) + 1);
    CHECK(tb.IsValid(), "transformed box is valid");
    for (auto& p : pts) CHECK(dBox(t.TransformCoordinate(p), tb) <= tol, "transformed box contains the transformed point");
    V wlo(FLT_MAX, FLT_MAX, FLT_MAX), whi(-FLT_MAX, -FLT_MAX, -FLT_MAX);
    for (int i = 0; i < 8; ++i) { V q = t.TransformCoordinate(V(i & 1 ? lo.x : hi.x, i & 2 ? lo.y : hi.y, i & 4 ? lo.z : hi.z)); for (int k = 0; k < 3; ++k) { float v = ((const float*) q)[k]; ((float*) wlo)[k] = std::min(((float*) wlo)[k], v); ((float*) whi)[k] = std::max(((float*) whi)[k], v); } }
    CHECK(dist(wlo, tb.GetMin()) <= tol && dist(whi, tb.GetMax()) <= tol, "smallest transformed box: got ", str(tb), " want ", str(wlo), str(whi));
}

PBT_CASE(sphere_history, 250000, 6000000) {
    FUBoundingSphere s; CHECK(!s.IsValid(), "a new sphere is invalid");
    double m = magn(g), tol; bool any = false; std::vector<V> pts; std::vector<FUBoundingSphere> sph; std::vector<FUBoundingBox> boxes;
    if (g.chance(1, 4)) { FUBoundingSphere o = sphere(g, m); s.SetCenter(o.GetCenter()); s.SetRadius(o.GetRadius()); sph.push_back(o); any = true; c.note("start " + str(o) + "; "); }
    size_t n = g.steps(7);
    for (size_t i = 0; i < n; ++i) {
        FUBoundingSphere before(s); bool inside = false; tol = 2e-5 * (m + 8);
        switch (g.below(9)) {
        case 0: case 1: case 2: { V p = point(g, m); c.note("include " + str(p) + "; "); inside = any && dist(p, s.GetCenter()) < s.GetRadius() - tol; s.Include(p); pts.push_back(p); any = true; CHECK(s.Contains(p), "sphere contains the point just included: ", str(p), " in ", str(s)); break; }
        case 3: case 4: case 5: { FUBoundingSphere o = sphere(g, m); if (any && g.chance(1, 3)) o.SetCenter(s.GetCenter()); c.note("include " + str(o) + "; "); inside = any && dist(o.GetCenter(), s.GetCenter()) + o.GetRadius() < s.GetRadius() - tol;
            double d = dist(o.GetCenter(), s.GetCenter()), want = !any || d + s.GetRadius() <= o.GetRadius() ? o.GetRadius() : d + o.GetRadius() <= s.GetRadius() ? s.GetRadius() : (d + o.GetRadius() + s.GetRadius()) / 2; s.Include(o); sph.push_back(o); any = true; CHECK(s.GetRadius() <= want + tol, "sphere around two spheres is not larger than both touching sides need: ", str(s), " want radius ", want); break; }
        case 6: { FUBoundingBox o = box(g, m); c.note("include " + str(o) + "; "); if (any) { inside = true; for (int k = 0; k < 8; ++k) inside &= dist(V(k & 1 ? o.GetMin().x : o.GetMax().x, k & 2 ? o.GetMin().y : o.GetMax().y, k & 4 ? o.GetMin().z : o.GetMax().z), s.GetCenter()) < s.GetRadius() - tol; } s.Include(o); boxes.push_back(o); any = true; break; }
        case 7: { c.note("include empty; "); inside = true; if (g.coin()) { FUBoundingSphere o = sphere(g, m); o.Reset(); s.Include(o); } else s.Include(FUBoundingBox()); break; }
        default: if (g.chance(1, 4)) { c.note("reset; "); s.Reset(); before = s; any = false; pts.clear(); sph.clear(); boxes.clear(); }
        }
        CHECK_EQ(s.IsValid(), any, "validity after step ", i);
        if (!any) { CHECK(!s.Contains(point(g, m)), "empty sphere contains nothing"); continue; }
        CHECK(std::isfinite(s.GetRadius()) && std::isfinite(s.GetCenter().x + s.GetCenter().y + s.GetCenter().z), "finite sphere");
        if (inside) CHECK(dist(before.GetCenter(), s.GetCenter()) == 0 && before.GetRadius() == s.GetRadius(), "including what the sphere already contains changes nothing: ", str(before), " became ", str(s));
        auto in = [&](const V& p, const char* w) { CHECK(dist(p, s.GetCenter()) <= s.GetRadius() + tol, "sphere contains ", w, " ", str(p), ": off by ", dist(p, s.GetCenter()) - s.GetRadius(), " of ", str(s)); };
        for (auto& p : pts) in(p, "its point");
        for (auto& o : sph) CHECK(dist(o.GetCenter(), s.GetCenter()) + o.GetRadius() <= s.GetRadius() + tol, "sphere contains the included ", str(o), ": ", str(s));
        for (auto& o : boxes) for (int k = 0; k < 8; ++k) in(V(k & 1 ? o.GetMin().x : o.GetMax().x, k & 2 ? o.GetMin().y : o.GetMax().y, k & 4 ? o.GetMin().z : o.GetMax().z), "the corner of a box");
        V q = g.coin() ? point(g, m) : inSphere(g, s); double d2 = dist(q, s.GetCenter()); d2 *= d2; double r2 = (double) s.GetRadius() * s.GetRadius();
        if (d2 <= r2 * (1 - 1e-6)) CHECK(s.Contains(q), "containment of ", str(q), " in ", str(s)); else if (d2 > r2 * (1 + 1e-5) + 2e-4) CHECK(!s.Contains(q), "no containment of ", str(q), " in ", str(s));
    }
    c.nontrivial = pts.size() + 2 * sph.size() + 2 * boxes.size() >= 3;
    if (!any) { CHECK(!s.Transform(affine(g, false)).IsValid(), "transformed empty sphere"); return; }
    FUBoundingSphere cp(s); CHECK(cp.GetRadius() == s.GetRadius() && dist(cp.GetCenter(), s.GetCenter()) == 0, "copy");
    FMMatrix44 t = affine(g, false); FUBoundingSphere ts = s.Transform(t); double sc = 0; for (int i = 0; i < 3; ++i) sc = std::max(sc, sqrt((double) t[i][0] * t[i][0] + (double) t[i][1] * t[i][1] + (double) t[i][2] * t[i][2]));
    double tt = 4e-5 * (sc * (m + 8 + s.GetRadius()) + 12);
    CHECK(dist(ts.GetCenter(), t.TransformCoordinate(s.GetCenter())) <= tt, "center of the transformed sphere"); CHECK(fabs(ts.GetRadius() - sc * s.GetRadius()) <= tt, "radius of the transformed sphere: ", ts.GetRadius(), " want ", sc * s.GetRadius());
    for (auto& p : pts) CHECK(dist(t.TransformCoordinate(p), ts.GetCenter()) <= ts.GetRadius() + tt, "transformed sphere contains the transformed point");
}

static const V NONE(1.5e30f, -1.5e30f, 1.5e30f);
PBT_CASE(overlaps, 250000, 6000000) {
    double m = magn(g);
    FUBoundingBox a = box(g, m), b = g.chance(1, 4) ? FUBoundingBox(inBox(g, a), a.GetMax()) : box(g, m); c.note(str(a) + str(b)); V o = NONE;
    bool want = true; for (int k = 0; k < 3; ++k) want &= std::max(((const float*) a.GetMin())[k], ((const float*) b.GetMin())[k]) <= std::min(((const float*) a.GetMax())[k], ((const float*) b.GetMax())[k]);
    CHECK_EQ(a.Overlaps(b, &o), want, "boxes overlap"); CHECK_EQ(b.Overlaps(a), want, "boxes overlap, other way");
    if (want) { double tol = 1e-6 * (m + 8); CHECK(dBox(o, a) <= tol && dBox(o, b) <= tol, "overlap center ", str(o), " lies in both boxes"); for (int k = 0; k < 3; ++k) { double l = std::max(((const float*) a.GetMin())[k], ((const float*) b.GetMin())[k]), h = std::min(((const float*) a.GetMax())[k], ((const float*) b.GetMax())[k]); CHECK(fabs(((const float*) o)[k] - (l + h) / 2) <= tol, "center of the overlap of two boxes"); } }
    CHECK(!a.Overlaps(FUBoundingBox()) && !FUBoundingBox().Overlaps(a), "nothing overlaps an empty box");

    FUBoundingSphere s = sphere(g, m), t = sphere(g, m); switch (g.below(6)) { case 0: t.SetCenter(s.GetCenter()); break; case 1: t.SetCenter(inSphere(g, s)); break; case 2: t.SetCenter(s.GetCenter() + V(s.GetRadius() + t.GetRadius(), 0, 0)); break; default: break; }
    c.note(str(s) + str(t)); double d = dist(s.GetCenter(), t.GetCenter()), sum = (double) s.GetRadius() + t.GetRadius(), tol = 1e-5 * (m + 8); o = NONE;
    bool so = s.Overlaps(t, &o), to = t.Overlaps(s); 
    if (d < sum - tol || (d == 0)) CHECK(so && to, "spheres overlap: ", str(s), str(t)); else if (d > sum + tol) CHECK(!so && !to, "spheres do not overlap");
    if (so && sum > 0) { CHECK(dist(o, s.GetCenter()) <= s.GetRadius() + tol && dist(o, t.GetCenter()) <= t.GetRadius() + tol, "overlap center ", str(o), " lies in both spheres");
        double lo = std::max(-(double) s.GetRadius(), d - t.GetRadius()), hi = std::min((double) s.GetRadius(), d + t.GetRadius()); CHECK(fabs(dist(o, s.GetCenter()) - fabs((lo + hi) / 2)) <= 4 * tol && fabs(dist(o, t.GetCenter()) - fabs(d - (lo + hi) / 2)) <= 4 * tol, "center of the overlap of two spheres: ", str(o)); }
    FUBoundingSphere e = t; e.Reset(); if (g.coin()) e.SetCenter(inSphere(g, s)); CHECK(!s.Overlaps(e) && !e.Overlaps(s), "nothing overlaps an empty sphere");

    FUBoundingSphere u(s); if (g.chance(1, 3)) u.SetCenter(inBox(g, a)); double db = dBox(u.GetCenter(), a); o = NONE; V o2 = NONE; c.note(str(u));
    bool x1 = u.Overlaps(a, &o), x2 = a.Overlaps(u, &o2); CHECK_EQ(x1, x2, "symmetry");
    if (db < u.GetRadius() - tol || db == 0) CHECK(x1, "sphere and box overlap: ", str(u), str(a)); else if (db > u.GetRadius() + tol) CHECK(!x1, "sphere and box do not overlap");
    if (x1) CHECK(dist(o, u.GetCenter()) <= u.GetRadius() + tol && dBox(o, a) <= tol && dist(o, o2) <= tol, "overlap center lies in the sphere and the box");
    CHECK(!u.Overlaps(FUBoundingBox()) && !FUBoundingBox().Overlaps(u) && !e.Overlaps(a) && !a.Overlaps(e), "nothing overlaps an empty volume");
    c.nontrivial = want || so || x1; if (want) c.label("boxes overlap"); if (so) c.label("spheres overlap"); if (x1) c.label("sphere and box overlap");
}
