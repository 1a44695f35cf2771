// LIB: small
#include "fcu.h"
#include <algorithm>
#include <cfloat>
#include "FMath/FMAngleAxis.h"
#include "FMath/FMQuaternion.h"
#include "FMath/FMMatrix33.h"
#include "FMath/FMSkew.h"
#include "FMath/FMLookAt.h"
using namespace pbt;

PBT_PROPERTY("C17", "Random finite matrices, vectors, rotations (uniform, on the axes, near half turns and near the Euler singularities), scales of either sign between 1e-3 and 1e3 and translations, compared with the same formulas computed in double precision. Tolerances are proportional to the magnitudes involved. Non-trivial: no entry of the operands is a trivial 0 or 1 structure, i.e. the case draws at least one generic rotation or a dense matrix.")
static void init() { fcu::install(); }
struct SetInit { SetInit() { worker_init = init; } } setInit;

// Reference matrices: R[row][col], column vectors.
struct M4 { double a[4][4]; };
static M4 ident() { M4 r{}; for (int i = 0; i < 4; ++i) r.a[i][i] = 1; return r; }
static M4 mul(const M4& x, const M4& y) { M4 r{}; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int k = 0; k < 4; ++k) r.a[i][j] += x.a[i][k] * y.a[k][j]; return r; }
static M4 tr(const M4& x) { M4 r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r.a[i][j] = x.a[j][i]; return r; }
static double det(const M4& x, int n = 4) { double m[4][4]; memcpy(m, x.a, sizeof m); double d = 1; for (int c = 0; c < n; ++c) { int p = c; for (int r = c; r < n; ++r) if (fabs(m[r][c]) > fabs(m[p][c])) p = r; if (m[p][c] == 0) return 0; if (p != c) { std::swap_ranges(m[p], m[p] + 4, m[c]); d = -d; } d *= m[c][c]; for (int r = c + 1; r < n; ++r) { double f = m[r][c] / m[c][c]; for (int k = c; k < n; ++k) m[r][k] -= f * m[c][k]; } } return d; }
static M4 inv(const M4& x, int n = 4) { double m[4][8] = {}; for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) m[i][j] = x.a[i][j]; m[i][4 + i] = 1; }
    for (int c = 0; c < n; ++c) { int p = c; for (int r = c; r < n; ++r) if (fabs(m[r][c]) > fabs(m[p][c])) p = r; if (p != c) std::swap_ranges(m[p], m[p] + 8, m[c]); double f = m[c][c]; for (int k = 0; k < 8; ++k) m[c][k] /= f; for (int r = 0; r < n; ++r) if (r != c) { double q = m[r][c]; for (int k = 0; k < 8; ++k) m[r][k] -= q * m[c][k]; } }
    M4 r = ident(); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r.a[i][j] = m[i][4 + j]; return r; }
static M4 rot(double x, double y, double z, double t) { double l = sqrt(x * x + y * y + z * z); x /= l; y /= l; z /= l; double c = cos(t), s = sin(t), q = 1 - c; M4 r = ident();
    double v[3][3] = {{x * x * q + c, x * y * q - z * s, x * z * q + y * s}, {x * y * q + z * s, y * y * q + c, y * z * q - x * s}, {x * z * q - y * s, y * z * q + x * s, z * z * q + c}};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = v[i][j]; return r; }
static M4 euler(double x, double y, double z) { return mul(mul(rot(1, 0, 0, x), rot(0, 1, 0, y)), rot(0, 0, 1, z)); }
static M4 scl(double x, double y, double z) { M4 r = ident(); r.a[0][0] = x; r.a[1][1] = y; r.a[2][2] = z; return r; }
static M4 trs(double x, double y, double z) { M4 r = ident(); r.a[0][3] = x; r.a[1][3] = y; r.a[2][3] = z; return r; }
static FMMatrix44 toFM(const M4& x) { double v[16]; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) v[i * 4 + j] = x.a[i][j]; return FMMatrix44(v); }
static M4 ref(const FMMatrix44& f) { M4 r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r.a[i][j] = f[j][i]; return r; }
static double norm(const M4& x, int n = 4) { double m = 0; for (int i = 0; i < n; ++i) { double s = 0; for (int j = 0; j < n; ++j) s += fabs(x.a[i][j]); m = std::max(m, s); } return m; }
static std::string show(const M4& x) { std::ostringstream o; for (int i = 0; i < 4; ++i) { for (int j = 0; j < 4; ++j) o << x.a[i][j] << ' '; o << "/ "; } return o.str(); }
static void near(const M4& got, const M4& want, double tol, const char* what, int n = 4) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (!(fabs(got.a[i][j] - want.a[i][j]) <= tol)) fail(cat(what, ": entry ", i, ",", j, " off by ", fabs(got.a[i][j] - want.a[i][j]), " > ", tol, "; got ", show(got), " want ", show(want))); }
static void near(double got, double want, double tol, const char* what) { if (!(fabs(got - want) <= tol)) fail(cat(what, ": got ", got, " want ", want, " tolerance ", tol)); }

static float val(Src& g, double mag) { switch (g.below(8)) { case 0: return 0; case 1: return 1; case 2: return -1; case 3: return (float) (g.range(-3, 3)); default: return (float) ((g.unit() * 2 - 1) * mag); } }
static double magn(Src& g) { return pow(10.0, (double) g.range(-2, 3)); }
static float angleOf(Src& g, bool& generic) { const double pi = M_PI; switch (g.below(9)) { case 0: return 0; case 1: return (float) (pi * g.range(-4, 4) / 4); case 2: return (float) (pi * g.range(-2, 2) / 2 + (g.unit() - .5) * 0.02); case 3: return (float) (pi * g.range(-1, 1) + (g.unit() - .5) * 1e-3); case 4: return (float) ((g.unit() - .5) * 40); default: generic = true; return (float) ((g.unit() * 2 - 1) * pi); } }
static FMVector3 axisOf(Src& g, bool& generic) { switch (g.below(6)) { case 0: return FMVector3::XAxis; case 1: return FMVector3::YAxis; case 2: return FMVector3::ZAxis; case 3: { FMVector3 v((float) g.range(-1, 1), (float) g.range(-1, 1), (float) g.range(-1, 1)); if (v.LengthSquared() == 0) v.x = -1; return v; }
    default: { generic = true; FMVector3 v; do { v = FMVector3((float) (g.unit() * 2 - 1), (float) (g.unit() * 2 - 1), (float) (g.unit() * 2 - 1)); if (v.LengthSquared() < .01f) v.x += 1; } while (v.LengthSquared() < .01f); return v; } } }
static M4 dense(Src& g) { M4 r; double m = magn(g); for (auto& x : r.a) for (auto& v : x) v = val(g, m); if (g.coin()) { r.a[3][0] = r.a[3][1] = r.a[3][2] = 0; r.a[3][3] = 1; } return r; }
static FMVector3 vec(Src& g) { double m = magn(g); return FMVector3(val(g, m), val(g, m), val(g, m)); }
static double mag(const FMVector3& v) { return fabs((double) v.x) + fabs((double) v.y) + fabs((double) v.z); }

PBT_CASE(matrix, 450000, 9000000) {
    M4 A = dense(g), B = dense(g); c.nontrivial = true; c.note(show(A));
    FMMatrix44 a = toFM(A), b = toFM(B);
    near(ref(a), A, 0, "construction"); near(ref(a.Transposed()), tr(A), 0, "transpose");
    float fv[16]; for (int i = 0; i < 16; ++i) fv[i] = (float) A.a[i / 4][i % 4]; near(ref(FMMatrix44(fv)), A, 0, "float construction");
    FMMatrix44 s; s.Set(fv); near(ref(s), A, 0, "Set"); FMMatrix44 cp(a); near(ref(cp), A, 0, "copy"); s = b; near(ref(s), B, 0, "assignment");
    double eps = 4e-7, pm = norm(A) * norm(B) * 4;
    M4 P = mul(A, B); near(ref(a * b), P, eps * pm, "product"); s = a; s *= b; near(ref(s), P, eps * pm, "*=");
    float k = val(g, 10); { M4 K = A; for (auto& r : K.a) for (auto& v : r) v *= k; near(ref(k * a), K, eps * norm(A) * fabs(k), "scalar product"); }
    FMVector3 v = vec(g); double w = val(g, 3); double in[4] = {v.x, v.y, v.z, w}, o4[4] = {}, o3[3] = {}, od[3] = {};
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) o4[i] += A.a[i][j] * in[j];
    for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) od[i] += A.a[i][j] * in[j]; o3[i] = od[i] + A.a[i][3]; }
    double vt = eps * norm(A) * (mag(v) + fabs(w) + 1) * 4;
    FMVector3 c3 = a.TransformCoordinate(v), cd = a.TransformVector(v); FMVector4 c4 = a.TransformCoordinate(FMVector4(v, (float) w)), c5 = a * FMVector4(v, (float) w);
    const float *p3 = c3, *pd = cd, *p4 = c4, *p5 = c5;
    for (int i = 0; i < 3; ++i) { near(p3[i], o3[i], vt, "TransformCoordinate"); near(pd[i], od[i], vt, "TransformVector"); }
    for (int i = 0; i < 4; ++i) { near(p4[i], o4[i], vt, "TransformCoordinate of a 4D point"); near(p5[i], o4[i], vt, "matrix times vector"); }
    FMVector3 t = a.GetTranslation(); near(t.x, A.a[0][3], 0, "translation"); near(t.y, A.a[1][3], 0, "translation"); near(t.z, A.a[2][3], 0, "translation");
    double d = det(A), n = norm(A); near(a.Determinant(), d, 4e-6 * n * n * n * n + 1e-30, "determinant");
    // Inverse of well-conditioned matrices
    if (fabs(d) > 1e-9) { M4 I = inv(A); double cond = n * norm(I); if (cond < 300) { c.label("inverted"); near(ref(a.Inverted()), I, 4e-6 * cond * cond * norm(I) , "inverse"); near(ref(a * a.Inverted()), ident(), 2e-5 * cond * cond, "matrix times inverse"); near(ref(a.Inverted() * a), ident(), 2e-5 * cond * cond, "inverse times matrix"); } }
    CHECK(IsEquivalent(a, a), "IsEquivalent"); FMMatrix44 e = a; int ei = (int) g.below(4), ej = (int) g.below(4); e[ei][ej] += (fabsf(e[ei][ej]) * 1e-3f + 1.0f); CHECK(!IsEquivalent(a, e) && !IsEquivalent(e, a), "IsEquivalent of different matrices");
}

PBT_CASE(matrix33, 300000, 6000000) {
    auto gen = [&]() { M4 r = ident(); double m = magn(g) * (g.chance(1, 4) ? 1e-2 : 1); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = g.chance(1, 5) ? (float) (m * g.range(-2, 2)) : (float) ((g.unit() * 2 - 1) * m); if (g.coin()) { r.a[2][0] = r.a[2][1] = 0; r.a[2][2] = 1; } return r; };
    auto to = [](const M4& x) { float v[9]; for (int i = 0; i < 9; ++i) v[i] = (float) x.a[i / 3][i % 3]; return FMMatrix33(v); };
    auto from = [](FMMatrix33 m) { M4 r = ident(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = m[j][i]; return r; };
    M4 A = gen(), B = gen(); c.nontrivial = true; c.note(show(A));
    near(from(to(A)), A, 0, "construction", 3); near(from(to(A).Transposed()), tr(A), 0, "transpose", 3);
    near(from(to(A) * to(B)), mul(A, B), 4e-7 * norm(A, 3) * norm(B, 3) * 4, "product", 3);
    double d = det(A, 3); if (fabs(d) > 1e-15) { M4 I = inv(A, 3); double cond = norm(A, 3) * norm(I, 3); if (cond < 1000) { c.label("inverted"); near(from(to(A).Inverted()), I, 4e-6 * cond * cond * norm(I, 3), "inverse", 3); } }
    // 2D transforms act on the homogeneous column (x, y, 1)
    bool gen2 = false; float t = angleOf(g, gen2), tx = val(g, 10), ty = val(g, 10);
    M4 R = ident(); R.a[0][0] = R.a[1][1] = cos((double) t); M4 got = from(FMMatrix33::RotationMatrix(t)); 
    near(got.a[0][0], cos((double) t), 1e-6, "rotation"); near(got.a[1][1], cos((double) t), 1e-6, "rotation"); near(fabs(got.a[0][1]), fabs(sin((double) t)), 1e-6, "rotation"); near(got.a[0][1], -got.a[1][0], 0, "rotation"); near(det(got, 3), 1, 1e-5, "rotation");
    float t2 = angleOf(g, gen2); near(from(FMMatrix33::RotationMatrix(t) * FMMatrix33::RotationMatrix(t2)), from(FMMatrix33::RotationMatrix(t + t2)), 2e-5, "sum of 2D rotations", 3);
    M4 T = ident(); T.a[0][2] = tx; T.a[1][2] = ty; near(from(FMMatrix33::TranslationMatrix(tx, ty)), T, 0, "2D translation", 3); near(from(FMMatrix33::TranslationMatrix(FMVector2(tx, ty))), T, 0, "2D translation", 3);
    M4 S = ident(); S.a[0][0] = tx; S.a[1][1] = ty; near(from(FMMatrix33::ScaleMatrix(tx, ty)), S, 0, "2D scale", 3); near(from(FMMatrix33::ScaleMatrix(FMVector2(tx, ty))), S, 0, "2D scale", 3);
}

PBT_CASE(vectors, 300000, 6000000) {
    FMVector3 a = vec(g), b = vec(g); float k = val(g, 10); c.nontrivial = mag(a) > 0 && mag(b) > 0; c.note(cat(a.x, " ", a.y, " ", a.z, ", ", b.x, " ", b.y, " ", b.z));
    double A[3] = {a.x, a.y, a.z}, B[3] = {b.x, b.y, b.z}, m = (mag(a) + mag(b)), e = 4e-7;
    auto v3 = [&](const FMVector3& v, double x, double y, double z, double tol, const char* w) { near(v.x, x, tol, w); near(v.y, y, tol, w); near(v.z, z, tol, w); };
    v3(a + b, A[0] + B[0], A[1] + B[1], A[2] + B[2], e * m, "+"); v3(a - b, A[0] - B[0], A[1] - B[1], A[2] - B[2], e * m, "-"); v3(-a, -A[0], -A[1], -A[2], 0, "negation"); v3(+a, A[0], A[1], A[2], 0, "plus");
    FMVector3 s = a; s += b; v3(s, A[0] + B[0], A[1] + B[1], A[2] + B[2], e * m, "+="); s = a; s -= b; v3(s, A[0] - B[0], A[1] - B[1], A[2] - B[2], e * m, "-="); s = a; s *= k; v3(s, A[0] * k, A[1] * k, A[2] * k, e * m * fabs(k), "*=");
    v3(a * k, A[0] * k, A[1] * k, A[2] * k, e * m * fabs(k), "v*k"); v3(k * a, A[0] * k, A[1] * k, A[2] * k, e * m * fabs(k), "k*v"); if (k) { v3(a / k, A[0] / k, A[1] / k, A[2] / k, e * m / fabs(k), "v/k"); s = a; s /= k; v3(s, A[0] / k, A[1] / k, A[2] / k, e * m / fabs(k), "/="); }
    near(a * b, A[0] * B[0] + A[1] * B[1] + A[2] * B[2], e * m * m, "dot product");
    v3(a ^ b, A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0], e * m * m, "cross product");
    double l2 = A[0] * A[0] + A[1] * A[1] + A[2] * A[2], l = sqrt(l2); near(a.LengthSquared(), l2, e * m * m, "squared length"); near(a.Length(), l, e * m * 2, "length");
    if (l > 1e-3) { v3(a.Normalize(), A[0] / l, A[1] / l, A[2] / l, 1e-6, "normalize"); s = a; s.NormalizeIt(); v3(s, A[0] / l, A[1] / l, A[2] / l, 1e-6, "normalize in place"); FMVector3 p = b.Projected(a); double q = (A[0] * B[0] + A[1] * B[1] + A[2] * B[2]) / l2; v3(p, q * A[0], q * A[1], q * A[2], 4e-6 * m, "projection"); s = b; s.Project(a); v3(s, q * A[0], q * A[1], q * A[2], 4e-6 * m, "projection in place"); }
    else if (l == 0) { near(a.Normalize().Length(), 1, 0, "normalized zero vector"); s = a; s.NormalizeIt(); near(s.Length(), 1, 0, "normalized zero vector"); }
    FMVector3 lo((float) std::min(A[0], B[0]), (float) std::min(A[1], B[1]), (float) std::min(A[2], B[2])), hi((float) std::max(A[0], B[0]), (float) std::max(A[1], B[1]), (float) std::max(A[2], B[2])), q = vec(g); s = q; s.ComponentClamp(lo, hi);
    v3(s, std::min(std::max(q.x, lo.x), hi.x), std::min(std::max(q.y, lo.y), hi.y), std::min(std::max(q.z, lo.z), hi.z), 0, "clamp");
    FMVector2 u(a.x, a.y), w(b.x, b.y); near(u * w, A[0] * B[0] + A[1] * B[1], e * m * m, "2D dot"); near((u + w).x, A[0] + B[0], e * m, "2D +"); near((u - w).y, A[1] - B[1], e * m, "2D -"); near(u.Length(), sqrt(A[0] * A[0] + A[1] * A[1]), e * m * 2, "2D length"); near((k * u).y, k * A[1], e * m * fabs(k), "2D scale"); near((u * k).x, k * A[0], e * m * fabs(k), "2D scale");
    CHECK(a == a, "equality"); FMVector3 d = a; ((float*) d)[g.below(3)] += 1.0f; CHECK(!(a == d) && !(d == a), "inequality");
}

// A rotation with its reference matrix
static M4 rotation(Src& g, bool& generic) { FMVector3 ax = axisOf(g, generic); float t = angleOf(g, generic); return rot(ax.x, ax.y, ax.z, t); }

PBT_CASE(rotations, 450000, 9000000) {
    bool gen = false; FMVector3 ax = axisOf(g, gen); float t = angleOf(g, gen);
    double big = 1e-6 * (1 + fabs(t));
    c.note(cat("axis ", ax.x, " ", ax.y, " ", ax.z, " angle ", t));
    M4 R = rot(ax.x, ax.y, ax.z, t);
    near(ref(FMMatrix44::AxisRotationMatrix(ax, t)), R, 2e-4 + big, "AxisRotationMatrix"); 
    FMVector3 un = ax.Normalize(); if (fabsf(ax.LengthSquared() - 1) > 1e-3f || ax.LengthSquared() == 1) near(ref(FMMatrix44::AxisRotationMatrix(ax, t)), R, 2e-6 + big, "AxisRotationMatrix");
    near(ref(FMMatrix44::XAxisRotationMatrix(t)), rot(1, 0, 0, t), 1e-6 + big, "XAxisRotationMatrix"); near(ref(FMMatrix44::YAxisRotationMatrix(t)), rot(0, 1, 0, t), 1e-6 + big, "YAxisRotationMatrix"); near(ref(FMMatrix44::ZAxisRotationMatrix(t)), rot(0, 0, 1, t), 1e-6 + big, "ZAxisRotationMatrix");
    FMQuaternion q(un, t); near(ref(q.ToMatrix()), R, 2e-6 + big, "angle-axis quaternion to matrix");
    near(q.Length(), 1, 1e-6, "unit quaternion");
    { FMMatrix44 m = FMMatrix44::TranslationMatrix(FMVector3(1, 2, 3)); q.SetToMatrix(m); M4 E = R; E.a[0][3] = 1; E.a[1][3] = 2; E.a[2][3] = 3; near(ref(m), E, 2e-6 + big, "SetToMatrix keeps the translation"); }
    // Matrix -> quaternion -> matrix
    FMQuaternion qm = FMQuaternion::MatrixRotationQuaternion(toFM(R)); near(ref(qm.ToMatrix()), R, 1e-3, "matrix to quaternion and back");
    double dot = fabs(qm.x * q.x + qm.y * q.y + qm.z * q.z + qm.w * q.w) / qm.Length(); near(dot, 1, 1e-5, "matrix to quaternion");
    // Quaternion -> angle-axis -> quaternion
    FMVector3 oa; float ot; q.ToAngleAxis(oa, ot); near(oa.Length(), 1, 1e-5, "unit axis"); near(ref(FMMatrix44::AxisRotationMatrix(oa, ot)), R, 1.5e-3, "quaternion to angle-axis");
    if (fabsf(ot) > 1e-3f) CHECK(FMAngleAxis(oa, ot) == FMAngleAxis(-oa, -ot), "opposite angle and axis");
    // Products, powers and vectors
    bool gen2 = false; M4 R2 = rotation(g, gen2); FMQuaternion q2 = FMQuaternion::MatrixRotationQuaternion(toFM(R2)); q2.NormalizeIt();
    near(ref((q * q2).ToMatrix()), mul(R2, R), 1.5e-3, "quaternion product"); { FMQuaternion p = q; p *= q2; near(ref(p.ToMatrix()), mul(R2, R), 1.5e-3, "quaternion *="); }
    { FMVector3 pa; float pt; (q * ~q).ToAngleAxis(pa, pt); near(cos((double) pt), 1, 1e-5, "angle of the identity product"); (q * q2).ToAngleAxis(pa, pt); near(ref(FMMatrix44::AxisRotationMatrix(pa, pt)), mul(R2, R), 3e-3, "angle-axis of a product"); }
    near(ref((~q).ToMatrix()), tr(R), 2e-6 + big, "conjugate"); near(ref((q * ~q).ToMatrix()), ident(), 4e-6, "quaternion times conjugate");
    FMVector3 v = vec(g); FMVector3 r1 = q * v, r2 = q.ToMatrix().Transposed().TransformVector(v), r3 = (q * q2) * v, r4 = q * (q2 * v); double vm = mag(v);
    near((r1 - r2).Length(), 0, 4e-6 * vm + 1e-9, "rotated vector"); near((r3 - r4).Length(), 0, 1e-5 * vm + 1e-9, "associativity");
    c.nontrivial = gen || gen2;
}

PBT_CASE(euler_angles, 450000, 9000000) {
    bool gen = false; float x = angleOf(g, gen), y = angleOf(g, gen), z = angleOf(g, gen); c.note(cat(x, " ", y, " ", z)); c.nontrivial = gen;
    M4 R = euler(x, y, z); double pole = 1 - fabs(R.a[0][2]); double tol = pole < 3e-4 ? 0.035 : 2e-3;
    if (pole < 3e-4) c.label("near the pole");
    near(ref(FMMatrix44::EulerRotationMatrix(FMVector3(x, y, z))), R, 4e-4, "EulerRotationMatrix");
    FMQuaternion q = FMQuaternion::EulerRotationQuaternion(x, y, z); near(ref(q.ToMatrix()), R, 2e-5, "EulerRotationQuaternion");
    FMVector3 e = q.ToEuler(); near(ref(FMMatrix44::EulerRotationMatrix(e)), R, tol, "ToEuler");
    FMVector3 prev(x, y, z); FMVector3 p2 = prev; FMVector3 s = q.ToEuler(&p2); near(ref(FMMatrix44::EulerRotationMatrix(s)), R, tol, "ToEuler with previous angles");
    if (pole > 1e-2) { near(s.x, x, 5e-3, "closest angles"); near(s.y, y, 5e-3, "closest angles"); near(s.z, z, 5e-3, "closest angles"); }
    else for (int i = 0; i < 3; ++i) CHECK(fabs(((const float*) s)[i] - ((const float*) prev)[i]) <= M_PI + 1e-3, "closest angles stay within half a turn");
}

PBT_CASE(decompose, 450000, 9000000) {
    bool gen = false; M4 R = g.coin() ? rotation(g, gen) : euler(angleOf(g, gen), angleOf(g, gen), angleOf(g, gen));
    auto sc = [&]() { double s = g.chance(1, 4) ? 1 : pow(10.0, g.unit() * 4 - 2); return g.chance(1, 4) ? -s : s; };
    double sx = sc(), sy = sc(), sz = sc(); FMVector3 t = vec(g); c.nontrivial = gen; c.note(cat("scale ", sx, " ", sy, " ", sz, " rotation ", show(R)));
    M4 A = mul(mul(trs(t.x, t.y, t.z), R), scl(sx, sy, sz)); FMMatrix44 a = toFM(A);
    FMVector3 os, orot, ot; float inverted = 0; a.Decompose(os, orot, ot, inverted);
    near(os.x, fabs(sx), 1e-5 * fabs(sx), "scale x"); near(os.y, fabs(sy), 1e-5 * fabs(sy), "scale y"); near(os.z, fabs(sz), 1e-5 * fabs(sz), "scale z");
    near((ot - t).Length(), 0, 0, "translation"); CHECK(inverted == (sx * sy * sz < 0 ? -1.0f : 1.0f), "inverted flag");
    double pole = 1 - fabs(R.a[0][2]), m = std::max({fabs(sx), fabs(sy), fabs(sz)}), tol = (pole < 3e-4 ? 0.035 : 2e-3) * m;
    FMMatrix44 b; b.Recompose(os, orot, ot, inverted); near(ref(b), A, tol, "recomposed");
    near(mul(mul(trs(ot.x, ot.y, ot.z), euler(orot.x, orot.y, orot.z)), scl(os.x * inverted, os.y * inverted, os.z * inverted)), A, tol, "translation * rotation * scale");
    near(ref(FMMatrix44::TranslationMatrix(t)), trs(t.x, t.y, t.z), 0, "TranslationMatrix"); FMVector3 s3((float) sx, (float) sy, (float) sz); near(ref(FMMatrix44::ScaleMatrix(s3)), scl(s3.x, s3.y, s3.z), 0, "ScaleMatrix");
}

PBT_CASE(look_at, 180000, 3000000) {
    bool gen = true; FMVector3 eye = vec(g), d = axisOf(g, gen).Normalize(), up = axisOf(g, gen); float dist = (float) magn(g);
    if (g.coin()) up.NormalizeIt();
    FMVector3 target = eye + d * dist; FMVector3 f = (target - eye); if (f.Length() < 1e-2f * dist + 1e-4f * (float) mag(eye)) throw Discard();
    FMVector3 side = d ^ up; if (side.Length() < 0.05f * up.Length()) throw Discard();
    c.nontrivial = true; c.note(cat(eye.x, " ", eye.y, " ", eye.z, " -> ", d.x, " ", d.y, " ", d.z, " up ", up.x, " ", up.y, " ", up.z));
    M4 L = ref(FMMatrix44::LookAtMatrix(eye, target, up));
    double F[3] = {(double) target.x - eye.x, (double) target.y - eye.y, (double) target.z - eye.z}, fl = sqrt(F[0] * F[0] + F[1] * F[1] + F[2] * F[2]); for (double& v : F) v /= fl;
    double S[3] = {F[1] * up.z - F[2] * up.y, F[2] * up.x - F[0] * up.z, F[0] * up.y - F[1] * up.x}, sl = sqrt(S[0] * S[0] + S[1] * S[1] + S[2] * S[2]); for (double& v : S) v /= sl;
    double U[3] = {S[1] * F[2] - S[2] * F[1], S[2] * F[0] - S[0] * F[2], S[0] * F[1] - S[1] * F[0]};
    M4 E = ident(); for (int i = 0; i < 3; ++i) { E.a[i][0] = S[i]; E.a[i][1] = U[i]; E.a[i][2] = -F[i]; } E.a[0][3] = eye.x; E.a[1][3] = eye.y; E.a[2][3] = eye.z;
    near(L, E, 4e-5, "LookAtMatrix");
}

PBT_CASE(slerp, 240000, 4500000) {
    bool gen = false; M4 R1 = rotation(g, gen), R2 = rotation(g, gen); FMQuaternion a = FMQuaternion::MatrixRotationQuaternion(toFM(R1)), b = FMQuaternion::MatrixRotationQuaternion(toFM(R2)); a.NormalizeIt(); b.NormalizeIt();
    double dot = (double) a.x * b.x + (double) a.y * b.y + (double) a.z * b.z + (double) a.w * b.w; if (dot < -0.99) throw Discard();
    float t = g.chance(1, 5) ? (float) g.below(2) : (float) g.unit(); FMQuaternion s = a.slerp(b, t); c.nontrivial = gen; c.note(cat("dot ", dot, " t ", t));
    double th = acos(std::min(1.0, dot)), w1 = th < 1e-6 ? 1 - t : sin((1 - t) * th) / sin(th), w2 = th < 1e-6 ? t : sin(t * th) / sin(th);
    double tol = dot > 0.999 ? 0.02 : 1e-3;
    near(s.x, w1 * a.x + w2 * b.x, tol, "slerp"); near(s.y, w1 * a.y + w2 * b.y, tol, "slerp"); near(s.z, w1 * a.z + w2 * b.z, tol, "slerp"); near(s.w, w1 * a.w + w2 * b.w, tol, "slerp"); near(s.Length(), 1, 1e-5, "unit slerp");
}
