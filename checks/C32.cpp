// C32: the volume of physics shapes, and what mass, density and inertia are derived from it.
#include "docgen.h"
#include "FMath/FMVolume.h"
using namespace pbt;
using namespace dg;
PBT_PROPERTY("C32", "Shapes of every kind with generated dimensions, their volumes integrated numerically slice by slice; documents of rigid bodies whose shapes give a mass, a density, both or neither, and of instances of these bodies that give some of the values; non-trivial: a case with a shape whose dimensions all differ, or with a value that had to be derived.");
struct SetInit { SetInit() { worker_init = dg::init; } } setInit;

typedef FCDPhysicsAnalyticalGeometry AG;
static const char* const KINDS[] = {"box", "plane", "sphere", "cylinder", "capsule", "tapered_cylinder", "tapered_capsule", "mesh", "hull", "spline"};
enum { BOX, PLANE, SPHERE, CYLINDER, CAPSULE, TCYLINDER, TCAPSULE, MESH, HULL, SPLINE };
struct Solid { int kind; double a = 0, b = 0, h = 0, c = 0, d = 0; int mesh = 0; };  // half-axes at one end, height, half-axes at the other
static std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.9g", (double) (float) x); return b; }
static double size(Src& g) { return g.chance(1, 6) ? 1.0 : (1 + (double) g.below(4000)) * g.oneof<double>({0.01, 0.002, 0.03125}); }
static Solid solid(Src& g, int kinds) { Solid s; s.kind = (int) g.below(kinds); s.a = size(g); s.b = g.chance(1, 5) ? s.a : size(g); s.h = size(g); s.c = g.chance(1, 5) ? s.a : size(g); s.d = g.chance(1, 5) ? s.b : size(g); return s; }
template <class F> static double integral(double from, double to, F area) { const int N = 64; double w = (to - from) / N, t = 0; for (int i = 0; i <= N; ++i) t += area(from + i * w) * (i == 0 || i == N ? 1 : i % 2 ? 4 : 2); return t * w / 3; }
static double cap(double a, double b) { double r = std::max(a, b); return integral(0, r, [&](double z) { double q = 1 - z * z / (r * r); return M_PI * a * b * q; }); } // half of the ellipsoid that closes an end
static double volume(const Solid& s) {
    switch (s.kind) {
    case BOX: return integral(-s.h, s.h, [&](double) { return 4 * s.a * s.b; });
    case PLANE: case SPLINE: return 1;
    case SPHERE: return integral(-s.a, s.a, [&](double z) { return M_PI * (s.a * s.a - z * z); });
    case CYLINDER: return integral(0, s.h, [&](double) { return M_PI * s.a * s.b; });
    case CAPSULE: return integral(0, s.h, [&](double) { return M_PI * s.a * s.b; }) + 2 * cap(s.a, s.b);
    default: { double v = integral(0, s.h, [&](double z) { double t = z / s.h; return M_PI * (s.a + t * (s.c - s.a)) * (s.b + t * (s.d - s.b)); }); return s.kind == TCAPSULE ? v + cap(s.a, s.b) + cap(s.c, s.d) : v; }
    }
}
static std::string told(const Solid& s) { return cat(KINDS[s.kind], " ", num(s.a), " ", num(s.b), " h ", num(s.h), " ", num(s.c), " ", num(s.d)); }
static void near(const std::string& what, double got, double want, double by = 0) { if (!(fabs(got - want) <= 2e-5 * std::max(fabs(want), by))) fail(cat(what, ": ", num(got), " instead of ", num(want))); }
static bool distinct(const Solid& s) { return s.a != s.b && s.b != s.h && s.a != s.h; }

static void give(FCDPhysicsShape* sh, const Solid& s) {
    static const AG::GeomType T[] = {AG::BOX, AG::PLANE, AG::SPHERE, AG::CYLINDER, AG::CAPSULE, AG::TAPERED_CYLINDER, AG::TAPERED_CAPSULE};
    FCDPhysicsAnalyticalGeometry* x = sh->CreateAnalyticalGeometry(T[s.kind]); CHECK(x != NULL && x->GetGeomType() == T[s.kind]);
    switch (s.kind) {
    case BOX: ((FCDPASBox*) x)->halfExtents = FMVector3((float) s.a, (float) s.b, (float) s.h); break;
    case SPHERE: ((FCDPASSphere*) x)->radius = (float) s.a; break;
    case CYLINDER: case TCYLINDER: ((FCDPASCylinder*) x)->radius = FMVector2((float) s.a, (float) s.b); ((FCDPASCylinder*) x)->height = (float) s.h; if (s.kind == TCYLINDER) ((FCDPASTaperedCylinder*) x)->radius2 = FMVector2((float) s.c, (float) s.d); break;
    case CAPSULE: case TCAPSULE: ((FCDPASCapsule*) x)->radius = FMVector2((float) s.a, (float) s.b); ((FCDPASCapsule*) x)->height = (float) s.h; if (s.kind == TCAPSULE) ((FCDPASTaperedCapsule*) x)->radius2 = FMVector2((float) s.c, (float) s.d); break;
    default: break;
    }
}

PBT_CASE(volumes, 20000, 400000) {
    Doc d; FCDPhysicsModel* m = d.d->GetPhysicsModelLibrary()->AddEntity(); FCDPhysicsRigidBody* b = m->AddRigidBody(); FCDPhysicsShape* sh = b->GetParameters()->AddPhysicsShape();
    bool nt = false; double mass = 0, density = 0; bool hm = false, hd = false;
    for (size_t n = g.steps(4); n-- > 0;) {
        Solid s = solid(g, 7); give(sh, s); c.note(told(s)); nt |= distinct(s); CHECK(sh->IsAnalyticalGeometry() && !sh->IsGeometryInstance());
        near(cat("volume of ", told(s)), sh->CalculateVolume(), volume(s)); near("volume of the geometry", sh->GetAnalyticalGeometry()->CalculateVolume(), volume(s));
        if (s.kind != PLANE) { double k = g.oneof<double>({0.5, 2, 4, 0.125}); Solid t = s; t.a *= k; t.b *= k; t.h *= k; t.c *= k; t.d *= k; FCDPhysicsShape* o = b->GetParameters()->AddPhysicsShape(); give(o, t); near(cat("volume of ", told(s), " at scale ", k), o->CalculateVolume(), k * k * k * sh->CalculateVolume()); SAFE_RELEASE(o); }
        if (s.kind >= TCYLINDER) { Solid t = s; std::swap(t.a, t.c); std::swap(t.b, t.d); FCDPhysicsShape* o = b->GetParameters()->AddPhysicsShape(); give(o, t); near(cat("volume of ", told(s), " upside down"), o->CalculateVolume(), sh->CalculateVolume()); SAFE_RELEASE(o); }
        if (g.coin()) { mass = size(g); hm = true; sh->SetMass((float) mass); } if (g.coin()) { density = size(g); hd = true; sh->SetDensity((float) density); }
        CHECK_EQ(sh->GetMass(), hm ? (float) mass : 0.0f, "mass"); CHECK_EQ(sh->GetDensity(), hd ? (float) density : 0.0f, "density"); CHECK_EQ(sh->GetMassPointer() != NULL, hm, "has a mass"); CHECK_EQ(sh->GetDensityPointer() != NULL, hd, "has a density");
        FCDPhysicsShape* o = sh->Clone(); near("volume of a clone", o->CalculateVolume(), volume(s)); CHECK_EQ(o->GetMass(), sh->GetMass(), "mass of a clone"); CHECK_EQ(o->GetDensity(), sh->GetDensity(), "density of a clone"); SAFE_RELEASE(o);
        float r1 = (float) s.a, r2 = (float) s.b, h = (float) s.h; near("cone", FMVolume::CalculateConeVolume(FMVector2(r1, r2), h), integral(0, s.h, [&](double z) { double t = 1 - z / s.h; return M_PI * s.a * s.b * t * t; }));
        near("ellipsoid", FMVolume::CalculateEllipsoidVolume(r1, r2, h), integral(-s.h, s.h, [&](double z) { return M_PI * s.a * s.b * (1 - z * z / (s.h * s.h)); }));
    }
    if (nt) c.nontrivial = true;
}

// Meshes: the volume of the box around their positions, whatever the number of sets of polygons
PBT_CASE(meshes, 6000, 120000) {
    Doc d; FCDGeometry* ge = d.d->GetGeometryLibrary()->AddEntity(); FCDGeometryMesh* m = ge->CreateMesh(); FCDPhysicsShape* sh = d.d->GetPhysicsModelLibrary()->AddEntity()->AddRigidBody()->GetParameters()->AddPhysicsShape();
    uint32 stride = g.chance(1, 4) ? 4 : 3; size_t k = g.below(7), sets = g.below(4); double lo[3] = {1e9, 1e9, 1e9}, hi[3] = {-1e9, -1e9, -1e9}; FloatList data;
    for (size_t i = 0; i < k; ++i) for (uint32 x = 0; x < stride; ++x) { double v = 0.25 * (double) g.range(-100, 100); if (x < 3) { lo[x] = std::min(lo[x], v); hi[x] = std::max(hi[x], v); } data.push_back((float) v); }
    FCDGeometrySource* src = m->AddVertexSource(FUDaeGeometryInput::POSITION); src->SetData(data, stride); for (size_t i = 0; i < sets; ++i) { FCDGeometryPolygons* p = m->AddPolygons(); if (k) { p->AddFaceVertexCount(3); for (uint32 j = 0; j < 3; ++j) p->GetInput(0)->AddIndex((uint32) g.below(k)); } }
    c.note(cat(k, " points of ", stride, ", ", sets, " sets")); bool hull = g.coin(); sh->CreateGeometryInstance(ge, hull); CHECK(sh->IsGeometryInstance() && !sh->IsAnalyticalGeometry());
    double want = k && sets ? (hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2]) : 0; near("volume of the mesh", sh->CalculateVolume(), want);
    if (g.coin()) { Solid s = solid(g, 7); give(sh, s); near("volume of the shape that took its place", sh->CalculateVolume(), volume(s)); CHECK(sh->IsAnalyticalGeometry() && !sh->IsGeometryInstance()); }
    else { ge->CreateSpline(); near(hull ? "volume of the hull of a spline" : "volume of a spline", sh->CalculateVolume(), 1); }
    if (want > 0) c.nontrivial = true;
}

// ---- loaded documents ----
struct Given { bool has = false; double x = 0; std::string xml(const char* tag) const { return has ? cat("<", tag, ">", num(x), "</", tag, ">") : std::string(); } };
static Given given(Src& g, int n, int d) { Given v; v.has = g.chance(n, d); if (v.has) v.x = size(g); return v; }
struct Shape { Solid s; Given mass, density; double vol; double m() const { return mass.has ? mass.x : (density.has ? density.x : 1) * vol; } double q() const { return density.has ? density.x : mass.has ? mass.x / vol : 1; } };
struct Params { Given mass; bool hasInertia = false; double inertia[3] = {0, 0, 0}; int dynamic = -1; bool frame = false, moved = false, turned = false; double move[3] = {0, 0, 0}, angle = 0; int axis = 0;
    std::string xml() const { std::string o; if (dynamic >= 0) o += cat("<dynamic>", dynamic ? "true" : "false", "</dynamic>"); o += mass.xml("mass");
        if (frame) { o += "<mass_frame>"; if (moved) o += cat("<translate>", num(move[0]), " ", num(move[1]), " ", num(move[2]), "</translate>"); if (turned) o += cat("<rotate>", axis == 0, " ", axis == 1, " ", axis == 2, " ", num(angle), "</rotate>"); o += "</mass_frame>"; }
        if (hasInertia) o += cat("<inertia>", num(inertia[0]), " ", num(inertia[1]), " ", num(inertia[2]), "</inertia>"); return o; } };
static Params params(Src& g) { Params p; p.mass = given(g, 1, 2); if (g.coin()) { p.hasInertia = true; for (double& x : p.inertia) x = size(g); } p.dynamic = (int) g.below(3) - 1; p.frame = g.coin(); if (p.frame) { p.moved = g.coin(); if (p.moved) for (double& x : p.move) x = size(g); p.turned = g.coin(); if (p.turned) { p.axis = (int) g.below(3); p.angle = (double) g.below(179); } } return p; }
struct Want { double mass, inertia[3], move[3], axis[3], angle; bool dynamic, rough; double by = 0; };
static void expect(const std::string& who, FCDPhysicsRigidBodyParameters* p, const Want& w) {
    near(who + " mass", p->GetMass(), w.mass); FMVector3 i = p->GetInertia(); near(who + " inertia x", i.x, w.inertia[0], w.rough ? w.inertia[0] * 3 : 0); near(who + " inertia y", i.y, w.inertia[1], w.rough ? w.inertia[0] * 3 : 0); near(who + " inertia z", i.z, w.inertia[2], w.rough ? w.inertia[0] * 3 : 0);
    CHECK_EQ((bool) p->IsInertiaAccurate(), !w.rough, who + " inertia given"); CHECK_EQ(p->GetDynamic() > 0.5f, w.dynamic, who + " dynamic");
    FMVector3 t = p->GetMassFrameTranslate(); near(who + " frame x", t.x, w.move[0]); near(who + " frame y", t.y, w.move[1]); near(who + " frame z", t.z, w.move[2]);
    FMAngleAxis a = p->GetMassFrameOrientation(); near(who + " frame angle", a.angle, w.angle); if (w.angle != 0) { near(who + " axis x", a.axis.x, w.axis[0], 1); near(who + " axis y", a.axis.y, w.axis[1], 1); near(who + " axis z", a.axis.z, w.axis[2], 1); }
}
static void over(Want& w, const Params& p) { if (p.mass.has) w.mass = p.mass.x; if (p.hasInertia) { for (int i = 0; i < 3; ++i) w.inertia[i] = p.inertia[i]; w.rough = false; } if (p.dynamic >= 0) w.dynamic = p.dynamic; if (p.moved) for (int i = 0; i < 3; ++i) w.move[i] = p.move[i]; if (p.turned) { for (int i = 0; i < 3; ++i) w.axis[i] = p.axis == i; w.angle = p.angle; } }

PBT_CASE(loaded, 10000, 250000) {
    // geometries: point clouds, hulls of them (chains too, or of nothing), and a spline
    struct Geo { int of; double vol; bool empty = false; }; std::vector<Geo> geos; std::string gx; size_t n = g.below(4);
    for (size_t i = 0; i < n; ++i) {
        std::string pts; size_t k = g.chance(1, 10) ? 0 : 3 + g.below(6); double lo[3] = {1e9, 1e9, 1e9}, hi[3] = {-1e9, -1e9, -1e9};
        for (size_t j = 0; j < k; ++j) for (int x = 0; x < 3; ++x) { double v = j == 0 ? (double) g.range(-40, 40) : lo[x] + (j == 1 ? 0.25 * (1 + (double) g.below(40)) : 0.25 * (double) g.range(-20, 20)); lo[x] = std::min(lo[x], v); hi[x] = std::max(hi[x], v); pts += num(v) + " "; }
        double v = k == 0 ? 0 : 1; for (int x = 0; x < 3 && k; ++x) v *= hi[x] - lo[x]; geos.push_back({-1, v, k == 0}); c.note(cat("mesh of ", k, " points"));
        gx += cat("<geometry id=\"g", i, "\"><mesh><source id=\"s", i, "\"><float_array id=\"a", i, "\" count=\"", 3 * k, "\">", pts, "</float_array><technique_common><accessor source=\"#a", i, "\" count=\"", k, "\" stride=\"3\"><param name=\"X\" type=\"float\"/><param name=\"Y\" type=\"float\"/><param name=\"Z\" type=\"float\"/></accessor></technique_common></source><vertices id=\"v", i, "\"><input semantic=\"POSITION\" source=\"#s", i, "\"/></vertices>"); size_t sets = g.chance(2, 3) ? 1 : 1 + g.below(3); while (sets-- > 0) gx += cat("<triangles material=\"m", sets, "\" count=\"", k ? 1 : 0, "\"><input semantic=\"VERTEX\" source=\"#v", i, "\" offset=\"0\"/><p>", k ? "0 1 2" : "", "</p></triangles>"); gx += "</mesh></geometry>";
    }
    size_t hulls = n ? g.below(3) : 0; for (size_t i = 0; i < hulls; ++i) { bool none = g.chance(1, 6), self = none && g.coin(); size_t of = g.below(geos.size()); geos.push_back({none ? -2 : (int) of, none || geos[of].vol < 0 ? 1 : geos[of].vol, !none && geos[of].empty}); std::string x = cat("<geometry id=\"g", geos.size() - 1, "\"><convex_mesh convex_hull_of=\"", g.coin() ? "#" : "", "g", self ? geos.size() - 1 : none ? 99 : of, "\"/></geometry>"); gx = g.coin() ? gx + x : x + gx; c.note(self ? "hull of itself" : none ? "hull of nothing" : "hull"); }
    auto shapes = [&](size_t k) { std::vector<Shape> v; for (size_t i = 0; i < k; ++i) { Shape s; if (!geos.empty() && g.chance(1, 3)) { s.s.kind = MESH; s.s.mesh = (int) g.below(geos.size()); s.vol = geos[s.s.mesh].vol; } else { s.s = solid(g, 7); s.vol = volume(s.s); } s.mass = given(g, 1, 2); s.density = given(g, 1, 2); if (s.vol == 0 && s.mass.has && !s.density.has) s.density = given(g, 1, 1); v.push_back(s); } return v; };
    struct Body { std::vector<Shape> shapes; Params p; Want w; }; std::vector<Body> bodies; std::string bx; bool nt = false;
    for (size_t k = 1 + g.below(3); k-- > 0;) {
        Body b; b.shapes = shapes(1 + g.below(3)); b.p = params(g); std::string x = cat("<rigid_body sid=\"b", bodies.size(), "\"><technique_common>"), sx; double total = 0, vol = 0;
        for (auto& s : b.shapes) { total += s.m(); vol += s.vol; std::string y; const Solid& o = s.s; std::string r = cat(num(o.a), " ", num(o.b)), h = cat("<height>", num(o.h), "</height>"), rr = cat("<radius1>", r, "</radius1><radius2>", num(o.c), " ", num(o.d), "</radius2>"), k2 = KINDS[o.kind];
            switch (o.kind) { case BOX: y = cat("<box><half_extents>", r, " ", num(o.h), "</half_extents></box>"); break; case PLANE: y = "<plane><equation>0 1 0 3</equation></plane>"; break; case SPHERE: y = cat("<sphere><radius>", num(o.a), "</radius></sphere>"); break;
                case CYLINDER: case CAPSULE: y = cat("<", k2, ">", h, "<radius>", r, "</radius></", k2, ">"); break; case TCYLINDER: case TCAPSULE: y = cat("<", k2, ">", h, rr, "</", k2, ">"); break; default: y = cat("<instance_geometry url=\"#g", o.mesh, "\"/>"); }
            std::string w = s.mass.xml("mass") + s.density.xml("density") + "<physics_material><technique_common/></physics_material>"; sx += cat("<shape>", w, y, "</shape>"); nt |= !s.mass.has; c.note(cat(told(o), s.mass.has ? " mass" : "", s.density.has ? " density" : "")); }
        double I = 0.4 * total * pow(0.75 * vol / M_PI, 2.0 / 3.0); if (b.p.mass.has) I = 0.4 * b.p.mass.x * pow(0.75 * vol / M_PI, 2.0 / 3.0);
        b.w = {total, {I, I, I}, {0, 0, 0}, {1, 0, 0}, 0, true, true}; over(b.w, b.p); if (b.p.dynamic < 0) b.w.dynamic = true; nt |= !b.p.mass.has;
        x += b.p.xml() + "<physics_material><technique_common/></physics_material>" + sx + "</technique_common></rigid_body>"; bx += x; bodies.push_back(b); }
    struct Inst { size_t body; Params p; }; std::vector<Inst> insts; std::string ix; for (size_t k = g.below(4); k-- > 0;) { Inst i{g.below(bodies.size()), params(g)}; ix += cat("<instance_rigid_body body=\"b", i.body, "\" target=\"#node\"><technique_common>", i.p.xml(), "</technique_common></instance_rigid_body>"); insts.push_back(i); c.note(cat("instance ", i.p.mass.has, i.p.hasInertia, i.p.frame)); nt = true; }
    std::string doc = cat("<?xml version=\"1.0\"?><COLLADA xmlns=\"http://www.collada.org/2005/11/COLLADASchema\" version=\"1.4.1\"><asset><created>2008-01-01T00:00:00Z</created><modified>2008-01-01T00:00:00Z</modified></asset>",
        geos.empty() ? "" : cat("<library_geometries>", gx, "</library_geometries>"), "<library_visual_scenes><visual_scene id=\"scene\"><node id=\"node\"/></visual_scene></library_visual_scenes><library_physics_models><physics_model id=\"model\">", bx, "</physics_model></library_physics_models><library_physics_scenes><physics_scene id=\"ps\"><instance_physics_model url=\"#model\">", ix, "</instance_physics_model><technique_common/></physics_scene></library_physics_scenes><scene><instance_physics_scene url=\"#ps\"/><instance_visual_scene url=\"#scene\"/></scene></COLLADA>");
    Doc d; messages().clear(); if (!FCollada::LoadDocumentFromMemory("memory.dae", d.d, (void*) doc.data(), doc.size())) fail("the document does not load: " + messages().all()); fcu::no_asserts("loading");
    FCDPhysicsModel* m = d.d->FindPhysicsModel("model"); CHECK(m != NULL); CHECK_EQ(m->GetRigidBodyCount(), bodies.size(), "bodies");
    for (size_t i = 0; i < bodies.size(); ++i) {
        FCDPhysicsRigidBodyParameters* p = m->GetRigidBody(i)->GetParameters(); CHECK_EQ(p->GetPhysicsShapeCount(), bodies[i].shapes.size(), "shapes");
        for (size_t j = 0; j < bodies[i].shapes.size(); ++j) { const Shape& s = bodies[i].shapes[j]; FCDPhysicsShape* o = p->GetPhysicsShape(j); std::string who = cat("shape ", i, ".", j, " ", told(s.s));
            near(who + " volume", o->CalculateVolume(), s.vol); near(who + " mass", o->GetMass(), s.m()); near(who + " density", o->GetDensity(), s.q()); CHECK_EQ(o->IsDensityMoreAccurate(), !s.mass.has, who + " density decides"); CHECK_EQ(o->IsGeometryInstance(), s.s.kind >= MESH, who + " of a geometry"); }
        expect(cat("body ", i), p, bodies[i].w); }
    CHECK_EQ(d.d->GetPhysicsSceneLibrary()->GetEntityCount(), (size_t) 1, "physics scenes"); FCDPhysicsScene* ps = d.d->GetPhysicsSceneLibrary()->GetEntity(0); CHECK_EQ(ps->GetPhysicsModelInstancesCount(), (size_t) 1, "model instances"); FCDPhysicsModelInstance* mi = ps->GetPhysicsModelInstance(0); CHECK_EQ(mi->GetInstanceCount(), insts.size(), "body instances");
    for (size_t i = 0; i < insts.size(); ++i) { FCDPhysicsRigidBodyInstance* ri = (FCDPhysicsRigidBodyInstance*) mi->GetInstance(i); CHECK(ri->GetEntity() == m->GetRigidBody(insts[i].body)); Want w = bodies[insts[i].body].w; over(w, insts[i].p); expect(cat("instance ", i), ri->GetParameters(), w); }
    // shapes made of these geometries through the interface
    for (size_t i = 0; i < geos.size(); ++i) { FCDPhysicsShape* o = m->GetRigidBody(0)->GetParameters()->AddPhysicsShape(); bool hull = g.coin(); FCDGeometry* ge = d.d->FindGeometry(cat("g", i).c_str()); CHECK(ge != NULL); o->CreateGeometryInstance(ge, hull); near(cat(hull ? "volume of a hull of geometry " : "volume of geometry ", i), o->CalculateVolume(), geos[i].vol); }
    if (nt) c.nontrivial = true;
}
