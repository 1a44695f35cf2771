// Breaks the XML of a document in structured ways.
#pragma once
#include "docgen.h"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <memory>
using namespace pbt;
using namespace dg;
// ---- a plain tree of elements, to be broken ----
[[maybe_unused]] static bool blankText = false; // keep white space that is all the text of an element
struct X { std::string name, text; std::vector<std::pair<std::string, std::string>> at; std::vector<std::unique_ptr<X>> kids; X* up = nullptr; };
[[maybe_unused]] static std::unique_ptr<X> convert(xmlNode* n, X* up) { std::unique_ptr<X> x(new X); x->name = (const char*) n->name; x->up = up;
    for (xmlAttr* a = n->properties; a; a = a->next) { xmlChar* v = xmlNodeListGetString(n->doc, a->children, 1); x->at.push_back({(const char*) a->name, v ? (const char*) v : ""}); xmlFree(v); }
    for (xmlNode* c = n->children; c; c = c->next) { if (c->type == XML_ELEMENT_NODE) x->kids.push_back(convert(c, x.get())); else if ((c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE) && c->content) { std::string t = (const char*) c->content; if (blankText || t.find_first_not_of(" \t\r\n") != std::string::npos) x->text += t; } }
    if (!x->kids.empty() && x->text.find_first_not_of(" \t\r\n") == std::string::npos) x->text.clear(); return x; }
[[maybe_unused]] static std::unique_ptr<X> parse(const std::string& s) { xmlDoc* d = xmlReadMemory(s.data(), (int) s.size(), "x", NULL, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_HUGE); if (!d) return nullptr; std::unique_ptr<X> x; if (xmlDocGetRootElement(d)) x = convert(xmlDocGetRootElement(d), nullptr); xmlFreeDoc(d); return x; }
[[maybe_unused]] static std::unique_ptr<X> copy(const X& x, X* up) { std::unique_ptr<X> r(new X); r->name = x.name; r->text = x.text; r->at = x.at; r->up = up; for (auto& k : x.kids) r->kids.push_back(copy(*k, r.get())); return r; }
[[maybe_unused]] static void escape(std::string& o, const std::string& s, bool attr) { for (unsigned char c : s) switch (c) { case '<': o += "&lt;"; break; case '&': o += "&amp;"; break; case '"': if (attr) { o += "&quot;"; break; } o += '"'; break; default: o += (char) c; } }
[[maybe_unused]] static void write(std::string& o, const X& x) { o += '<'; o += x.name; for (auto& a : x.at) { o += ' '; o += a.first; o += "=\""; escape(o, a.second, true); o += '"'; } if (x.kids.empty() && x.text.empty()) { o += "/>\n"; return; } o += '>'; escape(o, x.text, false); for (auto& k : x.kids) write(o, *k); o += "</"; o += x.name; o += ">\n"; }
[[maybe_unused]] static void flatten(X* x, std::vector<X*>& v) { v.push_back(x); for (auto& k : x->kids) flatten(k.get(), v); }
static size_t place(X* x) { for (size_t i = 0; i < x->up->kids.size(); ++i) if (x->up->kids[i].get() == x) return i; return 0; }
static bool below(X* x, X* top) { for (; x; x = x->up) if (x == top) return true; return false; }
static const char* SPECIAL[] = {"", "0", "1", "-1", "2", "3", "16", "255", "65535", "65536", "2147483647", "-2147483648", "4294967295", "4294967296", "99999999999999999999", "1e38", "1e39", "-1e300", "nan", "inf", "1e-50", ".", "-", "+", "x", "#", "#nope", "nope", "a b c", "/", "/a", "a/", "a/b/c", "a/b(3)(4)", "a/b.ANGLE", "()", "a(", "a/b(", "a/b(-1)", "a/b(99999)", "./x", "..", "../x", "true", "FALSE", "%", "%4", "%zz", "other.dae", "other.dae#a", "#xpointer(id('a'))", "file:///nope.dae#x", "http://h/p.dae#y", "://", "\xc3\xa9", "LINEAR", "POSITION", "VERTEX", "JOINT", "WEIGHT", "INPUT", "OUTPUT", "INTERPOLATION", "Z_UP", "RELATIVE", "#\xff"};
static const char* NAMES[] = {"COLLADA", "asset", "library_cameras", "library_nodes", "library_visual_scenes", "scene", "instance_visual_scene", "node", "instance_node", "instance_geometry", "instance_controller", "instance_camera", "instance_light", "instance_material", "instance_effect", "bind_material", "bind", "bind_vertex_input", "technique_common", "technique", "extra", "param", "source", "float_array", "Name_array", "IDREF_array", "int_array", "bool_array", "accessor", "input", "mesh", "spline", "convex_mesh", "vertices", "polygons", "polylist", "triangles", "lines", "linestrips", "tristrips", "trifans", "p", "ph", "h", "vcount", "v", "skin", "morph", "joints", "targets", "vertex_weights", "bind_shape_matrix", "skeleton", "animation", "sampler", "channel", "animation_clip", "instance_animation", "effect", "profile_COMMON", "profile_CG", "profile_GLSL", "newparam", "setparam", "surface", "sampler2D", "init_from", "phong", "lambert", "blinn", "constant", "diffuse", "texture", "color", "float", "transparent", "transparency", "pass", "shader", "image", "data", "matrix", "translate", "rotate", "scale", "skew", "lookat", "camera", "optics", "perspective", "orthographic", "light", "point", "directional", "spot", "ambient", "physics_scene", "physics_model", "rigid_body", "rigid_constraint", "instance_physics_model", "instance_rigid_body", "instance_rigid_constraint", "shape", "box", "sphere", "cylinder", "capsule", "tapered_capsule", "plane", "instance_physics_material", "physics_material", "attachment", "ref_attachment", "mass", "inertia", "force_field", "instance_force_field", "emitter", "unit", "up_axis", "contributor", "created", "FCOLLADA", "user_properties"};
static const char* ATTRS[] = {"id", "sid", "name", "url", "source", "target", "symbol", "semantic", "offset", "set", "count", "stride", "type", "material", "input_semantic", "input_set", "texture", "texcoord", "ref", "body", "rigid_body", "constraint", "closed", "profile", "start", "end", "meter", "layer", "convex_hull_of", "method", "opaque", "stage", "value", "version"};
template <class T, size_t N> static const T& any(Src& g, const T (&a)[N]) { return a[g.below(N)]; }
struct Pool { std::vector<std::string> ids, values; };
static Pool pool(const std::vector<X*>& v) { Pool p; for (auto* x : v) for (auto& a : x->at) { if (a.first == "id" || a.first == "sid") p.ids.push_back(a.second); if (a.second.size() < 60) p.values.push_back(a.second); } if (p.ids.empty()) p.ids.push_back("a"); if (p.values.empty()) p.values.push_back("b"); return p; }
[[maybe_unused]] static std::string value(Src& g, const Pool& p) { switch (g.below(6)) { case 0: return any(g, SPECIAL); case 1: return g.pick(p.values); case 2: return g.pick(p.ids); case 3: return "#" + g.pick(p.ids); case 4: return g.pick(p.ids) + g.oneof<const char*>({"/", ".", "(0)", "(1)(2)", "/x"}) + g.pick(p.ids); default: return std::string(g.oneof<const char*>({"other.dae", "self.dae", "missing.dae"})) + "#" + g.pick(p.ids); } }
[[maybe_unused]] static void breaks(Src& g, X* root, std::string& log) {
    std::vector<X*> v; flatten(root, v); Pool p = pool(v); X* x = v[g.below(v.size())]; if (g.coin()) { std::vector<X*> in; std::string want = v[g.below(v.size())]->name; for (auto* y : v) if (y->name == want) in.push_back(y); x = in[g.below(in.size())]; } // (rare elements as often as common ones)
    size_t op = g.below(14); log += cat(" ", op, ":", x->name);
    switch (op) {
    case 0: if (x->up) x->up->kids.erase(x->up->kids.begin() + (long) place(x)); break;
    case 1: if (x->up) { auto c = copy(*x, x->up); x->up->kids.insert(x->up->kids.begin() + (long) (g.coin() ? place(x) : g.below(x->up->kids.size() + 1)), std::move(c)); } break;
    case 2: { X* to = v[g.below(v.size())]; if (x->up && !below(to, x)) { size_t i = place(x); auto c = std::move(x->up->kids[i]); x->up->kids.erase(x->up->kids.begin() + (long) i); c->up = to; to->kids.insert(to->kids.begin() + (long) g.below(to->kids.size() + 1), std::move(c)); } break; }
    case 3: { X* to = v[g.below(v.size())]; if (v.size() < 3000) to->kids.insert(to->kids.begin() + (long) g.below(to->kids.size() + 1), copy(*x, to)); break; }
    case 4: if (!x->at.empty()) { size_t i = g.below(x->at.size()); log += "@" + x->at[i].first; x->at.erase(x->at.begin() + (long) i); } break;
    case 5: case 6: if (!x->at.empty()) { auto& a = x->at[g.below(x->at.size())]; a.second = value(g, p); log += "@" + a.first + "=" + a.second; } break;
    case 7: case 8: { std::vector<std::string> w; std::istringstream in(x->text); std::string t; while (in >> t) w.push_back(t); size_t n = w.size(); log += cat(" of ", n);
        switch (g.below(7)) { case 0: w.clear(); break; case 1: w.resize(g.below(n + 1)); break; case 2: w.erase(w.begin(), w.begin() + (long) g.below(n + 1)); break; case 3: if (n) w[g.below(n)] = value(g, p); break; case 4: for (size_t k = 1 + g.below(4); k-- > 0;) w.push_back(value(g, p)); break; case 5: if (n) { std::string s = any(g, SPECIAL); for (auto& q : w) q = s; } break; default: for (size_t k = 1 + g.below(3); n && k-- > 0;) w[g.below(n)] = std::to_string(g.range(-3, 40)); }
        x->text.clear(); for (auto& q : w) { x->text += q; x->text += ' '; } break; }
    case 9: x->name = g.coin() ? v[g.below(v.size())]->name : any(g, NAMES); log += "->" + x->name; break;
    case 10: { X* y = v[g.below(v.size())]; if (!below(x, y) && !below(y, x)) { std::swap(x->kids, y->kids); std::swap(x->text, y->text); for (auto& k : x->kids) k->up = x; for (auto& k : y->kids) k->up = y; } break; }
    case 11: if (g.coin()) x->kids.clear(); else if (!x->kids.empty()) { size_t k = g.below(x->kids.size()); x->kids.resize(k); } break;
    case 12: { std::vector<std::pair<X*, size_t>> refs; for (auto* y : v) for (size_t i = 0; i < y->at.size(); ++i) if (!y->at[i].second.empty() && y->at[i].second[0] == '#') refs.push_back({y, i}); if (!refs.empty()) { auto& r = refs[g.below(refs.size())]; r.first->at[r.second].second = "#" + g.pick(p.ids); log += " " + r.first->name + "@" + r.first->at[r.second].first + "=" + r.first->at[r.second].second; } break; }
    default: { std::string k = any(g, ATTRS); bool has = false; for (auto& a : x->at) if (a.first == k) { a.second = value(g, p); has = true; } if (!has) x->at.push_back({k, value(g, p)}); log += "@" + k; } }
}
[[maybe_unused]] static std::unique_ptr<X> grown(Src& g, int depth, X* up) { std::unique_ptr<X> x(new X); x->name = any(g, NAMES); x->up = up; static const std::vector<std::string> ids{"a", "b", "c", "d"}; static const Pool p{ids, ids}; for (size_t k = g.below(4); k-- > 0;) { std::string a = any(g, ATTRS); bool has = false; for (auto& q : x->at) has |= q.first == a; if (!has) x->at.push_back({a, value(g, p)}); } if (depth < 5) for (size_t k = g.below(6 - (unsigned) depth / 2); k-- > 0;) x->kids.push_back(grown(g, depth + 1, x.get())); if (x->kids.empty() && g.coin()) for (size_t k = g.len(12); k-- > 0;) x->text += std::string(g.coin() ? std::to_string(g.range(-2, 20)) : value(g, p)) + " "; return x; }
[[maybe_unused]] static void bytes(Src& g, std::string& s) { for (size_t k = 1 + g.below(4); k-- > 0;) { size_t n = s.size(), i = g.below(n + 1); switch (g.below(6)) { case 0: s.resize(i); break; case 1: if (i < n) s[i] = (char) g.below(256); break; case 2: s.erase(i, g.below(1 + g.oneof<size_t>({4, 100, 3000}))); break; case 3: s.insert(i, g.oneof<const char*>({"<", ">", "&", "\"", "'", "/", "<!--", "]]>", "<![CDATA[", "&#0;", "&#xFFFFFFFF;", "&undefined;", "<!DOCTYPE a [<!ENTITY b \"c\">]>", "<?xml version=\"1.0\"?>", "\xff\xfe", " ", "=\"", "</node>", "<node>"})); break; case 4: { size_t j = g.below(n + 1), l = g.below(200); if (j < n) s.insert(i, s.substr(j, l)); break; } default: if (i < n) s[i] = 0; } } }
// A document of the library, to be broken
[[maybe_unused]] static std::string start(Src& g) { Doc d; Gen G(g, d); G.extras = g.chance(1, 3); unsigned parts = g.oneof<unsigned>({ASSET | SCENES | CAMERAS | LIGHTS | FIELDS, GEOMETRY, GEOMETRY | SCENES | CONTROLLERS, IMAGES | EFFECTS | MATERIALS, IMAGES | EFFECTS | MATERIALS | GEOMETRY | SCENES, SCENES | CAMERAS | LIGHTS | GEOMETRY | ANIMATIONS | CLIPS, GEOMETRY | SCENES | PHYSICS, ALL}); G.document(parts); std::string f = scratch_dir() + "/0.dae"; if (!save(d, f)) throw Discard(); return slurp(f); }
