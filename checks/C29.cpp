#include "mutate.h"
#include <set>
using namespace pbt;
using namespace dg;
PBT_PROPERTY("C29", "Documents of all libraries, written by the library and then spelled differently without a change of content: order of attributes, white space, comments, processing instructions, CDATA sections, character references, encodings, spellings of numbers and booleans, omitted or added default values, order and number of the library elements, offsets and order of inputs, names of arrays and samplers, references by the name of the file; loaded from a file or from memory, after other documents or alone; also documents broken at random first. Both spellings are rendered and compared. Non-trivial: the document has at least 1500 characters and at least two kinds of changes were made")
struct SetInit { SetInit() { worker_init = dg::init; } } setInit;

static const std::set<std::string> FLOATS{"float_array", "matrix", "translate", "rotate", "scale", "skew", "lookat", "color", "bind_shape_matrix", "half_extents", "radius", "height", "mass", "density", "inertia", "equation", "gravity", "time_step", "restitution", "static_friction", "dynamic_friction", "xfov", "yfov", "aspect_ratio", "znear", "zfar", "xmag", "ymag", "constant_attenuation", "linear_attenuation", "quadratic_attenuation", "falloff_angle", "falloff_exponent", "float", "float2", "float3", "float4", "float4x4", "min", "max"};
static const std::set<std::string> INTS{"p", "h", "v", "vcount", "int", "int2", "int3", "int4"};
static const std::set<std::string> WORDS{"Name_array", "IDREF_array"};
static const std::set<std::string> TEXTS{"init_from", "semantic", "format", "code", "string", "name", "compiler_target", "compiler_options", "include"};
static const std::set<std::string> SPACED{"dynamic", "hollow", "enabled", "interpenetrate", "bool", "created", "init_from", "skeleton", "source_data"};
static const std::set<std::string> BOOLS{"dynamic", "hollow", "enabled", "interpenetrate"};
struct Respell {
    Src& g; bool attrs, space, comments, cdata, refs, numbers, bools, ascii, between = true; std::string prefix; int kinds = 0;
    Respell(Src& g_) : g(g_) { attrs = g.coin(); space = g.coin(); comments = g.coin(); cdata = g.chance(1, 3); refs = g.chance(1, 3); numbers = g.coin(); bools = g.chance(1, 3); ascii = false; kinds = attrs + space + comments + cdata + refs + numbers + bools; }
    void none() { attrs = space = comments = cdata = refs = numbers = bools = false; }
    std::string blank() { std::string s; for (size_t k = 1 + g.below(3); k-- > 0;) s += g.oneof<const char*>({" ", "\n", "\t", "\r\n", "    "}); return s; }
    std::string noise() { std::string s; if (between && space && g.coin()) s += blank(); if (comments && g.chance(1, 3)) s += g.oneof<const char*>({"<!-- a comment -->", "<!---->", "<!-- <p>1 2 3</p> -->", "<?target instruction?>", "<!-- & < \" -->"}); if (between && space && g.coin()) s += blank(); return s; }
    // The characters of text (or of an attribute); what must not be split stays in one piece
    std::string chars(const std::string& t, bool attr) { std::string o; for (size_t i = 0; i < t.size();) { size_t n = 1; unsigned char c = (unsigned char) t[i]; unsigned long u = c; if (c >= 0xf0) { n = 4; u = c & 7; } else if (c >= 0xe0) { n = 3; u = c & 15; } else if (c >= 0xc0) { n = 2; u = c & 31; } for (size_t k = 1; k < n && i + k < t.size(); ++k) u = (u << 6) | ((unsigned char) t[i + k] & 63);
            std::string raw = t.substr(i, n); i += n; bool must = c == '<' || c == '&' || c == '\r' || (attr && (c == '"' || c == '\t' || c == '\n')) || (ascii && u > 127);
            if (must || (refs && g.chance(1, 8))) { char b[24]; if (c == '<' && g.coin()) o += "&lt;"; else if (c == '&' && g.coin()) o += "&amp;"; else { snprintf(b, sizeof b, g.coin() ? "&#x%lx;" : "&#%lu;", u); o += b; } } else if (c == '>') o += "&gt;"; else o += raw; }
        return o; }
    std::string words(const std::string& t) { // text, in pieces: plain, CDATA or with a comment in between
        if (t.empty()) return t; std::string o; size_t i = 0; while (i < t.size()) { size_t n = (cdata || comments) && g.chance(1, 4) ? 1 + g.below(t.size() - i) : t.size() - i; while (i + n < t.size() && ((unsigned char) t[i + n] & 0xc0) == 0x80) ++n; std::string part = t.substr(i, n); i += n;
            bool high = false; for (unsigned char c : part) high |= c > 127 || c == '\r'; if (cdata && g.coin() && part.find("]]>") == std::string::npos && !(ascii && high) && part.find('\r') == std::string::npos) o += "<![CDATA[" + part + "]]>"; else o += chars(part, false); if (comments && g.chance(1, 3)) o += "<!-- in the text -->"; }
        return o; }
    std::string number(std::string w, bool real) { if (!numbers || g.coin()) return w; bool neg = !w.empty() && w[0] == '-'; std::string u = neg ? w.substr(1) : w; if (u.empty() || u.find_first_not_of("0123456789.e+-") != std::string::npos || !isdigit((unsigned char) u[0])) return w;
        size_t e = u.find('e'); std::string m = u.substr(0, e), x = e == std::string::npos ? "" : u.substr(e + 1);
        if (!real) return (neg ? "-" : "") + std::string(g.below(3), '0') + u;
        switch (g.below(6)) { case 0: m = "0" + m; break; case 1: m += m.find('.') == std::string::npos ? ".0" : "0"; break; case 2: if (m.find('.') == std::string::npos) m += "."; break; case 3: if (x.empty()) x = g.oneof<const char*>({"0", "+0", "-0", "00"}); break; case 4: if (!neg) m = "+" + m; break;
            default: if (x.empty()) { size_t d = m.find('.'); if (d == std::string::npos) { m += "0"; x = "-1"; } else if (d + 1 < m.size()) { m = m.substr(0, d) + m[d + 1] + "." + m.substr(d + 2); x = "-1"; } } }
        return (neg ? "-" : "") + m + (x.empty() ? "" : (g.coin() ? "e" : "E") + x); }
    std::string list(const std::string& t, bool real, bool words = false) { std::string o; std::istringstream in(t); std::string w; bool first = true; if (space && g.coin()) o += blank(); while (in >> w) { if (!first) o += space ? blank() : " "; first = false; if (comments && g.chance(1, 12)) o += "<!-- 7 --> "; o += chars(words ? w : number(w, real), false); } if (space && g.coin()) o += blank(); return o; }
    void write(std::string& o, const X& x, bool user) {
        user |= x.name == "extra" || x.name == "technique" || (!x.kids.empty() && TEXTS.count(x.name)) || x.name == "force_field" || x.name == "annotate" || x.name == "asset"; o += '<'; o += prefix + x.name; std::vector<size_t> order; for (size_t i = 0; i < x.at.size(); ++i) order.push_back(i); if (attrs && !user) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[g.below(i)]);
        for (size_t i : order) { o += space ? blank() : " "; o += x.at[i].first + (space && g.chance(1, 4) ? " = " : "="); std::string v = chars(x.at[i].second, true); if (v.find('\'') == std::string::npos && attrs && g.coin()) o += "'" + v + "'"; else o += '"' + v + '"'; }
        if (x.kids.empty() && x.text.empty()) { if (space && g.coin()) o += g.coin() ? " />" : "></" + prefix + x.name + " >"; else o += "/>"; return; }
        o += '>'; std::string t = x.text; bool spaced = x.kids.empty() && SPACED.count(x.name) && space && between && (!user || x.name == "created" || x.name == "source_data"); if (spaced && g.coin()) o += blank();
        if (x.kids.empty() && !user && FLOATS.count(x.name)) o += list(t, true); else if (x.kids.empty() && !user && INTS.count(x.name)) o += list(t, false); else if (x.kids.empty() && !user && WORDS.count(x.name)) o += list(t, false, true);
        else if (x.kids.empty() && !user && bools && BOOLS.count(x.name) && (t == "true" || t == "false" || t == "1" || t == "0")) o += t == "true" || t == "1" ? g.oneof<const char*>({"true", "1"}) : g.oneof<const char*>({"false", "0"});
        else o += words(t);
        if (spaced && g.coin()) o += blank();
        for (auto& k : x.kids) { o += t.empty() ? noise() : ""; write(o, *k, user); } if (t.empty()) o += noise(); o += "</" + prefix + x.name + (space && g.chance(1, 4) ? " >" : ">"); }
};
static std::string group(const X& x) { return x.name == "library_nodes" ? "library_visual_scenes" : x.name; }
// The order of the libraries has no meaning, and a library may come in parts.
static bool rearrange(Src& g, X* root, std::string& log, bool& sorted) {
    bool done = false; auto& k = root->kids;
    if (sorted = g.coin()) for (auto& l : k) if (l->name.compare(0, 8, "library_") == 0 && g.coin()) { size_t a = 0, b = l->kids.size(); while (a < b && l->kids[a]->name == "asset") ++a; while (b > a && l->kids[b - 1]->name == "extra") --b; if (b - a < 2) continue; for (size_t i = b - a; i > 1; --i) std::swap(l->kids[a + i - 1], l->kids[a + g.below(i)]); log += " shuffled " + l->name; done = true; }
    if (g.coin()) for (size_t i = 0; i < k.size(); ++i) { X& l = *k[i]; if (l.name.compare(0, 8, "library_") || l.kids.size() < 2 || !g.coin()) continue; bool plain = true; for (auto& y : l.kids) plain &= y->name != "asset" && y->name != "extra"; if (!plain) continue;
        size_t n = 1 + g.below(l.kids.size() - 1); std::unique_ptr<X> r(new X); r->name = l.name; r->up = root; for (size_t j = n; j < l.kids.size(); ++j) { l.kids[j]->up = r.get(); r->kids.push_back(std::move(l.kids[j])); } l.kids.resize(n); log += " split " + l.name; k.insert(k.begin() + (long) i + 1, std::move(r)); ++i; done = true; }
    if (g.coin()) { std::vector<size_t> at; for (size_t i = 0; i < k.size(); ++i) if (k[i]->name.compare(0, 8, "library_") == 0) at.push_back(i); std::vector<std::unique_ptr<X>> l; std::vector<std::string> names; std::map<std::string, std::vector<std::unique_ptr<X>>> by; for (size_t i : at) { names.push_back(group(*k[i])); by[names.back()].push_back(std::move(k[i])); }
        for (size_t i = names.size(); i > 1; --i) std::swap(names[i - 1], names[g.below(i)]); std::map<std::string, size_t> n; for (size_t i = 0; i < at.size(); ++i) { k[at[i]] = std::move(by[names[i]][n[names[i]]++]); log += " " + k[at[i]]->name; } done |= at.size() > 1; }
    return done;
}
// What has the value the schema gives it anyway need not be written, and may be written.
static bool defaults(Src& g, X& x) {
    bool done = false; auto drop = [&](const char* e, const char* a, const char* v) { if (x.name == e) for (size_t i = 0; i < x.at.size(); ++i) if (x.at[i].first == a && x.at[i].second == v && g.coin()) { x.at.erase(x.at.begin() + (long) i); done = true; break; } };
    auto add = [&](const char* e, const char* a, const char* v) { if (x.name != e || !g.coin()) return; for (auto& q : x.at) if (q.first == a) return; x.at.push_back({a, v}); done = true; };
    if (x.name == "extra" || x.name == "force_field") return false;
    drop("accessor", "stride", "1"); drop("accessor", "offset", "0"); drop("node", "type", "NODE"); drop("spline", "closed", "false"); drop("spline", "closed", "0"); add("accessor", "stride", "1"); add("accessor", "offset", "0"); add("node", "type", "NODE"); add("spline", "closed", "false");
    if (x.name == "technique_common" && x.up && x.up->name == "rigid_constraint") for (size_t i = 0; i < x.kids.size(); ++i) { X& k = *x.kids[i]; if (k.at.empty() && ((k.name == "enabled" && (k.text == "1" || k.text == "true")) || (k.name == "interpenetrate" && (k.text == "0" || k.text == "false"))) && g.coin()) { x.kids.erase(x.kids.begin() + (long) i--); done = true; } }
    for (auto& k : x.kids) done |= defaults(g, *k); return done; }
static std::string* attr(X& x, const char* n) { for (auto& a : x.at) if (a.first == n) return &a.second; return nullptr; }
// The offsets of the inputs only say in which column of the indices each one finds its own, and the order of the inputs says nothing.
static bool columns(Src& g, X& x) {
    bool done = false; static const std::set<std::string> WITH{"vertex_weights", "polygons", "polylist", "triangles", "lines", "linestrips", "trifans", "tristrips"}, FREE{"vertex_weights", "joints", "sampler", "targets", "control_vertices"}; if (x.name == "extra") return false;
    if (WITH.count(x.name) && g.coin()) { size_t n = 0; bool ok = true; std::vector<std::string*> at; std::vector<X*> rows; std::set<size_t> used; for (auto& k : x.kids) if (k->name == "input") { std::string* o = attr(*k, "offset"); if (!o || o->empty() || o->size() > 3) ok = false; else { at.push_back(o); used.insert((size_t) atoi(o->c_str())); n = std::max(n, (size_t) atoi(o->c_str()) + 1); } } else if (k->name == "p" || k->name == "v") rows.push_back(k.get()); else if (k->name == "ph") for (auto& h : k->kids) rows.push_back(h.get());
        ok &= used.size() == n && n > 1; // (every column has its owner)
        if (ok && x.name == "vertex_weights" && g.chance(1, 3)) { size_t i = 0; while (x.kids[i]->name != "input") ++i; std::unique_ptr<X> k = copy(*x.kids[i], &x); *attr(*k, "semantic") = "OTHER"; *attr(*k, "offset") = std::to_string(n); at.push_back(attr(*k, "offset")); x.kids.insert(x.kids.begin() + (long) (i + g.below(3)), std::move(k)); // (an input that the library has no use for)
            for (X* r : rows) { std::istringstream in(r->text); std::string q; r->text.clear(); for (size_t j = 0; in >> q; ++j) { r->text += q + " "; if (j % n == n - 1) r->text += std::to_string(g.below(3)) + " "; } } ++n; }
        if (ok) { std::vector<size_t> to; for (size_t i = 0; i < n; ++i) to.push_back(i); for (size_t i = n; i > 1; --i) std::swap(to[i - 1], to[g.below(i)]); for (auto* o : at) *o = std::to_string(to[(size_t) atoi(o->c_str())]);
            for (X* r : rows) { std::istringstream in(r->text); std::vector<std::string> w; std::string q; while (in >> q) w.push_back(q); std::vector<std::string> u(w.size()); if (w.size() % n) throw Discard(); for (size_t i = 0; i < w.size(); ++i) u[i / n * n + to[i % n]] = w[i]; r->text.clear(); for (size_t i = 0; i < u.size(); ++i) r->text += (i ? " " : "") + u[i]; } done = true; } }
    if (FREE.count(x.name) && g.coin()) { std::vector<size_t> at; for (size_t i = 0; i < x.kids.size(); ++i) if (x.kids[i]->name == "input") at.push_back(i); for (size_t i = at.size(); i > 1; --i) { size_t j = g.below(i); if (i - 1 != j) { std::swap(x.kids[at[i - 1]], x.kids[at[j]]); done = true; } } }
    for (auto& k : x.kids) done |= columns(g, *k); return done; }
// The ids of the arrays of the sources are for the accessors, those of the samplers for the channels; and a document may call itself by its name.
static bool names(Src& g, X* root, const std::string& self) {
    std::vector<X*> v; flatten(root, v); std::map<std::string, std::string> to; std::set<std::string> all; bool done = false, arrays = g.coin(), own = g.coin(); auto user = [](X* x) { for (; x; x = x->up) if (x->name == "extra") return true; return false; };
    for (X* x : v) if (auto* i = attr(*x, "id")) all.insert(*i);
    if (arrays) for (X* x : v) if (x->name == "float_array" || x->name == "Name_array" || x->name == "IDREF_array" || x->name == "sampler") if (auto* i = attr(*x, "id")) if (!user(x) && g.coin()) { std::string n = g.coin() ? "r" + std::to_string(to.size()) : *i + "_" + std::to_string(g.below(9)); if (all.insert(n).second) { to["#" + *i] = "#" + n; *i = n; done = true; } }
    for (X* x : v) if (!user(x)) for (auto& a : x->at) if (a.first == "source" && to.count(a.second)) a.second = to[a.second];
    static const std::set<std::string> URLS{"instance_geometry", "instance_controller", "instance_camera", "instance_light", "instance_effect", "instance_node", "instance_physics_material", "instance_force_field", "instance_physics_model", "instance_visual_scene", "instance_physics_scene", "skin", "morph", "convex_mesh", "instance_rigid_body", "instance_material"};
    if (own) for (X* x : v) if (URLS.count(x->name) && !user(x)) if (auto* u = attr(*x, x->name == "skin" || x->name == "morph" ? "source" : x->name == "instance_material" || x->name == "instance_rigid_body" ? "target" : x->name == "convex_mesh" ? "convex_hull_of" : x->name == "instance_physics_model" && g.coin() ? "parent" : "url")) if (u->size() > 1 && (*u)[0] == '#' && g.coin()) { *u = self + *u; done = true; }
    return done; }
static FCDocument* fromMemory(const std::string& path, const std::string& s) { FCDocument* d = FCollada::NewTopDocument(); std::vector<char> v(s.begin(), s.end()); if (!FCollada::LoadDocumentFromMemory(path.c_str(), d, v.data(), v.size())) { d->Release(); return NULL; } return d; }
static std::string utf16(const std::string& s) { std::string o = "\xff\xfe"; auto put = [&](unsigned u) { o += (char) (u & 255); o += (char) (u >> 8); }; for (size_t i = 0; i < s.size();) { unsigned char c = (unsigned char) s[i]; size_t n = c >= 0xf0 ? 4 : c >= 0xe0 ? 3 : c >= 0xc0 ? 2 : 1; unsigned u = n == 1 ? c : c & (0xff >> (n + 1)); for (size_t k = 1; k < n && i + k < s.size(); ++k) u = (u << 6) | ((unsigned char) s[i + k] & 63); i += n; if (u > 0xffff) { u -= 0x10000; put(0xd800 + (u >> 10)); put(0xdc00 + (u & 1023)); } else put(u); } return o; }

PBT_CASE(spelling, 5000, 150000) {
    fcu::reset_asserts(); std::string s = start(g), log; bool sorted = false; blankText = true; auto x = parse(s); CHECK(x != nullptr, "what the library writes is XML"); FCollada::SetDereferenceFlag(false);
    std::string f0 = scratch_dir() + "/0.dae", f1 = scratch_dir() + "/1.dae"; Dump want, plain; auto dump = [](FCDocument* d, bool by) { Dump t; t.opt.sorted = by; t.opt.offsets = false; dump_document(t, d); finish(t); return t; }; { spill(f0, s); messages().clear(); Doc a(load(f0)); CHECK(a.d != NULL, "the document is loaded: ", messages().all()); plain = dump(a, false); want = dump(a, true); }
    Respell r(g); r.kinds += rearrange(g, x.get(), log, sorted); if (g.coin() && defaults(g, *x)) { ++r.kinds; c.label("default values"); } if (g.coin() && columns(g, *x)) { ++r.kinds; c.label("inputs in another order"); } if (g.coin() && names(g, x.get(), "1.dae")) { ++r.kinds; c.label("other names"); } int coding = (int) g.weighted({6, 1, 1, 1}); r.ascii = coding == 1; r.kinds += coding != 0; std::string t;
    if (coding != 2 || g.coin()) t = coding == 1 ? "<?xml version='1.0' encoding='US-ASCII'?>" : coding == 2 ? "" : coding == 3 ? "<?xml version=\"1.0\" encoding=\"UTF-16\"?>" : g.coin() ? "<?xml version=\"1.0\"?>\n" : "<?xml version='1.0' encoding='utf-8' standalone='yes'?>"; if (t.size() || coding != 3) t += r.noise().substr(0, 0); if (g.chance(1, 4)) t += "<!DOCTYPE COLLADA>\n"; if (r.comments) t += "<!-- before -->\n"; if (g.coin()) { if (g.chance(1, 4)) { r.prefix = "c:"; c.label("prefixed"); } x->at.push_back({r.prefix.empty() ? "xmlns" : "xmlns:c", "http://www.collada.org/2005/11/COLLADASchema"}); } r.write(t, *x, false); if (r.comments) t += "\n<!-- after -->"; c.note(cat("attrs ", r.attrs, " space ", r.space, " comments ", r.comments, " cdata ", r.cdata, " refs ", r.refs, " numbers ", r.numbers, " bools ", r.bools, " coding ", coding, log)); c.note(t);
    if (coding == 2) t = "\xef\xbb\xbf" + t; else if (coding == 3) t = utf16(t);
    bool memory = g.coin(); if (g.chance(1, 3)) { Doc other(load(f0)); if (g.coin()) other.d->Release(), other.d = NULL; } // (what was loaded before does not matter)
    messages().clear(); if (!memory) spill(f1, t); Doc b(memory ? fromMemory(f1, t) : load(f1)); CHECK(b.d != NULL, "the same document, spelled differently, is loaded: ", messages().all()); clean("loading the document spelled differently");
    std::string d = diff(sorted ? want : plain, dump(b, sorted)); CHECK(d.empty(), "the document spelled differently is not the same: ", d); c.nontrivial = s.size() > 1500 && r.kinds >= 2; if (sorted) c.label("entities in another order"); if (r.comments) c.label("comments"); if (r.cdata) c.label("CDATA sections"); if (r.numbers) c.label("numbers"); if (memory) c.label("from memory"); if (coding) c.label("other encodings");
}
static void plain(X& x) { if (!x.kids.empty()) x.text.clear(); for (auto& k : x.kids) plain(*k); } // (text between elements is not COLLADA)
// Nor does the spelling matter for what is no sound document: the same is read and the same is refused.
PBT_CASE(broken, 2500, 80000) {
    std::string s = start(g), log; blankText = true; auto x = parse(s); if (!x) throw Discard(); for (size_t k = 1 + g.len(4); k-- > 0;) breaks(g, x.get(), log); plain(*x); { Respell q(g); q.none(); s = "<?xml version=\"1.0\"?>\n"; q.write(s, *x, false); } FCollada::SetDereferenceFlag(false);
    std::string f0 = scratch_dir() + "/0.dae", f1 = scratch_dir() + "/1.dae"; auto dump = [](FCDocument* d) { Dump t = dumped(d); for (auto& k : t.t) if (k.path.size() >= 13 && k.path.compare(k.path.size() - 13, 13, "asset/created") == 0) k.s.clear(); return t; }; /* (a missing date is the time of loading) */ Dump want; bool ok; { spill(f0, s); Doc a(load(f0)); ok = a.d != NULL; if (ok) want = dump(a); }
    x = parse(s); if (!x) throw Discard(); Respell r(g); r.numbers = r.between = false; std::string t = "<?xml version=\"1.0\"?>"; r.write(t, *x, false); c.note(log); c.note(s); c.note(t);
    bool memory = g.coin(); if (!memory) spill(f1, t); Doc b(memory ? fromMemory(f1, t) : load(f1)); CHECK((b.d != NULL) == ok, "one spelling of a broken document is loaded and the other is not: ", messages().all()); if (ok) { std::string d = diff(want, dump(b)); CHECK(d.empty(), "the broken document spelled differently is not the same: ", d); }
    c.nontrivial = ok && s.size() > 1500 && r.kinds >= 2; c.label(ok ? "loaded" : "refused");
}
