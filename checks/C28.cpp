// NODOCGEN
#include "FArchiveXML/StdAfx.h"
#include "fcu.h"
#include <libxml/parser.h>
using namespace pbt;

PBT_PROPERTY("C28", "Histories of up to 40 calls of the XML writing helpers (children, sorted and inserted children, siblings, renaming, re-parenting, attributes and their removal, text, numbers) over a model tree, then the file written and parsed again; and typed sources of 0..40 entries written and read back. Text holds any non-zero bytes, attributes any valid UTF-8 text without an escape. Non-trivial: a tree of at least 4 elements with an attribute and text, or a source of at least 2 entries.")
static std::string S(const fm::string& s) { return s.c_str(); }
static void quiet(void*, const char*, ...) {}
static void init() { fcu::install(); xmlSetGenericErrorFunc(NULL, quiet); xmlSetStructuredErrorFunc(NULL, [](void*, auto) {}); }
struct SetInit { SetInit() { worker_init = init; } } setInit;

struct M;
struct Item { M* e; std::string t; };
struct M { std::string name; std::vector<std::pair<std::string, std::string>> attrs; std::vector<Item> kids; M* parent = nullptr; xmlNode* x = nullptr;
    void text(const std::string& s) { if (s.empty()) return; if (!kids.empty() && !kids.back().e) kids.back().t += s; else kids.push_back({nullptr, s}); }
    bool has_text() const { for (auto& k : kids) if (!k.e) return true; return false; }
    std::string full() const { std::string s; for (auto& k : kids) s += k.e ? k.e->full() : k.t; return s; }
    std::string attr(const std::string& n) const { for (auto& a : attrs) if (a.first == n) return a.second; return ""; }
    size_t index(M* c) const { for (size_t i = 0; i < kids.size(); ++i) if (kids[i].e == c) return i; return kids.size(); } };
// Text nodes that become neighbours are only told apart in memory.
static void join(M* m) { for (size_t i = 1; i < m->kids.size();) if (!m->kids[i].e && !m->kids[i - 1].e) { m->kids[i - 1].t += m->kids[i].t; m->kids.erase(m->kids.begin() + i); } else ++i; }

static std::string text(Src& g) { size_t n = g.len(30); std::string s; int mode = (int) g.below(3);
    for (size_t i = 0; i < n; ++i) switch (mode) { case 0: s += (char) g.range('a', 'z'); break; case 1: s += (char) g.range(1, 255); break; default: s += g.oneof<const char*>({"%", "&", "<", ">", "\"", "'", "%4", "%41", "%%", "&amp;", "]]>", "<!--", "-->", "\n", "\t", "\r\n", " ", "\\", "^", "`", "~", "@", "0", "A", "f", "\xc3\xa9", "\xff", "\x7f"}); } return s; }
static bool decodes(const std::string& s) { for (size_t i = 0; i + 2 < s.size(); ++i) if (s[i] == '%' && isxdigit((uint8_t) s[i + 1]) && isxdigit((uint8_t) s[i + 2])) return true; return false; }
static std::string attr_text(Src& g) { size_t n = g.len(12); std::string s; for (size_t i = 0; i < n; ++i) { std::string t = g.chance(1, 3) ? g.oneof<const char*>({"&", "<", ">", "\"", "'", "%", "&lt;", "\n", "\t", "\r", " ", "  ", "\xc3\xa9", "\xe2\x82\xac"}) : std::string(1, (char) g.range(' ', '~')); if (!decodes(s + t)) s += t; } return s; }
static const char* NAMES[] = {"a", "b", "c", "node", "Node", "param", "x-1", "x_1", "source", "technique"};
static const char* ATTRS[] = {"id", "sid", "name", "url", "type", "k"};

static void compare(M* m, xmlNode* x, bool reparsed) {
    CHECK(x && x->type == XML_ELEMENT_NODE, "element present"); CHECK_EQ(std::string((const char*) x->name), m->name, "element name");
    size_t na = 0; for (xmlAttr* a = x->properties; a; a = a->next) { CHECK(na < m->attrs.size(), "attribute too many on ", m->name); CHECK_EQ(std::string((const char*) a->name), m->attrs[na].first, "attribute name"); ++na; } CHECK_EQ(na, m->attrs.size(), "attributes of ", m->name);
    for (auto& n : ATTRS) { bool has = false; for (auto& a : m->attrs) has |= a.first == n; CHECK_EQ(FUXmlParser::HasNodeProperty(x, n), has, "presence of attribute ", n); CHECK_EQ(S(FUXmlParser::ReadNodeProperty(x, n)), m->attr(n), "value of attribute ", n); CHECK_EQ(FUXmlParser::ReadNodePropertyCRC(x, n), has ? FUCrc32::CRC32(m->attr(n).c_str()) : 0, "checksum of attribute ", n); }
    std::vector<M*> el; for (auto& k : m->kids) if (k.e) el.push_back(k.e); std::vector<xmlNode*> xs; for (xmlNode* k = x->children; k; k = k->next) if (k->type == XML_ELEMENT_NODE) xs.push_back(k);
    CHECK_EQ(xs.size(), el.size(), "child elements of ", m->name); for (size_t i = 0; i < el.size(); ++i) compare(el[i], xs[i], reparsed);
    if (!reparsed || m->has_text() || el.empty()) { bool deep = false; for (auto* e : el) if (!e->has_text() && !e->kids.empty()) deep = true; if (!deep || !reparsed) CHECK_EQ(S(FUXmlParser::ReadNodeContentFull(x)), m->full(), "text of ", m->name); }
    // Lookups
    for (auto& n : NAMES) { xmlNodeList l; FUXmlParser::FindChildrenByType(x, n, l); std::vector<xmlNode*> want; for (size_t i = 0; i < el.size(); ++i) if (el[i]->name == n) want.push_back(xs[i]);
        CHECK_EQ(l.size(), want.size(), "children of type ", n); for (size_t i = 0; i < want.size(); ++i) CHECK(l[i] == want[i], "child ", i, " of type ", n); CHECK(FUXmlParser::FindChildByType(x, n) == (want.empty() ? NULL : want[0]), "first child of type ", n); }
    for (size_t i = 0; i < el.size(); ++i) for (auto& a : ATTRS) { std::string v = el[i]->attr(a); if (v.empty()) continue; size_t f = 0; while (el[f]->attr(a) != v) ++f; CHECK(FUXmlParser::FindChildByProperty(x, a, v.c_str()) == xs[f], "first child with ", a, "=", v);
        if (!strcmp(a, "name")) CHECK(FUXmlParser::FindChildByName(x, v.c_str()) == xs[f], "first child named ", v); if (!strcmp(a, "id")) { CHECK(FUDaeParser::FindChildById(x, ("#" + v).c_str()) == xs[f], "first child with id ", v); if (v[0] != '#') CHECK(FUDaeParser::FindChildById(x, v.c_str()) == xs[f], "first child with id ", v); }
        xmlNodeList l; for (auto* k : xs) l.push_back(k); CHECK(FUXmlParser::FindNodeInListByProperty(l, a, v.c_str()) == xs[f], "first node of a list with ", a, "=", v); }
    CHECK(!FUXmlParser::FindChildByType(x, "none") && !FUXmlParser::FindChildByProperty(x, "id", "no such value") && !FUXmlParser::FindChildByName(x, "no such value"), "absent children are not found"); }
static std::string show(M* m) { std::string s = "<" + m->name; for (auto& a : m->attrs) s += " " + a.first + "='" + a.second + "'"; s += ">"; for (auto& k : m->kids) s += k.e ? show(k.e) : "[" + k.t + "]"; return s + "</>"; }

PBT_CASE(tree_history, 25000, 250000) {
    std::string file = scratch_dir() + "/t.xml"; unlink(file.c_str());
    FUXmlDocument doc(NULL, file.c_str(), false); std::vector<std::unique_ptr<M>> all; std::vector<M*> live;
    auto mk = [&](const std::string& n) { all.emplace_back(new M); all.back()->name = n; live.push_back(all.back().get()); return all.back().get(); };
    auto name = [&] { return std::string(g.oneof<const char*>({"a", "b", "c", "node", "Node", "param", "x-1", "x_1", "source", "technique"})); };
    M* root = mk(name()); root->x = doc.CreateRootNode(root->name.c_str()); CHECK(doc.GetRootNode() == root->x, "root");
    auto adopt = [&](M* p, size_t at, M* c) { c->parent = p; p->kids.insert(p->kids.begin() + at, {c, ""}); };
    size_t n = g.steps(40); bool attr = false, txt = false;
    for (size_t s = 0; s < n; ++s) { M* p = live[g.below(live.size())]; switch (g.below(15)) {
        case 0: case 1: { M* c = mk(name()); if (g.coin()) c->x = FUXmlWriter::AddChild(p->x, c->name.c_str()); else { std::string t = text(g); c->text(t); txt |= !t.empty(); if (g.coin()) c->x = FUXmlWriter::AddChild(p->x, c->name.c_str(), t.c_str()); else c->x = FUXmlWriter::AddChild(p->x, c->name.c_str(), fm::string(t.c_str())); } adopt(p, p->kids.size(), c); break; }
        case 2: { M* c = mk(name()); std::string t = g.coin() ? text(g) : ""; c->text(t); size_t at = 0; bool found = false; for (size_t i = p->kids.size(); i-- > 0;) if (p->kids[i].e && p->kids[i].e->name <= c->name) { at = i + 1; found = true; break; }
            if (!found) at = !p->kids.empty() && p->kids[0].e ? 0 : p->kids.size(); if (g.coin()) c->x = FUXmlWriter::AddChildSorted(p->x, c->name.c_str(), t.c_str()); else { c->x = FUXmlWriter::CreateNode(c->name.c_str()); if (!t.empty()) FUXmlWriter::AddContent(c->x, t.c_str()); FUXmlWriter::AddChildSorted(p->x, c->x); } adopt(p, at, c); break; }
        case 3: { M* c = mk(name()); M* sib = g.chance(1, 4) ? live[g.below(live.size())] : nullptr; if (!sib) { std::vector<M*> k; for (auto& i : p->kids) if (i.e) k.push_back(i.e); if (!k.empty()) sib = k[g.below(k.size())]; }
            if (sib == c || (sib && !sib->x)) sib = nullptr; c->x = FUXmlWriter::InsertChild(p->x, sib ? sib->x : NULL, c->name.c_str()); adopt(p, sib && sib->parent == p ? p->index(sib) : p->kids.size(), c); break; }
        case 4: { if (!p->parent) break; M* c = mk(name()); c->x = FUXmlWriter::AddSibling(p->x, c->name.c_str()); adopt(p->parent, p->parent->kids.size(), c); break; }
        case 5: { std::string nn = name(); std::string t = text(g); M* f = nullptr; for (auto& k : p->kids) if (k.e && k.e->name == nn) { f = k.e; break; }
            int v = g.below(3); double d = 0; std::string num; xmlNode* r; if (v == 0) r = FUXmlWriter::AddChildOnce(p->x, nn.c_str(), t.c_str()); else if (v == 1) { t = ""; r = FUXmlWriter::AddChildOnce(p->x, nn.c_str()); } else { int k = (int) g.range(-1000, 1000); t = std::to_string(k); r = FUXmlWriter::AddChildOnce(p->x, nn.c_str(), k); } (void) d;
            if (f) CHECK(r == f->x, "AddChildOnce returns the present child"); else { M* c = mk(nn); c->x = r; c->text(t); adopt(p, p->kids.size(), c); } c.label("child once"); break; }
        case 6: { std::string nn = name(); FUXmlWriter::RenameNode(p->x, nn.c_str()); p->name = nn; break; }
        case 7: { if (!p->parent) break; M* q = live[g.below(live.size())]; bool cyc = false; for (M* k = q; k; k = k->parent) cyc |= k == p; if (cyc) break; FUXmlWriter::ReParentNode(p->x, q->x); M* o = p->parent; o->kids.erase(o->kids.begin() + o->index(p)); join(o); adopt(q, q->kids.size(), p); c.label("re-parented"); break; }
        case 8: case 9: { std::string a = ATTRS[g.below(6)]; bool has = false; for (auto& k : p->attrs) has |= k.first == a; if (has) break; std::string v; attr = true; switch (g.below(4)) { case 0: { int k = (int) g.range(-100000, 100000); v = std::to_string(k); FUXmlWriter::AddAttribute(p->x, a.c_str(), k); break; } case 1: { v = attr_text(g); FUSStringBuilder b; b.append(v.c_str()); FUXmlWriter::AddAttribute(p->x, a.c_str(), b); break; } case 2: v = attr_text(g); FUXmlWriter::AddAttribute(p->x, a.c_str(), fm::string(v.c_str())); break; default: v = attr_text(g); FUXmlWriter::AddAttribute(p->x, a.c_str(), v.c_str()); } p->attrs.push_back({a, v}); break; }
        case 10: { std::string a = ATTRS[g.below(6)]; FUXmlWriter::RemoveAttribute(p->x, a.c_str()); for (size_t i = 0; i < p->attrs.size(); ++i) if (p->attrs[i].first == a) { p->attrs.erase(p->attrs.begin() + i); c.label("attribute removed"); } break; }
        case 11: case 12: { std::string t = text(g); if (g.coin()) FUXmlWriter::AddContent(p->x, t.c_str()); else FUXmlWriter::AddContent(p->x, fm::string(t.c_str())); p->text(t); txt |= !t.empty(); break; }
        case 13: { switch (g.below(3)) { case 0: { int k = (int) g.range(-100000, 100000); FUXmlWriter::AddContent(p->x, k); p->text(std::to_string(k)); break; } case 1: { uint32 k = g.u32(); M* ch = mk(name()); ch->x = FUXmlWriter::AddChild(p->x, ch->name.c_str(), k); ch->text(std::to_string(k)); adopt(p, p->kids.size(), ch); break; } default: { float k = (float) g.range(-4000, 4000) / 8; FUXmlWriter::AddContent(p->x, k); FUSStringBuilder b; b.set(k); p->text(b.ToCharPtr()); break; } } break; }
        default: { std::string t; size_t k = g.len(10); for (size_t i = 0; i < k; ++i) t += g.oneof<const char*>({"&", "<", ">", "\"", "a", "1", " ", "\n", "]]>"}); FUXmlWriter::AddContentUnprocessed(p->x, t.c_str()); p->text(t); break; } } }
    c.note(show(root)); c.nontrivial = live.size() >= 4 && attr && txt; if (live.size() >= 10) c.label("10 elements or more");
    compare(root, root->x, false); CHECK(doc.Write(), "the file is written");
    xmlDoc* strict = xmlReadFile(file.c_str(), NULL, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET); CHECK(strict != NULL, "the file is well-formed"); xmlFreeDoc(strict);
    { FUXmlDocument back(NULL, file.c_str(), true); CHECK(back.GetRootNode() != NULL, "the file is parsed"); compare(root, back.GetRootNode(), true); }
    FILE* f = fopen(file.c_str(), "rb"); std::string data; char b[4096]; size_t r; while ((r = fread(b, 1, sizeof b, f)) > 0) data.append(b, r); fclose(f);
    { FUXmlDocument back(data.c_str(), g.coin() ? data.size() : (size_t) ~0); CHECK(back.GetRootNode() != NULL, "the text is parsed"); compare(root, back.GetRootNode(), true); }
    fcu::no_asserts("XML history");
}

// Typed sources
static float num(Src& g) { switch (g.below(4)) { case 0: return 0; case 1: return (float) g.range(-8000, 8000) / 8; case 2: return (float) (g.unit() * 2 - 1); default: return (float) ((g.unit() * 2 - 1) * pow(10.0, (double) g.range(-4, 7))); } }
static bool near(float a, float b) { return fabs(a - b) <= 1e-5 * (1e-1 + fabs(a)); }
struct Doc { FUXmlDocument d{NULL, (scratch_dir() + "/s.xml").c_str(), false}; xmlNode* root = d.CreateRootNode("root"); std::unique_ptr<FUXmlDocument> b; std::string id;
    xmlNode* back() { CHECK(d.Write(), "written"); b.reset(new FUXmlDocument(NULL, (scratch_dir() + "/s.xml").c_str(), true)); xmlNode* n = FUDaeParser::FindHierarchyChildById(b->GetRootNode(), id.c_str()); CHECK(n != NULL, "the source is found by its id"); CHECK(FUDaeParser::FindChildById(b->GetRootNode(), id.c_str()) == n, "and among the children"); return n; } };
template <class V, class F> static void same(const V& a, const V& b, size_t comps, F at, const char* what) { CHECK_EQ(b.size(), a.size(), "number of ", what); for (size_t i = 0; i < a.size(); ++i) for (size_t k = 0; k < comps; ++k) CHECK(near(at(a, i, k), at(b, i, k)), what, " ", i, ".", k, ": ", at(a, i, k), " read as ", at(b, i, k)); }
template <class T> static void dirty(Src& g, T& l) { size_t n = g.below(4); l.resize(n * 7); }

PBT_CASE(sources, 80000, 700000) {
    Doc d; d.id = "s" + std::to_string(g.below(100)); for (size_t i = g.below(3); i-- > 0;) { FloatList o; o.push_back(1.0f); FUDaeWriter::AddSourceFloat(d.root, cat("other", i).c_str(), o, "W"); }
    size_t n = g.len(40); c.nontrivial = n >= 2; auto F = [](const FloatList& l, size_t i, size_t) { return l[i]; }; auto V = [](const FMVector3List& l, size_t i, size_t k) { return (&l[i].x)[k]; };
    int kind = (int) g.below(11); c.note(cat("kind ", kind, " n ", n)); auto v3 = [&] { FMVector3List l; for (size_t i = 0; i < n; ++i) l.push_back(FMVector3(num(g), num(g), num(g))); return l; };
    switch (kind) {
    case 0: { FMMatrix44List l, r; for (size_t i = 0; i < n; ++i) { FMMatrix44 m; for (int k = 0; k < 16; ++k) ((float*) m)[k] = num(g); l.push_back(m); } FUDaeWriter::AddSourceMatrix(d.root, d.id.c_str(), l); dirty(g, r); FUDaeParser::ReadSource(d.back(), r); same(l, r, 16, [](const FMMatrix44List& l, size_t i, size_t k) { return ((const float*) l[i])[k]; }, "matrices"); break; }
    case 1: case 2: case 3: case 4: { FMVector3List l = v3(), r; FloatList f, fw; if (kind == 1) FUDaeWriter::AddSourceColor(d.root, d.id.c_str(), l); else if (kind == 2) FUDaeWriter::AddSourceTexcoord(d.root, d.id.c_str(), l); else if (kind == 3) FUDaeWriter::AddSourcePosition(d.root, d.id.c_str(), l); else FUDaeWriter::AddSourceFloat(d.root, d.id.c_str(), l);
        dirty(g, r); xmlNode* x = d.back(); FUDaeParser::ReadSource(x, r); same(l, r, 3, V, "points"); dirty(g, f); CHECK_EQ(FUDaeParser::ReadSource(x, f), 3u, "stride"); for (auto& p : l) for (int k = 0; k < 3; ++k) fw.push_back((&p.x)[k]); same(fw, f, 1, F, "point components"); break; }
    case 5: { FMVector2List l; FloatList f, fw; for (size_t i = 0; i < n; ++i) l.push_back(FMVector2(num(g), num(g))); int w = (int) g.below(3); if (w == 0) FUDaeWriter::AddSourcePosition(d.root, d.id.c_str(), l); else if (w == 1) FUDaeWriter::AddSourceFloat(d.root, d.id.c_str(), l); else FUDaeWriter::AddSourceTangent(d.root, d.id.c_str(), l);
        CHECK_EQ(FUDaeParser::ReadSource(d.back(), f), 2u, "stride"); for (auto& p : l) { fw.push_back(p.u); fw.push_back(p.v); } same(fw, f, 1, F, "2D point components"); break; }
    case 6: { FMVector4List l; FloatList f, fw; for (size_t i = 0; i < n; ++i) l.push_back(FMVector4(num(g), num(g), num(g), num(g))); FUDaeWriter::AddSourcePosition(d.root, d.id.c_str(), l); CHECK_EQ(FUDaeParser::ReadSource(d.back(), f), 4u, "stride"); for (auto& p : l) { fw.push_back(p.x); fw.push_back(p.y); fw.push_back(p.z); fw.push_back(p.w); } same(fw, f, 1, F, "4D point components"); break; }
    case 7: { size_t stride = 1 + g.below(6); FloatList l, r; for (size_t i = 0; i < n * stride; ++i) l.push_back(num(g)); if (stride == 1 && g.coin()) FUDaeWriter::AddSourceFloat(d.root, d.id.c_str(), l, "WEIGHT"); else FUDaeWriter::AddSourceFloat(d.root, d.id.c_str(), l, stride, g.coin() ? FUDaeAccessor::XYZW : NULL); xmlNode* x = d.back(); dirty(g, r); CHECK_EQ(FUDaeParser::ReadSource(x, r), (uint32) stride, "stride"); same(l, r, 1, F, "floats");
        // The same values, one list per column; columns nobody wants are skipped
        size_t have = 1 + g.below(stride + 1); std::vector<FloatList> cols(have); fm::pvector<FloatList> ps; for (auto& k : cols) { dirty(g, k); ps.push_back(&k); } if (have < stride || g.coin()) { FUDaeParser::ReadSourceInterleaved(x, ps); for (size_t k = 0; k < have && k < stride; ++k) { FloatList w; for (size_t i = 0; i < n; ++i) w.push_back(l[i * stride + k]); same(w, cols[k], 1, F, "interleaved floats"); } c.label("interleaved"); } break; }
    case 8: { size_t m = 1 + g.below(3), comps = g.coin() ? 2 : 3, declared = n; FloatList l; for (size_t i = 0; i < n * m * comps; ++i) l.push_back(num(g)); xmlNode* w = FUDaeWriter::AddSourceFloat(d.root, d.id.c_str(), l, m * comps, comps == 2 ? FUDaeAccessor::XY : FUDaeAccessor::XYZW);
        // Values beyond the announced count are read too
        if (n && g.coin()) { declared = g.below(n); xmlNode* a = FUDaeParser::FindTechniqueAccessor(w); FUXmlWriter::RemoveAttribute(a, "count"); FUXmlWriter::AddAttribute(a, "count", (uint32) declared); c.label("count too small"); }
        if (m == 1 && comps == 1) break; xmlNode* x = d.back(); std::vector<FMVector2List> c2(m); std::vector<FMVector3List> c3(m); fm::pvector<FMVector2List> p2; fm::pvector<FMVector3List> p3; for (size_t k = 0; k < m; ++k) { p2.push_back(&c2[k]); p3.push_back(&c3[k]); }
        uint32 s = comps == 2 ? FUDaeParser::ReadSourceInterleaved(x, p2) : FUDaeParser::ReadSourceInterleaved(x, p3); CHECK_EQ(s, (uint32) (m * comps), "stride");
        for (size_t k = 0; k < m; ++k) { CHECK_EQ(comps == 2 ? c2[k].size() : c3[k].size(), n, "interleaved vectors"); for (size_t i = 0; i < n; ++i) for (size_t q = 0; q < comps; ++q) CHECK(near(l[(i * m + k) * comps + q], comps == 2 ? (&c2[k][i].u)[q] : (&c3[k][i].x)[q]), "interleaved vector ", k, " ", i, ".", q); } break; }
    case 9: { StringList l, r; for (size_t i = 0; i < n; ++i) { std::string t; size_t k = 1 + g.len(8); for (size_t j = 0; j < k; ++j) t += g.chance(1, 8) ? g.oneof<const char*>({"&", "<", "%", "\"", "\xc3\xa9"}) : std::string(1, (char) g.range('!', '~')); l.push_back(t.c_str()); } if (g.coin()) FUDaeWriter::AddSourceString(d.root, d.id.c_str(), l, "JOINT"); else FUDaeWriter::AddSourceIDRef(d.root, d.id.c_str(), l, "MORPH_TARGET"); FUDaeParser::ReadSource(d.back(), r); CHECK_EQ(r.size(), l.size(), "number of strings"); for (size_t i = 0; i < n; ++i) CHECK_EQ(S(r[i]), S(l[i]), "string ", i); break; }
    default: { FUDaeInterpolationList l; UInt32List r; for (size_t i = 0; i < n; ++i) l.push_back(g.oneof({FUDaeInterpolation::STEP, FUDaeInterpolation::LINEAR, FUDaeInterpolation::BEZIER, FUDaeInterpolation::TCB})); xmlNode* w = FUDaeWriter::AddSourceInterpolation(d.root, d.id.c_str(), l); size_t more = 0; if (g.chance(1, 4)) { more = g.below(5); xmlNode* a = FUDaeParser::FindTechniqueAccessor(w); FUXmlWriter::RemoveAttribute(a, "count"); FUXmlWriter::AddAttribute(a, "count", (uint32) (n + more)); c.label("count too large"); }
        dirty(g, r); FUDaeParser::ReadSourceInterpolation(d.back(), r); CHECK(r.size() >= n && r.size() <= n + more, "number of interpolations: ", r.size(), " of ", n, " and ", more, " missing"); for (size_t i = 0; i < n; ++i) CHECK_EQ(r[i], (uint32) l[i], "interpolation ", i); for (size_t i = n; i < r.size(); ++i) CHECK_EQ(r[i], (uint32) FUDaeInterpolation::BEZIER, "missing interpolation ", i); } }
    fcu::no_asserts("sources");
}

PBT_CASE(sids_and_techniques, 30000, 300000) {
    Doc d; FUXmlWriter::AddAttribute(d.root, "id", "scope"); std::vector<xmlNode*> els{d.root}; std::set<std::string> used; size_t n = g.steps(g.chance(1, 8) ? 160 : 30), sids = 0; int names = 1 + (int) g.below(3); std::map<std::string, xmlNode*> at;
    std::map<xmlNode*, std::map<std::string, xmlNode*>> tech; std::set<xmlNode*> marked{d.root};
    for (size_t i = 0; i < n; ++i) { xmlNode* p = els[g.below(els.size())]; switch (g.below(4)) {
        case 0: case 1: { xmlNode* x = FUXmlWriter::AddChild(p, "e"); std::string want = std::string("s") + (char) ('a' + g.below(names)); if (g.chance(1, 6)) want += std::to_string(2 + g.below(4)); fm::string got; if (g.coin()) got = FUDaeWriter::AddNodeSid(x, want.c_str()); else { got = want.c_str(); FUDaeWriter::AddNodeSid(x, got); } CHECK(FUXmlParser::ReadNodeProperty(x, "sid") == got, "the sid returned is the sid written"); CHECK(S(got).compare(0, want.size(), want) == 0, "the sid starts as wanted");
            // Unique among the scopes the element is looked up in: the nearest identified ancestor
            xmlNode* sc = x->parent; while (!marked.count(sc)) sc = sc->parent; size_t same = 0; std::vector<xmlNode*> st{sc}; while (!st.empty()) { xmlNode* y = st.back(); st.pop_back(); if (FUXmlParser::ReadNodeProperty(y, "sid") == got) ++same; for (xmlNode* k = y->children; k; k = k->next) st.push_back(k); } CHECK_EQ(same, (size_t) 1, "elements with sid ", got.c_str(), " below the nearest identified element"); CHECK(FUDaeParser::FindHierarchyChildBySid(sc, got.c_str()) == x, "the element is found by its sid");
            ++sids; marked.insert(x); els.push_back(x); break; }
        case 2: { els.push_back(FUXmlWriter::AddChild(p, "plain")); break; }
        default: { std::string prof = g.oneof<const char*>({"FCOLLADA", "MAX3D", "MAYA"}); bool ex = g.coin(); xmlNode* t = ex ? FUDaeWriter::AddExtraTechniqueChild(p, prof.c_str()) : FUDaeWriter::AddTechniqueChild(p, prof.c_str()); CHECK(t && FUXmlParser::ReadNodeProperty(t, "profile") == prof.c_str(), "technique for the profile"); xmlNode* owner = t->parent; CHECK(ex ? owner->parent == p : owner == p, "parent of the technique"); auto it = tech[owner].find(prof); if (it != tech[owner].end()) CHECK(it->second == t, "only one technique for a profile"); tech[owner][prof] = t; CHECK(FUDaeParser::FindTechnique(owner, prof.c_str()) == t, "the technique is found"); } } }
    c.note(cat(sids, " sids of ", names, " names")); c.nontrivial = sids >= 2; if (sids > 99) c.label("more than 99 sids"); fcu::no_asserts("sids");
}
