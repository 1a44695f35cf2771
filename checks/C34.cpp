// C34: plug-ins: files go to the archive plug-in of their extension, techniques to the plug-in of their profile; loading can be cancelled.
#include "docgen.h"
#include "FColladaPlugin.h"
#include <fstream>
using namespace pbt;
using namespace dg;
PBT_PROPERTY("C34", "Histories of archive plug-ins registered and released and of files loaded and saved under names of every form; documents whose extra trees hold techniques of the profiles of registered plug-ins, loaded, edited and saved; documents whose loading is cancelled at every kind of point; non-trivial: a history that reached at least two plug-ins, a document with at least three techniques of plug-ins, a cancelled load.");
namespace FCollada { FCOLLADA_EXPORT FColladaPluginManager* GetPluginManager(); }

static long alive = 0;
struct Box : public FUTrackable { std::string tree; FCDETechnique* at = NULL; bool* gone = NULL; Box(const std::string& t) : tree(t) { ++alive; } virtual ~Box() { --alive; } };
// A tree as text: name(attributes)=content{children}
static std::string told(FCDENode* n) { std::string s = S(n->GetName()); for (size_t i = 0; i < n->GetAttributeCount(); ++i) s += "@" + S(n->GetAttribute(i)->GetName()) + "=" + std::string(n->GetAttribute(i)->GetValue().c_str()); if (n->GetChildNodeCount() == 0) return s + "=" + std::string(n->GetContent()); s += "{"; for (size_t i = 0; i < n->GetChildNodeCount(); ++i) s += told(n->GetChildNode(i)) + ";"; return s + "}"; }
static std::string inside(FCDENode* n) { std::string s; for (size_t i = 0; i < n->GetChildNodeCount(); ++i) s += told(n->GetChildNode(i)) + ";"; return s; }
static size_t grow(FCDENode* n, const std::string& s, size_t i) { // the inverse of inside(), up to a closing brace
    while (i < s.size() && s[i] != '}') { size_t e = s.find_first_of("@={", i); FCDENode* c = n->AddChildNode(s.substr(i, e - i).c_str()); i = e; while (s[i] == '@') { size_t q = s.find('=', i); e = s.find_first_of("@={", q + 1); c->AddAttribute(s.substr(i + 1, q - i - 1).c_str(), s.substr(q + 1, e - q - 1).c_str()); i = e; }
        if (s[i] == '=') { e = s.find(';', i); c->SetContent(s.substr(i + 1, e - i - 1).c_str()); i = e; } else i = grow(c, s, i + 1) + 1; ++i; }
    return i; }
struct Call { std::string profile, tree; FUObject* parent; bool write; };
static std::vector<Call> calls;
struct Extra : public FCPExtraTechnique {
    std::string profile; Extra(const std::string& p) : profile(p) {} virtual ~Extra() {}
    virtual const char* GetPluginName() const { return "check"; } virtual uint32 GetPluginVersion() const { return 1; }
    virtual const char* GetProfileName() { return profile.c_str(); }
    virtual FUTrackable* ReadFromArchive(FCDETechnique* t, FUObject* parent) { std::string s = inside(t); CHECK_EQ(S(t->GetProfile()), profile, "profile given to a plug-in"); calls.push_back({profile, s, parent, false}); return s.find("refuse") != std::string::npos ? NULL : new Box(s); }
    virtual void WriteToArchive(FCDETechnique* t, const FUTrackable* h) const { const Box* b = (const Box*) h; CHECK_EQ(t->GetChildNodeCount(), (size_t) 0, "children of a technique that is written"); calls.push_back({profile, b->tree, NULL, true}); grow(t, b->tree, 0); }
};
struct Arch; static std::vector<std::string> routed;
struct Arch : public FCPArchive {
    int id; std::vector<std::string> exts; bool ok = true; Arch(int i) : id(i) {} virtual ~Arch() {}
    virtual const char* GetPluginName() const { return "check"; } virtual uint32 GetPluginVersion() const { return 1; }
    virtual bool IsImportSupported() { return true; } virtual bool IsExportSupported() { return true; } virtual bool IsPartialExportSupported() { return false; }
    virtual bool IsExtensionSupported(const char* e) { for (auto& x : exts) if (x == e) return true; return false; } virtual int GetSupportedExtensionsCount() { return (int) exts.size(); } virtual const char* GetSupportedExtensionAt(int i) { return exts.at((size_t) i).c_str(); }
    bool hit(const char* what, const fchar* f, FCDocument* d) { CHECK(d != NULL); routed.push_back(cat(id, " ", what, " ", f)); return ok; }
    virtual bool ImportFile(const fchar* f, FCDocument* d) { return hit("load", f, d); } virtual bool ImportFileFromMemory(const fchar* f, FCDocument* d, const void* p, size_t n) { return hit(cat("memory ", std::string((const char*) p, n)).c_str(), f, d); } virtual bool ExportFile(FCDocument* d, const fchar* f) { return hit("save", f, d); }
    virtual bool StartExport(const fchar*) { return false; } virtual bool ExportObject(FCDObject*) { return false; } virtual bool EndExport(fm::vector<uint8>&) { return false; } virtual bool EndExport(const fchar*) { return false; } virtual bool ImportObject(FCDObject*, const fm::vector<uint8>&) { return false; }
};
static void start() { dg::init(); for (const char* p : {"VPONE", "VPTWO"}) CHECK(FCollada::RegisterPlugin(new Extra(p))); }
struct SetInit { SetInit() { worker_init = start; } } setInit;

// ---- files ----
PBT_CASE(files, 15000, 300000) {
    FColladaPluginManager* m = FCollada::GetPluginManager(); size_t before = m->GetArchivePluginsCount(); CHECK_EQ(before, (size_t) 1, "archive plug-ins to begin with"); FCPArchive* xml = m->GetArchivePlugin(0); std::vector<Arch*> mine; std::vector<std::string> added; int ids = 0; std::set<int> reached; Doc d;
    std::string own = cat("<?xml version=\"1.0\"?><COLLADA xmlns=\"http://www.collada.org/2005/11/COLLADASchema\" version=\"1.4.1\"><asset><created>2008-01-01T00:00:00Z</created><modified>2008-01-01T00:00:00Z</modified></asset></COLLADA>");
    static const std::vector<std::string> EXT{"vpa", "vpb", "vpc", "dae", "xml", "va"};
    auto same = [](std::string a, std::string b) { for (auto& x : a) x = (char) tolower(x); for (auto& x : b) x = (char) tolower(x); return a == b; };
    auto which = [&](const std::string& e) { for (auto& x : {"dae", "xml"}) if (same(e, x)) return 0; for (auto& x : added) if (same(e, x)) return 0; for (auto* a : mine) for (auto& x : a->exts) if (same(e, x)) return a->id; return -1; };
    for (size_t n = 8 + g.steps(24); n-- > 0;) {
        switch (g.weighted({2, 1, 1, 1, 8})) {
        case 0: { Arch* a = new Arch(++ids); for (size_t k = g.below(3); k-- > 0;) { std::string e = g.pick(EXT); if (g.chance(1, 4)) e[0] = (char) toupper(e[0]); a->exts.push_back(e); } CHECK(FCollada::RegisterPlugin(a)); mine.push_back(a); c.note(cat("plug-in ", a->id, " for ", a->exts.size(), " extensions")); break; }
        case 1: if (!mine.empty()) { size_t k = g.below(mine.size()); c.note(cat("release of plug-in ", mine[k]->id)); mine[k]->Release(); mine.erase(mine.begin() + (long) k); } break;
        case 2: { std::string e = g.pick(EXT); bool known = e == "dae" || e == "xml" || std::find(added.begin(), added.end(), e) != added.end(); CHECK_EQ(xml->AddExtraExtension(e.c_str()), !known, "adding an extension"); if (!known) added.push_back(e); c.note("more extension " + e); break; }
        case 3: { std::string e = g.pick(EXT); auto it = std::find(added.begin(), added.end(), e); CHECK_EQ(xml->RemoveExtraExtension(e.c_str()), it != added.end(), "removing an extension"); if (it != added.end()) added.erase(it); c.note("less extension " + e); break; }
        default: { std::string e = g.pick(EXT); for (auto& x : e) if (g.chance(1, 5)) x = (char) toupper(x); std::string name = g.oneof<const char*>({"f", "a.dae", "f.vpa.vpb", "x.y", "file_1"}), dir = g.oneof<const char*>({"", "sub.vpa/", "/no/where.dae/", "a/b/"}); bool has = !g.chance(1, 8); if (!has) { name = "f"; e = ""; } std::string f = dir + name + (has ? "." + e : "");
            int want = has ? which(e) : -1; for (auto* a : mine) a->ok = g.coin(); routed.clear(); messages().clear(); int op = (int) g.below(3); bool got; FCDocument* fresh = FCollada::NewDocument(); std::string data = want > 0 ? "data" : own;
            if (want == 0 && op != 1) { op = 1; }
            got = op == 0 ? FCollada::LoadDocumentFromFile(fresh, f.c_str()) : op == 1 ? FCollada::LoadDocumentFromMemory(f.c_str(), fresh, (void*) data.data(), data.size()) : FCollada::SaveDocument(fresh, f.c_str());
            std::string expect = want > 0 ? cat(want, op == 0 ? " load " : op == 1 ? " memory data " : " save ", f) : ""; c.note(cat(op == 0 ? "load " : op == 1 ? "memory " : "save ", f, " by ", want));
            CHECK_EQ(routed.size(), want > 0 ? (size_t) 1 : (size_t) 0, "plug-ins called for " + f); if (want > 0) { CHECK_EQ(routed[0], expect, "call for " + f); bool ok = false; for (auto* a : mine) if (a->id == want) ok = a->ok; CHECK_EQ(got, ok, "result for " + f); }
            else if (want == 0) CHECK(got); else { CHECK(!got); CHECK(!messages().errors.empty()); }
            if (want >= 0) reached.insert(want); fresh->Release(); fcu::no_asserts("files"); } }
        CHECK_EQ(m->GetArchivePluginsCount(), 1 + mine.size(), "archive plug-ins"); for (size_t i = 0; i < mine.size(); ++i) CHECK(m->GetArchivePlugin(1 + i) == mine[i]);
    }
    CHECK(!FCollada::RegisterPlugin(NULL)); Extra* none = new Extra(""); CHECK(!FCollada::RegisterPlugin(none)); none->Release(); fcu::reset_asserts();
    for (auto* a : mine) a->Release(); for (auto& x : added) xml->RemoveExtraExtension(x.c_str()); c.nontrivial = reached.size() >= 2;
}

// ---- techniques ----
static std::string word(Src& g) { std::string s; for (size_t n = 1 + g.below(6); n-- > 0;) s += (char) ('a' + g.below(26)); return s; }
static std::string tree(Src& g, int depth, const std::string& tag) { std::string s = "n" + word(g) + tag; if (g.chance(1, 3)) s += "@a" + word(g) + "=" + word(g); if (depth == 0 || g.chance(2, 3)) return s + "=" + (g.chance(1, 5) ? std::to_string(g.below(1000)) : "t" + word(g)); s += "{"; for (size_t n = 1 + g.below(3); n-- > 0;) s += tree(g, depth - 1, "") + ";"; return s + "}"; }
static std::string content(Src& g, int id, bool refuse) { std::string s; for (size_t n = 1 + g.below(3), i = 0; i < n; ++i) s += tree(g, 2, i ? "" : std::to_string(id)) + ";"; if (refuse) s += "refuse=yes;"; return s; }
struct Tech { std::string profile, tree; bool object; };
static void spread(FCDocument* d, std::vector<FCDExtra*>& out) {
    out.push_back(d->GetExtra());
    auto each = [&](auto* l) { for (size_t i = 0; i < l->GetEntityCount(); ++i) out.push_back(l->GetEntity(i)->GetExtra()); };
    each(d->GetCameraLibrary()); each(d->GetLightLibrary()); each(d->GetMaterialLibrary()); each(d->GetGeometryLibrary()); each(d->GetVisualSceneLibrary());
    auto* v = d->GetVisualSceneLibrary(); for (size_t i = 0; i < v->GetEntityCount(); ++i) for (size_t j = 0; j < v->GetEntity(i)->GetChildrenCount(); ++j) out.push_back(v->GetEntity(i)->GetChild(j)->GetExtra());
}
static std::map<std::string, std::pair<std::string, FCDETechnique*>> found(FCDocument* d, bool objects) { // "profile tree" -> owner and technique
    std::map<std::string, std::pair<std::string, FCDETechnique*>> o; std::vector<FCDExtra*> xs; spread(d, xs);
    for (auto* x : xs) for (size_t i = 0; i < x->GetTypeCount(); ++i) for (size_t j = 0; j < x->GetType(i)->GetTechniqueCount(); ++j) { FCDETechnique* t = x->GetType(i)->GetTechnique(j); FUTrackable* p = t->GetPluginObject(); if (p != NULL) CHECK_EQ(t->GetChildNodeCount(), (size_t) 0, "children of a technique with an object"); if (p == NULL && t->GetChildNodeCount() == 0) continue;
        std::string k = S(t->GetProfile()) + " " + (p && objects ? "[object] " + ((Box*) p)->tree : inside(t)); o[k] = {cat(x->GetParent() ? S(((FCDObjectWithId*) x->GetParent())->GetObjectType().GetTypeName()) : "document", "/", S(x->GetType(i)->GetName())), t}; }
    return o; }
static std::string keys(const std::map<std::string, std::pair<std::string, FCDETechnique*>>& m) { std::string s; for (auto& x : m) s += x.first + " in " + x.second.first + "\n"; return s; }
PBT_CASE(techniques, 6000, 120000) {
    long began = alive; size_t special = 0; std::string file = scratch_dir() + "/c34.dae";
    {
        Doc d; FCDSceneNode* root = d.d->AddVisualScene(); for (size_t n = g.below(3); n-- > 0;) root->AddChildNode(); for (size_t n = g.below(2); n-- > 0;) { d.d->GetCameraLibrary()->AddEntity()->SetFovX(30.0f); } for (size_t n = g.below(2); n-- > 0;) d.d->GetLightLibrary()->AddEntity(); for (size_t n = g.below(2); n-- > 0;) d.d->GetMaterialLibrary()->AddEntity()->SetEffect(d.d->GetEffectLibrary()->AddEntity());
        std::vector<FCDExtra*> xs; spread(d.d, xs); int ids = 0; std::multiset<std::string> want; std::map<std::string, bool> refused;
        auto fill = [&](FCDExtra* x, bool objects) { for (size_t k = g.below(3); k-- > 0;) { FCDEType* t = x->AddType(("type" + word(g)).c_str()); for (const char* p : {"VPONE", "VPTWO", "PLAIN", "VPON", "vpone"}) if (g.chance(2, 5)) { if (t->FindTechnique(p)) continue; FCDETechnique* q = t->AddTechnique(p); std::string s = content(g, ++ids, g.chance(1, 5)); bool mine = q->GetProfile() == "VPONE" || q->GetProfile() == "VPTWO"; special += mine; if (objects && mine && g.coin()) q->SetPluginObject(new Box(s)); else grow(q, s, 0); c.note(cat(p, " ", s)); } } };
        for (auto* x : xs) fill(x, true);
        for (int round = 0; round < 2; ++round) {
            auto was = found(d.d, true); std::multiset<std::string> mine, seen; for (auto& x : was) if (((FCDETechnique*) x.second.second)->GetPluginObject()) mine.insert(S(x.second.second->GetProfile()) + " " + ((Box*) x.second.second->GetPluginObject())->tree);
            calls.clear(); messages().clear(); if (!save(d.d, file)) fail("the document is not saved"); for (auto& x : calls) { CHECK(x.write); seen.insert(x.profile + " " + x.tree); } CHECK(seen == mine);
            auto still = found(d.d, true); CHECK_EQ(keys(still), keys(was), "techniques after saving");
            // what is loaded
            calls.clear(); messages().clear(); Doc e; bool memory = g.coin(); std::string bytes; if (memory) { std::ifstream in(file, std::ios::binary); bytes.assign(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>()); } if (!(memory ? FCollada::LoadDocumentFromMemory(file.c_str(), e.d, (void*) bytes.data(), bytes.size()) : FCollada::LoadDocumentFromFile(e.d, file.c_str()))) fail("the document does not load: " + messages().all()); clean("loading");
            std::map<std::string, std::string> expect, got; std::multiset<std::string> read; for (auto& x : was) { FCDETechnique* t = x.second.second; std::string s = t->GetPluginObject() ? ((Box*) t->GetPluginObject())->tree : inside(t), p = S(t->GetProfile()); bool theirs = p == "VPONE" || p == "VPTWO"; if (theirs) read.insert(p + " " + s); expect[p + " " + (theirs && s.find("refuse") == std::string::npos ? "[object] " : "") + s] = x.second.first; }
            seen.clear(); for (auto& x : calls) { CHECK(!x.write); seen.insert(x.profile + " " + x.tree); } CHECK(seen == read);
            for (auto& x : found(e.d, true)) got[x.first] = x.second.first; std::string a, b; for (auto& x : expect) a += x.first + " in " + x.second + "\n"; for (auto& x : got) b += x.first + " in " + x.second + "\n"; CHECK_EQ(b, a, "techniques of the loaded document");
            auto now = found(e.d, true); for (auto& x : calls) { std::string k = x.profile + " " + (x.tree.find("refuse") == std::string::npos ? "[object] " : "") + x.tree; auto it = now.find(k); CHECK(it != now.end()); CHECK_EQ(x.parent ? S(x.parent->GetObjectType().GetTypeName()) + "/" : std::string("document/"), it->second.first.substr(0, it->second.first.find('/') + 1), "parent given to a plug-in"); }
            // edit what was loaded and go on with it
            std::swap(d.d, e.d); xs.clear(); spread(d.d, xs); for (auto& x : found(d.d, true)) { FCDETechnique* t = x.second.second; if (t->GetPluginObject() && g.chance(1, 3)) { std::string s = content(g, ++ids, false); if (g.coin()) ((Box*) t->GetPluginObject())->tree = s; else t->SetPluginObject(new Box(s)); c.note("edited"); } else if (g.chance(1, 10)) t->Release(); } for (auto* x : xs) if (g.chance(1, 3)) fill(x, true);
        }
    }
    CHECK_EQ(alive, began, "objects of plug-ins left after their documents"); c.nontrivial = special >= 3;
}

// ---- cancelled loads ----
static long countdown = -1, asked = 0; static std::function<bool()> cancelling = [] { ++asked; return countdown >= 0 && asked > countdown; };
PBT_CASE(cancelled, 800, 16000) {
    Doc d; Gen G(g, d.d); unsigned parts = g.coin() ? ALL & ~CLIPS : GEOMETRY | SCENES | CONTROLLERS; G.document(parts); std::string file = scratch_dir() + "/c34c.dae"; if (!save(d.d, file)) throw Discard(); Doc a; asked = 0; countdown = -1; FCollada::SetCancelLoadingCallback(&cancelling);
    bool ok = FCollada::LoadDocumentFromFile(a.d, file.c_str()); FCollada::SetCancelLoadingCallback(NULL); if (!ok) throw Discard(); long total = asked; Dump da = dumped(a.d);
    for (int k = 0; k < 3 && total > 0; ++k) { countdown = (long) g.below((size_t) total); asked = 0; messages().clear(); Doc b; FCollada::SetCancelLoadingCallback(&cancelling); bool r = FCollada::LoadDocumentFromFile(b.d, file.c_str()); FCollada::SetCancelLoadingCallback(NULL); c.note(cat("cancelled at ", countdown, " of ", total)); CHECK(asked > countdown); if (r) fail(cat("a load that was cancelled at ", countdown, " of ", total, " reports success")); c.nontrivial = true; }
    countdown = -1; fcu::reset_asserts(); Doc e; CHECK(FCollada::LoadDocumentFromFile(e.d, file.c_str())); std::string x = diff(da, dumped(e.d)); if (!x.empty()) fail("after cancelled loads: " + x);
}
