// LIB: small
#include "fcu.h"
#include <algorithm>
#include "FUtils/FUUri.h"
#include "FUtils/FUFileManager.h"
using namespace pbt;

PBT_PROPERTY("C16", "URIs assembled from generated components (four schemes, user, host, port, path, query, fragment), absolute/relative pairs over a small alphabet of folder names, plain file paths up to several thousand characters, and histories of current-folder changes, each against a list-of-segments reference model. Non-trivial: the URI has at least two optional components, the relative reference climbs at least one folder, or the path has both a folder and an extension.")
static void init() { fcu::install(); }
struct SetInit { SetInit() { worker_init = init; } } setInit;

typedef std::vector<std::string> Seg;
static fstring F(const std::string& s) { return fstring(s.c_str(), s.size()); }
static std::string S(const fstring& f) { return std::string(f.c_str(), f.length()); }

// A path segment: never empty, "." or "..". `colon` allows ':' after the first two characters.
static std::string segment(Src& g, bool colon = false) {
    static const char* small[] = { "a", "b", "ab", "Folder", "x.y", "..hidden", ".cfg", "a b", "%20", "d-1_2", "...", "Z" };
    if (g.chance(3, 4)) return small[g.below(12)];
    static const std::string chars = "abcXYZ0189-_.~!$&'()*+,;=@ %[]{}^`\"<>";
    size_t n = 1 + g.len(30); std::string s;
    for (size_t i = 0; i < n; ++i) s += g.chance(1, 12) && colon && i > 2 ? ':' : chars[g.below(chars.size())];
    if (s == "." || s == "..") s += "x";
    return s;
}
static std::string word(Src& g, const char* chars, size_t max) { std::string c = chars, s; size_t n = g.len(max); for (size_t i = 0; i < n; ++i) s += c[g.below(c.size())]; return s; }
static std::string join(const Seg& v) { std::string s; for (auto& x : v) s += "/" + x; return s; }
static Seg segs(Src& g, size_t min, size_t max, bool colon = false) { Seg v; size_t n = min + g.below(max - min + 1); for (size_t i = 0; i < n; ++i) v.push_back(segment(g, colon)); return v; }

struct Parts { FUUri::Scheme scheme; std::string user, pass, host; unsigned port = 0; std::string path, query, fragment;
    std::string name() const { return scheme == FUUri::FILE ? "file" : scheme == FUUri::FTP ? "ftp" : scheme == FUUri::HTTP ? "http" : "https"; }
    std::string auth() const { std::string a; if (!user.empty()) a += user + (pass.empty() ? "" : ":" + pass) + "@"; a += host; if (port) a += cat(":", port); return a; }
    std::string str() const { return name() + "://" + auth() + path + (query.empty() ? "" : "?" + query) + (fragment.empty() ? "" : "#" + fragment); }
};
static Parts authority(Src& g) {
    Parts p; p.scheme = g.oneof({ FUUri::FILE, FUUri::HTTP, FUUri::HTTPS, FUUri::FTP });
    if (p.scheme != FUUri::FILE || g.chance(1, 3)) {
        p.host = g.oneof<std::string>({ "host", "www.example.com", "10.0.0.1", "ab", "localhost", "h-2" });
        if (p.scheme != FUUri::FILE) {
            if (g.chance(1, 3)) p.port = g.coin() ? 8080 : 1 + (unsigned) g.below(65535);
            if (g.chance(1, 3)) { p.user = "u" + word(g, "abc09._-", 5); if (g.coin()) p.pass = "p" + word(g, "abc09._-", 5); }
        }
    }
    return p;
}
static const char* FREE = "abcXYZ019/?:@!$&'()*+,;=-._~% ";
static void same(const FUUri& u, const Parts& p, const char* what) {
    CHECK(u.GetScheme() == p.scheme, what, ": scheme ", (int) u.GetScheme());
    CHECK_EQ(S(u.GetUserInformations()), p.user + (p.pass.empty() ? "" : ":" + p.pass), what, ": user");
    CHECK_EQ(S(u.GetHostname()), p.host, what, ": host"); CHECK_EQ(u.GetPort(), p.port, what, ": port");
    CHECK_EQ(S(u.GetPath()), p.path, what, ": path"); CHECK_EQ(S(u.GetQuery()), p.query, what, ": query"); CHECK_EQ(S(u.GetFragment()), p.fragment, what, ": fragment");
    CHECK_EQ(S(u.GetAuthority()), p.auth(), what, ": authority");
}

PBT_CASE(parse_print, 150000, 3000000) {
    fcu::reset_asserts();
    Parts p = authority(g);
    Seg v = segs(g, 0, 5, true); p.path = join(v);
    bool folder = v.empty() || g.chance(1, 5); if (folder) p.path += "/";
    if (g.chance(1, 3)) { p.query = "q" + word(g, FREE, 12); }
    if (g.chance(1, 2)) { p.fragment = "f" + word(g, FREE, 12); }
    c.nontrivial = (!p.query.empty()) + (!p.fragment.empty()) + (p.port != 0) + (!p.user.empty()) + (!p.host.empty()) >= 2;
    std::string text = p.str(); c.note(text);
    FUUri u(F(text)); same(u, p, "parse");
    CHECK_EQ(S(u.GetAbsoluteUri()), text, "print");
    Parts nf = p; nf.fragment.clear(); CHECK_EQ(S(u.GetAbsoluteUri(false)), nf.str(), "print without fragment");
    CHECK(u.IsFile() == (p.path.size() > 1 && !folder), "IsFile");
    FUUri u2(u.GetAbsoluteUri()); same(u2, p, "second parse"); CHECK_EQ(S(u2.GetAbsoluteUri()), text, "second print");
    FUUri up(F((g.coin() ? "FILE" : "file") + std::string("://") + p.path)); CHECK(up.GetScheme() == FUUri::FILE, "scheme case"); CHECK_EQ(S(up.GetPath()), p.path, "file path");
    // Component constructors print the same text
    FUUri b1(p.scheme, F(p.user), F(p.pass), F(p.host), p.port, F(p.path), F(p.query), F(p.fragment));
    same(b1, p, "components"); CHECK_EQ(S(b1.GetAbsoluteUri()), text, "component print");
    Parts s = p; s.user = s.pass = s.query = ""; s.port = 0;
    FUUri b2(s.scheme, F(s.host), F(s.path), F(s.fragment)); same(b2, s, "short components"); CHECK_EQ(S(b2.GetAbsoluteUri()), s.str(), "short print");
    Parts l; l.scheme = FUUri::FILE; l.path = p.path; l.fragment = p.fragment;
    FUUri b3(F(l.path), F(l.fragment)); same(b3, l, "path constructor"); CHECK_EQ(S(b3.GetAbsoluteUri()), l.str(), "path constructor print");
    // A plain absolute path is a file URI
    if (p.query.empty() && v.size()) {
        FUUri f(F(p.path + (p.fragment.empty() ? "" : "#" + p.fragment))); same(f, l, "plain path"); CHECK_EQ(S(f.GetAbsolutePath()), l.path, "plain absolute path");
        std::string w = p.path; std::replace(w.begin(), w.end(), '/', '\\'); FUUri fw(F(w)); CHECK_EQ(S(fw.GetPath()), p.path, "backslashes"); }
    unsigned np = (unsigned) g.below(65536); u.SetPort(np); u.SetQuery(F("z=1")); u.SetFragment(F("other")); p.port = np; p.query = "z=1"; p.fragment = "other"; CHECK_EQ(S(u.GetAbsoluteUri()), p.str(), "setters");
    fcu::no_asserts("URI parsing");
}

PBT_CASE(resolve, 150000, 3000000) {
    fcu::reset_asserts();
    Parts b = authority(g); if (b.scheme == FUUri::FILE) b.host = "";
    Seg dir = segs(g, 0, 4, true); std::string file = g.coin() ? segment(g, true) : "";
    b.path = join(dir) + "/" + file;
    FUUri base(F(b.str())); same(base, b, "base");
    // relative reference
    Seg rel; size_t n = 1 + g.below(6); bool up = false;
    for (size_t i = 0; i < n; ++i) { if (i + 1 < n && g.chance(1, 3)) { rel.push_back(".."); up = true; } else if (i + 1 < n && g.chance(1, 5)) rel.push_back("."); else rel.push_back(segment(g)); }
    if (rel[0] != "." && rel[0] != ".." && g.chance(1, 3)) rel.insert(rel.begin(), ".");
    std::string r = join(rel).substr(1);
    Parts e = b; Seg out = dir; for (auto& s : rel) { if (s == "..") { if (!out.empty()) out.pop_back(); } else if (s != ".") out.push_back(s); }
    e.path = join(out); e.query = e.fragment = "";
    c.nontrivial = up; c.note(b.str() + " + " + r);
    std::string suffix; if (g.chance(1, 3)) { e.query = "q" + word(g, FREE, 6); suffix += "?" + e.query; } if (g.chance(1, 3)) { e.fragment = "f" + word(g, FREE, 6); suffix += "#" + e.fragment; }
    FUUri u(F(r + suffix)); CHECK(u.GetScheme() == FUUri::NONE, "relative reference has no scheme");
    base.MakeAbsolute(u); same(u, e, "MakeAbsolute(uri)"); CHECK_EQ(S(u.GetAbsoluteUri()), e.str(), "printed");
    FUUri res = base.Resolve(F(r + suffix)); same(res, e, "Resolve"); CHECK_EQ(S(res.GetAbsoluteUri()), e.str(), "Resolve printed");
    std::string text = S(base.MakeAbsolute(F(r + suffix)));
    if (b.scheme == FUUri::FILE) CHECK_EQ(text, e.path, "MakeAbsolute(text)");
    else { Parts h = e; h.fragment = ""; if (h.scheme == FUUri::FTP) h.query = ""; CHECK_EQ(text, h.str(), "MakeAbsolute(text)"); }
    if (g.coin()) { std::string w = r; std::replace(w.begin(), w.end(), '/', '\\'); FUUri uw(F(w)); base.MakeAbsolute(uw); CHECK_EQ(S(uw.GetPath()), e.path, "backslashes"); }
    // An absolute URI is left alone
    Parts o = authority(g); if (o.scheme == FUUri::FILE) o.host = ""; o.path = join(segs(g, 1, 4)); o.fragment = e.fragment;
    FUUri ou(F(o.str())); base.MakeAbsolute(ou); same(ou, o, "absolute stays");
    CHECK_EQ(S(base.Resolve(F(o.str())).GetAbsoluteUri()), o.str(), "Resolve of an absolute URI");
    fcu::no_asserts("URI resolution");
}

PBT_CASE(relative_inverse, 150000, 3000000) {
    fcu::reset_asserts();
    Parts b = authority(g), t = b; if (b.scheme == FUUri::FILE) b.host = t.host = "";
    if (g.chance(1, 6)) { t = authority(g); if (t.scheme == FUUri::FILE) t.host = ""; }
    else if (b.scheme != FUUri::FILE && g.chance(1, 8)) { switch (g.below(3)) { case 0: t.port = t.port ? 0 : 81; break; case 1: t.user = t.user.empty() ? "me" : ""; t.pass = ""; break; default: t.scheme = t.scheme == FUUri::HTTP ? FUUri::HTTPS : FUUri::HTTP; } }
    Seg bd = segs(g, 0, 5, true), td = bd;
    size_t keep = g.below(td.size() + 1); td.resize(keep); size_t more = g.below(4); for (size_t i = 0; i < more; ++i) td.push_back(segment(g, true));
    std::string bf = g.coin() ? segment(g, true) : "", tf = segment(g, true);
    b.path = join(bd) + "/" + bf; t.path = join(td) + "/" + tf;
    if (g.chance(1, 3)) t.query = "q" + word(g, FREE, 6);
    if (g.chance(1, 2)) t.fragment = "f" + word(g, FREE, 6);
    c.nontrivial = keep < bd.size(); c.note(t.str() + " from " + b.str());
    FUUri base(F(b.str())), target(F(t.str()));
    std::string r = S(target.GetRelativeUri(base));
    FUUri back(F(r)); base.MakeAbsolute(back);
    same(back, t, "relative then absolute"); CHECK_EQ(S(back.GetAbsoluteUri()), t.str(), "relative then absolute, printed");
    CHECK_EQ(S(base.Resolve(F(r)).GetAbsoluteUri()), t.str(), "Resolve of the relative URI");
    same(target, t, "target unchanged"); same(base, b, "base unchanged");
    bool sameAuth = t.scheme == b.scheme && t.auth() == b.auth();
    if (!sameAuth) { CHECK_EQ(r, t.str(), "different authority stays absolute"); c.label("different authority"); }
    else if (!bd.empty() && !td.empty() && bd[0] == td[0]) { CHECK(r[0] == '.', "shared folder gives a relative URI: ", r); c.label("relative");
        size_t k = 0; while (k < bd.size() && k < td.size() && bd[k] == td[k]) ++k;
        std::string e; for (size_t i = k; i < bd.size(); ++i) e += "../"; if (k == bd.size()) e = "./"; for (size_t i = k; i < td.size(); ++i) e += td[i] + "/"; e += tf;
        CHECK_EQ(r, e + (t.query.empty() ? "" : "?" + t.query) + (t.fragment.empty() ? "" : "#" + t.fragment), "shortest relative URI"); }
    // Same for plain paths
    if (b.scheme == FUUri::FILE && sameAuth) { std::string rp = S(base.MakeRelative(F(t.path))); CHECK_EQ(S(base.MakeAbsolute(F(rp))), t.path, "MakeRelative/MakeAbsolute"); }
    fcu::no_asserts("relative URIs");
}

PBT_CASE(path_helpers, 120000, 2000000) {
    fcu::reset_asserts();
    char sep = g.chance(1, 4) ? '\\' : '/'; bool mixed = g.chance(1, 6);
    auto sc = [&]() { return mixed ? (g.coin() ? '/' : '\\') : sep; };
    std::string folder; size_t n = g.chance(1, 30) ? 40 + g.below(400) : g.below(6);
    if (g.coin()) folder += sc();
    for (size_t i = 0; i < n; ++i) { folder += segment(g, true); folder += sc(); }
    std::string stem = g.chance(1, 8) ? "" : segment(g, true), ext; bool hasExt = g.chance(2, 3);
    if (hasExt) { ext = word(g, "abcdeXYZ019_- ", g.chance(1, 40) ? 60 : 6); stem += "." + ext; }
    else { size_t d = stem.rfind('.'); if (d != std::string::npos) { ext = stem.substr(d + 1); } }
    std::string name = folder + stem;
    c.nontrivial = hasExt && !folder.empty(); c.note(name.size() < 300 ? name : cat(name.size(), " characters")); if (name.size() > 1024) c.label("longer than MAX_PATH");
    CHECK_EQ(S(FUFileManager::StripFileFromPath(F(name))), folder.empty() ? name : folder, "StripFileFromPath");
    std::string low = ext; for (auto& ch : low) ch = (char) tolower(ch);
    CHECK_EQ(S(FUFileManager::GetFileExtension(F(name))), low, "GetFileExtension");
    fstring out; FUFileManager::GetFolderFromPath(F(name), out);
    std::string ef = folder.empty() ? name : folder; if (!ef.empty() && (ef.back() == '/' || ef.back() == '\\')) ef.pop_back();
    CHECK_EQ(S(out), ef, "GetFolderFromPath");
    fstring net = F(name); CHECK(FUFileManager::ExtractNetworkHostname(net).empty() && S(net) == name, "ExtractNetworkHostname");
    fcu::no_asserts("path helpers");
}

PBT_CASE(current_folder, 40000, 800000) {
    fcu::reset_asserts();
    FUFileManager fm;
    struct Pos { std::string prefix; Seg dir; };
    std::vector<Pos> st;
    { Pos p; std::string cwd = S(fm.GetCurrentUri().GetPath()); std::string cur; for (char ch : cwd) { if (ch == '/') { if (!cur.empty()) p.dir.push_back(cur); cur.clear(); } else cur += ch; } CHECK(cur.empty(), "the current folder ends with a slash"); p.prefix = "file://"; st.push_back(p); }
    size_t ops = g.steps(12); int depthChange = 0;
    auto check = [&]() { Pos& p = st.back(); CHECK_EQ(S(fm.GetCurrentUri().GetPath()), p.dir.empty() ? "/" : join(p.dir) + "/", "current folder"); CHECK_EQ(S(fm.GetCurrentUri().GetAbsoluteUri()), p.prefix + (p.dir.empty() ? "/" : join(p.dir) + "/"), "current URI"); };
    check();
    for (size_t k = 0; k < ops; ++k) {
        Pos cur = st.back(), np = cur; std::string rel;
        switch (g.below(5)) {
        case 0: case 1: case 2: {
            bool file = g.coin(); int kind = (int) g.below(4);
            if (kind == 0) { np.prefix = "file://"; np.dir = segs(g, 1, 4, true); rel = join(np.dir); }
            else if (kind == 1) { np.prefix = g.oneof<std::string>({ "http://host", "https://a.b:81", "ftp://u@h" }); np.dir = segs(g, 1, 4, true); rel = np.prefix + join(np.dir); }
            else { Seg r; size_t n = 1 + g.below(3); for (size_t i = 0; i < n; ++i) { if (g.chance(1, 3)) { r.push_back(".."); if (!np.dir.empty()) np.dir.pop_back(); } else { r.push_back(segment(g)); np.dir.push_back(r.back()); } } rel = join(r).substr(1); }
            if (file) { rel += "/" + segment(g); c.note("file " + rel + ";"); fm.PushRootFile(F(rel)); }
            else { if (kind != 1 && g.chance(1, 4)) rel += "/"; c.note("path " + rel + ";"); fm.PushRootPath(F(rel)); }
            st.push_back(np); break; }
        default: c.note("pop;"); if (g.coin()) fm.PopRootPath(); else fm.PopRootFile(); if (st.size() > 1) { st.pop_back(); ++depthChange; } break;
        }
        check();
        // Writing and reading back a reference in the current folder
        Pos& p = st.back(); Seg td = p.dir; td.resize(g.below(td.size() + 1)); td.push_back(segment(g, true));
        std::string abs = p.prefix + join(td) + "#id"; FUUri t(F(abs));
        bool force = g.chance(1, 4); fm.SetForceAbsoluteFlag(force);
        std::string text = S(fm.CleanUri(t)); if (force) CHECK_EQ(text, abs, "CleanUri with absolute paths");
        FUUri back(F(text)); fm.GetCurrentUri().MakeAbsolute(back); CHECK_EQ(S(back.GetAbsoluteUri()), abs, "CleanUri resolves back");
    }
    c.nontrivial = depthChange > 0 && ops > 3;
    fcu::no_asserts("file manager");
}
