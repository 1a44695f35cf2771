// LIB: small
#include "fcu.h"
#include "FUtils/FUErrorLog.h"
#include "FUtils/FULogFile.h"
#include "FUtils/FUFile.h"
#include <algorithm>
#include <atomic>
#include <map>
#include <memory>
#include <thread>
#include <unistd.h>
using namespace pbt;
PBT_PROPERTY("C31", "at least one report reached two listeners (histories, threads), or the file was read back in at least two pieces (files)")
struct SetInit { SetInit() { worker_init = [] { fcu::install(); }; } } setInit;
typedef FUError E;
static const E::Level LEVELS[] = {E::DEBUG_LEVEL, E::WARNING_LEVEL, E::ERROR_LEVEL};
struct Rep { int level; uint32 code, arg; bool operator==(const Rep& o) const { return level == o.level && code == o.code && arg == o.arg; } bool operator<(const Rep& o) const { return std::tie(level, code, arg) < std::tie(o.level, o.code, o.arg); } };
static std::string show(const Rep& r) { return cat("level ", r.level, " code ", r.code, " line ", r.arg); }
// A line a log or a handler is expected to hold: a report with its text, or text exactly as written.
struct Line { bool report; Rep r; std::string text; };
static std::string lower(std::string s) { for (char& c : s) c = (char) tolower(c); return s; }
static std::string broken(const Line& want, const std::string& got) { // empty when fine
    if (!want.report) return got == want.text ? "" : cat("expected the line '", want.text, "'");
    if (got.size() < want.text.size() || got.compare(got.size() - want.text.size(), std::string::npos, want.text) != 0) return cat("a report of '", want.text, "' expected");
    std::string head = lower(got.substr(0, got.size() - want.text.size())), number = std::to_string(want.r.arg), digits; bool has = false;
    for (char c : head + " ") if (isdigit((unsigned char) c)) digits += c; else { if (!digits.empty() && digits == number) has = true; digits.clear(); }
    if (!has) return "no line number " + number;
    if ((head.find("warn") != std::string::npos) != (want.r.level == E::WARNING_LEVEL) || (head.find("error") != std::string::npos) != (want.r.level == E::ERROR_LEVEL)) return "wrong level";
    return "";
}
static std::vector<std::string> split(const std::string& s) { std::vector<std::string> v(1); for (char c : s) if (c == '\n' || c == '\r') { if (!v.back().empty()) v.emplace_back(); } else v.back() += c; if (v.back().empty()) v.pop_back(); return v; }
static void lines(const std::string& what, const std::string& text, const std::vector<Line>& want) {
    auto got = split(text);
    for (size_t i = 0; i < std::min(got.size(), want.size()); ++i) { std::string b = broken(want[i], got[i]); CHECK(b.empty(), what, " line ", i, " is '", got[i].substr(0, 200), "': ", b.substr(0, 300)); }
    CHECK_EQ(got.size(), want.size(), what + " has one line for each report");
}
static std::string contents(const std::string& f) { std::string s; FILE* p = fopen(f.c_str(), "rb"); if (!p) return s; char b[4096]; for (size_t n; (n = fread(b, 1, sizeof b, p)) > 0;) s.append(b, n); fclose(p); return s; }
static std::string words(Src& g, size_t most) {
    static const std::vector<std::string> W{"%", "%s", "%d", "%n", "%%", "%5.2f", "100% of ", "model.dae", " ", "line", "\\", "\"", "\xC3\xA9", "[7] ", "a", "Z", ",", ": ", "{}", "{0}", "\t"};
    std::string s; for (size_t n = g.below(most + 1); n-- > 0;) s += g.pick(W); if (g.chance(1, 12)) s += std::string(g.range(200, 3000), 'x'); return s;
}
static uint32 a_code(Src& g) { switch (g.below(4)) { case 0: return E::ERROR_CUSTOM_STRING; case 1: return (uint32) g.below(256); default: return (uint32) g.below(200); } }
static uint32 a_line(Src& g) { switch (g.below(6)) { case 0: return 0; case 1: return 0xFFFFFFFFu - (uint32) g.below(3); case 2: return (uint32) g.range(9, 11); case 3: return (uint32) g.range(0x7FFFFFFE, 0x80000001); default: return (uint32) g.below(5000); } }
struct Quiet { ~Quiet() { E::SetFatalityLevel(E::ERROR_LEVEL); E::SetCustomErrorString(""); } };

// Histories of one thread against a model of who listens to what.
PBT_CASE(histories, 60000, 1500000) {
    struct Got { int id; Rep r; }; std::vector<Got> got; Quiet quiet;
    struct Listener { int id; int level; void* key; };
    struct Handler { std::unique_ptr<FUErrorSimpleHandler> h; int level; std::vector<Line> lines; bool fails = false; };
    struct Log { std::unique_ptr<FUErrorLog> l; int level; std::string file; std::vector<Line> lines; uint32 counts[3] = {0, 0, 0}; bool opens; };
    static char keys[5]; std::vector<Listener> at; std::vector<Handler> handlers; std::vector<Log> logs; std::string custom; int next = 0, files = 0;
    struct Remove { std::vector<Listener>& at; ~Remove() { for (auto& l : at) E::RemoveErrorCallback((E::Level) l.level, l.key); } } removal{at};
    auto write = [&](Log& l) { std::string t = contents(l.file); if (l.opens) lines("the log", t, l.lines); unlink(l.file.c_str()); };
    size_t n = 3 + g.len(24); c.note(cat(n, " operations"));
    for (size_t k = 0; k < n; ++k) switch (g.weighted({5, 2, 9, 2, 1, 3, 1, 2, 1, 2, 3})) {
    case 0: { int level = (int) g.below(3); void* key = &keys[g.below(5)]; bool there = false; for (auto& l : at) if (l.level == level && l.key == key) there = true; if (there) break; int id = next++;
        E::AddErrorCallback((E::Level) level, key, [&got, id](E::Level l, uint32 code, uint32 arg) { got.push_back({id, {(int) l, code, arg}}); }); at.push_back({id, level, key}); c.note(cat("listener ", id, " at level ", level)); break; }
    case 1: { int level = (int) g.below(3); void* key = &keys[g.below(5)]; E::RemoveErrorCallback((E::Level) level, key); at.erase(std::remove_if(at.begin(), at.end(), [&](const Listener& l) { return l.level == level && l.key == key; }), at.end()); c.note(cat("no listener of key ", (char*) key - keys, " at level ", level)); break; }
    case 2: { Rep r{(int) g.below(3), a_code(g), a_line(g)}; c.note("report " + show(r)); got.clear(); E::Error((E::Level) r.level, r.code, r.arg);
        std::vector<int> want; for (auto& l : at) if (l.level == r.level) want.push_back(l.id); std::reverse(want.begin(), want.end());
        for (auto& q : got) CHECK(q.r == r, "listener ", q.id, " was told ", show(q.r), " instead of ", show(r)); std::vector<int> ids; for (auto& q : got) ids.push_back(q.id);
        { auto a = ids, b = want; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b, a.size(), " calls for the ", b.size(), " listeners of the level, or not once each"); } CHECK(ids == want, "listeners are called in reverse order of their registration");
        const char* s = E::GetErrorString((E::Code) r.code); CHECK(s != NULL, "every code has a text"); std::string text = s; if (r.code == E::ERROR_CUSTOM_STRING) CHECK_EQ(text, custom, "the custom string");
        size_t heard = want.size() + handlers.size(); for (auto& h : handlers) { h.lines.push_back({true, r, text}); if (r.level >= h.level) h.fails = true; }
        for (auto& l : logs) if (r.level >= l.level) { l.lines.push_back({true, r, text}); ++l.counts[r.level]; ++heard; } if (heard >= 2) c.nontrivial = true; break; }
    case 3: { int level = (int) g.below(3); Handler h; h.level = level; h.h.reset(new FUErrorSimpleHandler((E::Level) level)); handlers.push_back(std::move(h)); c.note(cat("handler failing at level ", level)); c.label("simple handler"); break; }
    case 4: if (!handlers.empty()) { handlers.erase(handlers.begin() + (long) g.below(handlers.size())); c.note("a handler goes"); } break;
    case 5: { Log l; l.level = (int) g.below(3); l.opens = !g.chance(1, 10); l.file = cat(scratch_dir(), l.opens ? "/log" : "/none/log", files++); l.l.reset(new FUErrorLog(l.file.c_str(), (E::Level) l.level)); c.note(cat("log from level ", l.level, l.opens ? "" : " (cannot be opened)")); logs.push_back(std::move(l)); c.label("log"); break; }
    case 6: if (!logs.empty()) { size_t i = g.below(logs.size()); logs[i].l.reset(); write(logs[i]); logs.erase(logs.begin() + (long) i); c.note("a log is closed"); } break;
    case 7: { custom = words(g, 5); E::SetCustomErrorString(custom.c_str()); c.note("custom string " + custom.substr(0, 60)); break; }
    case 8: { E::Level l = LEVELS[g.below(3)]; E::SetFatalityLevel(l); CHECK(E::GetFatalityLevel() == l, "the fatality level"); break; }
    case 9: if (!logs.empty()) { Log& l = logs[g.below(logs.size())]; uint32 d = 77, w = 77, e = 77; l.l->QueryNewMessages(d, w, e); c.note("new messages");
        CHECK_EQ(d, l.counts[0], "new debug messages"); CHECK_EQ(w, l.counts[1], "new warnings"); CHECK_EQ(e, l.counts[2], "new errors"); l.counts[0] = l.counts[1] = l.counts[2] = 0; } break;
    case 10: if (!logs.empty()) { Log& l = logs[g.below(logs.size())]; if (!l.opens) break; std::string s = words(g, 4); int i = (int) g.range(-99999, 99999); uint32 at_line = (uint32) g.below(100000); std::string where = g.coin() ? "file.cpp" : "%s/file%d.cpp"; c.label("own lines"); c.note("own line " + s.substr(0, 60));
        switch (g.below(3)) { case 0: l.l->GetLogFile()->WriteLine("%s", s.c_str()); if (!s.empty()) l.lines.push_back({false, {}, s}); break;
        case 1: l.l->GetLogFile()->WriteLine("of %s: value %d.", s.c_str(), i); l.lines.push_back({false, {}, cat("of ", s, ": value ", i, ".")}); break; // (a number first would be taken for a line number)
        default: l.l->GetLogFile()->WriteLine(where.c_str(), at_line, "<%s> %d", s.c_str(), i); l.lines.push_back({false, {}, cat("[", where, ":", at_line, "]")}); l.lines.push_back({false, {}, cat("<", s, "> ", i)}); } } break;
    }
    for (auto& h : handlers) { lines("the handler's text", h.h->GetErrorString(), h.lines); CHECK_EQ(h.h->IsSuccessful(), !h.fails, cat("success of a handler failing at level ", h.level)); }
    handlers.clear(); for (auto& l : logs) { uint32 m[3]; l.l->QueryNewMessages(m[0], m[1], m[2]); for (int i = 0; i < 3; ++i) CHECK_EQ(m[i], l.counts[i], "new messages at the end"); l.l.reset(); write(l); } logs.clear();
    // Nobody who has gone is called any more
    got.clear(); for (auto& l : at) E::RemoveErrorCallback((E::Level) l.level, l.key); at.clear(); for (auto l : LEVELS) E::Error(l, 1, 1); CHECK(got.empty(), "a listener that has gone was called");
    fcu::no_asserts("reporting");
}

// Several threads report at once.
PBT_CASE(threads, 1500, 40000) {
    Quiet quiet; const size_t T = 2 + g.below(3); std::vector<std::vector<Rep>> what(T); size_t total = 0;
    for (size_t t = 0; t < T; ++t) for (size_t n = g.range(1, 60); n-- > 0;) { what[t].push_back({(int) g.below(3), (uint32) g.below(200), (uint32) (t * 1000 + what[t].size())}); ++total; }
    struct Shared { std::vector<Rep> got; } all[3]; static char keys[3], temporary; int from = (int) g.below(3); std::string file = scratch_dir() + "/threads.log"; size_t churn = g.below(40); std::vector<int> churned; for (size_t i = 0; i < churn; ++i) churned.push_back((int) g.below(3));
    c.note(cat(T, " threads, ", total, " reports, ", churn, " listeners that come and go")); if (total >= 2) c.nontrivial = true;
    std::string handled, error; bool success; { FUErrorSimpleHandler h; FUErrorLog log(file.c_str(), (E::Level) from);
        // The listeners keep their lists unguarded: reports are delivered one at a time
        for (int l = 0; l < 3; ++l) E::AddErrorCallback((E::Level) l, &keys[l], [&all, l](E::Level level, uint32 code, uint32 arg) { all[l].got.push_back({(int) level, code, arg}); });
        std::atomic<size_t> ready{0}; std::vector<std::thread> ts; std::vector<Rep> seen;
        for (size_t t = 0; t < T; ++t) ts.emplace_back([&, t] { ++ready; while (ready < T) std::this_thread::yield(); for (auto& r : what[t]) E::Error((E::Level) r.level, r.code, r.arg); });
        for (int l : churned) { E::AddErrorCallback((E::Level) l, &temporary, [&seen](E::Level level, uint32 code, uint32 arg) { seen.push_back({(int) level, code, arg}); }); std::this_thread::yield(); E::RemoveErrorCallback((E::Level) l, &temporary); }
        for (auto& t : ts) t.join(); for (int l = 0; l < 3; ++l) E::RemoveErrorCallback((E::Level) l, &keys[l]);
        std::vector<Rep> sent; for (auto& w : what) sent.insert(sent.end(), w.begin(), w.end()); std::sort(sent.begin(), sent.end()); std::sort(seen.begin(), seen.end()); if (std::adjacent_find(seen.begin(), seen.end()) != seen.end() || !std::includes(sent.begin(), sent.end(), seen.begin(), seen.end())) error = "a listener that came and went heard something else than reports, or one twice";
        uint32 m[3]; log.QueryNewMessages(m[0], m[1], m[2]); for (int l = 0; l < 3; ++l) { size_t want = 0; for (auto& r : sent) want += r.level == l; if (m[l] != (l >= from ? want : 0)) error = cat(m[l], " new messages of level ", l, " counted instead of ", want); }
        handled = h.GetErrorString(); success = h.IsSuccessful(); }
    std::string written = contents(file); unlink(file.c_str()); CHECK(error.empty(), error);
    for (int l = 0; l < 3; ++l) for (size_t t = 0; t < T; ++t) { std::vector<Rep> want, got; for (auto& r : what[t]) if (r.level == l) want.push_back(r); for (auto& r : all[l].got) if (r.arg / 1000 == t) got.push_back(r); CHECK(want == got, "of the ", want.size(), " reports of thread ", t, " at level ", l, " a listener got ", got.size(), ", or others or in another order"); }
    bool fails = false; std::map<uint32, Line> by; for (auto& w : what) for (auto& r : w) { by[r.arg] = {true, r, E::GetErrorString((E::Code) r.code)}; if (r.level == E::ERROR_LEVEL) fails = true; } CHECK_EQ(success, !fails, "success");
    for (int f = 0; f < 2; ++f) { auto got = split(f ? written : handled); std::map<size_t, uint32> last; size_t want = 0; for (auto& b : by) if (!f || b.second.r.level >= from) ++want; CHECK_EQ(got.size(), want, f ? "lines of the log" : "lines of the handler");
        for (auto& s : got) { std::string number; size_t i = 0; while (i < s.size() && !isdigit((unsigned char) s[i])) ++i; while (i < s.size() && isdigit((unsigned char) s[i])) number += s[i++]; uint32 a = number.empty() ? ~0u : (uint32) strtoul(number.c_str(), NULL, 10); auto it = by.find(a); CHECK(it != by.end(), "garbled line '", s, "'"); std::string b = broken(it->second, s); CHECK(b.empty(), "garbled line '", s, "': ", b); auto p = last.find(a / 1000); CHECK(p == last.end() || p->second < a, "the reports of a thread are in order, each once"); last[a / 1000] = a; } }
    fcu::no_asserts("reporting from threads");
}

// What is written to a file is what is read from it.
PBT_CASE(files, 10000, 300000) {
    std::string path = scratch_dir() + "/file" + (g.coin() ? "" : " with spaces.dat"), want; unlink(path.c_str());
    { FUFile none(path.c_str(), FUFile::READ); CHECK(!none.IsOpen(), "a file that does not exist is not opened"); CHECK(!none.Open(path.c_str(), FUFile::READ), "opening a file that does not exist fails"); }
    for (size_t round = 0, n = 1 + g.below(2); round < n; ++round) { // written over by the second round
        want.clear(); FUFile f; CHECK(!f.IsOpen(), "nothing is attached at first"); bool late = g.coin(); if (late) CHECK(f.Open(path.c_str(), FUFile::WRITE), "opening for writing"); std::unique_ptr<FUFile> other(late ? NULL : new FUFile(fstring(path.c_str()), FUFile::WRITE)); FUFile* w = late ? &f : other.get();
        CHECK(w->IsOpen(), "open for writing"); CHECK_EQ(std::string(w->GetFilePath().c_str()), path, "the path of the file"); CHECK(!w->Open((path + "x").c_str(), FUFile::WRITE) && w->IsOpen(), "an open file does not open another"); CHECK(access((path + "x").c_str(), F_OK) != 0, "and does not create it");
        for (size_t k = g.len(12); k-- > 0;) { std::string s; for (size_t i = g.weighted({6, 1}) ? g.range(4000, 9000) : g.range(1, 40); i-- > 0;) s += (char) g.below(256); CHECK(w->Write(s.data(), s.size()), "writing"); want += s; if (g.chance(1, 4)) { CHECK_EQ(w->GetLength(), want.size(), "the length while writing"); } if (g.chance(1, 4)) { w->Flush(); CHECK(contents(path) == want, "flushing writes everything out"); } }
        if (g.coin()) { w->Close(); CHECK(!w->IsOpen(), "closed"); } }
    CHECK(contents(path) == want, "the file holds what was written"); c.note(cat(want.size(), " bytes"));
    FUFile r(path.c_str(), FUFile::READ); CHECK(r.IsOpen(), "open for reading"); size_t at = 0, pieces = 0;
    while (at < want.size()) { if (g.chance(1, 3)) CHECK_EQ(r.GetLength(), want.size(), "the length while reading"); size_t k = std::min<size_t>(want.size() - at, g.coin() ? g.range(1, 50) : g.range(50, 9000)); std::vector<char> b(k); CHECK(r.Read(b.data(), k), "reading what is there"); CHECK(std::string(b.data(), k) == want.substr(at, k), "what is read at ", at, " is what was written"); at += k; if (++pieces == 2) c.nontrivial = true; }
    char x; CHECK(!r.Read(&x, 1), "reading past the end fails"); CHECK(!r.Write("y", 1), "a file opened for reading is not written"); r.Close(); CHECK(!r.IsOpen() && contents(path) == want, "reading leaves the file as it was");
    if (g.coin()) { CHECK(r.Open(path.c_str(), FUFile::READ), "opening again"); CHECK_EQ(r.GetLength(), want.size(), "the length of the file"); }
    unlink(path.c_str()); fcu::no_asserts("files");
}
