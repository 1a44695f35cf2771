#include "pbt.h"
#include <algorithm>
#include <chrono>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <unordered_set>

namespace pbt {

void (*worker_init)() __attribute__((weak)) = nullptr;
std::vector<const char*> property_assumptions;

static std::vector<Sub>& subs() { static std::vector<Sub> s; return s; }
static std::vector<Known>& knowns() { static std::vector<Known> s; return s; }
Register::Register(Sub s) { subs().push_back(s); }
Register::Register(Known k) { knowns().push_back(k); }

void fail(const std::string& msg) { throw Failure{msg}; }

static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static const size_t MAXCH = 1u << 18;
struct Shared {           // one per worker, MAP_SHARED
    volatile uint32_t sub, idx, state;   // state: 0 idle, 1 in case, 2 failed (msg), 3 done
    volatile uint32_t nch;
    char msg[4096];
    char desc[8192];
    uint64_t ch[MAXCH];
};
static Shared* g_sh = nullptr;

uint64_t Src::below(uint64_t n) {
    if (n == 0) n = 1;
    uint64_t v;
    if (replaying) {
        v = pos < in.size() ? in[pos] : 0;
        if (v >= n) v = v % n;
    } else {
        uint64_t s1 = rng[0]; const uint64_t s0 = rng[1];
        uint64_t r = s0 + s1;
        rng[0] = s0; s1 ^= s1 << 23;
        rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        v = n == 1 ? 0 : (uint64_t) (((unsigned __int128) r * n) >> 64);
    }
    if (g_sh && pos < MAXCH) { g_sh->ch[pos] = v; g_sh->nch = (uint32_t) pos + 1; }
    ++pos;
    if (pos > 4 * MAXCH) throw Discard{};
    return v;
}
size_t Src::weighted(std::initializer_list<unsigned> w) {
    uint64_t t = 0; for (unsigned x : w) t += x;
    uint64_t v = below(t); size_t i = 0;
    for (unsigned x : w) { if (v < x) return i; v -= x; ++i; }
    return w.size() - 1;
}
size_t Src::len(size_t max) {
    size_t m = std::max<size_t>(1, max * size / 100);
    if (m > max) m = max;
    // mixture: usually short, sometimes anything up to m
    if (below(4) < 3) { size_t cap = std::min<size_t>(m, 4); return below(cap + 1); }
    return below(m + 1);
}

struct Stats {
    uint64_t evals = 0, discards = 0;
    std::unordered_set<uint64_t> nontrivial;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
};
static Stats g_stats;
static std::set<std::string> g_caselabels;
void Ctx::label(const char* name) { if (g_caselabels.size() < 200) g_caselabels.insert(name); }

void Ctx::note(const std::string& s) {
    if (desc.size() >= 6000) return;
    if (!desc.empty()) desc += "; ";
    desc += s;
    if (g_sh) snprintf(g_sh->desc, sizeof g_sh->desc, "%s", desc.c_str());
}

static std::string g_scratch;
std::string scratch_dir() { return g_scratch; }
static void rmtree(const std::string& d) {
    if (d.compare(0, 9, "/tmp/pbt.") != 0) return;
    DIR* p = opendir(d.c_str());
    if (!p) return;
    while (dirent* e = readdir(p)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string f = d + "/" + n; struct stat st;
        if (lstat(f.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) rmtree(f); else unlink(f.c_str());
    }
    closedir(p); rmdir(d.c_str());
}

static uint64_t hash_choices(uint32_t sub, const uint64_t* ch, size_t n) {
    uint64_t h = 1469598103934665603ull ^ sub;
    for (size_t i = 0; i < n; ++i) { h ^= ch[i]; h *= 1099511628211ull; h ^= h >> 29; }
    return h;
}
static uint64_t strhash(const char* s) { uint64_t h = 1469598103934665603ull; for (; *s; ++s) { h ^= (unsigned char) *s; h *= 1099511628211ull; } return h; }

static std::string g_curdesc;
static Ctx* g_curctx = nullptr;

static void setup_src(Src& g, uint64_t seed, const Sub& s, uint32_t idx, unsigned total) {
    uint64_t x = seed * 0x2545F4914F6CDD1Dull ^ strhash(s.name) ^ ((uint64_t) idx << 32 | idx);
    g.rng[0] = splitmix(x); g.rng[1] = splitmix(x) | 1;
    g.size = total <= 1 ? 100 : (int) std::min<uint64_t>(100, 8 + (uint64_t) idx * 140 / total);
}

// Runs one case in this process. Returns false if failed, message left in the shared area.
static bool run_one(const Sub& s, Src& g, bool record) {
    g_sh->nch = 0; g_sh->msg[0] = 0; g_sh->desc[0] = 0;
    g_caselabels.clear();
    Ctx c; g_curctx = &c;
    bool ok = true, disc = false;
    alarm(s.timeout_s);
    g_sh->state = 1;
    try { s.fn(g, c); }
    catch (Failure& f) { ok = false; snprintf(g_sh->msg, sizeof g_sh->msg, "%s", f.msg.c_str()); }
    catch (Discard&) { disc = true; }
    catch (std::exception& e) { ok = false; snprintf(g_sh->msg, sizeof g_sh->msg, "uncaught C++ exception: %s", e.what()); }
    catch (...) { ok = false; snprintf(g_sh->msg, sizeof g_sh->msg, "uncaught exception of unknown type"); }
    alarm(0);
    g_curctx = nullptr;
    if (!ok) { snprintf(g_sh->desc, sizeof g_sh->desc, "%s", c.desc.c_str()); g_sh->state = 2; return false; }
    g_sh->state = 0;
    if (record) {
        if (disc) { g_stats.discards++; return true; }
        g_stats.evals++;
        if (c.nontrivial) g_stats.nontrivial.insert(hash_choices(&s - &subs()[0], g_sh->ch, std::min<size_t>(g_sh->nch, MAXCH)));
        for (auto& l : g_caselabels) g_stats.labels[std::string(s.name) + ":" + l]++;
        g_stats.labels[std::string(s.name) + (c.nontrivial ? ":nontrivial" : ":trivial")]++;
        if (c.nontrivial && !c.desc.empty() && g_stats.samples.size() < 400) {
            static std::map<std::string, int> per; int& k = per[s.name];
            if (k < 3) { ++k; g_stats.samples.push_back(std::string(s.name) + ": " + c.desc.substr(0, 600)); }
        }
    }
    return true;
}

static void child_limits() {
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
}

// Runs a function in a forked child; returns 0 ok, 1 clean failure, 2 crash (sanitizer/signal), 3 hang
struct Outcome { int kind = 0; std::string msg, desc; std::vector<uint64_t> ch; int sig = 0; };

static Shared* map_shared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shared*) p;
}

static std::string g_tmp;         // run directory
static std::string tail(const std::string& file, size_t n, bool from_error) {
    std::ifstream f(file); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
    if (from_error) {
        size_t p = s.find("ERROR: "); size_t q = s.find("runtime error"); size_t r = std::min(p, q);
        if (r != std::string::npos) s = s.substr(r > 120 ? r - 120 : 0);
    }
    if (s.size() > n) s.resize(n);
    return s;
}

static void finish_outcome(Outcome& o, int st, Shared* sh, const std::string& log) {
    size_t n = std::min<size_t>(sh->nch, MAXCH);
    o.ch.assign(sh->ch, sh->ch + n);
    o.desc = sh->desc;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { o.kind = 0; return; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 21) { o.kind = 1; o.msg = sh->msg; return; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { o.kind = 3; o.msg = "the case did not finish within its time limit (hang)"; return; }
    o.kind = 2;
    o.msg = WIFSIGNALED(st) ? cat("killed by signal ", WTERMSIG(st)) : cat("aborted with status ", WEXITSTATUS(st));
    o.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    o.msg += "\n" + tail(log, 2500, true);
}

template <class F> static Outcome in_child(Shared* sh, F body) {
    static int n = 0;
    std::string log = g_tmp + "/child" + std::to_string(getpid()) + "." + std::to_string(n++) + ".log";
    fflush(nullptr);
    sh->nch = 0; sh->msg[0] = 0; sh->desc[0] = 0;
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(3); }
    if (p == 0) {
        child_limits();
        int fd = open(log.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); dup2(fd, 2); dup2(fd, 1);
        g_sh = sh;
        g_scratch = g_tmp + "/s" + std::to_string(getpid()); mkdir(g_scratch.c_str(), 0700);
        if (worker_init) worker_init();
        bool ok = body();
        rmtree(g_scratch);
        _exit(ok ? 0 : 21);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    Outcome o; finish_outcome(o, st, sh, log);
    unlink(log.c_str());
    rmtree(g_tmp + "/s" + std::to_string(p));
    return o;
}

static Outcome replay_choices(Shared* sh, const Sub& s, const std::vector<uint64_t>& ch, int size) {
    return in_child(sh, [&] {
        Src g; g.replaying = true; g.in = ch; g.size = size;
        Sub t = s;
        return run_one(t, g, false);
    });
}

static std::vector<uint64_t> shrink(Shared* sh, const Sub& s, std::vector<uint64_t> best, int size, int kind, double budget, unsigned& runs) {
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget && runs < 3000; };
    auto attempt = [&](std::vector<uint64_t> c) {
        if (!left()) return false;
        ++runs;
        Outcome o = replay_choices(sh, s, c, size);
        if (o.kind == 0) return false;
        if ((kind == 3) != (o.kind == 3)) return false;
        if (o.ch.size() < c.size()) c = o.ch;         // drop the unread tail
        if (c.size() < best.size() || (c.size() == best.size() && c < best)) { best = c; return true; }
        return false;
    };
    bool progress = true;
    while (progress && left()) {
        progress = false;
        for (size_t span = std::max<size_t>(1, best.size() / 2); span >= 1 && left(); span /= 2) {
            for (size_t i = 0; i + span <= best.size() && left();) {
                std::vector<uint64_t> c(best); c.erase(c.begin() + i, c.begin() + i + span);
                if (attempt(c)) progress = true; else i += span;
            }
            if (span == 1) break;
        }
        for (size_t span : {(size_t) 16, (size_t) 4, (size_t) 1})
            for (size_t i = 0; i + span <= best.size() && left(); i += span) {
                bool any = false; for (size_t k = 0; k < span; ++k) any |= best[i + k] != 0;
                if (!any) continue;
                std::vector<uint64_t> c(best); for (size_t k = 0; k < span; ++k) c[i + k] = 0;
                if (attempt(c)) progress = true;
            }
        for (size_t i = 0; i < best.size() && left(); ++i) {
            uint64_t lo = 0;
            while (i < best.size() && best[i] > lo + 1 && left()) {
                std::vector<uint64_t> c(best); uint64_t mid = lo + (best[i] - lo) / 2; c[i] = mid;
                if (attempt(c)) progress = true; else lo = mid;
            }
            if (i < best.size() && best[i] > 0 && left()) { std::vector<uint64_t> c(best); c[i]--; if (attempt(c)) progress = true; }
        }
    }
    return best;
}

static std::string jesc(const std::string& s) {
    std::string o; char b[8];
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch >= 127) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o;
}

static void write_worker_stats(const std::string& f) {
    std::ofstream o(f);
    o << g_stats.evals << " " << g_stats.discards << "\n" << g_stats.nontrivial.size() << "\n";
    for (uint64_t h : g_stats.nontrivial) o << h << " ";
    o << "\n" << g_stats.labels.size() << "\n";
    for (auto& l : g_stats.labels) o << l.second << " " << l.first << "\n";
    o << g_stats.samples.size() << "\n";
    for (auto& s : g_stats.samples) { std::string e = jesc(s); o << e << "\n"; }
}
static void read_worker_stats(const std::string& f, Stats& t) {
    std::ifstream i(f); if (!i) return;
    uint64_t a, b, n; i >> a >> b >> n; if (!i) return;
    t.evals += a; t.discards += b;
    for (uint64_t k = 0; k < n; ++k) { uint64_t h; i >> h; t.nontrivial.insert(h); }
    i >> n; for (uint64_t k = 0; k < n; ++k) { uint64_t c; std::string s; i >> c; i.get(); std::getline(i, s); t.labels[s] += c; }
    i >> n; i.get(); for (uint64_t k = 0; k < n; ++k) { std::string s; std::getline(i, s); t.samples.push_back(s); }
}

struct Candidate { uint32_t sub, idx; Outcome o, last; unsigned shard; uint32_t first; int mode = 0; };

} // namespace pbt

using namespace pbt;

// The list of known findings: lines "finding: property=<id> key=<key> ..." allow the key.
static std::set<std::string> read_known(const std::string& file) {
    std::set<std::string> s; std::ifstream f(file); std::string l;
    while (std::getline(f, l)) {
        if (l.compare(0, 9, "finding: ") != 0) continue;
        if (l.find(std::string("property=") + property_id + " ") == std::string::npos) continue;
        size_t p = l.find("key="); if (p == std::string::npos) continue;
        size_t e = l.find_first_of(" \t", p); s.insert(l.substr(p + 4, e == std::string::npos ? e : e - p - 4));
    }
    return s;
}

int main(int argc, char** argv) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::string verif = getenv("PBT_VERIF") ? getenv("PBT_VERIF") : ".";
    const char* se = getenv("VERIF_SEED"); uint64_t seed = se && *se ? strtoull(se, nullptr, 0) : 1;
    const char* te = getenv("VERIF_TIER"); std::string tier = te && *te ? te : "quick";
    std::string replay, only; double scale = 1; int jobs = 8; bool keep_going = false; long one = -1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--replay" && i + 1 < argc) replay = argv[++i];
        else if (a == "--only" && i + 1 < argc) only = argv[++i];
        else if (a == "--scale" && i + 1 < argc) scale = atof(argv[++i]);
        else if (a == "--jobs" && i + 1 < argc) jobs = atoi(argv[++i]);
        else if (a == "--tier" && i + 1 < argc) tier = argv[++i];
        else if (a == "--seed" && i + 1 < argc) seed = strtoull(argv[++i], nullptr, 0);
        else if (a == "--keep-going") keep_going = true;
        else if (a == "--case" && i + 1 < argc) one = atol(argv[++i]);   // (with --only: this generated case alone, in this process, for a debugger)
        else { fprintf(stderr, "usage: check [--replay FILE] [--only SUB] [--scale X] [--tier T] [--seed N]\n"); return 2; }
    }
    if (const char* s = getenv("PBT_SCALE")) scale *= atof(s);
    if (tier != "thorough") tier = "quick";
    char tmpl[] = "/tmp/pbt.XXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; }
    g_tmp = tmpl;
    struct Clean { ~Clean() { rmtree(g_tmp); } } clean;
    Shared* psh = map_shared();
    auto T0 = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); };
    std::sort(subs().begin(), subs().end(), [](const Sub& a, const Sub& b) { return strcmp(a.name, b.name) < 0; });

    if (!replay.empty()) {
        std::ifstream f(replay); std::string k; std::string sub; int size = 100; std::vector<uint64_t> ch; uint32_t first = 0, idx = 0, shard = 0, total = 0, nj = 1; uint64_t rs = 1; bool seq = false;
        while (f >> k) {
            if (k == "sub") f >> sub; else if (k == "size") f >> size; else if (k == "known") { f >> sub; }
            else if (k == "choices") { size_t n; f >> n; ch.resize(n); for (auto& v : ch) f >> v; }
            else if (k == "sequence") { seq = true; f >> rs >> shard >> nj >> first >> idx >> total; }
            else if (k == "message:") break;
            else { std::string rest; std::getline(f, rest); }
        }
        for (auto& s : subs()) if (sub == s.name) {
            Outcome o = !seq ? replay_choices(psh, s, ch, size) : in_child(psh, [&] {
                for (uint32_t i = first; i <= idx; i += nj) { Src g; setup_src(g, rs, s, i, total); if (!run_one(s, g, false)) return false; }
                return true; });
            if (o.kind == 0) { printf("replay: property held\n"); return 0; }
            printf("replay: %s\ncase: %s\n", o.msg.c_str(), o.desc.c_str());
            return 1;
        }
        for (auto& kn : knowns()) if (sub == kn.id) {
            Outcome o = in_child(psh, [&] { alarm(30); try { kn.fn(); } catch (Failure& f) { snprintf(psh->msg, sizeof psh->msg, "%s", f.msg.c_str()); return false; } return true; });
            if (o.kind == 0) { printf("replay: property held\n"); return 0; }
            printf("replay: %s\n", o.msg.c_str()); return 1;
        }
        fprintf(stderr, "unknown sub-check %s\n", sub.c_str()); return 2;
    }

    if (one >= 0) for (auto& s : subs()) if (only == s.name) {
        g_sh = psh; g_scratch = g_tmp; if (worker_init) worker_init();
        double n = (tier == "quick" ? s.quick : s.thorough) * scale;
        Src g; setup_src(g, seed, s, (uint32_t) one, (unsigned) n); bool ok = run_one(s, g, false);
        printf("%s\n%s\n", ok ? "property held" : psh->msg, psh->desc); return ok ? 0 : 1;
    }

    int violations = 0;
    std::string rdir = verif + "/replays"; mkdir(rdir.c_str(), 0755);

    // Listed findings first.
    std::set<std::string> known = read_known(verif + "/known_findings.txt");
    for (auto& kn : knowns()) {
        if (!only.empty()) continue;
        Outcome o = in_child(psh, [&] { alarm(30); try { kn.fn(); } catch (Failure& f) { snprintf(psh->msg, sizeof psh->msg, "%s", f.msg.c_str()); return false; } return true; });
        if (o.kind == 0) { continue; }
        if (known.count(kn.id)) { printf("KNOWN-FINDING: property=%s %s\n", property_id, kn.what); continue; }
        std::string file = rdir + "/" + property_id + "-" + kn.id + ".replay";
        std::ofstream f(file); f << "property " << property_id << "\nknown " << kn.id << "\nmessage: " << o.msg << "\n";
        printf("%s\nVIOLATION property=%s replay=%s\n", o.msg.substr(0, 3000).c_str(), property_id, file.c_str());
        violations++;
    }

    // Plan of (sub, total)
    std::vector<unsigned> total(subs().size(), 0);
    for (size_t i = 0; i < subs().size(); ++i) {
        if (!only.empty() && only != subs()[i].name) continue;
        double n = (tier == "quick" ? subs()[i].quick : subs()[i].thorough) * scale;
        total[i] = n < 1 ? 1 : (unsigned) n;
    }
    double cap = tier == "quick" ? 420 : 780;   // wall-clock stop; what was not run is reported as not run
    Stats all; std::vector<Candidate> cands; bool capped = false; uint64_t skipped = 0;

    std::vector<Shared*> shs; for (int j = 0; j < jobs; ++j) shs.push_back(map_shared());
    struct W { pid_t pid; unsigned shard; uint32_t sub, idx; int gen; uint32_t first; };
    std::vector<W> ws;
    auto launch = [&](unsigned shard, uint32_t sub0, uint32_t idx0, int gen) {
        fflush(nullptr);
        shs[shard]->sub = sub0; shs[shard]->idx = idx0; shs[shard]->state = 0;
        pid_t p = fork(); if (p < 0) { perror("fork"); exit(3); }
        if (p == 0) {
            child_limits();
            std::string log = g_tmp + "/w" + std::to_string(shard) + "." + std::to_string(gen) + ".log";
            int fd = open(log.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); dup2(fd, 2); dup2(fd, 1);
            g_sh = shs[shard];
            g_scratch = g_tmp + "/s" + std::to_string(getpid()); mkdir(g_scratch.c_str(), 0700);
            if (worker_init) worker_init();
            bool ok = true; uint64_t skip = 0; unsigned since = 0;
            for (uint32_t s = sub0; s < subs().size() && ok; ++s)
                for (uint32_t i = (s == sub0 ? idx0 : shard); i < total[s]; i += jobs) {
                    if ((++since & 15) == 0 && elapsed() > cap) { ++skip; continue; }
                    g_sh->sub = s; g_sh->idx = i;
                    Src g; setup_src(g, seed, subs()[s], i, total[s]);
                    if (!run_one(subs()[s], g, true)) { ok = false; break; }
                    if (ftruncate(fd, 0) == 0) lseek(fd, 0, SEEK_SET);
                }
            if (skip) g_stats.labels["engine:cases not run, wall-clock cap"] += skip;
            write_worker_stats(g_tmp + "/stats." + std::to_string(shard) + "." + std::to_string(gen));
            rmtree(g_scratch);
            _exit(ok ? 0 : 21);
        }
        ws.push_back({p, shard, sub0, idx0, gen, idx0});
    };
    // A failure counts when it repeats three times in fresh processes: alone (mode 1), or as the last of the
    // sequence of cases its worker ran (mode 2).
    auto confirm = [&](Candidate& c) {
        const Sub& s = subs()[c.sub];
        Src g0; setup_src(g0, seed, s, c.idx, total[c.sub]);
        Sub slow = s; slow.timeout_s = s.timeout_s * 3;
        int n = 0;
        for (; n < 3; ++n) { c.last = replay_choices(psh, slow, c.o.ch, g0.size); if (!c.last.kind) break; }
        if (n == 3) { c.mode = 1; return; }
        for (n = 0; n < 3; ++n) {
            c.last = in_child(psh, [&] {
                for (uint32_t i = c.first; i <= c.idx; i += jobs) { Src g; setup_src(g, seed, s, i, total[c.sub]); if (!run_one(s, g, false)) return false; }
                return true; });
            if (!c.last.kind) break;
        }
        if (n == 3) c.mode = 2;
    };
    for (int j = 0; j < jobs; ++j) launch(j, 0, j, 0);
    int restarts = 0;
    while (!ws.empty()) {
        int st; pid_t p = wait(&st); if (p < 0) { if (errno == EINTR) continue; break; }
        size_t k = 0; for (; k < ws.size(); ++k) if (ws[k].pid == p) break;
        if (k == ws.size()) continue;
        W w = ws[k]; ws.erase(ws.begin() + k);
        rmtree(g_tmp + "/s" + std::to_string(p));
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        Candidate c; c.shard = w.shard; c.sub = shs[w.shard]->sub; c.idx = shs[w.shard]->idx;
        c.first = (c.sub == w.sub) ? w.first : w.shard;
        finish_outcome(c.o, st, shs[w.shard], g_tmp + "/w" + std::to_string(w.shard) + "." + std::to_string(w.gen) + ".log");
        if (getenv("PBT_COLLECT")) { printf("COLLECT %s %u: %s\n", subs()[c.sub].name, c.idx, c.o.msg.substr(0, 2500).c_str()); if (++restarts < 3000) launch(w.shard, c.sub, c.idx + jobs, w.gen + 1 + restarts * 10000); continue; } // (for surveys by hand: no confirmation, no verdict)
        confirm(c);
        if (c.mode) cands.push_back(c);
        if (c.mode == 0) printf("note: %s case %u failed once but not on replay (%s); not counted\n", subs()[c.sub].name, c.idx, c.o.msg.substr(0, 600).c_str());
        // Enough evidence: stop unless asked to continue.
        if (c.mode != 0 && !keep_going) {
            for (auto& x : ws) kill(x.pid, SIGKILL);
            for (auto& x : ws) { int s2; waitpid(x.pid, &s2, 0); rmtree(g_tmp + "/s" + std::to_string(x.pid)); }
            ws.clear(); break;
        }
        if (++restarts < 200) launch(w.shard, c.sub, c.idx + jobs, w.gen + 1 + restarts * 1000);
    }
    for (DIR* d = opendir(g_tmp.c_str()); d;) {
        while (dirent* e = readdir(d)) if (strncmp(e->d_name, "stats.", 6) == 0) read_worker_stats(g_tmp + "/" + e->d_name, all);
        closedir(d); break;
    }
    double search_s = elapsed();

    std::sort(cands.begin(), cands.end(), [](const Candidate& a, const Candidate& b) { return a.sub != b.sub ? a.sub < b.sub : a.idx < b.idx; });
    unsigned shrinkRuns = 0;
    for (auto& c : cands) {
        const Sub& s = subs()[c.sub];
        Src g0; setup_src(g0, seed, s, c.idx, total[c.sub]);
        int size = g0.size;
        Sub slow = s; slow.timeout_s = s.timeout_s * 3; Outcome last = c.last;
        std::string file = rdir + "/" + property_id + "-" + s.name + "-" + std::to_string(seed) + "-" + std::to_string(c.idx) + ".replay";
        if (c.mode == 1) {
            std::vector<uint64_t> best = shrink(psh, s, last.kind == 3 ? c.o.ch : (last.ch.empty() ? c.o.ch : last.ch), size, last.kind, last.kind == 3 ? 60 : 60, shrinkRuns);
            Outcome fin = replay_choices(psh, slow, best, size);
            if (fin.kind == 0) { best = c.o.ch; fin = last; }
            std::ofstream f(file);
            f << "property " << property_id << "\nsub " << s.name << "\nseed " << seed << "\nsize " << size << "\nchoices " << best.size();
            for (uint64_t v : best) f << " " << v;
            f << "\nmessage: " << fin.msg << "\ncase: " << fin.desc << "\n";
            printf("--- %s case %u: %s\n    case: %s\n", s.name, c.idx, fin.msg.substr(0, 3000).c_str(), fin.desc.substr(0, 3000).c_str());
            printf("VIOLATION property=%s replay=%s\n", property_id, file.c_str());
            ++violations;
            continue;
        }
        {   // depends on earlier cases of the same worker
            std::ofstream f(file);
            f << "property " << property_id << "\nsub " << s.name << "\nsequence " << seed << " " << c.shard << " " << jobs << " " << c.first << " " << c.idx << " " << total[c.sub] << "\nmessage: " << last.msg << "\ncase: " << last.desc << "\n";
            printf("--- %s cases %u..%u in one process: %s\n    last case: %s\n", s.name, c.first, c.idx, last.msg.substr(0, 3000).c_str(), last.desc.substr(0, 2000).c_str());
            printf("VIOLATION property=%s replay=%s\n", property_id, file.c_str());
            ++violations;
        }
    }
    if (all.labels.count("engine:cases not run, wall-clock cap")) { capped = true; skipped = all.labels["engine:cases not run, wall-clock cap"]; }

    // Evidence
    std::string ev = verif + "/evidence"; mkdir(ev.c_str(), 0755);
    if (only.empty()) {
        std::ofstream o(ev + "/" + property_id + ".json");
        o << "{\n \"property\": \"" << property_id << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n";
        o << " \"coverage\": {\n  \"evaluations\": " << all.evals << ",\n  \"discarded\": " << all.discards << ",\n  \"distinct_nontrivial\": " << all.nontrivial.size() << ",\n";
        o << "  \"rule\": \"" << jesc(property_rule) << "\",\n  \"exhaustive\": false,\n  \"shrink_runs\": " << shrinkRuns << ",\n  \"cases_not_run\": " << skipped << ",\n";
        o << "  \"distribution\": {"; bool first = true;
        for (auto& l : all.labels) { o << (first ? "\n" : ",\n") << "   \"" << jesc(l.first) << "\": " << l.second; first = false; }
        o << "\n  },\n  \"samples\": [";
        std::sort(all.samples.begin(), all.samples.end()); std::map<std::string, int> per; first = true;
        for (auto& s : all.samples) { std::string n = s.substr(0, s.find(':')); if (per[n]++ >= 2) continue; o << (first ? "\n" : ",\n") << "   \"" << s << "\""; first = false; }
        if (first) o << "\n   \"(no sample text recorded)\"";
        o << "\n  ]\n },\n \"assumptions\": [";
        for (size_t i = 0; i < property_assumptions.size(); ++i) o << (i ? ",\n  " : "\n  ") << "\"" << jesc(property_assumptions[i]) << "\"";
        o << "\n ],\n \"violations\": " << violations << ",\n \"wall_s\": " << elapsed() << "\n}\n";
    }
    printf("%s %s seed=%llu: %llu cases, %zu distinct non-trivial, %llu discarded, search %.1fs, total %.1fs, violations %d%s\n", property_id, tier.c_str(), (unsigned long long) seed,
        (unsigned long long) all.evals, all.nontrivial.size(), (unsigned long long) all.discards, search_s, elapsed(), violations, capped ? " (wall-clock cap reached)" : "");
    if (getenv("PBT_VERBOSE")) for (auto& l : all.labels) printf("  %8llu %s\n", (unsigned long long) l.second, l.first.c_str());
    fflush(nullptr);
    return violations ? 1 : 0;
}
