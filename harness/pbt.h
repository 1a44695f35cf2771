// Property-based testing engine used by every check in /verif.
//
// A case is a pure function of a list of bounded integer choices.  Fresh cases take their choices from a
// seeded generator; a failure is shrunk by editing that list (deleting spans, zeroing, minimising), each
// candidate being run in its own forked process so that sanitizer aborts, signals and hangs are ordinary
// failures.  The shrunk list is the replay file.
#ifndef PBT_H
#define PBT_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

[[noreturn]] void fail(const std::string& msg);

// Source of choices.
class Src {
public:
    // Uniform in [0, n). n >= 1.
    uint64_t below(uint64_t n);
    // Inclusive range, shrinks towards lo.
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) below((uint64_t) (hi - lo) + 1); }
    bool coin() { return below(2) == 1; }
    // True with probability num/den, shrinks to false.
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
    // Index chosen by weight; shrinks to index 0.
    size_t weighted(std::initializer_list<unsigned> w);
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <class T> T oneof(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    uint32_t u32() { return (uint32_t) below(0x100000000ull); }
    // Collection length: 0..max with geometric bias towards small lengths, scaled by the case size.
    size_t len(size_t max);
    // Number of steps of a history: uniform in 1..max scaled by the case size.
    size_t steps(size_t max) { size_t m = max * size / 100; return 1 + below(m < 2 ? 2 : m); }
    // [0,1)
    double unit() { return below(1u << 24) / (double) (1u << 24); }

    int size = 100;               // 1..100, grows over a run
    // Internals
    bool replaying = false;
    std::vector<uint64_t> in;     // replayed choices
    size_t pos = 0;
    uint64_t rng[2] = {1, 2};
    std::vector<uint64_t>* rec = nullptr;
};

// Per-case context.
class Ctx {
public:
    bool nontrivial = false;
    std::string desc;             // textual rendering of the case (for samples and violations)
    void label(const char* name); // counts one case under the label (once per case)
    void note(const std::string& s);  // appends to desc, kept even if the case crashes
};

typedef void (*CaseFn)(Src& g, Ctx& c);

struct Sub {
    const char* name;
    CaseFn fn;
    unsigned quick;      // cases in the quick tier
    unsigned thorough;   // cases in the thorough tier
    unsigned timeout_s;  // per-case hang limit
};

struct Known {
    const char* id;      // identifier in known_findings.txt
    const char* what;
    void (*fn)();        // returns normally if the finding no longer shows; fails/crashes if it does
};

struct Register {
    Register(Sub s);
    Register(Known k);
};

// Rule text for the evidence file.
extern const char* property_id;
extern const char* property_rule;
extern std::vector<const char*> property_assumptions;
// Called once in every worker before the first case.
extern void (*worker_init)();

std::string scratch_dir();   // private directory of the calling worker process, removed at the end

#define PBT_PROPERTY(id, rule) \
    namespace pbt { const char* property_id = id; const char* property_rule = rule; }
#define PBT_CASE(NAME, QUICK, THOROUGH) PBT_CASE_T(NAME, QUICK, THOROUGH, 20)
#define PBT_CASE_T(NAME, QUICK, THOROUGH, TMO) \
    static void pbt_case_##NAME(pbt::Src& g, pbt::Ctx& c); \
    static pbt::Register pbt_reg_##NAME(pbt::Sub{#NAME, pbt_case_##NAME, QUICK, THOROUGH, TMO}); \
    static void pbt_case_##NAME(pbt::Src& g, pbt::Ctx& c)
#define PBT_KNOWN(ID, WHAT) \
    static void pbt_known_##ID(); \
    static pbt::Register pbt_kreg_##ID(pbt::Known{#ID, WHAT, pbt_known_##ID}); \
    static void pbt_known_##ID()

template <class... A> std::string cat(const A&... a) { std::ostringstream o; o.precision(9); (void) std::initializer_list<int>{(o << a, 0)...}; return o.str(); }

#define CHECK(cond, ...) do { if (!(cond)) pbt::fail(pbt::cat(__VA_ARGS__ __VA_OPT__(,) " [", #cond, " at ", __FILE__, ":", __LINE__, "]")); } while (0)
#define CHECK_EQ(a, b, ...) do { auto&& va_ = (a); auto&& vb_ = (b); if (!(va_ == vb_)) pbt::fail(pbt::cat(__VA_ARGS__ __VA_OPT__(,) " [", #a, " == ", #b, ": ", va_, " vs ", vb_, " at ", __FILE__, ":", __LINE__, "]")); } while (0)

} // namespace pbt
#endif
