// Shared declarations of the simulator (see DESIGN.md).
#ifndef SIM_H
#define SIM_H
#include <stddef.h>
#include <stdint.h>
#include <string>
#include <vector>
#include <map>

namespace sim {

// ---- allocator (alloc.cpp) ----
extern int g_in_sim;           // >0: memory comes from the simulator's own arena
struct HeapPolicy {
    uint64_t seed = 0;
    int fresh = 0;     // 0 leave, 1 0xFF, 2 0xA5, 3 pseudo-random
    int freed = 0;     // 0 leave, 1 0xDD, 2 zero, 3 pseudo-random
    int reuse = 0;     // 0 last freed first, 1 first freed first, 2 never, 3 random
    int place = 0;     // 0 ascending, 1 descending, 2 random arenas and gaps
    int64_t limit = 0; // bytes that the heap may hold
    long oom_at = 0;   // fail the n-th allocation of the run (0: never)
    long oom_count = 1;// how many allocations fail from there on
};
void heap_start_run(const HeapPolicy &p);
extern uint64_t g_allocs, g_frees, g_oom_fired, g_reused;
extern const char *g_heap_error;
extern int64_t g_live, g_peak; // bytes in the heap of the run

struct InSim {
    InSim() { ++g_in_sim; }
    ~InSim() { --g_in_sim; }
};

// ---- deterministic random numbers ----
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

// ---- shared result area: survives the death of the simulated process ----
struct Region { uint64_t used; uint64_t cap; uint64_t off; uint64_t lost; };
struct Shared {
    uint64_t magic;
    uint64_t hash;        // rolling hash of all events
    uint64_t ops;         // number of simulated operations
    uint64_t sim_ns;      // simulated time covered
    uint64_t allocs, frees, reused, oom_fired;
    uint64_t faults_fired;
    uint64_t main_returned; // 1: oclint_main returned, 2: reached exit
    int64_t main_rc;
    uint64_t note;        // bits: 1 heap error, 2 op budget exceeded, 4 escape attempt, 8 thread
    Region trace, out, err, journal, misc;
};
extern Shared *g_sh;
void shared_append(Region &r, const void *p, size_t n);

// ---- scenario ----
struct Fault { std::string op, path; long nth; std::string kind; long arg; long seen = 0; bool fired = false; };
struct Action { std::string match, type, path; long sl, sc, el, ec; std::string msg; };
struct RuleScript { std::string plugin, name, category; long priority; std::vector<Action> actions; };
struct Plugin { std::string kind, arg; bool loaded = false; };
struct Scenario {
    std::vector<std::string> argv, env;
    std::string cwd, exe;
    std::map<std::string, Plugin> plugins;
    std::vector<RuleScript> scripts;
    std::vector<Fault> faults;
    HeapPolicy heap;
    int64_t clock_ns = 1700000000LL * 1000000000LL;
    int64_t tick_ns = 1000;
    std::vector<std::pair<long, int64_t>> jumps; // nth clock query -> new time
    long max_read = 0, max_write = 0;
    int trace = 0;        // 1 events, 2 also what is held at each of them
    long op_budget = 3000000;
    int fd_limit = 0;     // descriptors that the process may hold
    uint64_t stack_seed = 0;
    long cpu_seconds = 30;
};
extern Scenario *g_sc;
extern bool g_active;

void fs_add(char type, const std::string &path, uint64_t ino, int mode, int64_t mtime, std::string data);
void fs_order(const std::string &path, std::vector<std::string> names);
void activate();          // from here on the process lives in the simulated world
void init_real();
void event(const char *op, const std::string &path, long ret, const char *extra);

// ---- plugins (plugins.cpp) ----
void register_script_rules(const std::string &plugin);
void *make_script_reporter(const std::string &name);
struct RealPlugin { void *handle; uint64_t base; uint64_t init_addr, init_size; void *create; bool done = false; };
extern std::map<std::string, RealPlugin> *g_real_plugins;

void close_at_exit();
int serve();
}
#endif
