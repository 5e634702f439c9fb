// The host process: maps the plugins once, then for every scenario forks a child that becomes
// one simulated execution of oclint.  The parent's own state never changes between runs, so a
// run is a function of its scenario alone.
#include "sim.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

int oclint_main(int argc, const char **argv);
extern char **environ;

namespace sim {
static int g_req = 0, g_resp = 1;
static const uint64_t SH_SIZE = 1ull << 30;

static bool raw_read(void *p, size_t n) {
    char *c = (char *)p;
    while (n) {
        long k = syscall(SYS_read, g_req, c, n);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return false;
        c += k; n -= k;
    }
    return true;
}
static bool raw_write(const void *p, size_t n) {
    const char *c = (const char *)p;
    while (n) {
        long k = syscall(SYS_write, g_resp, c, n);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return false;
        c += k; n -= k;
    }
    return true;
}

struct Reader {
    const char *p, *e;
    uint32_t u32() { uint32_t v; memcpy(&v, p, 4); p += 4; return v; }
    std::string str() { uint32_t n = u32(); std::string s(p, n); p += n; return s; }
};
static long num(const std::string &s) { return strtol(s.c_str(), nullptr, 10); }

static void parse(const char *buf, size_t n) {
    g_sc = new Scenario;
    Reader r{buf, buf + n};
    while (r.p < r.e) {
        char tag = *r.p++;
        uint32_t k = r.u32();
        std::vector<std::string> f;
        for (uint32_t i = 0; i < k; i++) f.push_back(r.str());
        switch (tag) {
        case 'A': g_sc->argv = f; break;
        case 'E': g_sc->env = f; break;
        case 'C': g_sc->cwd = f[0]; break;
        case 'Q': g_sc->exe = f[0]; break;
        case 'F': fs_add('f', f[0], num(f[1]), strtol(f[2].c_str(), nullptr, 8), num(f[3]), std::move(f[4])); break;
        case 'D': fs_add('d', f[0], num(f[1]), strtol(f[2].c_str(), nullptr, 8), num(f[3]), ""); break;
        case 'L': fs_add('l', f[0], num(f[1]), 0777, 0, f[2]); break;
        case 'O': { std::string p = f[0]; f.erase(f.begin()); fs_order(p, f); break; }
        case 'P': g_sc->plugins[f[0]].kind = f[1]; g_sc->plugins[f[0]].arg = f[2]; break;
        case 'R': {
            RuleScript s; s.plugin = f[0]; s.name = f[1]; s.category = f[2]; s.priority = num(f[3]);
            for (size_t i = 4; i + 8 <= f.size(); i += 8) {
                Action a; a.match = f[i]; a.type = f[i + 1]; a.path = f[i + 2]; a.sl = num(f[i + 3]); a.sc = num(f[i + 4]);
                a.el = num(f[i + 5]); a.ec = num(f[i + 6]); a.msg = f[i + 7];
                s.actions.push_back(a);
            }
            g_sc->scripts.push_back(s);
            break;
        }
        case 'X': { Fault x; x.op = f[0]; x.path = f[1]; x.nth = num(f[2]); x.kind = f[3]; x.arg = num(f[4]); g_sc->faults.push_back(x); break; }
        case 'H': {
            HeapPolicy &h = g_sc->heap;
            h.seed = strtoull(f[0].c_str(), nullptr, 10); h.fresh = num(f[1]); h.freed = num(f[2]); h.reuse = num(f[3]);
            h.place = num(f[4]); h.oom_at = num(f[5]); h.oom_count = num(f[6]); break;
        }
        case 'T': g_sc->clock_ns = strtoll(f[0].c_str(), nullptr, 10); g_sc->tick_ns = num(f[1]); break;
        case 'J': g_sc->jumps.push_back({num(f[0]), strtoll(f[1].c_str(), nullptr, 10)}); break;
        case 'I': g_sc->max_read = num(f[0]); g_sc->max_write = num(f[1]); break;
        case 'W': g_sc->trace = num(f[0]); g_sc->op_budget = num(f[1]); g_sc->cpu_seconds = num(f[2]); g_sc->heap.limit = num(f[3]); g_sc->fd_limit = num(f[4]); break;
        case 'S': g_sc->stack_seed = strtoull(f[0].c_str(), nullptr, 10); break;
        }
    }
}

static void region(Region &r, uint64_t &off, uint64_t cap) { r.used = 0; r.lost = 0; r.cap = cap; r.off = off; off += cap; }
static void reset_shared() {
    memset(g_sh, 0, sizeof *g_sh);
    g_sh->magic = 0x51B0C1;
    g_sh->hash = 1469598103934665603ull;
    uint64_t off = 65536;
    region(g_sh->trace, off, 256ull << 20);
    region(g_sh->out, off, 192ull << 20);
    region(g_sh->err, off, 64ull << 20);
    region(g_sh->journal, off, 448ull << 20);
    region(g_sh->misc, off, 16ull << 20);
}

// Second line of defence: a system call that would touch the real world ends the run (SIGSYS)
// or fails with ENOENT (opens by libc internals).
static void sandbox() {
#define ALLOW(n) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (n), 0, 1), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)
#define FAILW(n, e) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (n), 0, 1), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ERRNO | (e))
    struct sock_filter filt[] = {
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
        ALLOW(SYS_mmap), ALLOW(SYS_munmap), ALLOW(SYS_mprotect), ALLOW(SYS_madvise), ALLOW(SYS_mremap), ALLOW(SYS_brk),
        ALLOW(SYS_exit_group), ALLOW(SYS_exit), ALLOW(SYS_futex), ALLOW(SYS_rt_sigaction), ALLOW(SYS_rt_sigprocmask),
        ALLOW(SYS_rt_sigreturn), ALLOW(SYS_sigaltstack), ALLOW(SYS_getpid), ALLOW(SYS_gettid), ALLOW(SYS_tgkill),
        ALLOW(SYS_kill), ALLOW(SYS_sched_yield), ALLOW(SYS_sched_getaffinity), ALLOW(SYS_prlimit64), ALLOW(SYS_getrlimit),
        ALLOW(SYS_getrusage), ALLOW(SYS_uname), ALLOW(SYS_write), ALLOW(SYS_getuid), ALLOW(SYS_geteuid),
        ALLOW(SYS_clock_gettime), ALLOW(SYS_gettimeofday), ALLOW(SYS_time), ALLOW(SYS_setitimer), ALLOW(SYS_rseq),
        ALLOW(SYS_set_robust_list), ALLOW(SYS_sysinfo),
        FAILW(SYS_open, ENOENT), FAILW(SYS_openat, ENOENT), FAILW(SYS_stat, ENOENT), FAILW(SYS_newfstatat, ENOENT),
        FAILW(SYS_readlink, ENOENT), FAILW(SYS_access, ENOENT), FAILW(SYS_fstat, EBADF), FAILW(SYS_lseek, EBADF),
        FAILW(SYS_read, EBADF), FAILW(SYS_close, EBADF), FAILW(SYS_ioctl, ENOTTY), FAILW(SYS_getrandom, ENOSYS),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP)};
    struct sock_fprog prog = {sizeof filt / sizeof *filt, filt};
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0) prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog);
}

static void __attribute__((noinline)) dirty_stack(uint64_t seed) {
    // fill the stack below with seeded junk: uninitialised locals become part of the seed
    const size_t N = 768 * 1024;
    volatile unsigned char *b = (volatile unsigned char *)__builtin_alloca(N);
    Rng r(seed);
    int mode = seed % 3;
    if (mode < 2) { memset((void *)b, mode == 0 ? 0xFF : 0xA5, N); __asm__ volatile("" ::"r"(b) : "memory"); return; }
    for (size_t i = 0; i < N; i++) b[i] = mode == 0 ? 0xFF : mode == 1 ? 0xA5 : (unsigned char)(r.s = r.s * 6364136223846793005ull + 1442695040888963407ull) >> 3;
}

[[noreturn]] static void child(const char *buf, size_t n) {
    const char **argv; int argc;
    {
        InSim g;
        parse(buf, n);
        clearenv();
        for (auto &e : g_sc->env) { size_t q = e.find('='); setenv(e.substr(0, q).c_str(), e.substr(q + 1).c_str(), 1); }
        argc = g_sc->argv.size();
        argv = new const char *[argc + 1];
        for (int i = 0; i < argc; i++) argv[i] = g_sc->argv[i].c_str();
        argv[argc] = nullptr;
        struct rlimit rl = {(rlim_t)g_sc->cpu_seconds, (rlim_t)g_sc->cpu_seconds + 2};
        setrlimit(RLIMIT_CPU, &rl);
        struct rlimit cl = {0, 0};
        setrlimit(RLIMIT_CORE, &cl);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        for (int s = 1; s < 32; s++) if (s != SIGKILL && s != SIGSTOP) signal(s, SIG_DFL);
        heap_start_run(g_sc->heap);
        sandbox();
        activate();
    }
#ifdef __x86_64__
    // the stack protector's random word is part of what uninitialised locals hold (nobody returns from here)
    __asm__ volatile("movq %0, %%fs:0x28" ::"r"(((g_sc->stack_seed ? g_sc->stack_seed : g_sc->heap.seed + 1) * 0x9E3779B97F4A7C15ull ^ 0x5A17C0DEull << 8) & ~0xFFull));
#endif
    dirty_stack(g_sc->stack_seed ? g_sc->stack_seed : g_sc->heap.seed * 3 + 1 + g_sc->heap.seed % 3);
    int rc = oclint_main(argc, argv);
    g_sh->main_returned = 1; g_sh->main_rc = rc;
    exit(rc);
}

static void on_exit_note(int, void *) {
    if (!g_active) return;
    close_at_exit();
    g_sh->allocs = g_allocs; g_sh->frees = g_frees; g_sh->reused = g_reused; g_sh->oom_fired = g_oom_fired;
}

static void load_real(const char *list) {
    // name \t path \t init address \t init size
    g_real_plugins = new std::map<std::string, RealPlugin>;
    FILE *f = fopen(list, "r");
    if (!f) { fprintf(stderr, "simhost: no plugin list\n"); exit(97); }
    char name[256], path[4096]; unsigned long a, s;
    while (fscanf(f, "%255s %4095s %lu %lu", name, path, &a, &s) == 4) {
        void *h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "simhost: %s\n", dlerror()); exit(97); }
        struct link_map *lm;
        dlinfo(h, RTLD_DI_LINKMAP, &lm);
        RealPlugin rp; rp.handle = h; rp.base = lm->l_addr; rp.init_addr = a; rp.init_size = s; rp.create = dlsym(h, "create");
        (*g_real_plugins)[name] = rp;
    }
    fclose(f);
}

int serve() {
    static char *buf; size_t cap = 0;
    // requests live in a mapping of their own so that the parent's heap never changes
    cap = 1ull << 30;
    buf = (char *)syscall(SYS_mmap, nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    on_exit(on_exit_note, nullptr);
    {
        uint64_t hello[2] = {0x600D600D, (uint64_t)g_real_plugins->size()};
        raw_write(hello, sizeof hello);
    }
    for (;;) {
        uint64_t len;
        if (!raw_read(&len, 8)) return 0;
        if (len > cap) return 95;
        if (!raw_read(buf, len)) return 0;
        reset_shared();
        struct timeval t0, t1;
        long pid = fork();
        if (pid == 0) child(buf, len);
        if (pid < 0) return 94;
        int st = 0; (void)t0; (void)t1;
        while (syscall(SYS_wait4, pid, &st, 0, nullptr) < 0 && errno == EINTR) {}
        uint64_t h[24] = {0x51B0C2, (uint64_t)st, g_sh->hash, g_sh->ops, g_sh->sim_ns, g_sh->allocs, g_sh->frees, g_sh->reused,
                          g_sh->oom_fired, g_sh->faults_fired, g_sh->main_returned, (uint64_t)g_sh->main_rc, g_sh->note,
                          g_sh->trace.used, g_sh->out.used, g_sh->err.used, g_sh->journal.used, g_sh->misc.used,
                          g_sh->trace.lost, g_sh->out.lost, g_sh->err.lost, g_sh->journal.lost, g_sh->misc.lost, 0};
        if (!raw_write(h, sizeof h)) return 0;
        Region *rs[] = {&g_sh->trace, &g_sh->out, &g_sh->err, &g_sh->journal, &g_sh->misc};
        for (Region *r : rs) if (!raw_write((char *)g_sh + r->off, r->used)) return 0;
        // give large result pages back
        uint64_t tot = g_sh->trace.used + g_sh->out.used + g_sh->journal.used;
        if (tot > (8u << 20)) madvise(g_sh, SH_SIZE, MADV_REMOVE);
        if (len > (8u << 20)) syscall(SYS_madvise, buf, cap, MADV_DONTNEED);
    }
}
} // namespace sim

using namespace sim;
int main(int argc, char **argv) {
    if (argc < 2) { fprintf(stderr, "usage: simhost PLUGINLIST\n"); return 97; }
    if (!getenv("SIM_CHILD")) {
        // one fixed address space layout and environment for every host
        personality(ADDR_NO_RANDOMIZE);
        // ... of which there are several: the stack limit decides where libraries are mapped, the environment where the stack starts
        static char pad[4096] = "SIM_CHILD=";
        int layout = getenv("SIM_LAYOUT") ? atoi(getenv("SIM_LAYOUT")) : 0;
        memset(pad + 10, '1', 1 + 432 * (layout % 8));
        struct rlimit sl;
        if (layout && getrlimit(RLIMIT_STACK, &sl) == 0) {
            sl.rlim_cur = (256ull << 20) + layout * (45ull << 20) + layout * 0x13000ull;
            if (sl.rlim_max != RLIM_INFINITY && sl.rlim_cur > sl.rlim_max) sl.rlim_cur = sl.rlim_max;
            setrlimit(RLIMIT_STACK, &sl);
        }
        char *env[] = {pad, (char *)"LC_ALL=C", (char *)"TZ=UTC0", nullptr};
        syscall(SYS_execve, "/proc/self/exe", argv, env);
    }
    init_real();
    // keep the pipes out of the way and the standard descriptors harmless
    g_req = syscall(SYS_fcntl, 0, F_DUPFD, 900); g_resp = syscall(SYS_fcntl, 1, F_DUPFD, 900);
    int nul = syscall(SYS_open, "/dev/null", O_RDWR, 0);
    syscall(SYS_dup2, nul, 0); syscall(SYS_dup2, nul, 1);
    syscall(SYS_close, nul);
    g_sh = (Shared *)syscall(SYS_mmap, nullptr, SH_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_sh == MAP_FAILED) { fprintf(stderr, "simhost: no shared memory\n"); return 97; }
    reset_shared();
    load_real(argv[1]);
    return serve();
}
