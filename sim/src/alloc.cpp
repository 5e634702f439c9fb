// The simulated heap: every allocation of the process under test is placed, filled and
// recycled by a seeded policy, so memory layout and memory contents are part of the seed.
#include "sim.h"
#include <errno.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim {
int g_in_sim = 0;
uint64_t g_allocs, g_frees, g_oom_fired, g_reused;
const char *g_heap_error = nullptr;
int64_t g_live, g_peak;

namespace {
struct Head { uint64_t size; uint32_t cls; uint32_t magic; };
const uint32_t LIVE = 0x51A11CE5, DEAD = 0xDEADBEA7;
struct Node { Node *next; Node *prev; };
const int NCLS = 256;
struct Arena { uint64_t base, lo, hi, end; };

Arena sim_arena, boot_arena, run_arena[16];
Node sim_free[NCLS], app_free[NCLS];
uint32_t app_free_n[NCLS];
bool inited, running;
HeapPolicy pol;
Rng *rng; alignas(16) char rng_mem[sizeof(Rng)];
volatile char lock_;

// reuse 4: the lowest free address of a class first, so that equal work gets equal addresses again.
// A pairing heap in the free blocks: next is the first child, prev the next sibling.
Node *low_free[NCLS];
Node *meld(Node *a, Node *b) {
    if (!a) return b;
    if (!b) return a;
    if (b < a) { Node *t = a; a = b; b = t; }
    b->prev = a->next; a->next = b;
    return a;
}
void low_push(int c, Node *x) { x->next = x->prev = nullptr; low_free[c] = meld(low_free[c], x); }
Node *low_pop(int c) {
    Node *x = low_free[c];
    Node *k = x->next, *pairs = nullptr;
    while (k) {
        Node *a = k, *b = k->prev;
        k = b ? b->prev : nullptr;
        a->prev = nullptr;
        if (b) b->prev = nullptr;
        a = meld(a, b);
        a->prev = pairs; pairs = a;
    }
    Node *r = nullptr;
    while (pairs) { Node *n = pairs->prev; pairs->prev = nullptr; r = meld(r, pairs); pairs = n; }
    low_free[c] = r;
    return x;
}

void lock() { while (__atomic_test_and_set(&lock_, __ATOMIC_ACQUIRE)) syscall(SYS_sched_yield); }
void unlock() { __atomic_clear(&lock_, __ATOMIC_RELEASE); }

void map_arena(Arena &a, uint64_t base, uint64_t len) {
    long r = syscall(SYS_mmap, (void *)base, len, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if ((uint64_t)r != base) {
        static const char m[] = "sim: cannot map heap arena\n";
        syscall(SYS_write, 2, m, sizeof(m) - 1);
        syscall(SYS_exit_group, 97);
    }
    a.base = a.lo = base; a.hi = a.end = base + len;
}
void list_init(Node &n) { n.next = n.prev = &n; }
void init() {
    inited = true;
    map_arena(sim_arena, 0x200000000000ull, 8ull << 30);
    map_arena(boot_arena, 0x300000000000ull, 4ull << 30);
    for (int i = 0; i < NCLS; i++) { list_init(sim_free[i]); list_init(app_free[i]); }
}
// size classes: multiples of 16 up to 1024 (64 classes), then 4 steps per power of two
int cls_of(size_t n, size_t &rounded) {
    if (n == 0) n = 1;
    if (n <= 1024) { int c = (n + 15) / 16 - 1; rounded = (c + 1) * 16; return c; }
    int c = 64; size_t b = 1024;
    for (;;) {
        for (int k = 1; k <= 4; k++, c++) {
            size_t s = b + b / 4 * k;
            if (n <= s) { rounded = s; return c; }
        }
        b *= 2;
        if (c >= NCLS - 4) { rounded = (n + 4095) & ~4095ull; return NCLS - 1; }
    }
}
void fill(void *p, size_t n, int mode) {
    switch (mode) {
    case 1: memset(p, 0xFF, n); break;
    case 2: memset(p, 0xA5, n); break;
    case 3: { uint64_t v = rng->next(); uint64_t *q = (uint64_t *)p; size_t k = n / 8;
              for (size_t i = 0; i < k; i++) { q[i] = v; v = v * 6364136223846793005ull + 1442695040888963407ull; } break; }
    case 4: memset(p, 0xDD, n); break;
    case 5: memset(p, 0, n); break;
    default: break;
    }
}
void die(const char *what) {
    g_heap_error = what;
    if (g_sh) { g_sh->note |= 1; shared_append(g_sh->misc, what, strlen(what)); }
    syscall(SYS_tgkill, getpid(), syscall(SYS_gettid), 6);
    syscall(SYS_exit_group, 98);
}
void *bump(Arena &a, size_t rounded, size_t align, bool down, size_t gap) {
    if (align < 16) align = 16;
    if (!down) {
        uint64_t p = (a.lo + gap + 16 + align - 1) & ~(uint64_t)(align - 1);
        if (p + rounded > a.hi) return nullptr;
        a.lo = p + rounded;
        return (void *)p;
    }
    uint64_t p = (a.hi - gap - rounded) & ~(uint64_t)(align - 1);
    if (p < a.lo + 16 || p > a.hi) return nullptr;
    a.hi = p - 16;
    return (void *)p;
}
// a run that has spent its share of fresh memory recycles after all
uint64_t g_bumped = 0;
bool never_reuse() { return pol.reuse == 2 && g_bumped < (1ull << 30); }
void *get(size_t n, size_t align) {
    if (!inited) init();
    if (n > (1ull << 33)) return nullptr;
    size_t rounded; int c = cls_of(n, rounded);
    void *p = nullptr; bool reused = false;
    if (g_in_sim) {
        Node &f = sim_free[c];
        if (f.next != &f && align <= 16 && c != NCLS - 1) {
            Node *x = f.next; x->prev->next = x->next; x->next->prev = x->prev; p = x;
        } else p = bump(sim_arena, rounded, align, false, 0);
    } else {
        Node &f = app_free[c];
        if (running) {
            ++g_allocs;
            if (pol.limit && g_live + (int64_t)rounded > pol.limit) { ++g_oom_fired; return nullptr; }
            if (pol.oom_at && (long)g_allocs >= pol.oom_at && (long)g_allocs < pol.oom_at + pol.oom_count) {
                ++g_oom_fired;
                return nullptr;
            }
        }
        if (running && pol.reuse == 4) {
            if (low_free[c] && align <= 16 && c != NCLS - 1) { p = low_pop(c); reused = true; ++g_reused; }
        } else if (f.next != &f && align <= 16 && c != NCLS - 1 && (!running || !never_reuse())) {
            Node *x = f.next;
            if (running) {
                if (pol.reuse == 1) x = f.prev;
                else if (pol.reuse == 3) {
                    uint64_t k = rng->below(app_free_n[c] < 8 ? app_free_n[c] : 8);
                    if (rng->below(4) == 0) x = nullptr;
                    else while (k--) x = x->next;
                }
            }
            if (x) { x->prev->next = x->next; x->next->prev = x->prev; app_free_n[c]--; p = x; reused = true; if (running) ++g_reused; }
        }
        if (!p) {
            if (running) g_bumped += rounded;
            if (!running) p = bump(boot_arena, rounded, align, false, 0);
            else if (pol.place == 0) p = bump(run_arena[0], rounded, align, false, 0);
            else if (pol.place == 1) p = bump(run_arena[0], rounded, align, true, 0);
            else { uint64_t r = rng->next(); p = bump(run_arena[r & 15], rounded, align, (r >> 4) & 1, ((r >> 8) & 15) * 16); }
        }
    }
    if (!p) return nullptr;
    Head *h = (Head *)p - 1;
    h->size = rounded; h->cls = c; h->magic = LIVE;
    if (!g_in_sim && running) { g_live += rounded; if (g_live > g_peak) g_peak = g_live; }
    if (!g_in_sim && running && pol.fresh) fill(p, rounded, pol.fresh);
    (void)reused;
    return p;
}
void put(void *p) {
    if (!p) return;
    Head *h = (Head *)p - 1;
    uint64_t a = (uint64_t)p;
    bool is_sim = a >= sim_arena.base && a < sim_arena.end;
    bool known = is_sim || (a >= boot_arena.base && a < boot_arena.end) ||
                 (running && a >= run_arena[0].base && a < run_arena[15].end);
    if (!known) { unlock(); die("free of a pointer that is no allocation"); }
    if (h->magic != LIVE) { unlock(); die(h->magic == DEAD ? "double free" : "free of a corrupted or invalid block"); }
    h->magic = DEAD;
    if (!is_sim && running) {
        ++g_frees;
        g_live -= h->size;
        if (pol.freed == 1) fill(p, h->size, 4);
        else if (pol.freed == 2) fill(p, h->size, 5);
        else if (pol.freed == 3) fill(p, h->size, 3);
        if (never_reuse()) return;
    }
    if (h->cls == NCLS - 1) return;
    Node *x = (Node *)p;
    if (!is_sim && running && pol.reuse == 4) { low_push(h->cls, x); return; }
    Node &f = is_sim ? sim_free[h->cls] : app_free[h->cls];
    if (!is_sim) app_free_n[h->cls]++;
    x->next = f.next; x->prev = &f; f.next->prev = x; f.next = x;
}
} // namespace

void heap_start_run(const HeapPolicy &p) {
    pol = p;
    rng = new (rng_mem) Rng(p.seed ^ 0xA110C);
    // 16 arenas, 8 GB apart, at a seeded base
    uint64_t base = 0x400000000000ull + (p.place == 2 ? (rng->next() & 0xff) << 32 : 0);
    for (int i = 0; i < 16; i++) map_arena(run_arena[i], base + ((uint64_t)i << 33), 4ull << 30);
    g_bumped = 0;
    g_allocs = g_frees = g_oom_fired = g_reused = 0;
    running = true;
    if (p.reuse == 4)
        for (int c = 0; c < NCLS; c++) {
            low_free[c] = nullptr;
            for (Node *x = app_free[c].next; x != &app_free[c];) { Node *n = x->next; low_push(c, x); x = n; }
        }
}
} // namespace sim

using namespace sim;
#define EXP extern "C" __attribute__((visibility("default")))
EXP void *malloc(size_t n) { lock(); void *p = get(n, 16); unlock(); if (!p) errno = ENOMEM; return p; }
EXP void free(void *p) { int e = errno; lock(); put(p); unlock(); errno = e; }
EXP void *calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void *p = malloc(n);
    if (p) memset(p, 0, n);
    return p;
}
EXP void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    if (n == 0) { free(p); return nullptr; }
    Head *h = (Head *)p - 1;
    if (h->magic != LIVE) die("realloc of a freed or invalid block");
    size_t rounded; int c = cls_of(n, rounded);
    if (c == (int)h->cls && c != NCLS - 1) return p;
    void *q = malloc(n);
    if (!q) return nullptr;
    memcpy(q, p, h->size < n ? h->size : n);
    free(p);
    return q;
}
EXP void *reallocarray(void *p, size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    return realloc(p, n);
}
EXP void *memalign(size_t al, size_t n) { lock(); void *p = get(n, al); unlock(); if (!p) errno = ENOMEM; return p; }
EXP void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXP int posix_memalign(void **r, size_t al, size_t n) { void *p = memalign(al, n); if (!p) return ENOMEM; *r = p; return 0; }
EXP void *valloc(size_t n) { return memalign(4096, n); }
EXP void *pvalloc(size_t n) { return memalign(4096, (n + 4095) & ~4095ull); }
EXP size_t malloc_usable_size(void *p) { return p ? ((Head *)p - 1)->size : 0; }
EXP int malloc_trim(size_t) { return 0; }
