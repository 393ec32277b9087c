// The run time behind -fsanitize=thread instrumentation for the controlled scheduler: a
// happens-before race detector with vector clocks per fibre, use-after-free detection through a
// quarantine, and scheduling points at atomic operations. Not the sanitizer's own run time (which
// knows nothing of fibres and would take every hand-over for synchronisation).
#include <cxxabi.h>
#include <dlfcn.h>
#include <malloc.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>

#include <string>

#include "fiber.hh"
#include "hb.hh"

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}

namespace {
constexpr int MAXF = 16;
using Clock = uint32_t;
struct VC {
    Clock c[MAXF];
};
VC g_vc[MAXF];
bool g_quiet[MAXF];
bool g_stacks = false;
bool g_on = false;  // within an execution that is being watched
uint32_t g_gen = 1;

// call stacks: a trie of return addresses
struct Node {
    uint32_t parent;
    uint32_t next;
    uintptr_t pc;
};
constexpr uint32_t MAXN = 1u << 20;
Node *g_nodes;
uint32_t g_nn = 1;
uint32_t *g_nhash;
constexpr uint32_t NH = 1u << 15;
uint32_t g_stack[MAXF];

uint32_t child(uint32_t p, uintptr_t pc) {
    uint32_t h = (uint32_t)((pc * 0x9e3779b97f4a7c15ull >> 32) ^ (p * 0x85ebca6bu)) & (NH - 1);
    for (uint32_t i = g_nhash[h]; i; i = g_nodes[i].next)
        if (g_nodes[i].parent == p && g_nodes[i].pc == pc) return i;
    if (g_nn >= MAXN) return p;
    uint32_t i = g_nn++;
    g_nodes[i] = {p, g_nhash[h], pc};
    g_nhash[h] = i;
    return i;
}

// shadow: per 8 bytes a few accesses
struct Access {
    uint8_t f, mask, write, freed;
    Clock clock;
    uint32_t stack;
    uint32_t pc;  // relative to this program
};
constexpr int SLOTS = 4;
struct Cell {
    uint32_t n;
    Access a[SLOTS];
};
// page table: 4 KiB of memory -> 512 numbers of cells (0: none yet), packed so that little memory
// is touched (a process that was forked pays for every page it writes)
struct Page {
    uintptr_t no;
    Page *next;
    uint32_t gen;
    uint32_t cell[512];
};
constexpr uint32_t PH = 1u << 12;
constexpr uint32_t MAXC = 1u << 22;
Page **g_pages;
Page *g_last, *g_chunk;
int g_free_pages;
Cell *g_cells;
uint32_t g_nc = 1;

extern "C" char __ehdr_start;
uint32_t pack(uintptr_t pc) { return (uint32_t)(pc - (uintptr_t)&__ehdr_start); }
uintptr_t unpack(uint32_t pc) { return (uintptr_t)&__ehdr_start + pc; }
template <class T>
T *raw(size_t n) {
    return (T *)mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
void setup() {
    if (g_pages) return;
    g_pages = raw<Page *>(PH);
    g_cells = raw<Cell>(MAXC);
    g_nodes = raw<Node>(MAXN);
    g_nhash = raw<uint32_t>(NH);
    // reference counts must be counted as if there were threads
    __libc_single_threaded = 0;
}
Cell *cell(uintptr_t a, bool create) {
    uintptr_t no = a >> 12;
    Page *p = g_last;
    if (!p || p->no != no) {
        uint32_t h = (uint32_t)(no * 0x9e3779b97f4a7c15ull >> 40) & (PH - 1);
        for (p = g_pages[h]; p; p = p->next)
            if (p->no == no) break;
        if (!p) {
            if (!create) return nullptr;
            if (!g_free_pages) g_chunk = raw<Page>(g_free_pages = 64);
            p = g_chunk + --g_free_pages;
            p->no = no;
            p->next = g_pages[h];
            g_pages[h] = p;
        }
        g_last = p;
    }
    if (p->gen != g_gen) {
        p->gen = g_gen;
        memset(p->cell, 0, sizeof p->cell);
    }
    auto &i = p->cell[(a >> 3) & 511];
    if (!i) {
        if (!create) return nullptr;
        if (g_nc == MAXC) abort();
        i = g_nc++;
        g_cells[i].n = 0;
    }
    return &g_cells[i];
}

std::string func(uintptr_t pc) {
    Dl_info i;
    if (!dladdr((void *)(pc - 1), &i) || !i.dli_sname) {
        char b[64];
        snprintf(b, sizeof b, "%p", (void *)pc);
        return b;
    }
    int st = 0;
    char *d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    std::string s = st == 0 && d ? d : i.dli_sname;
    free(d);
    char b[32];
    snprintf(b, sizeof b, "+0x%lx", (unsigned long)(pc - (uintptr_t)i.dli_saddr));
    return s + b;
}
std::string stack(uint32_t n, uintptr_t pc) {
    std::string s = "    " + func(pc) + "\n";
    for (int k = 0; n && k < 40; k++) {
        s += "    " + func(g_nodes[n].pc) + "\n";
        n = g_nodes[n].parent;
    }
    return s;
}
bool g_reporting = false;
void report(const char *what, const Access &old, int f, bool write, uintptr_t pc, uintptr_t addr) {
    if (g_reporting) return;
    g_reporting = true;
    g_on = false;
    char b[160];
    snprintf(b, sizeof b, "%s at %p\n  %s by fibre %d:\n", what, (void *)addr, write ? "write" : "read", f);
    std::string s = b + stack(g_stack[f], pc);
    snprintf(b, sizeof b, "  earlier %s by fibre %d:\n", old.freed ? "free" : old.write ? "write" : "read", old.f);
    s += b + stack(old.stack, unpack(old.pc));
    if (mcrt::hb_report) mcrt::hb_report(s);
    fprintf(stderr, "%s", s.c_str());
    _exit(3);
}

// large blocks that were freed: only their cells that exist are marked
struct Freed {
    uintptr_t a;
    size_t n;
    Access by;
};
constexpr size_t BIG = 1024;
Freed *g_freed;
size_t g_nfreed, g_cfreed;
const Access *freed_before(uintptr_t a) {
    for (size_t i = 0; i < g_nfreed; i++)
        if (a - g_freed[i].a < g_freed[i].n) return &g_freed[i].by;
    return nullptr;
}

inline void touch8(uintptr_t base, uint8_t mask, bool write, bool freed, int f, uintptr_t pc) {
    Cell *c = cell(base, true);
    if (!c->n && g_nfreed)
        if (auto *o = freed_before(base)) report(freed ? "double free" : "use after free", *o, f, write, pc, base);
    Clock now = g_vc[f].c[f];
    for (uint32_t i = 0; i < c->n; i++) {
        auto &o = c->a[i];
        if (!(o.mask & mask)) continue;
        if (o.freed) report(freed ? "double free" : "use after free", o, f, write, pc, base);
        if (o.f == f) {
            if (o.clock == now && (o.mask & mask) == mask && (o.write || !write) && !freed) return;
            continue;
        }
        if (!(write || o.write)) continue;
        if (o.clock > g_vc[f].c[o.f]) report("data race", o, f, write, pc, base);
    }
    // everything older that this access covers can go
    uint32_t k = 0;
    for (uint32_t i = 0; i < c->n; i++) {
        auto &o = c->a[i];
        bool before = o.f == f || o.clock <= g_vc[f].c[o.f];
        bool drop = freed || ((o.mask & ~mask) == 0 && before && (write || (!o.write && o.f == f)));
        if (!drop) c->a[k++] = o;
    }
    c->n = k;
    if (c->n == SLOTS) {
        memmove(&c->a[0], &c->a[1], sizeof(Access) * (SLOTS - 1));
        c->n--;
    }
    c->a[c->n++] = {(uint8_t)f, mask, write, freed, now, g_stack[f], pack(pc)};
}
inline void touch(uintptr_t a, size_t n, bool write, uintptr_t pc, bool freed = false) {
    if (!g_on || !n) return;
    int f = mcrt::current();
    if (f >= MAXF || g_quiet[f]) return;
    if (freed && n >= BIG) {
        if (auto *o = freed_before(a)) report("double free", *o, f, write, pc, a);
        for (uintptr_t b = a & ~7ull; b < a + n; b += 8)
            if (cell(b, false)) touch8(b, 0xff, write, true, f, pc);
        if (g_nfreed == g_cfreed) {
            g_cfreed = g_cfreed ? g_cfreed * 2 : 256;
            g_freed = (Freed *)__libc_realloc(g_freed, g_cfreed * sizeof(Freed));
        }
        g_freed[g_nfreed++] = {a, n, {(uint8_t)f, 0xff, 1, 1, g_vc[f].c[f], g_stack[f], pack(pc)}};
        return;
    }
    while (n) {
        uintptr_t base = a & ~7ull;
        size_t off = a - base, k = 8 - off < n ? 8 - off : n;
        touch8(base, (uint8_t)(((1u << k) - 1) << off), write, freed, f, pc);
        a += k;
        n -= k;
    }
}
void forget(uintptr_t a, size_t n) {
    if (!g_on) return;
    for (uintptr_t b = a & ~7ull; b < a + n; b += 8) {
        auto *c = cell(b, false);
        if (c) c->n = 0;
    }
}
// quarantine
struct Q {
    void **p;
    size_t n, cap;
} g_q;
void quarantine(void *p) {
    if (g_q.n == g_q.cap) {
        g_q.cap = g_q.cap ? g_q.cap * 2 : 4096;
        g_q.p = (void **)__libc_realloc(g_q.p, g_q.cap * sizeof(void *));
    }
    g_q.p[g_q.n++] = p;
}

// clocks of synchronisation objects
struct Sync {
    uintptr_t a;
    uint32_t gen;
    VC vc;
};
constexpr uint32_t SH = 1u << 11;
Sync *g_sync;
VC *sync_of(const void *p) {
    if (!g_sync) g_sync = raw<Sync>(SH);
    uintptr_t a = (uintptr_t)p;
    uint32_t h = (uint32_t)(a * 0x9e3779b97f4a7c15ull >> 40) & (SH - 1);
    for (uint32_t i = 0; i < SH; i++) {
        auto &s = g_sync[(h + i) & (SH - 1)];
        if (s.gen != g_gen) {
            s.gen = g_gen;
            s.a = a;
            memset(&s.vc, 0, sizeof s.vc);
            return &s.vc;
        }
        if (s.a == a) return &s.vc;
    }
    abort();
}
void join(VC &a, const VC &b) {
    for (int i = 0; i < MAXF; i++)
        if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
}  // namespace

namespace mcrt {
void (*hb_report)(const std::string &) = nullptr;
void hb_reset() {
    setup();
    g_on = false;
    g_gen++;
    g_nc = 1;
    g_nfreed = 0;
    memset(g_vc, 0, sizeof g_vc);
    for (int i = 0; i < MAXF; i++) {
        g_vc[i].c[i] = 1;
        g_quiet[i] = true;
        g_stack[i] = 0;
    }
    g_reporting = false;
    g_stacks = true;
}
// accesses are recorded from here on
void hb_begin() { g_on = true; }
void hb_end() {
    g_on = g_stacks = false;
    for (size_t i = 0; i < g_q.n; i++) __libc_free(g_q.p[i]);
    g_q.n = 0;
    g_nfreed = 0;
}
void hb_fork(int p, int c) {
    if (c >= MAXF || p >= MAXF) return;
    join(g_vc[c], g_vc[p]);
    g_vc[p].c[p]++;
    g_quiet[c] = g_quiet[p];
    g_stack[c] = 0;
}
void hb_join(int p, int c) {
    if (c >= MAXF || p >= MAXF) return;
    join(g_vc[p], g_vc[c]);
}
void hb_acquire(int f, const void *a) {
    if (!g_on || f >= MAXF) return;
    join(g_vc[f], *sync_of(a));
}
void hb_release(int f, const void *a) {
    if (!g_on || f >= MAXF) return;
    join(*sync_of(a), g_vc[f]);
    g_vc[f].c[f]++;
}
bool hb_quiet(bool q) {
    int f = current();
    if (f >= MAXF) return true;
    bool o = g_quiet[f];
    g_quiet[f] = q;
    return o;
}
std::string hb_where() {
    int f = current();
    if (f >= MAXF || !g_stack[f]) return "";
    std::string s;
    uint32_t n = g_stack[f];
    for (int k = 0; n && k < 30; k++) {
        auto t = func(g_nodes[n].pc);
        if (t.rfind("hgdb::", 0) == 0) {
            auto p = t.find('(');
            return p == std::string::npos ? t : t.substr(0, p);
        }
        n = g_nodes[n].parent;
    }
    return "";
}
}  // namespace mcrt

#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *pc) {
    if (!g_stacks) return;
    int f = mcrt::current();
    if (f < MAXF) g_stack[f] = child(g_stack[f], (uintptr_t)pc);
}
void __tsan_func_exit() {
    if (!g_stacks) return;
    int f = mcrt::current();
    if (f < MAXF && g_stack[f]) g_stack[f] = g_nodes[g_stack[f]].parent;
}
#define RW(n)                                                                    \
    void __tsan_read##n(void *a) { touch((uintptr_t)a, n, false, PC); }          \
    void __tsan_write##n(void *a) { touch((uintptr_t)a, n, true, PC); }          \
    void __tsan_read_write##n(void *a) { touch((uintptr_t)a, n, true, PC); }     \
    void __tsan_unaligned_read##n(void *a) { touch((uintptr_t)a, n, false, PC); } \
    void __tsan_unaligned_write##n(void *a) { touch((uintptr_t)a, n, true, PC); } \
    void __tsan_unaligned_read_write##n(void *a) { touch((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **a, void *v) {
    if (*a != v) touch((uintptr_t)a, 8, true, PC);
}
void __tsan_vptr_read(void **a) { touch((uintptr_t)a, 8, false, PC); }
void __tsan_read_range(void *a, unsigned long n) { touch((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { touch((uintptr_t)a, n, true, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
    touch((uintptr_t)s, n, false, PC);
    touch((uintptr_t)d, n, true, PC);
    return memmove(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
    touch((uintptr_t)s, n, false, PC);
    touch((uintptr_t)d, n, true, PC);
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
    touch((uintptr_t)d, n, true, PC);
    return memset(d, c, n);
}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

static void atom(const void *a, bool rd, bool wr) {
    int f = mcrt::current();
    if (rd) mcrt::hb_acquire(f, a);
    if (wr) mcrt::hb_release(f, a);
}
static void gone(const void *a, size_t n, uintptr_t pc) {
    // an atomic access to freed memory
    if (!g_on) return;
    int f = mcrt::current();
    if (f >= MAXF || g_quiet[f]) return;
    auto *c = cell((uintptr_t)a & ~7ull, false);
    if (!c) return;
    for (uint32_t i = 0; i < c->n; i++)
        if (c->a[i].freed) report("use after free", c->a[i], f, false, pc, (uintptr_t)a);
}
// reference counts are the only read-modify-write operations that are not scheduling points
#define AT(n, T)                                                                              \
    T __tsan_atomic##n##_load(const volatile T *a, int) {                                     \
        mcrt::yield_point("atomic load");                                                     \
        gone((void *)a, sizeof(T), PC);                                                       \
        atom((void *)a, true, false);                                                         \
        return *a;                                                                            \
    }                                                                                         \
    void __tsan_atomic##n##_store(volatile T *a, T v, int) {                                  \
        mcrt::yield_point("atomic store");                                                    \
        gone((void *)a, sizeof(T), PC);                                                       \
        atom((void *)a, false, true);                                                         \
        *a = v;                                                                               \
    }                                                                                         \
    T __tsan_atomic##n##_exchange(volatile T *a, T v, int) {                                  \
        mcrt::yield_point("atomic exchange");                                                 \
        gone((void *)a, sizeof(T), PC);                                                       \
        atom((void *)a, true, true);                                                          \
        T o = *a;                                                                             \
        *a = v;                                                                               \
        return o;                                                                             \
    }                                                                                         \
    T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) {                                 \
        gone((void *)a, sizeof(T), PC);                                                       \
        atom((void *)a, true, true);                                                          \
        T o = *a;                                                                             \
        *a = o + v;                                                                           \
        return o;                                                                             \
    }                                                                                         \
    T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) {                                 \
        gone((void *)a, sizeof(T), PC);                                                       \
        atom((void *)a, true, true);                                                          \
        T o = *a;                                                                             \
        *a = o - v;                                                                           \
        return o;                                                                             \
    }                                                                                         \
    T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) {                                 \
        mcrt::yield_point("atomic and");                                                      \
        atom((void *)a, true, true);                                                          \
        T o = *a;                                                                             \
        *a = o & v;                                                                           \
        return o;                                                                             \
    }                                                                                         \
    T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) {                                  \
        mcrt::yield_point("atomic or");                                                       \
        atom((void *)a, true, true);                                                          \
        T o = *a;                                                                             \
        *a = o | v;                                                                           \
        return o;                                                                             \
    }                                                                                         \
    T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) {                                 \
        mcrt::yield_point("atomic xor");                                                      \
        atom((void *)a, true, true);                                                          \
        T o = *a;                                                                             \
        *a = o ^ v;                                                                           \
        return o;                                                                             \
    }                                                                                         \
    T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int) {                                \
        mcrt::yield_point("atomic nand");                                                     \
        atom((void *)a, true, true);                                                          \
        T o = *a;                                                                             \
        *a = ~(o & v);                                                                        \
        return o;                                                                             \
    }                                                                                         \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) {      \
        mcrt::yield_point("atomic cas");                                                      \
        gone((void *)a, sizeof(T), PC);                                                       \
        T o = *a;                                                                             \
        if (o == *c) {                                                                        \
            atom((void *)a, true, true);                                                      \
            *a = v;                                                                           \
            return 1;                                                                         \
        }                                                                                     \
        atom((void *)a, true, false);                                                         \
        *c = o;                                                                               \
        return 0;                                                                             \
    }                                                                                         \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int x, int y) {    \
        return __tsan_atomic##n##_compare_exchange_strong(a, c, v, x, y);                     \
    }                                                                                         \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int x, int y) {        \
        __tsan_atomic##n##_compare_exchange_strong(a, &c, v, x, y);                           \
        return c;                                                                             \
    }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// the heap
void *malloc(size_t n) {
    void *p = __libc_malloc(n);
    if (g_on && p) forget((uintptr_t)p, malloc_usable_size(p));
    return p;
}
void *calloc(size_t a, size_t b) {
    void *p = __libc_calloc(a, b);
    if (g_on && p) forget((uintptr_t)p, malloc_usable_size(p));
    return p;
}
void free(void *p) {
    if (!p) return;
    if (g_on) {
        int f = mcrt::current();
        if (f < MAXF && !g_quiet[f]) {
            touch((uintptr_t)p, malloc_usable_size(p), true, PC, true);
            quarantine(p);
            return;
        }
    }
    __libc_free(p);
}
void *realloc(void *p, size_t n) {
    if (!g_on || !p) {
        void *q = __libc_realloc(p, n);
        return q;
    }
    void *q = malloc(n);
    size_t o = malloc_usable_size(p);
    if (q) memcpy(q, p, o < n ? o : n);
    if (q) free(p);
    return q;
}
void *memalign(size_t a, size_t n) {
    void *p = __libc_memalign(a, n);
    if (g_on && p) forget((uintptr_t)p, malloc_usable_size(p));
    return p;
}
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) {
    *r = memalign(a, n);
    return *r ? 0 : 12;
}
}

// function-local statics
int __cxxabiv1::__cxa_guard_acquire(__cxxabiv1::__guard *g) {
    auto *b = (volatile uint8_t *)g;
    if (b[0]) {
        if (mcrt::active()) mcrt::hb_acquire(mcrt::current(), g);
        return 0;
    }
    if (b[1]) {
        if (!mcrt::active()) abort();
        mcrt::block_until([b] { return b[0] || !b[1]; }, "static initialisation");
        return __cxa_guard_acquire(g);
    }
    b[1] = 1;
    return 1;
}
void __cxxabiv1::__cxa_guard_release(__cxxabiv1::__guard *g) noexcept {
    auto *b = (volatile uint8_t *)g;
    b[1] = 0;
    b[0] = 1;
    if (mcrt::active()) mcrt::hb_release(mcrt::current(), g);
}
void __cxxabiv1::__cxa_guard_abort(__cxxabiv1::__guard *g) noexcept { ((volatile uint8_t *)g)[1] = 0; }

