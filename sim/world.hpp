// The simulated machine under the library: memory with guard pages, heap with a ledger and fault
// injection, CPU identification, stdio, clocks, and the baton scheduler for caller threads.
#pragma once
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <cpuid.h>
#include <unistd.h>
#include <vector>
#include "plan.hpp"

// ---- result shared with the parent ---------------------------------------------------------------
enum
{
    K_calls, K_delivered, K_tiles, K_short, K_failed, K_afail, K_afail_create, K_bad, K_badcreate, K_key, K_keyfail, K_keycut,
    K_crash, K_msglost, K_join, K_resume, K_diff, K_orig, K_alpha_raw, K_alpha_rle, K_abstain, K_probe, K_stdoutfail, K_noise,
    K_switch, K_switch_shared, K_steps, K_hosts, K_hdr, K_compcall, K_haul, K_destroy, K_create, K_coefs, K_alphapx, K_simms,
    K_overcap, K_hetero, K_i386, K_alloc, K_boundary, K_toomany, K_manytiles, K_recycled, K_otherflag, K_grid, K_asmstep, K_costcmp, K_unchanged, K_farpic, K_bulk, K_churn, K_N
};
static const char *const k_names[K_N] =
{
    "calls", "messages_delivered", "tiles_delivered", "short_results", "failed_calls", "alloc_faults_fired", "alloc_faults_fired_in_create", "invalid_requests", "invalid_creates", "key_frames", "key_frames_failed", "key_frames_cut_short",
    "client_crashes", "messages_lost_in_flight", "clients_joined", "resumed_calls", "difference_tiles", "original_tiles", "alpha_raw", "alpha_packed", "abstained_tiles", "probes", "stdout_failures", "interfering_handle_ops",
    "thread_switches", "thread_switches_at_shared_data", "thread_steps", "host_runs", "headers_seen", "component_calls", "long_haul_calls", "handles_destroyed", "handles_created", "coefficients_checked", "alpha_pixels_checked", "simulated_ms",
    "capacity_faults", "handles_in_parallel", "i386_calls", "allocations", "exact_boundary_calls", "uncountable_requests", "calls_for_more_than_65535_tiles", "recycled_allocations", "flags_of_the_other_mode", "large_grid_frames", "assembly_instructions_stepped", "tiles_with_known_history", "unchanged_tiles_sent", "pictures_beyond_96_MiB", "messages_beyond_16_MiB", "handles_come_and_gone_before"
};

struct Viol { char cls[12]; int op, att; char msg[400]; };
struct Rec { int op, att, ret, n; uint64_t h; };
enum { MAXREC = 30000, MAXSIT = 4096, MAXSL = 60000 };
struct Res
{
    int nviol; Viol v[4];
    int nforeign; Viol f;
    int nrec; Rec rec[MAXREC];
    int nsit; uint64_t sit[MAXSIT];
    int nsl; Slice sl[MAXSL];
    int32_t nrecdrop;
    uint64_t hash;
    long k[K_N];
    int done;
    int curop, curatt;
    // probe answer
    int p_ret, p_n, p_ntiles, p_least; int p_off[4100][5];
};
static Res *R;
static std::string g_filter;          // " cls cls " that count for the property under check
static bool g_collect;                // record everything, stop at nothing

static uint64_t fnv(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull)
{
    const uint8_t *b = (const uint8_t *) p;
    while (n >= 8) { uint64_t w; memcpy(&w, b, 8); h = (h ^ w) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; b += 8; n -= 8; }
    while (n--) h = (h ^ *b++) * 0x100000001b3ull;
    return h;
}
static void trace(int op, int att, int ret, int n, uint64_t h)
{
    if (R->nrec < MAXREC) R->rec[R->nrec++] = Rec{ op, att, ret, n, h }; else R->nrecdrop++;
    Rec r{ op, att, ret, n, h };
    R->hash = fnv(&r, sizeof(r), R->hash);
}
static void situation(uint64_t s)
{
    for (int i = 0; i < R->nsit; i++) if (R->sit[i] == s) return;
    if (R->nsit < MAXSIT) R->sit[R->nsit++] = s;
}
static bool counts(const char *cls) { return g_filter.find(std::string(" ") + cls + " ") != std::string::npos; }
enum { X_FINE = 0, X_VIOL = 10, X_STOP = 11, X_SIG = 12 };
// returns if the class does not matter for this property
static void violate(const char *cls, const char *fmt, ...)
{
    Viol v; memset(&v, 0, sizeof(v));
    snprintf(v.cls, sizeof(v.cls), "%s", cls);
    v.op = R->curop; v.att = R->curatt;
    va_list ap; va_start(ap, fmt); vsnprintf(v.msg, sizeof(v.msg), fmt, ap); va_end(ap);
    if (!counts(cls)) { if (!R->nforeign++) R->f = v; return; }
    if (R->nviol < 4) R->v[R->nviol++] = v;
    if (!g_collect) _exit(X_VIOL);
}

// ---- address space ---------------------------------------------------------------------------------
static const size_t PG = 4096;
static uintptr_t g_slot0 = 0x100000000000ull; static uintptr_t g_slotsz = 0x001000000000ull; static int g_slotn = 6;   // per caller thread
static const size_t OUT_SZ = 32u << 20, IMG_SZ = 96u << 20, REQ_SZ = 4u << 20, GRD = 1u << 20;
static uintptr_t g_heap0 = 0x200000000000ull; static size_t g_heapsz = 1ull << 36;
struct Slot
{
    uint8_t *out, *img, *req[4];
    uint8_t *img_lo = nullptr, *img_hi = nullptr;
    uint8_t *cur_out = nullptr; int cur_cap = 0;
};
static Slot g_slot[6];
static void must(bool ok, const char *what) { if (!ok) { fprintf(stderr, "rfxsim: %s: %s\n", what, strerror(errno)); _exit(99); } }
static void *reserve(uintptr_t a, size_t n, int prot)
{
    void *p = mmap((void *) a, n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    must(p == (void *) a, "mmap");
    return p;
}
// a buffer of nearly 2 GiB, mapped when first asked for (not on the 32-bit hosts: their address space is full)
static const size_t HUGE_SZ = 0x80000000u;
static uint8_t *huge_out(int slot)
{
    if (g_slotsz < 0x1000000000ull) return nullptr;
    static std::map<int, uint8_t *> m;
    auto it = m.find(slot);
    if (it != m.end()) { madvise(it->second, HUGE_SZ, MADV_DONTNEED); return it->second; }
    uintptr_t a = g_slot0 + slot * g_slotsz + 0x400000000ull;
    void *p = mmap((void *) a, HUGE_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *) a) return nullptr;
    return m[slot] = (uint8_t *) p;
}
// likewise a picture of up to 2 GiB of which only the requested tiles are accessible
static uint8_t *far_img(int slot)
{
    if (g_slotsz < 0x1000000000ull) return nullptr;
    static std::map<int, uint8_t *> m;
    auto it = m.find(slot);
    if (it != m.end()) return it->second;
    uintptr_t a = g_slot0 + slot * g_slotsz + 0x600000000ull;
    void *p = mmap((void *) a, HUGE_SZ, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *) a) return nullptr;
    return m[slot] = (uint8_t *) p;
}
static void world_init(int slots)
{
    for (int s = 0; s < slots; s++)
    {
        uintptr_t b = g_slot0 + s * g_slotsz;
        reserve(b, GRD, PROT_NONE);
        g_slot[s].out = (uint8_t *) reserve(b + GRD, OUT_SZ, PROT_READ | PROT_WRITE);
        reserve(b + GRD + OUT_SZ, GRD, PROT_NONE);
        uintptr_t c = b + 2 * GRD + OUT_SZ;
        g_slot[s].img = (uint8_t *) reserve(c, IMG_SZ, PROT_NONE);
        reserve(c + IMG_SZ, GRD, PROT_NONE);
        uintptr_t d = c + IMG_SZ + GRD;
        for (int i = 0; i < 4; i++)
        {
            g_slot[s].req[i] = (uint8_t *) reserve(d, REQ_SZ, PROT_READ | PROT_WRITE);
            reserve(d + REQ_SZ, GRD, PROT_NONE);
            d += REQ_SZ + GRD;
        }
    }
    reserve(g_heap0, g_heapsz, PROT_NONE);
}
static std::string where(uintptr_t a)
{
    char b[200];
    if (a >= g_heap0 && a < g_heap0 + g_heapsz) return "";   // filled in by the heap
    for (int s = 0; s < g_slotn; s++)
    {
        uintptr_t base = g_slot0 + s * g_slotsz;
        if (a < base || a >= base + g_slotsz) continue;
        Slot &S = g_slot[s];
        if (a >= base && a < base + 2 * GRD + OUT_SZ) { snprintf(b, sizeof(b), "offset %ld of the output buffer of %d bytes", (long) (a - (uintptr_t) S.cur_out), S.cur_cap); return b; }
        if ((a >= (uintptr_t) S.img - GRD && a < (uintptr_t) S.img + IMG_SZ + GRD) || (a >= (uintptr_t) S.img_lo - GRD && a < (uintptr_t) S.img_hi + GRD)) { snprintf(b, sizeof(b), "picture memory, offset %ld (picture is %ld bytes; tiles not requested are inaccessible)", (long) (a - (uintptr_t) S.img_lo), (long) (S.img_hi - S.img_lo)); return b; }
        return "request arrays (tiles, regions, quantisers)";
    }
    snprintf(b, sizeof(b), "address %#lx", (unsigned long) a);
    return b;
}

// ---- heap ----------------------------------------------------------------------------------------------
struct Blk { uint8_t *p; size_t n, pages; uint8_t *base; int owner; int state; int thread; };   // state 1 live 2 freed
static std::vector<Blk> *g_blk;
static std::vector<uint16_t> *g_owner_pg;     // page -> block index + 1 (low 16 bits), for the thread scheduler
static uintptr_t g_brk;
static int g_hfill = 0x5a, g_hoff = 0, g_hreuse = 0, g_halign = 16, g_envv = 0;
static std::map<size_t, std::vector<uint8_t *>> *g_recycle;   // freed runs of pages by length, last freed first out
static int g_stdout_fail = 0; static long g_clock = 1000000; static uint64_t g_randstate = 1;
struct CallCtx { int owner = -1; int af = 0; int nalloc = 0; int fired = 0; int thread = 0; };
static thread_local CallCtx t_ctx;
static void *volatile g_keep;

static void *heap_alloc(size_t n, bool zero, size_t align)
{
    R->k[K_alloc]++;
    t_ctx.nalloc++;
    if (t_ctx.af == -1 || (t_ctx.af > 0 && t_ctx.nalloc == t_ctx.af)) { t_ctx.fired++; R->k[K_afail]++; errno = ENOMEM; return nullptr; }
    if (n > (1u << 30)) { errno = ENOMEM; return nullptr; }
    bool odd = align == 0 && g_halign == 8;   // every block at an odd multiple of 8
    if (align < 16) align = 16;
    size_t pages = (n + align + 64 + PG - 1) / PG;
    uint8_t *base = nullptr; bool stale = false;
    if (g_hreuse && g_recycle) { auto &v = (*g_recycle)[pages]; if (!v.empty()) { base = v.back(); v.pop_back(); stale = true; R->k[K_recycled]++; } }
    if (!base) { base = (uint8_t *) g_brk; g_brk += (pages + 1) * PG; }
    if (g_brk >= g_heap0 + g_heapsz) { fprintf(stderr, "rfxsim: heap arena exhausted\n"); _exit(99); }
    must(mprotect(base, pages * PG, PROT_READ | PROT_WRITE) == 0, "mprotect");
    uint8_t *end = base + pages * PG;
    uint8_t *p = (uint8_t *) (((uintptr_t) end - n) & ~(uintptr_t) (align - 1));
    if (g_hoff) { uint8_t *q = base + 64; q = (uint8_t *) (((uintptr_t) q + align - 1) & ~(uintptr_t) (align - 1)); if (q + n <= end) p = q; }
    if (odd) { if (p + 8 + n <= end) p += 8; else p -= 8; }
    memset(base, 0xC7, p - base);
    memset(p + n, 0xC7, end - (p + n));
    if (zero) memset(p, 0, n); else if (!stale) memset(p, g_hfill, n);   // recycled memory keeps what its last owner left
    g_blk->push_back(Blk{ p, n, pages, base, t_ctx.owner, 1, t_ctx.thread });
    size_t pi = ((uintptr_t) base - g_heap0) / PG;
    if (g_owner_pg) { if (g_owner_pg->size() < pi + pages + 2) g_owner_pg->resize(pi + pages + 2); for (size_t i = 0; i < pages; i++) (*g_owner_pg)[pi + i] = (uint16_t) g_blk->size(); }
    return p;
}
static Blk *heap_find(void *p) { for (size_t i = g_blk->size(); i-- > 0;) if ((*g_blk)[i].p == p) return &(*g_blk)[i]; return nullptr; }
static bool heap_check(const Blk &b)
{
    uint8_t *end = b.base + b.pages * PG;
    for (uint8_t *q = b.base; q < b.p; q++) if (*q != 0xC7) { violate("heap", "byte %ld before a heap block of %zu bytes was overwritten", (long) (b.p - q), b.n); return false; }
    for (uint8_t *q = b.p + b.n; q < end; q++) if (*q != 0xC7) { violate("heap", "byte %ld of a heap block of %zu bytes was overwritten", (long) (q - b.p), b.n); return false; }
    return true;
}
static void heap_free(void *p)
{
    if (!p) return;
    Blk *b = heap_find(p);
    if (!b) { violate("heap", "free of something that was never allocated"); _exit(X_STOP); }
    if (b->state == 2) { violate("heap", "double free of a block of %zu bytes", b->n); return; }
    heap_check(*b);
    b->state = 2;
    if (g_hreuse) { if (!g_recycle) g_recycle = new std::map<size_t, std::vector<uint8_t *>>(); (*g_recycle)[b->pages].push_back(b->base); }
    else madvise(b->base, b->pages * PG, MADV_DONTNEED);
    must(mprotect(b->base, b->pages * PG, PROT_NONE) == 0, "mprotect");
    // keep the ledger short: forget old freed blocks beyond a window, remember only their addresses as freed
    if (g_blk->size() > 20000)
    {
        std::vector<Blk> n; int freed = 0;
        for (size_t i = g_blk->size(); i-- > 0;) { Blk &x = (*g_blk)[i]; if (x.state == 1 || freed++ < 2000) n.push_back(x); }
        std::vector<Blk> m(n.rbegin(), n.rend()); g_blk->swap(m);
    }
}
static long heap_live(int owner, long *bytes)
{
    long n = 0, b = 0;
    for (auto &x : *g_blk) if (x.state == 1 && (owner == -2 || x.owner == owner)) { n++; b += x.n; }
    if (bytes) *bytes = b;
    return n;
}
static std::string heap_where(uintptr_t a)
{
    char s[200];
    for (size_t i = g_blk->size(); i-- > 0;)
    {
        const Blk &b = (*g_blk)[i];
        if (a < (uintptr_t) b.base || a >= (uintptr_t) b.base + (b.pages + 1) * PG) continue;
        snprintf(s, sizeof(s), "offset %ld of a %s heap block of %zu bytes", (long) (a - (uintptr_t) b.p), b.state == 1 ? "live" : "freed", b.n);
        return s;
    }
    return "heap memory not owned by any block";
}

// ---- CPU -----------------------------------------------------------------------------------------------
static int g_cpu = 2;      // 2: SSE4.1 and more, 1: no SSE4.1, 0: no SIMD reported
static int g_cpumodel = 0; // which other features a CPU of that level reports

// ---- baton scheduler -------------------------------------------------------------------------------------
struct Baton
{
    bool on = false;
    int n = 0, cur = 0;
    sem_t sem[6]; bool fin[6];
    long steps = 0, slice_start = 0, next = 0, limit = 0;
    std::vector<Slice> plan; size_t pi = 0; bool replay = false;
    Rng rng{ 1 }; int mode = 0; double mean = 1000, pshared = 0.2; long maxsw = 20000;
    bool in_lib[6] = { false, false, false, false, false, false };
};
static Baton B;
extern "C" { volatile char sim_astep = 0; extern char __start_v3asm[], __stop_v3asm[]; }   // single-step the assembly of the instrumented build
extern "C" { extern char __start_v3data[], __stop_v3data[], __start_v3bss[], __stop_v3bss[]; }

static void bt_record()
{
    long n = B.steps - B.slice_start;
    if (R->nsl < MAXSL) R->sl[R->nsl++] = Slice{ B.cur, n };
    B.slice_start = B.steps;
}
static int bt_pick()
{
    // which unfinished thread runs next, and for how long
    if (B.replay)
    {
        while (B.pi < B.plan.size())
        {
            Slice s = B.plan[B.pi++];
            if (s.t < B.n && !B.fin[s.t]) { B.next = B.steps + (s.n > 0 ? s.n : 1); return s.t; }
        }
        B.next = 1L << 60;
        for (int i = 0; i < B.n; i++) if (!B.fin[i]) return i;
        return -1;
    }
    int alive[6], na = 0;
    for (int i = 0; i < B.n; i++) if (!B.fin[i]) alive[na++] = i;
    if (!na) return -1;
    int t = alive[B.rng.below(na)];
    if (na > 1 && t == B.cur) t = alive[(B.rng.below(na - 1) + 1 + (int) (std::find(alive, alive + na, B.cur) - alive)) % na];
    double u = ((B.rng.next() >> 11) + 1) * (1.0 / 9007199254740993.0);
    long len = 1 + (long) (-B.mean * __builtin_log(u));
    if (R->k[K_switch] >= B.maxsw) len = 1L << 50;
    B.next = B.steps + len;
    return t;
}
static void bt_switch(int me, bool finished)
{
    bt_record();
    if (finished) B.fin[me] = true;
    int t = bt_pick();
    if (t < 0) return;
    if (t == me) return;
    R->k[K_switch]++;
    R->hash = fnv(&B.steps, sizeof(B.steps), R->hash * 31 + t);
    B.cur = t;
    sem_post(&B.sem[t]);
    if (!finished) while (sem_wait(&B.sem[me]) != 0) {}
}
static thread_local int t_me = -1;
static inline void bt_step(bool shared)
{
    if (!B.on || t_me < 0) return;
    B.steps++;
    if (shared && !B.replay && R->k[K_switch] < B.maxsw && B.rng.p(B.pshared)) { R->k[K_switch_shared]++; B.next = B.steps; }
    if (B.steps >= B.next) bt_switch(t_me, false);
    if (B.steps > B.limit) { violate("hang", "threads made no progress within %ld steps", B.limit); _exit(X_STOP); }
}
static inline bool bt_shared(uintptr_t a)
{
    if ((a >= (uintptr_t) __start_v3data && a < (uintptr_t) __stop_v3data) || (a >= (uintptr_t) __start_v3bss && a < (uintptr_t) __stop_v3bss)) return true;
    if (a >= g_heap0 && a < g_heap0 + g_heapsz && g_owner_pg)
    {
        size_t pi = (a - g_heap0) / PG;
        if (pi < g_owner_pg->size() && (*g_owner_pg)[pi]) return (*g_blk)[(*g_owner_pg)[pi] - 1].thread != t_me;
    }
    return false;
}
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { for (; a < b; a++) if (!*a) *a = 1; }
void __sanitizer_cov_trace_pc_guard(uint32_t *) { bt_step(false); }
#define LS(n) void __sanitizer_cov_load##n(void *a) { if (B.on) bt_step(bt_shared((uintptr_t) a)); } \
              void __sanitizer_cov_store##n(void *a) { if (B.on) bt_step(bt_shared((uintptr_t) a)); }
LS(1) LS(2) LS(4) LS(8) LS(16)

// ---- the seams: what the library links against ---------------------------------------------------------------
void *sim_malloc(size_t n) { return heap_alloc(n, false, 0); }
void *sim_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return heap_alloc(n, true, 0); }
void sim_free(void *p) { heap_free(p); }
void *sim_realloc(void *p, size_t n)
{
    if (!p) return heap_alloc(n, false, 0);
    Blk *b = heap_find(p);
    if (!b || b->state != 1) { violate("heap", "realloc of a block that is not live"); _exit(X_STOP); }
    size_t old = b->n;
    void *q = heap_alloc(n, false, 0);
    if (!q) return nullptr;
    memcpy(q, p, old < n ? old : n);
    heap_free(p);
    return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; return sim_realloc(p, n); }
int sim_posix_memalign(void **o, size_t al, size_t n) { void *p = heap_alloc(n, false, al); if (!p) return ENOMEM; *o = p; return 0; }
void *sim_aligned_alloc(size_t al, size_t n) { return heap_alloc(n, false, al); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *) heap_alloc(n, false, 0); if (p) memcpy(p, s, n); return p; }
static int out_result(int n) { if (g_stdout_fail) { R->k[K_stdoutfail]++; errno = EIO; return -1; } return n; }
int sim_printf(const char *f, ...) { (void) f; return out_result(1); }
int sim_puts(const char *) { return out_result(1); }
int sim_putchar(int c) { int r = out_result(c); return r; }
int sim_fprintf(void *, const char *, ...) { return out_result(1); }
int sim_vprintf(const char *, va_list) { return out_result(1); }
int sim_vfprintf(void *, const char *, va_list) { return out_result(1); }
size_t sim_fwrite(const void *, size_t, size_t n, void *) { return out_result(1) < 0 ? 0 : n; }
int sim_fputs(const char *, void *) { return out_result(1); }
int sim_fputc(int c, void *) { return out_result(c); }
int sim_fflush(void *) { return out_result(0); }
long sim_time(long *t) { g_clock += 1; if (t) *t = g_clock; return g_clock; }
long sim_clock(void) { g_clock += 17; return g_clock; }
int sim_gettimeofday(struct timeval *tv, void *) { g_clock += 3; tv->tv_sec = g_clock; tv->tv_usec = g_clock % 1000000; return 0; }
int sim_clock_gettime(int, struct timespec *ts) { g_clock += 3; ts->tv_sec = g_clock; ts->tv_nsec = g_clock % 1000000000; return 0; }
int sim_rand(void) { g_randstate = mix(g_randstate, 5); return (int) (g_randstate & 0x7fffffff); }
long sim_random(void) { return sim_rand(); }
void sim_srand(unsigned) {}
char *sim_getenv(const char *) { static char v[3][5] = { "1", "0", "junk" }; return g_envv ? v[g_envv - 1] : nullptr; }
// synchronisation, should the library ever use it: cooperative under the baton
int sim_mutex_init(void *m, const void *) { memset(m, 0, sizeof(pthread_mutex_t)); return 0; }
int sim_mutex_destroy(void *) { return 0; }
int sim_mutex_lock(void *m) { int *v = (int *) m; while (*v) { if (!B.on) { violate("hang", "deadlock: mutex locked twice"); _exit(X_STOP); } B.next = B.steps; bt_step(false); } *v = 1; return 0; }
int sim_mutex_trylock(void *m) { int *v = (int *) m; bt_step(true); if (*v) return EBUSY; *v = 1; return 0; }
int sim_mutex_unlock(void *m) { *(int *) m = 0; bt_step(true); return 0; }
int sim_once(void *o, void (*f)(void))
{
    int *v = (int *) o;
    if (*v == 2) return 0;
    while (*v == 1) { B.next = B.steps; bt_step(false); }
    if (*v == 0) { *v = 1; f(); *v = 2; }
    return 0;
}
int sim_cpuid(int leaf, int sub, int *a, int *b, int *c, int *d)
{
    int r = 0;
    __cpuid_count(leaf, sub, *a, *b, *c, *d);
    const int SSE3 = 1 << 0, SSSE3 = 1 << 9, SSE41 = 1 << 19, SSE42 = 1 << 20, POPCNT = 1 << 23, AVX = 1 << 28, LZCNT = 1 << 5, SSE4A = 1 << 6;
    int m = g_cpumodel & 3;
    if (leaf == 1 && g_cpu == 2 && m == 1) *c &= ~(SSE42 | POPCNT | AVX);                        // a first-generation SSE4.1 CPU
    if (leaf == 1 && g_cpu == 2 && m == 2) *c &= ~AVX;
    if (leaf == 1 && g_cpu < 2)
    {
        *c &= ~(SSE3 | SSSE3 | SSE41 | SSE42 | POPCNT | AVX);
        if (g_cpu == 1 && m >= 1) *c |= SSE3;                                                    // SSE3 without SSE4.1
        if (g_cpu == 1 && m == 2) *c |= SSSE3;
        if (g_cpu == 1 && m == 3) *c |= POPCNT;                                                  // ... with POPCNT, LZCNT and SSE4a
    }
    if (leaf == 1 && g_cpu < 1) *d &= ~((1 << 25) | (1 << 26));
    if (leaf == (int) 0x80000001)
    {
        if (g_cpu < 2 || m == 1) *c &= ~(LZCNT | SSE4A);
        if (g_cpu == 1 && m == 3) *c |= LZCNT | SSE4A;
    }
    return r;
}
void sim_stack_chk_fail(void) { violate("mem", "a function overwrote its stack frame"); violate("crash", "stack smashed"); _exit(X_STOP); }
void sim_abort(void) { violate("crash", "the library called abort()"); _exit(X_STOP); }
void sim_exit(int c) { violate("crash", "the library called exit(%d)", c); _exit(X_STOP); }
void sim_assert_fail(const char *e, const char *, unsigned, const char *) { violate("crash", "assertion failed: %s", e); _exit(X_STOP); }
}

// ---- signals -------------------------------------------------------------------------------------------
static thread_local const char *t_where = "outside the library";
static void on_signal(int sig, siginfo_t *si, void *uc_)
{
    ucontext_t *uc = (ucontext_t *) uc_;
    uintptr_t a = (uintptr_t) si->si_addr;
    if (sig == SIGTRAP && si->si_code == TRAP_TRACE && sim_astep)
    {
        uintptr_t ip = (uintptr_t) uc->uc_mcontext.gregs[REG_RIP];
        if (ip >= (uintptr_t) __start_v3asm && ip < (uintptr_t) __stop_v3asm && B.on) { R->k[K_asmstep]++; bt_step(false); }
        else uc->uc_mcontext.gregs[REG_EFL] &= ~0x100L;      // back in compiled code, which has its own steps
        return;
    }
    if (sig == SIGILL)
    {
        // a CPUID instruction of the library: answered by the simulated CPU
        greg_t *g = uc->uc_mcontext.gregs; const uint8_t *ip = (const uint8_t *) g[REG_RIP];
        if (ip[0] == 0x0f && ip[1] == 0xb9)
        {
            int v[4];
            sim_cpuid((int) g[REG_RAX], (int) g[REG_RCX], &v[0], &v[1], &v[2], &v[3]);
            g[REG_RAX] = (uint32_t) v[0]; g[REG_RBX] = (uint32_t) v[1]; g[REG_RCX] = (uint32_t) v[2]; g[REG_RDX] = (uint32_t) v[3];
            g[REG_RIP] += 2;
            return;
        }
    }
    if (sig == SIGVTALRM) { violate("hang", "call did not finish (%s)", t_where); _exit(X_STOP); }
    if (sig == SIGSEGV || sig == SIGBUS)
    {
        bool wr = uc->uc_mcontext.gregs[REG_ERR] & 2;
        std::string w = where(a);
        if (w.empty()) w = heap_where(a);
        if (si->si_code == SI_KERNEL) w = "an unaligned or non-canonical address";
        violate("mem", "%s at %s (%s)", wr ? "write" : "read", w.c_str(), t_where);
        violate("crash", "%s at %s (%s)", wr ? "write" : "read", w.c_str(), t_where);
    }
    else
        violate("crash", "signal %d (%s) %s", sig, sig == SIGILL ? "instruction the simulated CPU does not have" : sig == SIGFPE ? "arithmetic" : "abort", t_where);
    _exit(X_STOP);
}
static void signals_init()
{
    stack_t ss; memset(&ss, 0, sizeof(ss));
    ss.ss_size = 256 * 1024; ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof(sa));
    sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGVTALRM, SIGTRAP }) sigaction(s, &sa, nullptr);
}
static void watchdog(int secs, bool force = false)
{
    if (B.on && !force) return;
    struct itimerval it; memset(&it, 0, sizeof(it)); it.it_value.tv_sec = secs ? secs : force ? 0 : 120;   // outside of a call: the rest of the run
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
