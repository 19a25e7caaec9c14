// A 32-bit x86 host inside the simulator: the library compiled for i386 (C and src/x86 assembly) is
// loaded below 4 GB and called in compatibility mode; its libc calls come back through a gate.
#pragma once
#include "exec.hpp"

extern "C" { extern const uint8_t i386_img0[], i386_end0[], i386_img1[], i386_end1[], i386_img2[], i386_end2[]; extern const char *const i386_gates[]; }
static const uintptr_t I386_AT = 0x20000000, I386_STACK = 0x28000000, I386_SLOT = 0x30000000, I386_HEAP = 0x50000000;
static const size_t I386_STACK_SZ = 1u << 20, I386_HEAP_SZ = 0x90000000;
struct I386Hdr { uint32_t magic; uint32_t gate_off; uint32_t gate_sel; uint32_t fn[6]; uint32_t probe; };
extern "C" { uint64_t i386_rsp; uint32_t i386_call(uint32_t fn, const uint32_t *args, uint32_t n, uint32_t top); void i386_gate64(void); uint32_t i386_gate(uint32_t idx, uint32_t *args); }
asm(R"(
    .text
    .code64
    .globl i386_call
i386_call:
    push %rbx
    push %rbp
    push %r12
    push %r13
    push %r14
    push %r15
    mov i386_rsp(%rip), %rax
    push %rax
    mov %rsp, i386_rsp(%rip)
    mov %ecx, %ecx
    mov %edx, %edx
    lea 0(,%rdx,4), %rax
    sub %rax, %rcx
    and $-16, %rcx
    mov %rcx, %rsp
    xor %eax, %eax
1:  cmp %edx, %eax
    jae 2f
    mov (%rsi,%rax,4), %r8d
    mov %r8d, (%rsp,%rax,4)
    inc %eax
    jmp 1b
2:  mov $0x2b, %eax
    mov %eax, %ds
    mov %eax, %es
    sub $12, %rsp
    mov %edi, (%rsp)
    movl $0x23, 4(%rsp)
    movl $i386_back32, 8(%rsp)
    xor %ebx, %ebx
    xor %ebp, %ebp
    lret
    .code32
i386_back32:
    ljmp $0x33, $i386_back64
    .code64
i386_back64:
    mov i386_rsp(%rip), %rsp
    pop %rcx
    mov %rcx, i386_rsp(%rip)
    pop %r15
    pop %r14
    pop %r13
    pop %r12
    pop %rbp
    pop %rbx
    mov %eax, %eax
    cld
    ret
    .globl i386_gate64
i386_gate64:
    mov %esp, %r12d
    mov %esi, %r13d
    mov %edi, %r14d
    mov %ebx, %ebx
    mov %ebp, %ebp
    mov i386_rsp(%rip), %rsp
    and $-16, %rsp
    mov %eax, %edi
    lea 4(%r12), %rsi
    cld
    call i386_gate
    mov %r13d, %esi
    mov %r14d, %edi
    mov %r12, %rsp
    mov (%rsp), %ecx
    sub $4, %rsp
    mov %ecx, (%rsp)
    movl $0x23, 4(%rsp)
    lret
)");
static uint32_t P32(const void *p) { must((uintptr_t) p < (1ull << 32), "pointer above 4 GB for the 32-bit host"); return (uint32_t) (uintptr_t) p; }
uint32_t i386_gate(uint32_t idx, uint32_t *a)
{
    auto ptr = [](uint32_t v) { return (void *) (uintptr_t) v; };
    const std::string n = i386_gates[idx];
    if (n == "malloc") return P32(sim_malloc(a[0]));
    if (n == "calloc") { if ((uint64_t) a[0] * a[1] > 0x7fffffffu) { t_ctx.nalloc++; return 0; } return P32(sim_calloc(a[0], a[1])); }
    if (n == "free") { sim_free(ptr(a[0])); return 0; }
    if (n == "realloc") return P32(sim_realloc(ptr(a[0]), a[1]));
    if (n == "memalign" || n == "aligned_alloc") return P32(sim_aligned_alloc(a[0], a[1]));
    if (n == "posix_memalign") { void *o = nullptr; int r = sim_posix_memalign(&o, a[1], a[2]); if (!r) *(uint32_t *) ptr(a[0]) = P32(o); return r; }
    if (n == "printf" || n == "puts" || n == "fprintf" || n == "vprintf" || n == "vfprintf" || n == "fputs" || n == "fflush") return (uint32_t) out_result(1);
    if (n == "putchar" || n == "fputc") return (uint32_t) out_result(a[0]);
    if (n == "fwrite") return out_result(1) < 0 ? 0 : a[2];
    if (n == "time") { uint32_t t = (uint32_t) sim_time(nullptr); if (a[0]) *(uint32_t *) ptr(a[0]) = t; return t; }
    if (n == "clock") return (uint32_t) sim_clock();
    if (n == "rand" || n == "random") return (uint32_t) sim_rand();
    if (n == "getenv") return 0;
    if (n == "abort") sim_abort();
    if (n == "exit") sim_exit((int) a[0]);
    fprintf(stderr, "rfxsim: 32-bit gate %s\n", n.c_str()); _exit(99);
}
static uint32_t i386_fn[6], i386_probe; static int g_stack32 = 0;
static uint32_t c32(uint32_t f, std::initializer_list<uint32_t> a)
{
    R->k[K_i386]++;
    return i386_call(f, a.begin(), (uint32_t) a.size(), (uint32_t) (I386_STACK + I386_STACK_SZ - 256 - 16 * g_stack32));
}
static volatile uint32_t *low_word() { return (volatile uint32_t *) (I386_STACK + 64); }
static void *i386_create(int w, int h, int f, int fl) { return (void *) (uintptr_t) c32(i386_fn[0], { (uint32_t) w, (uint32_t) h, (uint32_t) f, (uint32_t) fl }); }
static int i386_create_ex(int w, int h, int f, int fl, void **o)
{
    *low_word() = (uint32_t) (uintptr_t) *o;
    int r = (int) c32(i386_fn[1], { (uint32_t) w, (uint32_t) h, (uint32_t) f, (uint32_t) fl, P32((void *) low_word()) });
    if (*low_word() != (uint32_t) (uintptr_t) *o) *o = (void *) (uintptr_t) *low_word();
    return r;
}
static int i386_destroy(void *h) { return (int) c32(i386_fn[2], { P32(h) }); }
static int i386_encode(void *h, char *d, int *n, const char *b, int w, int ht, int st, const struct rfx_rect *rg, int nr, const struct rfx_tile *t, int nt, const char *q, int nq)
{
    *low_word() = (uint32_t) *n;
    int r = (int) c32(i386_fn[3], { P32(h), P32(d), P32((void *) low_word()), P32(b), (uint32_t) w, (uint32_t) ht, (uint32_t) st, P32(rg), (uint32_t) nr, P32(t), (uint32_t) nt, P32(q), (uint32_t) nq });
    *n = (int) *low_word(); return r;
}
static int i386_encode_ex(void *h, char *d, int *n, const char *b, int w, int ht, int st, const struct rfx_rect *rg, int nr, const struct rfx_tile *t, int nt, const char *q, int nq, int fl)
{
    *low_word() = (uint32_t) *n;
    int r = (int) c32(i386_fn[4], { P32(h), P32(d), P32((void *) low_word()), P32(b), (uint32_t) w, (uint32_t) ht, (uint32_t) st, P32(rg), (uint32_t) nr, P32(t), (uint32_t) nt, P32(q), (uint32_t) nq, (uint32_t) fl });
    *n = (int) *low_word(); return r;
}
static uint32_t i386_in[16];
static int i_rlgr1(const short *d, unsigned char *b, int n) { return (int) c32(i386_in[0], { P32(d), P32(b), (uint32_t) n }); }
static int i_rlgr3(const short *d, unsigned char *b, int n) { return (int) c32(i386_in[1], { P32(d), P32(b), (uint32_t) n }); }
static int i_differ(short *d, int n) { return (int) c32(i386_in[2], { P32(d), (uint32_t) n }); }
static int i_quant(short *d, const char *q) { return (int) c32(i386_in[3], { P32(d), P32(q) }); }
static int i_dwt(const unsigned char *i, short *b, short *t) { return (int) c32(i386_in[4], { P32(i), P32(b), P32(t) }); }
static int i_drlgr1(short *d, unsigned char *b, int n, int k) { return (int) c32(i386_in[5], { P32(d), P32(b), (uint32_t) n, (uint32_t) k }); }
static int i_drlgr3(short *d, unsigned char *b, int n, int k) { return (int) c32(i386_in[6], { P32(d), P32(b), (uint32_t) n, (uint32_t) k }); }
static int i_sse2(const char *q, const unsigned char *d, short *b1, short *b) { return (int) c32(i386_in[7], { P32(q), P32(d), P32(b1), P32(b) }); }
static int i_sse41(const char *q, const unsigned char *d, short *b1, short *b) { return (int) c32(i386_in[8], { P32(q), P32(d), P32(b1), P32(b) }); }
static int i386_internals(struct rfxcodec_encode_internals *in)
{
    uint32_t *t = (uint32_t *) (I386_STACK + 128);
    memset(t, 0, 64);
    int r = (int) c32(i386_fn[5], { P32(t) });
    memcpy(i386_in, t, 44);
    memset(in, 0, sizeof(*in));
    in->rfxencode_rlgr1 = i_rlgr1; in->rfxencode_rlgr3 = i_rlgr3; in->rfxencode_differential = i_differ; in->rfxencode_quantization = i_quant; in->rfxencode_dwt_2d = i_dwt;
    in->rfxencode_diff_rlgr1 = i_drlgr1; in->rfxencode_diff_rlgr3 = i_drlgr3;
    if (i386_in[7]) in->rfxencode_dwt_shift_x86_sse2 = i_sse2;
    if (i386_in[8]) in->rfxencode_dwt_shift_x86_sse41 = i_sse41;
    return r;
}
static const Api g_i386 = { i386_create, i386_create_ex, i386_destroy, i386_encode, i386_encode_ex, i386_internals };

// in the process that will run the plan: move the arenas below 4 GB and load the image
static bool i386_enter(int img)
{
    const uint8_t *b[3] = { i386_img0, i386_img1, i386_img2 }, *e[3] = { i386_end0, i386_end1, i386_end2 };
    size_t n = e[img] - b[img];
    if (n < sizeof(I386Hdr)) return false;
    g_slot0 = I386_SLOT; g_slotn = 2; g_slotsz = 0xA000000; g_heap0 = I386_HEAP; g_heapsz = I386_HEAP_SZ;
    world_init(2); g_slot[5] = g_slot[1];
    reserve(I386_AT - PG, PG, PROT_NONE);
    uint8_t *p = (uint8_t *) reserve(I386_AT, (n + PG - 1) & ~(PG - 1), PROT_READ | PROT_WRITE | PROT_EXEC);
    memcpy(p, b[img], n);
    reserve(I386_STACK - PG, PG, PROT_NONE);
    reserve(I386_STACK, I386_STACK_SZ, PROT_READ | PROT_WRITE);
    g_lowstack = (uint8_t *) I386_STACK + I386_STACK_SZ - 32768; g_lowstackn = 32768;
    reserve(I386_STACK + I386_STACK_SZ, PG, PROT_NONE);
    I386Hdr *h = (I386Hdr *) p;
    must(h->magic == 0x33363869, "32-bit image");
    h->gate_off = (uint32_t) (uintptr_t) i386_gate64; h->gate_sel = 0x33;
    memcpy(i386_fn, h->fn, sizeof(i386_fn)); i386_probe = h->probe;
    g_brk = g_heap0 + (1 << 20);
    return true;
}
// does this machine run 32-bit code at all?  tried once in a child
static bool i386_works()
{
    static int known = -1;
    if (known >= 0) return known;
    if (i386_end0 - i386_img0 < (long) sizeof(I386Hdr)) return known = 0;
    pid_t pid = fork();
    if (pid == 0)
    {
        for (int s : { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP }) signal(s, SIG_DFL);
        if (!i386_enter(0)) _exit(1);
        _exit(c32(i386_probe, {}) == 42 ? 0 : 1);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    return known = WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
