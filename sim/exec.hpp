// Executes a plan against one build of the library: callers, link and clients, with the oracles.
#pragma once
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include "model.hpp"
#include "world.hpp"
#include "rfxcodec_encode.h"

struct Api
{
    void *(*create)(int, int, int, int);
    int (*create_ex)(int, int, int, int, void **);
    int (*destroy)(void *);
    int (*encode)(void *, char *, int *, const char *, int, int, int, const struct rfx_rect *, int, const struct rfx_tile *, int, const char *, int);
    int (*encode_ex)(void *, char *, int *, const char *, int, int, int, const struct rfx_rect *, int, const struct rfx_tile *, int, const char *, int, int);
    int (*internals)(struct rfxcodec_encode_internals *);
};
#define DECL(v) extern "C" { void *v##_rfxcodec_encode_create(int, int, int, int); int v##_rfxcodec_encode_create_ex(int, int, int, int, void **); int v##_rfxcodec_encode_destroy(void *); \
    int v##_rfxcodec_encode(void *, char *, int *, const char *, int, int, int, const struct rfx_rect *, int, const struct rfx_tile *, int, const char *, int); \
    int v##_rfxcodec_encode_ex(void *, char *, int *, const char *, int, int, int, const struct rfx_rect *, int, const struct rfx_tile *, int, const char *, int, int); \
    int v##_rfxcodec_encode_get_internals(struct rfxcodec_encode_internals *); }
#define API(v) Api{ v##_rfxcodec_encode_create, v##_rfxcodec_encode_create_ex, v##_rfxcodec_encode_destroy, v##_rfxcodec_encode, v##_rfxcodec_encode_ex, v##_rfxcodec_encode_get_internals }
DECL(v0) DECL(v1) DECL(v2) DECL(v3) DECL(v4) DECL(v5)
static const Api g_api[6] = { API(v0), API(v1), API(v2), API(v3), API(v4), API(v5) };

// simulated hosts: build variant, CPU, extra creation flags
struct Host { int variant, cpu, xflags; const char *name; };
static const Host g_hosts[] =
{
    { 0, 2, 0, "amd64, all features" }, { 4, 1, 0, "amd64, SSE2 only" }, { 5, 0, 0, "amd64, no SIMD reported" },
    { 0, 2, RFX_FLAGS_NOACCEL, "amd64, acceleration off by flag" }, { 1, 2, 0, "amd64, built without SIMD" }, { 2, 2, 0, "portable build (not x86, not GNU C)" },
    { 3, 2, 0, "amd64, instrumented" },
    { 10, 2, 0, "i386, all features" }, { 11, 1, 0, "i386 (position independent), SSE2 only" }, { 12, 0, 0, "i386, no SIMD reported" },
};
static const int H_INSTR = 6, NHOSTS = 10;   // variants from 10 up are 32-bit images

static uint8_t *g_lowstack; static size_t g_lowstackn;   // stack of a 32-bit host

typedef std::array<model::Coefs, 3> TileC;

struct Client           // progressive decoder state
{
    bool on = false;
    std::map<int, std::unique_ptr<TileC>> t;
    void reset() { t.clear(); on = false; }
};

struct Flight { long at; std::shared_ptr<model::Msg> m; std::shared_ptr<std::vector<uint8_t>> d; bool key; std::map<int, int> abst; };

struct Hd
{
    void *h = nullptr; bool live = false, pro = false;
    int w = 0, ht = 0, fmt = 4, flags = 0, id = 0;
    long base_bytes = 0;
    bool first = true, fail_since = false; uint32_t last_frame = 0;
    Client A, J, N; std::deque<Flight> link; bool j_wait = true;
    std::map<int, std::unique_ptr<TileC>> want; std::set<int> abst;   // expected client state; positions whose expectation is unknown
    std::set<int> used;     // distinct positions
    std::set<int> hist;     // positions delivered since the last failed call or key frame: the encoder knows what clients hold
};

struct Exec
{
    const Plan &P; int slot; Api api; int xflags; bool oracle;
    Slot &S;
    std::map<int, Hd> hs;
    int next_owner = 0;
    long now = 0;             // simulated milliseconds
    int fill, place, outal, inal, stackfill, noise;
    Rng noise_rng; void *noise_h[3] = { nullptr, nullptr, nullptr };
    std::vector<std::pair<uint8_t *, size_t>> open_img;
    uint8_t *img = nullptr; int stride = 0;
    std::map<std::string, std::unique_ptr<Pic>> pics;
    std::map<std::string, std::pair<std::unique_ptr<TileC>, bool>> exps;
    int call_w = 0, call_h = 0; // picture size passed with the call; the one given at creation if 0
    int xfl = 0;              // flags added to the call that mean nothing in this mode
    int nullcount = 0;        // what the caller says num_quants is when it passes no table
    int only = -1;            // execute only the operations of this caller thread

    Exec(const Plan &p, int slot_, const Api &a, int xf, bool orc) : P(p), slot(slot_), api(a), xflags(xf), oracle(orc), S(g_slot[slot_]), noise_rng(1)
    {
        fill = P.e("fill", 0xA5); place = P.e("place", 0); outal = P.e("outal", 0); inal = P.e("inal", 0); stackfill = P.e("stack", 0); noise = P.e("noise", 0);
        noise_rng = Rng(P.e("noiseseed", 7));
    }

    const Pic &pic(const std::string &d)
    {
        auto &p = pics[d];
        if (!p) { p.reset(new Pic); content_make(d, *p); }
        return *p;
    }

    // ---- calling the library ----------------------------------------------------------------------
    __attribute__((noinline)) static void dirty_stack(int v) { volatile uint8_t b[24 * 1024]; for (size_t i = 0; i < sizeof(b); i++) b[i] = (uint8_t) v; g_keep = (void *) b; if (g_lowstack) memset(g_lowstack, v, g_lowstackn); }
    struct Guard
    {
        CallCtx old; const char *ow;
        Guard(int owner, int af, const char *w) : old(t_ctx), ow(t_where) { t_ctx.owner = owner; t_ctx.af = af; t_ctx.nalloc = 0; t_ctx.fired = 0; t_where = w; bt_step(true); }
        ~Guard() { bt_step(true); fired = t_ctx.fired; int f = t_ctx.fired; t_ctx = old; (void) f; t_where = ow; }
        int fired = 0;
    };

    // ---- memory for a call -------------------------------------------------------------------------
    static bool huge(int cap) { return cap > (int) OUT_SZ - 65536; }
    uint8_t *out_place(int cap)
    {
        uint8_t *p;
        if (huge(cap))
        {
            p = huge_out(slot);
            if (p) { p += HUGE_SZ - cap - 1; S.cur_out = p; S.cur_cap = cap; return p; }
            cap = (int) OUT_SZ - 65536;
        }
        if (place == 0) p = S.out + OUT_SZ - cap;
        else p = S.out + (outal & 63);
        int pre = (int) std::min<long>(512, p - S.out), post = (int) std::min<long>(512, S.out + OUT_SZ - (p + cap));
        memset(p - pre, 0xE3, pre);
        memset(p, fill, cap);
        if (fill == 0x100) for (int i = 0; i < cap; i++) p[i] = (uint8_t) (i * 7 + (i >> 8));
        memset(p + cap, 0xE3, post);
        S.cur_out = p; S.cur_cap = cap;
        return p;
    }
    void out_check(uint8_t *p, int cap)
    {
        if (huge(cap)) return;
        int pre = (int) std::min<long>(512, p - S.out), post = (int) std::min<long>(512, S.out + OUT_SZ - (p + cap));
        for (int i = 1; i <= pre; i++) if (p[-i] != 0xE3) { violate("mem", "byte %d before the output buffer was overwritten", i); break; }
        for (int i = 0; i < post; i++) if (p[cap + i] != 0xE3) { violate("mem", "byte %d of an output buffer of %d bytes was overwritten", cap + i, cap); break; }
    }
    template <class T> T *req_place(int which, const std::vector<T> &v)
    {
        uint8_t *b = S.req[which];
        size_t n = v.size() * sizeof(T);
        must(n + 4096 < REQ_SZ, "request too large");
        must(mprotect(b, REQ_SZ, PROT_READ | PROT_WRITE) == 0, "mprotect");
        uint8_t *p = b + REQ_SZ - n;
        if (n) memcpy(p, v.data(), n);
        must(mprotect(b, REQ_SZ, PROT_READ) == 0, "mprotect");
        return (T *) p;
    }
    void img_close() { for (auto &r : open_img) { madvise(r.first, r.second, MADV_DONTNEED); mprotect(r.first, r.second, PROT_NONE); } open_img.clear(); }
    void img_open(uint8_t *p, size_t n)
    {
        uint8_t *a = (uint8_t *) ((uintptr_t) p & ~(PG - 1)), *e = (uint8_t *) (((uintptr_t) p + n + PG - 1) & ~(PG - 1));
        must(mprotect(a, e - a, PROT_READ | PROT_WRITE) == 0, "mprotect");
        open_img.push_back({ a, (size_t) (e - a) });
    }
    static bool yuv(const Hd &h) { return h.fmt == RFX_FORMAT_YUV; }
    static int bpp(const Hd &h) { return (h.fmt == RFX_FORMAT_BGR || h.fmt == RFX_FORMAT_RGB) ? 3 : 4; }

    void img_setup(const Hd &h, const Op &op)
    {
        img_close();
        if (yuv(h))
        {
            // tiles per row: as planned if the picture then fits, else as few as the request needs
            int need = 1; size_t last = 0;
            for (auto &t : op.tiles) if (!t.bad) need = std::max(need, t.x / 64 + 1);
            int tpr = std::max((int) op.i("tpr", 0), need);
            for (int pass = 0; pass < 2; pass++)
            {
                last = 0;
                for (auto &t : op.tiles) if (!t.bad) last = std::max(last, ((size_t) (t.y / 64) * tpr + t.x / 64 + 1) * 16384);
                if (last + 64 + PG <= IMG_SZ || (last + 64 + PG <= HUGE_SZ && far_img(slot))) break;
                tpr = need;
            }
            stride = tpr * 256;
            uint8_t *room = S.img; size_t rsz = IMG_SZ;
            if (last + 64 + PG > IMG_SZ) { room = far_img(slot); rsz = HUGE_SZ; R->k[K_farpic]++; }
            must(room && last + 64 + PG <= rsz, "picture too large");
            img = place == 0 ? room + rsz - last - (inal & 63) : room + (inal & 63);
            S.img_lo = img; S.img_hi = img + last;
            for (auto &t : op.tiles) if (!t.bad)
            {
                uint8_t *p = img + ((size_t) (t.y / 64) * tpr + t.x / 64) * 16384;
                img_open(p, 16384);
            }
            for (auto &t : op.tiles) if (!t.bad)
            {
                uint8_t *p = img + ((size_t) (t.y / 64) * tpr + t.x / 64) * 16384;
                uint8_t pl[4][4096]; planes(h, t, pl);
                memcpy(p, pl, 16384);
            }
        }
        else
        {
            int b = bpp(h), w = 1, ht = 1;
            for (auto &t : op.tiles) { w = std::max(w, t.x + t.cx); ht = std::max(ht, t.y + t.cy); }
            stride = w * b + (int) op.i("pad", 0);
            size_t n = (size_t) stride * (ht - 1) + (size_t) w * b;
            long far = op.i("far", 0);
            uint8_t *room = S.img; size_t rsz = IMG_SZ;
            if (far > stride && (size_t) far * (ht - 1) + (size_t) w * b + 64 + PG <= HUGE_SZ && far_img(slot)) { stride = (int) far; n = (size_t) far * (ht - 1) + (size_t) w * b; room = far_img(slot); rsz = HUGE_SZ; R->k[K_farpic]++; }
            must(n + 64 + PG <= rsz, "picture too large");
            img = place == 0 ? room + rsz - n : room + (inal & 63);
            S.img_lo = img; S.img_hi = img + n;
            if (room == S.img) { img_open(img, n); memset(img, fill ^ 0x3c, n); }
            else for (auto &t : op.tiles) for (int y = 0; y < t.cy; y++)
            {
                img_open(img + (size_t) (t.y + y) * stride + (size_t) t.x * b, (size_t) t.cx * b);
                memset(open_img.back().first, fill ^ 0x3c, open_img.back().second);
            }
            for (auto &t : op.tiles)
            {
                const Pic &pc = pic(t.content);
                int ro = (h.fmt == RFX_FORMAT_RGBA || h.fmt == RFX_FORMAT_RGB) ? 0 : 2;
                for (int y = 0; y < t.cy; y++)
                {
                    uint8_t *q = img + (size_t) (t.y + y) * stride + (size_t) t.x * b;
                    for (int x = 0; x < t.cx; x++, q += b)
                    {
                        q[ro] = pc.pl[0][y * 64 + x]; q[1] = pc.pl[1][y * 64 + x]; q[2 - ro] = pc.pl[2][y * 64 + x];
                        if (b == 4) q[3] = pc.pl[3][y * 64 + x];
                    }
                }
            }
        }
        for (auto &r : open_img) must(mprotect(r.first, r.second, PROT_READ) == 0, "mprotect");
    }

    // ---- expectation ---------------------------------------------------------------------------------
    void planes(const Hd &h, const TileReq &t, uint8_t out[4][4096])
    {
        const Pic &pc = pic(t.content);
        if (yuv(h))
        {
            // planar tiles are always whole; where less is declared the caller has repeated the last column and row
            for (int c = 0; c < 4; c++) for (int y = 0; y < 64; y++) for (int x = 0; x < 64; x++) out[c][y * 64 + x] = pc.pl[c][std::min(y, t.cy - 1) * 64 + std::min(x, t.cx - 1)];
            return;
        }
        for (int y = 0; y < 64; y++) for (int x = 0; x < 64; x++)
        {
            int sy = std::min(y, t.cy - 1), sx = std::min(x, t.cx - 1), i = sy * 64 + sx, o = y * 64 + x;
            model::rgb2yuv(pc.pl[0][i], pc.pl[1][i], pc.pl[2][i], out[0][o], out[1][o], out[2][o]);
            out[3][o] = bpp(h) == 4 ? pc.pl[3][i] : 0;
        }
    }
    // quants: table; returns expected coefficients, sets ok=false if the model abstains
    const TileC &expected(const Hd &h, const TileReq &t, const std::vector<uint8_t> &q, bool &ok)
    {
        char key[400];
        int n = snprintf(key, sizeof(key), "%d %d %d %d %s", h.fmt, h.pro, t.cx, t.cy, t.content.c_str());
        std::string k(key, std::min<size_t>(n, sizeof(key) - 1));
        for (int c = 0; c < 3; c++) k.append((const char *) &q[t.q[c] * 5], 5);
        auto &e = exps[k];
        if (!e.first)
        {
            if (exps.size() > 600) { exps.clear(); return expected(h, t, q, ok); }
            uint8_t pl[4][4096];
            planes(h, t, pl);
            e.first.reset(new TileC); e.second = true;
            for (int c = 0; c < 3; c++) if (!model::expect(pl[c], &q[t.q[c] * 5], h.pro, (*e.first)[c])) e.second = false;
        }
        ok = e.second;
        return *e.first;
    }

    // ---- raw call ---------------------------------------------------------------------------------------
    struct CallRes { int ret, n; uint8_t *p; int cap, fired; };
    CallRes raw_call(Hd &h, int cap, int af, const std::vector<struct rfx_rect> &rects, const std::vector<struct rfx_tile> &tiles, const std::vector<char> &quants, bool nullq, int flags, bool ex)
    {
        flags |= xfl;
        struct rfx_rect *rp = req_place(0, rects);
        struct rfx_tile *tp = req_place(1, tiles);
        char *qp = req_place(2, quants);
        uint8_t *o = out_place(cap);
        int n = cap, ret;
        CallRes r;
        watchdog(10 + (int) tiles.size() / 1500);
        {
            Guard g(h.id, af, "rfxcodec_encode");
            if (stackfill) dirty_stack(stackfill);
            int cw = call_w ? call_w : h.w, ch = call_h ? call_h : h.ht;
            if (ex || flags) ret = api.encode_ex(h.h, (char *) o, &n, (const char *) img, cw, ch, stride, rp, (int) rects.size(), tp, (int) tiles.size(), nullq ? nullptr : qp, nullq ? nullcount : (int) quants.size() / 5, flags);
            else ret = api.encode(h.h, (char *) o, &n, (const char *) img, cw, ch, stride, rp, (int) rects.size(), tp, (int) tiles.size(), nullq ? nullptr : qp, nullq ? nullcount : (int) quants.size() / 5);
            r.fired = t_ctx.fired;
        }
        watchdog(0);
        out_check(o, cap);
        r.ret = ret; r.n = n; r.p = o; r.cap = cap;
        if (n > cap || (ret > 0 && n < 0)) { violate("mem", "reported %d bytes for an output buffer of %d", n, cap); _exit(X_STOP); }
        return r;
    }

    // ask what the message would look like with plenty of room: done in a forked copy of the world
    void probe(Hd &h, const std::vector<struct rfx_rect> &rects, const std::vector<struct rfx_tile> &tiles, const std::vector<char> &quants, bool nullq, int flags, bool ex)
    {
        R->k[K_probe]++;
        R->p_ret = 0; R->p_ntiles = 0; R->p_n = 0; R->p_least = -1;
        pid_t pid = fork();
        if (pid == 0)
        {
            Cap f; CallRes c = raw_call(h, cap_value(f, (int) tiles.size(), (int) rects.size(), (int) quants.size() / 5 + 1), 0, rects, tiles, quants, nullq, flags, ex);
            R->p_ret = c.ret; R->p_n = c.n;
            if (c.ret > 0)
            {
                model::Msg m = model::parse(c.p, c.n, h.pro);
                int i = 0;
                for (auto &t : m.tiles)
                {
                    if (i >= 4096) break;
                    R->p_off[i][0] = t.off; R->p_off[i][1] = t.data; R->p_off[i][2] = t.data + t.len[0]; R->p_off[i][3] = R->p_off[i][2] + t.len[1]; R->p_off[i][4] = R->p_off[i][3] + t.len[2];
                    i++;
                }
                R->p_ntiles = i;
            }
            _exit(0);
        }
        must(pid > 0, "fork");
        int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : X_STOP);
    }
    // the least capacity with which at least want tiles are written, by bisection in forked copies of the world
    void least(Hd &h, int want, const std::vector<struct rfx_rect> &rects, const std::vector<struct rfx_tile> &tiles, const std::vector<char> &quants, bool nullq, int flags, bool ex)
    {
        Cap f; int lo = -1, hi = cap_value(f, (int) tiles.size(), (int) rects.size(), (int) quants.size() / 5 + 1);
        R->p_least = -1;
        for (bool first = true; first || hi - lo > 1; first = false)
        {
            int mid = first ? hi : lo + (hi - lo) / 2;
            R->k[K_probe]++; R->p_ret = 0;
            pid_t pid = fork();
            if (pid == 0) { CallRes c = raw_call(h, mid, 0, rects, tiles, quants, nullq, flags, ex); R->p_ret = c.ret; _exit(0); }
            must(pid > 0, "fork");
            int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : X_STOP);
            if (R->p_ret >= want) hi = mid;
            else { if (first) return; lo = mid; }
        }
        R->p_least = hi;
    }
    int cap_value(const Cap &c, int ntiles, int nreg, int nq)
    {
        long v;
        if (c.kind == 'A') v = c.d;
        else if (c.kind == 'R') v = 65536 + 8L * nreg + 5L * nq + c.d;
        else if (c.kind == 'F') v = 65536 + 8L * nreg + 5L * nq + 30000L * std::min(ntiles, 600) + c.d;
        else if (c.kind == 'm') v = (R->p_least < 0 ? 200 : R->p_least) + c.d;
        else if (R->p_ntiles <= 0) v = 200 + c.d;
        else
        {
            int k = c.k % R->p_ntiles;
            if (c.kind == 't') v = R->p_off[k][0];
            else if (c.kind == 'e') v = k + 1 < R->p_ntiles ? R->p_off[k + 1][0] : R->p_n;
            else v = R->p_off[k][1 + c.j % 4];
            v += c.d;
        }
        if (v < 0) v = 0;
        if (v > (long) OUT_SZ - 65536 && (c.kind != 'A' || !huge_out(slot))) v = (long) OUT_SZ - 65536;
        return (int) v;
    }

    // ---- clients ---------------------------------------------------------------------------------------
    // decode one progressive tile into a client; "" or error
    std::string apply(Client &c, const model::Msg &m, const uint8_t *d, const model::Tile &t)
    {
        int pos = t.x * 64 + t.y;
        auto &cur = c.t[pos];
        if (!cur) { cur.reset(new TileC); for (auto &x : *cur) x.fill(0); }
        int o = t.data;
        for (int k = 0; k < 3; k++)
        {
            model::Coefs tmp;
            std::string e = model::rlgr_decode(1, d + o, t.len[k], 81, tmp);
            if (!e.empty()) return "component " + std::to_string(k) + ": " + e;
            if (t.diff) for (int i = 0; i < 4096; i++) (*cur)[k][i] = (int16_t) ((*cur)[k][i] + tmp[i]);
            else (*cur)[k] = tmp;
            o += t.len[k];
        }
        return "";
    }
    static int first_diff(const TileC &a, const TileC &b, int &comp)
    {
        for (comp = 0; comp < 3; comp++) for (int i = 0; i < 4096; i++) if (a[comp][i] != b[comp][i]) return i;
        return -1;
    }
    void deliver_one(Hd &h, Flight &f)
    {
        // J: the client that crashes and rejoins; it ignores everything until a key frame
        if (f.key && h.j_wait) { h.J.reset(); h.J.on = true; h.j_wait = false; R->k[K_join]++; }
        if (!h.J.on) return;
        if (f.key && !f.m->header && h.J.t.empty()) violate("join", "key frame message without stream header: a joining client cannot start");
        for (auto &t : f.m->tiles)
        {
            std::string e = apply(h.J, *f.m, f.d->data(), t);
            if (!e.empty()) violate("join", "client that joined at a key frame cannot decode tile (%d,%d): %s", t.x, t.y, e.c_str());
        }
    }
    void link_run(Hd &h, long until)
    {
        while (!h.link.empty() && h.link.front().at <= until)
        {
            Flight f = h.link.front(); h.link.pop_front();
            deliver_one(h, f);
            // once the link is drained the joined client must agree with the one that was always there
            if (h.link.empty() && h.J.on) join_compare(h, h.J, "client that joined at an earlier key frame");
        }
    }
    void join_compare(Hd &h, Client &c, const char *who)
    {
        for (auto &kv : c.t)
        {
            const TileC *ref = h.abst.count(kv.first) || !h.want.count(kv.first) ? h.A.t[kv.first].get() : h.want[kv.first].get();
            if (!ref) continue;
            int comp, i = first_diff(*kv.second, *ref, comp);
            if (i >= 0) violate("join", "%s holds other coefficients for tile (%d,%d): component %d index %d is %d, should be %d", who, kv.first / 64, kv.first % 64, comp, i, (*kv.second)[comp][i], (*ref)[comp][i]);
        }
    }

    // ---- a delivered message ------------------------------------------------------------------------------
    void delivered(Hd &h, const Op &op, const CallRes &c, const std::vector<TileReq> &req, const std::vector<struct rfx_rect> &rects, const std::vector<char> &quants, bool nullq, int flags, bool lite)
    {
        auto m = std::make_shared<model::Msg>(model::parse(c.p, c.n, h.pro));
        bool key = h.pro && (flags & RFX_FLAGS_PRO_KEY);
        R->k[K_delivered]++; R->k[K_tiles] += c.ret; if (c.n > (16 << 20)) R->k[K_bulk]++;
        if (m->header) R->k[K_hdr]++;
        if (!m->hard.empty())
        {
            violate("frame", "message of %d bytes cannot be parsed: %s", c.n, m->hard.c_str());
            violate("unparse", "message of %d bytes cannot be parsed: %s", c.n, m->hard.c_str());
            _exit(X_STOP);
        }
        for (auto &s : m->soft) violate("frame", "%s", s.c_str());
        // stream header and numbering
        if ((h.first || key) && !m->header) violate("seq", "%s message carries no stream header", h.first ? "first delivered" : "key frame");
        if (m->header)
        {
            if (m->frame != 0) violate("seq", "frame index %u after a stream header", m->frame);
            if (!h.first && !key && !h.fail_since) violate("seq", "stream header repeated (frame index %u follows %u) without failure or key frame", m->frame, h.last_frame);
            if (!h.pro && (m->width != (h.w & 0xffff) || m->height != (h.ht & 0xffff))) violate("seq", "header says channel %dx%d, handle is %dx%d", m->width, m->height, h.w, h.ht);
            if (!h.pro && m->hdr_et != ((h.flags & RFX_FLAGS_RLGR1) ? 1 : 4)) violate("seq", "header says entropy mode %d, handle was created for %s", m->hdr_et, (h.flags & RFX_FLAGS_RLGR1) ? "RLGR1 (1)" : "RLGR3 (4)");
        }
        else if (!h.first && m->frame != h.last_frame + 1) violate("seq", "frame index %u follows %u", m->frame, h.last_frame);
        h.last_frame = m->frame; h.first = false; h.fail_since = false;
        // exact prefix of the request
        if (!h.pro && m->alpha != !!(flags & RFX_FLAGS_ALPHAV1)) { violate("alpha", "alpha %s but message %s it", flags & RFX_FLAGS_ALPHAV1 ? "requested" : "not requested", m->alpha ? "carries" : "does not carry"); violate("frame", "tile set type does not match the alpha request"); }
        if ((int) m->tiles.size() != c.ret) violate("prefix", "call reports %d tiles, message holds %zu", c.ret, m->tiles.size());
        for (size_t i = 0; i < m->tiles.size() && i < req.size(); i++)
        {
            auto &t = m->tiles[i]; auto &q = req[i];
            if (t.x != q.x / 64 || t.y != q.y / 64) violate("prefix", "tile %zu of the message is (%d,%d), request has (%d,%d)", i, t.x, t.y, q.x / 64, q.y / 64);
            for (int k = 0; k < 3; k++) if (t.qi[k] != q.q[k]) violate("prefix", "tile %zu component %d has quantiser index %d, requested %d", i, k, t.qi[k], q.q[k]);
        }
        if (m->rects.size() != rects.size()) violate("prefix", "message has %zu region rectangles, request %zu", m->rects.size(), rects.size());
        else for (size_t i = 0; i < rects.size(); i++)
            if (m->rects[i].x != (rects[i].x & 0xffff) || m->rects[i].y != (rects[i].y & 0xffff) || m->rects[i].w != (rects[i].cx & 0xffff) || m->rects[i].h != (rects[i].cy & 0xffff)) { violate("prefix", "region rectangle %zu differs from the request", i); break; }
        if (!nullq && (m->quants.size() != quants.size() || memcmp(m->quants.data(), quants.data(), quants.size()))) violate("prefix", "quantiser table in the message differs from the request");
        if (nullq && m->quants.size() < 5) violate("prefix", "no default quantiser table in the message");
        if (lite) return;
        std::vector<uint8_t> qt = nullq ? m->quants : std::vector<uint8_t>(quants.begin(), quants.end());
        size_t nt = std::min(m->tiles.size(), req.size());
        for (size_t i = 0; i < nt; i++)
        {
            const model::Tile &t = m->tiles[i]; const TileReq &q = req[i];
            bool valid = true;
            for (int k = 0; k < 3; k++) if (q.q[k] < 0 || (size_t) q.q[k] * 5 + 5 > qt.size()) valid = false;
            if (!valid) continue;
            bool ok; const TileC &want = expected(h, q, qt, ok);
            R->k[K_coefs] += 3 * 4096;
            if (!ok) R->k[K_abstain]++;
            if (h.pro)
            {
                R->k[t.diff ? K_diff : K_orig]++;
                int pos = t.x * 64 + t.y;
                h.A.on = true;
                static thread_local TileC before; const bool known = h.hist.count(pos) && !h.abst.count(pos) && ok && h.A.t.count(pos);
                if (known) before = *h.A.t[pos];
                std::string e = apply(h.A, *m, c.p, t);
                h.hist.insert(pos);
                if (ok && e.empty())
                {
                    // details sent against details there are and details that changed; the last band is always coded anyway
                    long sent = 0, own = 0, changed = 0; const TileC &after = *h.A.t[pos];
                    for (int cc = 0; cc < 3; cc++) for (int j = 0; j < 4096 - 81; j++) { own += after[cc][j] != 0; if (known) changed += after[cc][j] != before[cc][j]; }
                    if (!known) { if (!t.diff) sent = own; else sent = -1; changed = own; }
                    else sent = t.diff ? changed : own;
                    if (known) R->k[K_costcmp]++;
                    if (known && !changed) R->k[K_unchanged]++;
                    if (sent > std::min(own, changed)) violate("cost", "tile (%d,%d) sent as %s with %ld non-zero detail coefficients; the tile has %ld, %ld changed since it was last delivered", t.x, t.y, t.diff ? "difference" : "original", sent, own, changed);
                }
                if (!e.empty()) violate("pro", "client cannot decode tile (%d,%d): %s", t.x, t.y, e.c_str());
                if (ok)
                {
                    h.abst.erase(pos);
                    auto &w = h.want[pos]; if (!w) w.reset(new TileC); *w = want;
                    int comp, k = first_diff(*h.A.t[pos], want, comp);
                    if (k >= 0) violate("pro", "client holds other coefficients for tile (%d,%d) (%s tile %zu of %zu in frame %u): component %d index %d is %d, should be %d", t.x, t.y, t.diff ? "difference" : "original", i, m->tiles.size(), m->frame, comp, k, (*h.A.t[pos])[comp][k], want[comp][k]);
                }
                else h.abst.insert(pos);
            }
            else
            {
                int mode = m->et == 1 ? 1 : 3, o = t.data;
                static thread_local TileC got;
                for (int k = 0; k < 3; k++)
                {
                    std::string e = model::rlgr_decode(mode, c.p + o, t.len[k], 64, got[k]);
                    if (!e.empty()) { violate("std", "tile %zu (%d,%d) component %d cannot be decoded: %s", i, t.x, t.y, k, e.c_str()); break; }
                    o += t.len[k];
                    for (int j = 0; j < 4096; j++) if (got[k][j] != want[k][j])
                    {
                        violate("std", "tile %zu (%d,%d) %dx%d format %d component %d: coefficient %d is %d, should be %d", i, t.x, t.y, q.cx, q.cy, h.fmt, k, j, got[k][j], want[k][j]);
                        break;
                    }
                }
                if (m->alpha)
                {
                    uint8_t pl[4][4096]; planes(h, q, pl);
                    int ao = t.data + t.len[0] + t.len[1] + t.len[2], used = 0; model::Plane a;
                    std::string e = model::alpha_decode(c.p + ao, c.n - ao, a, used);
                    if (!e.empty()) violate("alpha", "tile %zu: %s", i, e.c_str());
                    else
                    {
                        R->k[K_alphapx] += 4096;
                        R->k[c.p[ao] ? K_alpha_rle : K_alpha_raw]++;
                        if (t.len[3] > 4098) violate("cost", "alpha plane of tile %zu takes %d bytes, raw it is 4096", i, t.len[3]);
                        if (used != t.len[3]) violate("alpha", "tile %zu states %d alpha bytes, the plane takes %d", i, t.len[3], used);
                        bool flat = !yuv(h) && bpp(h) == 3;
                        for (int j = 0; j < 4096; j++)
                        {
                            int w = flat ? a[0] : pl[3][j];
                            if (a[j] != w) { violate("alpha", "tile %zu (%d,%d) %dx%d format %d: alpha at (%d,%d) is %d, source has %d", i, t.x, t.y, q.cx, q.cy, h.fmt, j & 63, j >> 6, a[j], w); break; }
                        }
                    }
                }
            }
        }
        if (h.pro)
        {
            if (key) { h.N.reset(); h.N.on = true; R->k[K_join]++; if (!m->header) violate("join", "key frame message without stream header: a joining client cannot start"); }
            if (h.N.on)
            {
                std::set<int> touched;
                for (size_t i = 0; i < nt; i++)
                {
                    std::string e = apply(h.N, *m, c.p, m->tiles[i]);
                    if (!e.empty()) violate("join", "client starting at the last key frame cannot decode tile (%d,%d): %s", m->tiles[i].x, m->tiles[i].y, e.c_str());
                    touched.insert(m->tiles[i].x * 64 + m->tiles[i].y);
                }
                for (int pos : touched)
                {
                    const TileC *ref = h.abst.count(pos) || !h.want.count(pos) ? h.A.t[pos].get() : h.want[pos].get();
                    int comp, k = first_diff(*h.N.t[pos], *ref, comp);
                    if (k >= 0) violate("join", "client starting at the last key frame holds other coefficients for tile (%d,%d): component %d index %d is %d, should be %d", pos / 64, pos % 64, comp, k, (*h.N.t[pos])[comp][k], (*ref)[comp][k]);
                }
            }
            Flight f; f.at = now + 1 + (long) (mix(now, m->frame) % (uint64_t) std::max(1L, P.e("lat", 5))); f.m = m;
            if (!h.link.empty()) f.at = std::max(f.at, h.link.back().at);
            f.d = std::make_shared<std::vector<uint8_t>>(c.p, c.p + c.n); f.key = key;
            h.link.push_back(f);
        }
    }

    // ---- interference by unrelated handles (environment) ------------------------------------------------
    void interfere()
    {
        if (!noise) return;
        watchdog(10);
        interfere_once();
        watchdog(0);
    }
    void interfere_once()
    {
        Slot &Z = g_slot[5];
        int i = noise_rng.below(3);
        R->k[K_noise]++;
        Guard g(-100, 0, "interfering handle");
        if (!noise_h[i]) { noise_h[i] = api.create(64, 64, noise_rng.p(0.5) ? RFX_FORMAT_YUV : RFX_FORMAT_BGRA, noise_rng.p(0.5) ? RFX_FLAGS_PRO1 : noise_rng.below(2)); return; }
        if (noise_rng.p(0.25)) { api.destroy(noise_h[i]); noise_h[i] = nullptr; return; }
        mprotect(Z.img, 64 * 1024, PROT_READ | PROT_WRITE);
        for (int k = 0; k < 64 * 64; k++) Z.img[noise_rng.below(16384)] = (uint8_t) noise_rng.next();
        struct rfx_rect &r = *(struct rfx_rect *) Z.req[0]; struct rfx_tile &t = *(struct rfx_tile *) Z.req[1];
        r = { 0, 0, 64, 64 }; t = { 0, 0, 64, 64, 0, 0, 0 };
        int n = 100000;
        api.encode_ex(noise_h[i], (char *) Z.out, &n, (const char *) Z.img, 64, 64, 256, &r, 1, &t, 1, nullptr, 0, noise_rng.p(0.3) ? RFX_FLAGS_ALPHAV1 | RFX_FLAGS_PRO_KEY : 0);
    }

    // many handles come and go before the first operation: counters of handles that wrap or reach a limit
    void churn(long n)
    {
        Slot &Z = g_slot[5];
        Guard g(-100, 0, "interfering handle");
        mprotect(Z.img, 64 * 1024, PROT_READ | PROT_WRITE);
        struct rfx_rect &r = *(struct rfx_rect *) Z.req[0]; struct rfx_tile &t = *(struct rfx_tile *) Z.req[1];
        r = { 0, 0, 64, 64 }; t = { 0, 0, 64, 64, 0, 0, 0 };
        for (long i = 0; i < n; i++)
        {
            bool pro = i % 3 == 1;
            void *h = api.create(64, 64, pro || i % 2 ? RFX_FORMAT_YUV : RFX_FORMAT_BGRA, pro ? RFX_FLAGS_PRO1 : i % 5 == 0 ? RFX_FLAGS_RLGR1 : 0);
            if (!h) { violate("alloc", "creation fails although memory is available"); return; }
            if (i % 16 == 0) { int m = 100000; Z.img[i % 16384] = (uint8_t) i; api.encode(h, (char *) Z.out, &m, (const char *) Z.img, 64, 64, 256, &r, 1, &t, 1, nullptr, 0); }
            api.destroy(h);
            R->k[K_churn]++;
        }
    }
    // ---- operations ---------------------------------------------------------------------------------------
    void do_create(const Op &op, int idx)
    {
        int hi = (int) op.i("h");
        Hd &old = hs[hi];
        if (old.live) do_destroy_h(old, idx);
        int w = (int) op.i("w", 64), ht = (int) op.i("ht", 64), fmt = (int) op.i("fmt", 4), fl = (int) op.i("fl", 0), af = (int) op.i("af", 0);
        int id = next_owner++ * 8 + slot;
        void *p = nullptr; int rc = 0, fired; bool bad = fmt < 0 || fmt > 4;
        watchdog(10);
        {
            Guard g(id, af, "rfxcodec_encode_create");
            if (stackfill) dirty_stack(stackfill);
            if (op.i("ex", 1)) { rc = api.create_ex(w, ht, fmt, fl | xflags, &p); }
            else { p = api.create(w, ht, fmt, fl | xflags); rc = p ? 0 : 1; }
            fired = t_ctx.fired;
        }
        watchdog(0);
        R->k[K_create]++;
        trace(idx, 0, rc, p != nullptr, 0);
        if (fired)
        {
            R->k[K_afail_create]++;
            if (rc == 0) violate("alloc", "allocation failed during creation but creation reports success");
            if (rc != 0 && p) violate("alloc", "creation failed for lack of memory but handed out a handle");
            long b; if (rc != 0 && heap_live(id, &b)) violate("alloc", "creation failed for lack of memory but keeps %ld bytes", b);
        }
        if (bad)
        {
            R->k[K_badcreate]++;
            if (rc == 0 || p) violate("refuse", "creation for unknown pixel format %d %s", fmt, rc == 0 ? "reports success" : "hands out a handle");
            long b; if (heap_live(id, &b)) { violate("refuse", "refused creation keeps %ld bytes", b); violate("leak", "refused creation keeps %ld bytes", b); }
            if (rc != 0) p = nullptr;
        }
        else if (rc != 0 && !fired) violate("create", "creation with format %d flags %d fails (%d)", fmt, fl, rc);
        if (rc != 0) p = nullptr;
        if (rc != 0) { long b; if (heap_live(id, &b)) violate("leak", "failed creation keeps %ld bytes", b); }
        if (!p) { hs.erase(hi); return; }
        Hd h; h.h = p; h.live = true; h.pro = fl & RFX_FLAGS_PRO1; h.w = w; h.ht = ht; h.fmt = fmt; h.flags = fl; h.id = id;
        heap_live(id, &h.base_bytes);
        hs[hi] = std::move(h);
    }
    void do_destroy_h(Hd &h, int idx)
    {
        if (!h.live) return;
        int rc;
        watchdog(10);
        { Guard g(h.id, 0, "rfxcodec_encode_destroy"); rc = api.destroy(h.h); }
        watchdog(0);
        R->k[K_destroy]++;
        h.live = false;
        long b, n = heap_live(h.id, &b);
        if (n) { violate("leak", "%ld blocks (%ld bytes) remain after destroying the handle", n, b); violate("alloc", "%ld blocks (%ld bytes) lost when the handle was destroyed", n, b); }
        trace(idx, 1, rc, 0, 0);
    }
    void grow_check(Hd &h)
    {
        long b; heap_live(h.id, &b);
        long lim = h.base_bytes + 128L * 1024 * ((long) h.used.size()) + 256 * 1024;
        if (b > lim) violate("grow", "handle holds %ld bytes after using %zu distinct tile positions (%ld at creation)", b, h.used.size(), h.base_bytes);
    }

    static std::vector<struct rfx_rect> make_rects(int n, uint64_t seed)
    {
        std::vector<struct rfx_rect> v;
        Rng r(mix(seed, 31));
        // some screens repeat rectangles, keep them small, empty or adjacent
        int style = (int) (seed % 7);
        for (int i = 0; i < n; i++)
        {
            if (style == 1) v.push_back({ 64 * r.below(3), 64 * r.below(3), 64 * r.below(3), 64 * r.below(3) });
            else if (style == 2 && i && r.p(0.5)) v.push_back(v.back());
            else if (style == 3) v.push_back({ 64 * i % 65536, 64 * (i / 1024) % 65536, 64, 64 });
            else v.push_back({ r.below(r.p(0.1) ? 65536 : 4000), r.below(r.p(0.1) ? 65536 : 4000), r.range(1, r.p(0.1) ? 65535 : 500), r.range(1, r.p(0.1) ? 65535 : 500) });
        }
        return v;
    }
    static std::vector<char> make_quants(const std::string &s)
    {
        std::vector<char> v;
        for (size_t i = 0; i + 1 < s.size(); i += 2) v.push_back((char) strtol(s.substr(i, 2).c_str(), nullptr, 16));
        return v;
    }

    void do_frame(const Op &op, int idx)
    {
        auto it = hs.find((int) op.i("h"));
        if (it == hs.end() || !it->second.live) return;
        Hd &h = it->second;
        std::vector<struct rfx_rect> rects = make_rects((int) op.i("reg", 1), op.i("rs", 1));
        std::string qs = op.s("q", "-");
        bool nullq = qs == "-";
        std::vector<char> quants; if (!nullq) quants = make_quants(qs);
        int nq = nullq ? 1 : (int) quants.size() / 5;
        bool retry = op.s("pol", "r") == "r", keyall = op.i("ka", 0), ex = op.i("ex", 1);
        nullcount = (int) op.i("nqc", 0);
        // flags that mean something only in the other mode
        xfl = (int) op.i("xfl", 0) & (h.pro ? RFX_FLAGS_ALPHAV1 : RFX_FLAGS_PRO_KEY);
        if (xfl) R->k[K_otherflag]++;
        if (op.tiles.size() > 250) R->k[K_grid]++;
        call_w = (int) op.i("cw", 0); call_h = (int) op.i("ch", 0);
        int flags = (int) op.i("fl", 0);
        std::vector<TileReq> todo = op.tiles;
        // one call for very many tiles: the listed ones over and over
        if (!todo.empty()) for (long i = (long) todo.size(), n = op.i("rep", 0), k = i; i < n; i++) todo.push_back(todo[i % k]);
        // more rectangles or tables than the message format can count: cannot be honoured
        bool toomany = rects.size() > 65535 || nq > 255;
        if (toomany) R->k[K_toomany]++;
        if (todo.size() > 65535) R->k[K_manytiles]++;
        // without a table every index is 0; indices beyond a shrunk table are clipped so that every sub-plan is valid
        for (auto &t : todo) for (int k = 0; k < 3; k++) if (!t.bad && (t.q[k] >= nq || t.q[k] < 0)) t.q[k] = 0;
        if (!h.pro) { std::vector<TileReq> g; for (auto &t : todo) if (!t.bad) g.push_back(t); todo = g; flags &= ~RFX_FLAGS_PRO_KEY; }
        else flags &= ~RFX_FLAGS_ALPHAV1;
        bool haskey = flags & RFX_FLAGS_PRO_KEY;
        if (haskey) R->k[K_key]++;
        img_setup(h, op);
        size_t ci = 0; int att = 0, extra = 0, delivered_calls = 0;
        bool key_done = false, any_fail = false;
        size_t total = todo.size();
        while (true)
        {
            Cap c; bool planned = ci < op.caps.size();
            if (planned) c = op.caps[ci++];
            else if (!op.caps.empty() && !retry) break;
            else if (P.e("tight", 0)) { c.kind = 'R'; c.d = (int) (mix(idx, att) % 3 ? 0 : mix(idx, att) / 3 % 3000); }   // just what progress is promised for
            else c.d = (int) (mix(idx, att) % 3000);
            bool onlyleft_bad = toomany;
            for (auto &t : todo) if (t.bad) onlyleft_bad = true;
            if (!planned && onlyleft_bad && att > 0) break;              // a refused request is not retried for ever
            if (!planned) { extra++; if (extra > (int) total + 1) { violate("progress", "%zu of %zu tiles still not delivered after %d calls with room to spare", todo.size(), total, extra - 1); break; } }
            int fl = flags;
            if (haskey && key_done && !keyall) fl &= ~RFX_FLAGS_PRO_KEY;
            std::vector<struct rfx_tile> tiles; int badat = -1;
            for (auto &t : todo)
            {
                if (t.bad && badat < 0) badat = (int) tiles.size();
                tiles.push_back({ t.x, t.y, t.cx, t.cy, t.q[0], t.q[1], t.q[2] });
            }
            R->curop = idx; R->curatt = att;
            if (c.kind == 'm') { R->p_least = -1; if (only < 0) { least(h, 1 + c.k % std::max(1, (int) tiles.size()), rects, tiles, quants, nullq, fl, ex); R->k[K_boundary]++; } }
            else if (c.kind != 'A' && c.kind != 'F' && c.kind != 'R' && only < 0) { probe(h, rects, tiles, quants, nullq, fl, ex); if (c.d >= -8 && c.d <= 8) R->k[K_boundary]++; }
            int cap = cap_value(c, (int) tiles.size(), (int) rects.size(), nq);
            bool roomy = cap >= 65536 + 8 * (int) rects.size() + 5 * nq;
            bool plenty = cap >= 65536 + 8 * (int) rects.size() + 5 * nq + 30000 * std::min<int>((int) tiles.size(), 600);
            interfere();
            now += 1 + (long) (mix(idx * 131 + att, 3) % 40);
            link_run(h, now);
            if (fl & RFX_FLAGS_PRO_KEY) h.hist.clear();
            CallRes r = raw_call(h, cap, c.af, rects, tiles, quants, nullq, fl, ex);
            R->k[K_calls]++;
            if (c.kind != 'F' && c.kind != 'R') R->k[K_overcap]++;
            trace(idx, att, r.ret, r.ret > 0 ? r.n : 0, r.ret > 0 ? fnv(r.p, r.n) : 0);
            bool fault = r.fired > 0;
            if (att > 0) R->k[K_resume]++;
            if (r.ret <= 0) h.hist.clear();
            for (auto &t : todo) if (!t.bad) h.used.insert((t.x / 64) * 4096 + t.y / 64);
            if (r.ret > (int) tiles.size()) { violate("prefix", "call reports %d tiles of %zu requested", r.ret, tiles.size()); violate("ret", "call reports %d tiles of %zu requested", r.ret, tiles.size()); _exit(X_STOP); }
            if (toomany)
            {
                if (r.ret > 0) violate("refuse", "request with %zu rectangles and %d quantiser sets cannot be expressed but the call reports %d tiles written", rects.size(), nq, r.ret);
            }
            else if (badat >= 0)
            {
                R->k[K_bad]++;
                if (r.ret > badat) violate("refuse", "tile %d of the request is invalid but the call reports %d tiles written", badat, r.ret);
                if (plenty && r.ret > 0) violate("refuse", "request with an invalid tile at %d and room to spare was not refused (returned %d)", badat, r.ret);
            }
            else if (!fault && !tiles.empty())
            {
                if (r.ret <= 0 && roomy) violate("progress", "call with %d bytes of room for %zu tiles reports %d", cap, tiles.size(), r.ret);
                else if (r.ret > 0 && r.ret < (int) tiles.size() && r.ret < 65535 && cap - r.n >= 65536) violate("progress", "only %d of %zu tiles written although %d bytes of %d were left", r.ret, tiles.size(), cap - r.n, cap);
            }
            // a digest of the situation this call met, for the coverage count
            {
                uint64_t s = 17;
                auto add = [&](long v) { s = mix(s, (uint64_t) v); };
                auto bucket = [](long v) { int b = 0; while (v > 1) { v >>= 1; b++; } return b; };
                add(h.pro); add(h.fmt); add(h.flags & (RFX_FLAGS_RLGR1 | RFX_FLAGS_PRO1)); add(fl); add(r.ret < 0 ? -1 : r.ret == 0 ? 0 : r.ret < (int) tiles.size() ? 1 : 2);
                add(c.kind); add(c.kind == 'F' ? 0 : bucket(std::abs((long) c.d)) * (c.d < 0 ? -1 : 1)); add(fault); add(c.af); add(badat < 0 ? 0 : badat == 0 ? 1 : 2); add(bucket((long) tiles.size()));
                add(h.first); add(h.fail_since); add(key_done); add(any_fail); add(std::min(att, 3)); add(bucket((long) rects.size())); add(bucket(nq));
                if (!todo.empty()) { add(todo[0].content[0]); add(todo[0].cx < 64 ? 1 : 0); add(todo[0].cy < 64 ? 1 : 0); }
                situation(s);
            }
            if (r.ret > 0)
            {
                if (r.ret < (int) tiles.size()) R->k[K_short]++;
                std::vector<TileReq> wrote(todo.begin(), todo.begin() + r.ret);
                if (oracle) delivered(h, op, r, wrote, rects, quants, nullq, fl, false);
                todo.erase(todo.begin(), todo.begin() + r.ret);
                delivered_calls++;
                if (haskey && !key_done && !todo.empty()) R->k[K_keycut]++;
                key_done = true;
            }
            else
            {
                any_fail = true; h.fail_since = true; R->k[K_failed]++;
                if (fl & RFX_FLAGS_PRO_KEY) R->k[K_keyfail]++;
            }
            grow_check(h);
            att++;
            if (todo.empty()) break;
            if (op.caps.empty() && !retry) break;
        }
        now += 5; link_run(h, now);
        img_close();
        xfl = 0; call_w = call_h = 0; nullcount = 0;
    }

    // thousands of small frames: numbering, header and memory over long histories
    void do_haul(const Op &op, int idx)
    {
        auto it = hs.find((int) op.i("h"));
        if (it == hs.end() || !it->second.live) return;
        Hd &h = it->second;
        long n = op.i("n", 1000), failev = op.i("fail", 0), keyev = op.i("key", 0), chg = op.i("chg", 50), afev = op.i("af", 0), npos = std::max(1L, op.i("pos", 1));
        Op f; f.type = "frame"; TileReq t; t.content = "f.1"; f.tiles.push_back(t);
        std::vector<struct rfx_rect> rects = make_rects(1, 1); std::vector<char> q; bool nq = true;
        long hq = op.i("nq", 0), hr = op.i("nr", 0), hal = h.pro ? 0 : op.i("al", 0);
        uint64_t hh = 7; long peak1 = 0, peak2 = 0; int cur = -1;
        for (long i = 0; i < n; i++)
        {
            int v = (int) ((i / std::max(1L, chg)) % 7), px = (int) (i % npos);
            if (v * 1000 + px != cur)
            {
                f.tiles[0].content = "f." + std::to_string(v + 1);
                f.tiles[0].x = 64 * (px % 64); f.tiles[0].y = 64 * ((px * 5) % 64 % 60);
                if (!yuv(h)) { f.tiles[0].x = 64 * (px % 4); f.tiles[0].y = 0; f.tiles[0].cx = 1 + v; f.tiles[0].cy = 3; }
                f.set("tpr", 64);
                img_setup(h, f); cur = v * 1000 + px;
            }
            h.used.insert((f.tiles[0].x / 64) * 4096 + f.tiles[0].y / 64);
            int fl = h.pro && keyev && i % keyev == keyev - 1 ? RFX_FLAGS_PRO_KEY : 0;
            std::vector<struct rfx_tile> tl = { { f.tiles[0].x, f.tiles[0].y, f.tiles[0].cx, f.tiles[0].cy, 0, 0, 0 } };
            bool af = afev && i % afev == afev - 1;
            // what else a call can bring along: tables, rectangles, alpha
            if (hq) { nq = i % (hq + 1) == 0; q.assign(nq ? 0 : 5 * (i % (hq + 1)), (char) 0x66); if (!nq) q[0] = (char) (0x66 + (i / 7) % 9); }
            if (hr) rects = make_rects(1 + (int) (i % hr), i % 11);
            if (hal && i % 3) fl |= RFX_FLAGS_ALPHAV1;
            if (failev && i % failev == failev - 1)
            {
                R->curatt = (int) i;
                CallRes r = raw_call(h, (int) (mix(i, 9) % 120), 0, rects, tl, q, nq, fl, true);
                R->k[K_haul]++;
                if (r.ret > 0) { if (oracle) delivered(h, f, r, f.tiles, rects, q, nq, fl, true); }
                else { h.fail_since = true; R->k[K_failed]++; }
            }
            R->curop = idx; R->curatt = (int) i; h.hist.clear();
            CallRes r = raw_call(h, 66000, af ? 1 : 0, rects, tl, q, nq, fl, true);
            R->k[K_haul]++; R->k[K_calls]++;
            if (r.ret <= 0)
            {
                h.fail_since = true; R->k[K_failed]++;
                if (!r.fired) violate("progress", "call %ld of a long history reports %d with room to spare", i, r.ret);
            }
            else
            {
                hh = fnv(r.p, r.n, hh);
                if (oracle) delivered(h, f, r, f.tiles, rects, q, nq, fl, i % 997 != 0);
                if (h.link.size() > 4) h.link.clear();
                if (h.pro && i % 997 != 0) { /* keep the always-there client in step without the full oracle */
                    model::Msg m = model::parse(r.p, r.n, true); for (auto &tt : m.tiles) apply(h.A, m, r.p, tt); if (h.N.on) h.N.reset(); h.J.reset(); h.j_wait = true; h.abst.insert(f.tiles[0].x); }
            }
            now += 3;
            if (i % 512 == 511 || i == n - 1) grow_check(h);
            // the same positions over and over: the peak of the last quarter must not exceed that of the second
            if (n >= 2000 && i % 7 == 0 && ((i >= n / 4 && i < n / 2) || i >= 3 * n / 4))
            {
                long b; heap_live(h.id, &b);
                long &pk = i < n / 2 ? peak1 : peak2;
                if (b > pk) pk = b;
            }
        }
        // failures and key frames may drop history at points whose pattern repeats slowly: allow for that
        long slack = 16 * 1024 + (npos > 1 && (failev || keyev || afev) ? 32L * 1024 * npos : 0);
        if (n >= 2000 && peak2 > peak1 + slack) violate("grow", "memory of the handle grew from %ld to %ld bytes while the same %ld tile positions were reused", peak1, peak2, npos);
        trace(idx, 0, (int) n, 0, hh);
        h.J.reset(); h.N.reset(); h.j_wait = true; h.link.clear(); h.hist.clear();
        if (op.i("keep")) { img_close(); return; }   // the other positions still have the history they had before
        h.A.reset(); h.want.clear();
        // after the haul the client state is unknown to the oracle until a key frame; make one
        img_close();
        if (h.pro)
        {
            Op k; k.type = "frame"; k.set("h", op.i("h")); k.set("fl", RFX_FLAGS_PRO_KEY); TileReq a; a.content = "n.5"; k.tiles.push_back(a);
            do_frame(k, idx);
        }
    }

    // component functions handed out by the library, on exactly sized memory
    void do_comp(const Op &op, int idx)
    {
        struct rfxcodec_encode_internals in;
        { Guard g(-200, 0, "rfxcodec_encode_get_internals"); api.internals(&in); }
        R->k[K_compcall]++;
        std::string fn = op.s("fn", "rlgr1");
        const Pic &pc = pic(op.s("c", "n.1"));
        int cap = (int) op.i("cap", 20000), ret = 0;
        std::vector<int16_t> co(4096);
        Rng r(mix(op.i("cs", 1), 3));
        int sparse = (int) op.i("sparse", 0);
        for (int i = 0; i < 4096; i++) { int v = ((int) pc.pl[i & 3 ? 0 : 1][i] - 128) / std::max(1L, op.i("div", 1)); co[i] = (int16_t) (sparse && r.below(100) < sparse ? 0 : v); }
        if (op.i("odd", 0)) { co[4095] = 7; co[4094] = 0; co[4093] = 3; }
        watchdog(10);
        if (fn == "rlgr1" || fn == "rlgr3" || fn == "drlgr1" || fn == "drlgr3")
        {
            int16_t *cp = req_place(0, co);
            if (fn[0] == 'd') must(mprotect(S.req[0], REQ_SZ, PROT_READ | PROT_WRITE) == 0, "mprotect");
            uint8_t *o = out_place(cap);
            {
                Guard g(-200, 0, "component encoder");
                if (fn == "rlgr1") ret = in.rfxencode_rlgr1(cp, o, cap);
                else if (fn == "rlgr3") ret = in.rfxencode_rlgr3(cp, o, cap);
                else if (fn == "drlgr1") ret = in.rfxencode_diff_rlgr1(cp, o, cap, (int) op.i("diff", 64));
                else ret = in.rfxencode_diff_rlgr3(cp, o, cap, (int) op.i("diff", 64));
            }
            out_check(o, cap);
            if (ret > cap) violate("mem", "%s reports %d bytes for a buffer of %d", fn.c_str(), ret, cap);
            trace(idx, 0, ret, 0, ret > 0 ? fnv(o, ret) : 0);
        }
        else if (fn == "dwt" || fn == "sse2" || fn == "sse41")
        {
            std::vector<uint8_t> pl(pc.pl[0], pc.pl[0] + 4096);
            std::vector<char> q = { 0x66, 0x66, 0x77, (char) 0x88, (char) 0x98 };
            uint8_t *ip = req_place(0, pl); char *qp = req_place(2, q);
            std::vector<int16_t> z(4096, 0x1111);
            int16_t *b1 = req_place(1, z), *b2 = req_place(3, z);
            must(mprotect(S.req[1], REQ_SZ, PROT_READ | PROT_WRITE) == 0 && mprotect(S.req[3], REQ_SZ, PROT_READ | PROT_WRITE) == 0, "mprotect");
            memset((uint8_t *) b1 - 64, 0xE3, 64); memset((uint8_t *) b2 - 64, 0xE3, 64);
            bool ran = false;
            {
                Guard g(-200, 0, "component transform");
                if (fn == "dwt") { ret = in.rfxencode_dwt_2d(ip, b1, b2); ran = true; }
                else if (fn == "sse2" && in.rfxencode_dwt_shift_x86_sse2 && g_cpu >= 1) { ret = in.rfxencode_dwt_shift_x86_sse2(qp, ip, b1, b2); ran = true; }
                else if (fn == "sse41" && in.rfxencode_dwt_shift_x86_sse41 && g_cpu >= 2) { ret = in.rfxencode_dwt_shift_x86_sse41(qp, ip, b1, b2); ran = true; }
                else if (fn == "sse2" && in.rfxencode_dwt_shift_amd64_sse2 && g_cpu >= 1) { ret = in.rfxencode_dwt_shift_amd64_sse2(qp, ip, b1, b2); ran = true; }
                else if (fn == "sse41" && in.rfxencode_dwt_shift_amd64_sse41 && g_cpu >= 2) { ret = in.rfxencode_dwt_shift_amd64_sse41(qp, ip, b1, b2); ran = true; }
            }
            for (int i = 1; i <= 64; i++) if (((uint8_t *) b1)[-i] != 0xE3 || ((uint8_t *) b2)[-i] != 0xE3) { violate("mem", "%s wrote before its buffer", fn.c_str()); break; }
            if (ran && fn == "dwt") trace(idx, 0, ret, 0, fnv(b1, 8192));
        }
        else if (fn == "quant" || fn == "differ")
        {
            std::vector<char> q = { 0x66, 0x66, 0x77, (char) 0x88, (char) 0x98 };
            char *qp = req_place(2, q);
            int16_t *cp = req_place(0, co);
            must(mprotect(S.req[0], REQ_SZ, PROT_READ | PROT_WRITE) == 0, "mprotect");
            memset((uint8_t *) cp - 64, 0xE3, 64);
            {
                Guard g(-200, 0, "component transform");
                if (fn == "quant") ret = in.rfxencode_quantization(cp, qp); else ret = in.rfxencode_differential(cp, 4096);
            }
            for (int i = 1; i <= 64; i++) if (((uint8_t *) cp)[-i] != 0xE3) { violate("mem", "%s wrote before its buffer", fn.c_str()); break; }
            trace(idx, 0, ret, 0, fnv(cp, 8192));
        }
        watchdog(0);
    }

    void run_op(const Op &op, int idx)
    {
        R->curop = idx; R->curatt = 0;
        if (op.type == "create") do_create(op, idx);
        else if (op.type == "destroy") { auto it = hs.find((int) op.i("h")); if (it != hs.end()) { do_destroy_h(it->second, idx); hs.erase(it); } }
        else if (op.type == "frame") do_frame(op, idx);
        else if (op.type == "haul") do_haul(op, idx);
        else if (op.type == "comp") do_comp(op, idx);
        else if (op.type == "nulldestroy") { Guard g(-300, 0, "rfxcodec_encode_destroy(NULL)"); trace(idx, 0, api.destroy(nullptr), 0, 0); }
        else if (op.type == "crash")
        {
            auto it = hs.find((int) op.i("h"));
            if (it == hs.end()) return;
            Hd &h = it->second;
            R->k[K_crash]++;
            now += op.i("dt", 0); link_run(h, now);
            R->k[K_msglost] += (long) h.link.size();
            h.link.clear(); h.J.reset(); h.j_wait = true;
        }
        else if (op.type == "wait") { now += op.i("ms", 100); for (auto &kv : hs) link_run(kv.second, now); }
        if (noise) interfere();
    }
    void finish(int idx)
    {
        R->curop = idx; R->curatt = 0;
        for (auto &kv : hs) link_run(kv.second, 1L << 60);
        for (auto &b : *g_blk) if (b.state == 1) heap_check(b);
        for (auto &kv : hs) do_destroy_h(kv.second, idx);
        hs.clear();
        for (auto &n : noise_h) if (n) { Guard g(-100, 0, "interfering handle"); api.destroy(n); n = nullptr; }
        R->k[K_simms] += now;
    }
    void run_all()
    {
        if (only < 0 && P.e("churn", 0) > 0) { watchdog(60); churn(P.e("churn", 0)); watchdog(0); }
        for (size_t i = 0; i < P.ops.size(); i++) if (only < 0 || P.ops[i].i("th") == only) run_op(P.ops[i], (int) i);
        finish((int) P.ops.size() + std::max(0, only));
        if (only >= 0) return;
        long b, n = heap_live(-2, &b);
        if (n) { violate("leak", "%ld blocks (%ld bytes) remain after all handles were destroyed", n, b); }
    }
};
