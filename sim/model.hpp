// Reference model of RemoteFX as a client sees it: written from [MS-RDPRFX] / [MS-RDPEGFX],
// independent of the library's code (plain int arithmetic, textbook lifting, bit-at-a-time decoder).
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <array>

namespace model {

typedef std::array<int16_t, 4096> Coefs;
typedef std::array<uint8_t, 4096> Plane;

// ---- wavelet ---------------------------------------------------------------------------------
struct Ov { bool hit = false; int chk(int v) { if (v < -32768 || v > 32767) hit = true; return v; } };

// one lifting step of length n; ext=false: standard 5/3 with mirroring, n even, n/2 + n/2
inline void lift_std(const int *x, int n, int *lo, int *hi)
{
    int m = n / 2;
    for (int i = 0; i < m; i++)
    {
        int x2 = (2 * i + 2 < n) ? x[2 * i + 2] : x[n - 2];
        hi[i] = (x[2 * i + 1] - ((x[2 * i] + x2) >> 1)) >> 1;
    }
    for (int i = 0; i < m; i++)
    {
        int hp = i ? hi[i - 1] : hi[0];
        lo[i] = x[2 * i] + ((hp + hi[i]) >> 1);
    }
}

// reduce-extrapolate: 64 -> 33 low, 31 high (65th sample extrapolated, last high band dropped as 0)
// 33 -> 17/16, 17 -> 9/8 (odd length, symmetric)
inline void lift_re(const int *xin, int n, int *lo, int *hi, Ov &ov)
{
    int x[66];
    int nh, nl;
    if (n == 64)
    {
        for (int i = 0; i < 64; i++) x[i] = xin[i];
        x[64] = ov.chk(2 * xin[63] - xin[62]);
        nl = 33; nh = 31;
        for (int i = 0; i < 31; i++) hi[i] = ov.chk((x[2 * i + 1] - ((x[2 * i] + x[2 * i + 2]) >> 1)) >> 1);
        for (int i = 0; i < nl; i++)
        {
            int a = i == 0 ? hi[0] : (i - 1 < nh ? hi[i - 1] : 0);
            int b = i < nh ? hi[i] : 0;
            if (i == 0) lo[i] = ov.chk(x[0] + hi[0]);
            else lo[i] = ov.chk(x[2 * i] + ((a + b) >> 1));
        }
        return;
    }
    nl = (n + 1) / 2; nh = n / 2;
    for (int i = 0; i < nh; i++) hi[i] = ov.chk((xin[2 * i + 1] - ((xin[2 * i] + xin[2 * i + 2]) >> 1)) >> 1);
    for (int i = 0; i < nl; i++)
    {
        int a = i == 0 ? hi[0] : hi[i - 1];
        // past the end the signal is mirrored: H[nh] = (x[n-2] - ((x[n-1] + x[n-3]) >> 1)) >> 1
        int b = i < nh ? hi[i] : ov.chk((xin[n - 2] - ((xin[n - 1] + xin[n - 3]) >> 1)) >> 1);
        lo[i] = ov.chk(xin[2 * i] + ((a + b) >> 1));
    }
}

// 2D transform of a plane; out: subbands in the order the stream uses, unquantised
inline void dwt2d(const uint8_t *pl, bool re, int *out, Ov &ov)
{
    static thread_local int cur[64 * 64], L[64 * 64], H[64 * 64];
    int n = 64;
    for (int i = 0; i < 4096; i++) cur[i] = ((int) pl[i] - 128) * 32;
    int pos = 0;
    for (int lev = 1; lev <= 3; lev++)
    {
        int nl = re ? (n == 64 ? 33 : (n + 1) / 2) : n / 2;
        int nh = re ? (n == 64 ? 31 : n / 2) : n / 2;
        int col[64], lo[64], hi[64];
        for (int x = 0; x < n; x++)
        {
            for (int y = 0; y < n; y++) col[y] = cur[y * n + x];
            if (re) lift_re(col, n, lo, hi, ov); else lift_std(col, n, lo, hi);
            for (int y = 0; y < nl; y++) L[y * n + x] = lo[y];
            for (int y = 0; y < nh; y++) H[y * n + x] = hi[y];
        }
        int *HL = out + pos, *LH = HL + nl * nh, *HH = LH + nl * nh;
        pos += 2 * nl * nh + nh * nh;
        for (int y = 0; y < nl; y++)
        {
            if (re) lift_re(L + y * n, n, lo, hi, ov); else lift_std(L + y * n, n, lo, hi);
            for (int x = 0; x < nl; x++) cur[y * nl + x] = lo[x];
            for (int x = 0; x < nh; x++) HL[y * nh + x] = hi[x];
        }
        for (int y = 0; y < nh; y++)
        {
            if (re) lift_re(H + y * n, n, lo, hi, ov); else lift_std(H + y * n, n, lo, hi);
            for (int x = 0; x < nl; x++) LH[y * nl + x] = lo[x];
            for (int x = 0; x < nh; x++) HH[y * nh + x] = hi[x];
        }
        n = nl;
    }
    for (int i = 0; i < n * n; i++) out[pos + i] = cur[i];
}

inline int nib(const uint8_t *q, int i) { return (q[i / 2] >> ((i & 1) * 4)) & 15; }

// expected client coefficients of a plane (LL3 absolute, not delta coded)
// returns false when a 16-bit intermediate would not hold the value (progressive corner extremes)
inline bool expect(const uint8_t *pl, const uint8_t *q5, bool re, Coefs &out)
{
    static thread_local int c[4096];
    Ov ov;
    dwt2d(pl, re, c, ov);
    // quantiser order LL3 LH3 HL3 HH3 LH2 HL2 HH2 LH1 HL1 HH1, subbands HL1 LH1 HH1 HL2 ... LL3
    static const int qi[10] = { 8, 7, 9, 5, 4, 6, 2, 1, 3, 0 };
    static const int n_std[10] = { 1024, 1024, 1024, 256, 256, 256, 64, 64, 64, 64 };
    static const int n_re[10] = { 1023, 1023, 961, 272, 272, 256, 72, 72, 64, 81 };
    const int *nn = re ? n_re : n_std;
    int p = 0;
    for (int b = 0; b < 10; b++)
    {
        int f = nib(q5, qi[b]) - 6 + 5;
        for (int i = 0; i < nn[b]; i++, p++) out[p] = (int16_t) ((c[p] + (1 << (f - 1))) >> f);
    }
    return !ov.hit;
}

// ---- colour ----------------------------------------------------------------------------------
inline uint8_t clamp8(int v) { return v < 0 ? 0 : v > 255 ? 255 : (uint8_t) v; }
inline void rgb2yuv(int r, int g, int b, uint8_t &y, uint8_t &u, uint8_t &v)
{
    y = clamp8((r * 19595 + g * 38470 + b * 7471) >> 16);
    u = clamp8(((r * -11071 + g * -21736 + b * 32807) >> 16) + 128);
    v = clamp8(((r * 32756 + g * -27429 + b * -5327) >> 16) + 128);
}

// ---- entropy decoder ---------------------------------------------------------------------------
struct Bits
{
    const uint8_t *p; int n; long pos = 0; bool over = false;
    int bit() { long by = pos >> 3; if (by >= n) { over = true; pos++; return 0; } int b = (p[by] >> (7 - (pos & 7))) & 1; pos++; return b; }
    unsigned get(int k) { unsigned v = 0; while (k-- > 0) v = v << 1 | bit(); return v; }
};

// returns "" or an error
inline std::string rlgr_decode(int mode, const uint8_t *d, int len, int diff, Coefs &out)
{
    Bits b{ d, len };
    int k = 1, kp = 8, krp = 8, n = 0;
    auto clampp = [](int v) { return v < 0 ? 0 : v > 80 ? 80 : v; };
    auto gr = [&]() -> unsigned
    {
        int kr = krp >> 3; unsigned vk = 0;
        while (b.bit()) { vk++; if (b.over || vk > 100000) break; }
        unsigned v = (vk << kr) | b.get(kr);
        if (vk == 0) krp = clampp(krp - 2); else if (vk > 1) krp = clampp(krp + (int) vk);
        return v;
    };
    auto put = [&](int v) { if (n < 4096) out[n] = (int16_t) v; n++; };
    while (n < 4096)
    {
        if (b.over) return "entropy data ends before the tile is complete";
        if (k)
        {
            int nz = 0;
            while (!b.bit())
            {
                if (b.over) return "entropy data ends inside a zero run";
                nz += 1 << k;
                if (nz > 4096) return "zero run longer than the tile";
                kp = clampp(kp + 4); k = kp >> 3;
            }
            nz += b.get(k);
            if (n + nz > 4096) return "zero run longer than the tile";
            while (nz--) put(0);
            if (n >= 4096) break;
            int sign = b.bit();
            int mag = (int) gr() + 1;
            put(sign ? -mag : mag);
            kp = clampp(kp - 6); k = kp >> 3;
        }
        else if (mode == 1)
        {
            unsigned v = gr();
            put(v & 1 ? -(int) ((v + 1) >> 1) : (int) (v >> 1));
            kp = clampp(v ? kp - 3 : kp + 3); k = kp >> 3;
        }
        else
        {
            unsigned s = gr(), t = s; int nb = 0;
            while (t) { nb++; t >>= 1; }
            unsigned v1 = b.get(nb), v2 = s - v1;
            if (v1 > s) return "RLGR3 pair larger than its sum";
            put(v1 & 1 ? -(int) ((v1 + 1) >> 1) : (int) (v1 >> 1));
            put(v2 & 1 ? -(int) ((v2 + 1) >> 1) : (int) (v2 >> 1));
            if (v1 && v2) kp = clampp(kp - 6); else if (!v1 && !v2) kp = clampp(kp + 6);
            k = kp >> 3;
        }
    }
    if (b.over) return "entropy data ends before the tile is complete";
    for (int i = 4096 - diff + 1; i < 4096; i++) out[i] = (int16_t) (out[i] + out[i - 1]);
    return "";
}

// ---- alpha plane (RDP planar codec) --------------------------------------------------------------
// decodes 64x64 from d; used = bytes consumed
inline std::string alpha_decode(const uint8_t *d, int len, Plane &out, int &used)
{
    int p = 0;
    if (len < 1) return "no alpha data";
    int flags = d[p++];
    if (flags == 0)
    {
        if (len < 1 + 4096 + 1) return "raw alpha plane truncated";
        memcpy(out.data(), d + p, 4096);
        used = 4098;
        return "";
    }
    if (flags != 0x10) return "unknown alpha format";
    for (int y = 0; y < 64; y++)
    {
        int x = 0; uint8_t last = 0;
        while (x < 64)
        {
            if (p >= len) return "packed alpha plane truncated";
            int c = d[p++], run = c & 15, raw = c >> 4;
            if (run == 1) { run = raw + 16; raw = 0; }
            else if (run == 2) { run = raw + 32; raw = 0; }
            if (x + run + raw > 64) return "packed alpha line too long";
            if (run + raw == 0) return "packed alpha code without pixels";
            while (raw-- > 0)
            {
                if (p >= len) return "packed alpha plane truncated";
                last = d[p++];
                out[y * 64 + x++] = last;
            }
            while (run-- > 0) out[y * 64 + x++] = last;
        }
        if (y) for (x = 0; x < 64; x++)
        {
            int v = out[y * 64 + x];
            int dl = v & 1 ? -((v >> 1) + 1) : v >> 1;
            out[y * 64 + x] = (uint8_t) (out[(y - 1) * 64 + x] + dl);
        }
    }
    used = p;
    return "";
}

// ---- message parser ------------------------------------------------------------------------------
struct Tile
{
    int qi[3]; int x, y; bool diff = false;
    int off, hdr, len[4]; int blocklen;   // component lengths as stated (len[3]: alpha)
    int data;                              // offset of first component
};
struct Rect { int x, y, w, h; };
struct Msg
{
    bool pro = false, header = false, alpha = false;
    int width = -1, height = -1, hdr_et = -1, et = 0;
    uint32_t frame = 0;
    std::vector<Rect> rects; std::vector<uint8_t> quants;
    int stated_tiles = 0; uint32_t stated_size = 0;
    std::vector<Tile> tiles;
    std::vector<std::string> soft;   // inconsistencies that still leave the message readable
    std::string hard;                // unreadable
    int alpha_len_err = -1;          // index of first tile whose alpha length is not what it takes
};

struct Rd
{
    const uint8_t *d; int n;
    int u8(int o) const { return d[o]; }
    int u16(int o) const { return d[o] | d[o + 1] << 8; }
    uint32_t u32(int o) const { return d[o] | d[o + 1] << 8 | d[o + 2] << 16 | (uint32_t) d[o + 3] << 24; }
};

inline std::string num(long v) { return std::to_string(v); }

inline Msg parse(const uint8_t *d, int n, bool pro)
{
    Msg m; m.pro = pro;
    Rd r{ d, n };
    int o = 0;
    auto soft = [&](const std::string &s) { if (m.soft.size() < 8) m.soft.push_back(s); };
    auto need = [&](int k, const char *what) { if (o + k > n) { if (m.hard.empty()) m.hard = std::string("message ends inside ") + what; return false; } return true; };
    auto eqv = [&](long got, long want, const char *what) { if (got != want) soft(std::string(what) + " is " + num(got) + ", should be " + num(want)); };
    if (!need(6, "first block")) return m;
    if (r.u16(0) == 0xCCC0)
    {
        m.header = true;
        if (!need(12, "sync block")) return m;
        eqv(r.u32(o + 2), 12, "sync length"); eqv(r.u32(o + 6), 0xCACCACCAu, "sync magic"); eqv(r.u16(o + 10), 0x100, "sync version");
        o += 12;
        if (pro)
        {
            if (!need(10, "context block")) return m;
            if (r.u16(o) != 0xCCC3) { m.hard = "no context block after sync"; return m; }
            eqv(r.u32(o + 2), 10, "context length"); eqv(r.u8(o + 6), 0, "ctxId"); eqv(r.u16(o + 7), 64, "context tile size"); eqv(r.u8(o + 9), 1, "context flags");
            o += 10;
        }
        else
        {
            if (!need(13, "context block")) return m;
            if (r.u16(o) != 0xCCC3) { m.hard = "no context block after sync"; return m; }
            eqv(r.u32(o + 2), 13, "context length"); eqv(r.u8(o + 6), 1, "context codecId"); eqv(r.u8(o + 7), 255, "context channelId");
            eqv(r.u8(o + 8), 0, "ctxId"); eqv(r.u16(o + 9), 64, "context tile size");
            int pr = r.u16(o + 11);
            eqv((pr >> 3) & 3, 1, "context colour conversion"); eqv((pr >> 5) & 15, 1, "context transform"); eqv((pr >> 13) & 3, 1, "context quantisation");
            m.hdr_et = (pr >> 9) & 15;
            o += 13;
            if (!need(10, "codec versions")) return m;
            if (r.u16(o) != 0xCCC1) { m.hard = "no codec versions block"; return m; }
            eqv(r.u32(o + 2), 10, "codec versions length"); eqv(r.u8(o + 6), 1, "numCodecs"); eqv(r.u8(o + 7), 1, "codecId"); eqv(r.u16(o + 8), 0x100, "codec version");
            o += 10;
            if (!need(12, "channels")) return m;
            if (r.u16(o) != 0xCCC2) { m.hard = "no channels block"; return m; }
            eqv(r.u32(o + 2), 12, "channels length"); eqv(r.u8(o + 6), 1, "numChannels"); eqv(r.u8(o + 7), 0, "channelId");
            m.width = r.u16(o + 8); m.height = r.u16(o + 10);
            o += 12;
        }
    }
    int fend;
    if (pro)
    {
        if (!need(12, "frame begin")) return m;
        if (r.u16(o) != 0xCCC1) { m.hard = "no frame begin block"; return m; }
        eqv(r.u32(o + 2), 12, "frame begin length"); m.frame = r.u32(o + 6); eqv(r.u16(o + 10), 1, "numRegions");
        o += 12;
        if (!need(18, "region")) return m;
        if (r.u16(o) != 0xCCC4) { m.hard = "no region block"; return m; }
        int start = o; uint32_t blen = r.u32(o + 2);
        eqv(r.u8(o + 6), 64, "region tile size");
        int nr = r.u16(o + 7), nq = r.u8(o + 9);
        eqv(r.u8(o + 10), 0, "numProgQuant"); eqv(r.u8(o + 11), 1, "region flags");
        m.stated_tiles = r.u16(o + 12); m.stated_size = r.u32(o + 14);
        o += 18;
        if (!need(nr * 8, "region rectangles")) return m;
        for (int i = 0; i < nr; i++, o += 8) m.rects.push_back({ r.u16(o), r.u16(o + 2), r.u16(o + 4), r.u16(o + 6) });
        if (!need(nq * 5, "quantiser table")) return m;
        m.quants.assign(d + o, d + o + nq * 5); o += nq * 5;
        int ts = o;
        while (o + 6 <= n && r.u16(o) == 0xCCC5)
        {
            Tile t;
            if (!need(22, "tile header")) return m;
            t.off = o; t.hdr = 22; t.blocklen = r.u32(o + 2);
            t.qi[0] = r.u8(o + 6); t.qi[1] = r.u8(o + 7); t.qi[2] = r.u8(o + 8);
            t.x = r.u16(o + 9); t.y = r.u16(o + 11);
            int fl = r.u8(o + 13); t.diff = fl & 1;
            if (fl & ~1) soft("tile flags " + num(fl));
            for (int i = 0; i < 3; i++) t.len[i] = r.u16(o + 14 + 2 * i);
            t.len[3] = 0;
            int tail = r.u16(o + 20);
            int sum = 22 + t.len[0] + t.len[1] + t.len[2] + tail;
            if (t.blocklen != sum) soft("tile block length " + num(t.blocklen) + " but its parts take " + num(sum));
            if (!need(sum, "tile")) return m;
            t.data = o + 22;
            m.tiles.push_back(t); o += sum;
        }
        eqv((long) m.stated_size, o - ts, "tile data size"); eqv((long) blen, o - start, "region block length");
        if (!need(6, "frame end")) return m;
        if (r.u16(o) != 0xCCC2) { m.hard = "no frame end block where the tiles end"; return m; }
        eqv(r.u32(o + 2), 6, "frame end length");
        fend = o + 6;
    }
    else
    {
        if (!need(14, "frame begin")) return m;
        if (r.u16(o) != 0xCCC4) { m.hard = "no frame begin block"; return m; }
        eqv(r.u32(o + 2), 14, "frame begin length"); eqv(r.u8(o + 6), 1, "frame begin codecId"); eqv(r.u8(o + 7), 0, "frame begin channelId");
        m.frame = r.u32(o + 8); eqv(r.u16(o + 12), 1, "numRegions");
        o += 14;
        if (!need(15, "region")) return m;
        if (r.u16(o) != 0xCCC6) { m.hard = "no region block"; return m; }
        int nr = r.u16(o + 9);
        eqv(r.u32(o + 2), 15 + 8 * nr, "region length"); eqv(r.u8(o + 6), 1, "region codecId"); eqv(r.u8(o + 7), 0, "region channelId"); eqv(r.u8(o + 8) & 1, 1, "regionFlags");
        if (!need(15 + 8 * nr, "region")) return m;
        o += 11;
        for (int i = 0; i < nr; i++, o += 8) m.rects.push_back({ r.u16(o), r.u16(o + 2), r.u16(o + 4), r.u16(o + 6) });
        eqv(r.u16(o), 0xCAC1, "regionType"); eqv(r.u16(o + 2), 1, "numTilesets");
        o += 4;
        if (!need(22, "tile set")) return m;
        int bt = r.u16(o);
        if (bt != 0xCCC7 && bt != 0xDDD7) { m.hard = "no tile set block"; return m; }
        m.alpha = bt == 0xDDD7;
        int start = o; uint32_t blen = r.u32(o + 2);
        eqv(r.u8(o + 6), 1, "tile set codecId"); eqv(r.u8(o + 7), 0, "tile set channelId"); eqv(r.u16(o + 8), 0xCAC2, "tile set subtype"); eqv(r.u16(o + 10), 0, "tile set idx");
        int pr = r.u16(o + 12);
        eqv(pr & 1, 1, "tile set lt"); eqv((pr >> 4) & 3, 1, "tile set colour conversion"); eqv((pr >> 6) & 15, 1, "tile set transform"); eqv((pr >> 14) & 3, 1, "tile set quantisation");
        m.et = (pr >> 10) & 15;
        int nq = r.u8(o + 14); eqv(r.u8(o + 15), 64, "tile set tile size");
        m.stated_tiles = r.u16(o + 16); m.stated_size = r.u32(o + 18);
        o += 22;
        if (!need(nq * 5, "quantiser table")) return m;
        m.quants.assign(d + o, d + o + nq * 5); o += nq * 5;
        int ts = o, hdr = m.alpha ? 21 : 19;
        while (o + 6 <= n && r.u16(o) == 0xCAC3)
        {
            Tile t;
            if (!need(hdr, "tile header")) return m;
            t.off = o; t.hdr = hdr; t.blocklen = r.u32(o + 2);
            t.qi[0] = r.u8(o + 6); t.qi[1] = r.u8(o + 7); t.qi[2] = r.u8(o + 8);
            t.x = r.u16(o + 9); t.y = r.u16(o + 11);
            for (int i = 0; i < (m.alpha ? 4 : 3); i++) t.len[i] = r.u16(o + 13 + 2 * i);
            if (!m.alpha) t.len[3] = 0;
            t.data = o + hdr;
            int take = t.len[3];
            if (m.alpha)
            {
                int ao = t.data + t.len[0] + t.len[1] + t.len[2], used = 0; Plane tmp;
                if (ao > n) { m.hard = "tile alpha outside the message"; return m; }
                std::string e = alpha_decode(d + ao, n - ao, tmp, used);
                if (!e.empty()) { m.hard = "tile " + num((long) m.tiles.size()) + ": " + e; return m; }
                if (used != t.len[3])
                {
                    soft("alpha length " + num(t.len[3]) + " but the plane takes " + num(used));
                    if (m.alpha_len_err < 0) m.alpha_len_err = (int) m.tiles.size();
                    take = used;
                }
            }
            int sum = hdr + t.len[0] + t.len[1] + t.len[2] + take;
            if (t.blocklen != sum) soft("tile block length " + num(t.blocklen) + " but its parts take " + num(sum));
            if (!need(sum, "tile")) return m;
            m.tiles.push_back(t); o += sum;
        }
        eqv((long) m.stated_size, o - ts, "tile data size"); eqv((long) blen, o - start, "tile set block length");
        if (!need(8, "frame end")) return m;
        if (r.u16(o) != 0xCCC5) { m.hard = "no frame end block where the tiles end"; return m; }
        eqv(r.u32(o + 2), 8, "frame end length"); eqv(r.u8(o + 6), 1, "frame end codecId"); eqv(r.u8(o + 7), 0, "frame end channelId");
        fend = o + 8;
    }
    eqv(m.stated_tiles, (long) m.tiles.size(), "stated number of tiles");
    if (fend != n) soft("reported length " + num(n) + " but the last block ends at " + num(fend));
    return m;
}

} // namespace model
