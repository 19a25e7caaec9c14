// Seeded plan generator: one (property, seed, index) is one plan. Swarm style: every run draws its
// own subset of fault kinds, sizes and workload mix.
#pragma once
#include <algorithm>
#include "plan.hpp"
#include "rfxcodec_encode.h"

struct Gen
{
    Rng r; std::string prop; bool thorough;
    Rng x;                    // second stream, for what was added later
    int pickx(std::initializer_list<int> l) { return *(l.begin() + x.below((int) l.size())); }
    Plan P;
    // swarm knobs of this run
    double p_cap = 0, p_af = 0, p_bad = 0, p_key = 0, p_crash = 0, p_alpha = 0, p_giveup = 0.15, p_recreate = 0.03, p_null = 0.15, p_same = 0.2, p_partial = 0.5, p_empty = 0.03;
    int contentbias = 0;      // 0 mix, 1 flat/low, 2 noise
    int quantbias = 0;
    int maxtiles = 8;
    int same_fmt = -1, same_fl = 0;   // threads: every handle of the same kind
    bool worst = false;       // largest possible tiles against the least accepted capacities
    struct HS { int fmt = 4, fl = 0, w = 64, ht = 64; bool pro = false; std::vector<std::pair<int, int>> pool; std::map<std::pair<int, int>, std::string> last; std::string lastq; };
    std::map<int, HS> hs;

    Gen(const std::string &p, uint64_t seed, uint64_t idx, bool th) : r(mix(mix(seed, fnvs(p)), idx * 2654435761u + 17)), prop(p), thorough(th), x(mix(r.s, 4711)) {}
    static uint64_t fnvs(const std::string &s) { uint64_t h = 1469598103934665603ull; for (char c : s) h = (h ^ (uint8_t) c) * 1099511628211ull; return h; }
    bool is(const char *p) const { return prop == p; }
    template <class T> T pick(std::initializer_list<T> l) { auto it = l.begin(); std::advance(it, r.below((int) l.size())); return *it; }

    std::string fresh_content()
    {
        static const char all[] = "nbgcsthvlrmkwzdpfnnlltA";
        char k = all[r.below((int) sizeof(all) - 1)];
        if (contentbias == 3 && r.p(0.9)) k = 'X';
        if (contentbias == 1 && r.p(0.8)) k = "flzdgk"[r.below(6)];
        if (contentbias == 2 && r.p(0.8)) k = "nnbmAX"[r.below(6)];
        return std::string(1, k) + "." + std::to_string(r.below(1000000));
    }
    std::string next_content(HS &h, std::pair<int, int> pos)
    {
        std::string &l = h.last[pos];
        double u = (r.next() >> 11) * (1.0 / 9007199254740992.0);
        if (l.empty() || u > p_same + 0.5) l = fresh_content();
        else if (u > p_same)
        {
            if (std::count(l.begin(), l.end(), '~') >= 5) l = fresh_content();
            else l += std::string("~") + "ppqqiaus"[r.below(8)] + "." + std::to_string(r.below(100000));
        }
        return l;
    }
    std::string make_q(int &nq, int force = 0)
    {
        if (!force && r.p(p_null)) { nq = 1; return "-"; }
        int d = r.below(20);
        nq = d < 9 ? 1 : d < 16 ? r.range(2, 4) : d < 19 ? r.range(3, 20) : pick({ 255, 254, 128, 127, 33 });
        if (force) nq = force;
        std::string s; char b[4];
        for (int i = 0; i < nq; i++)
        {
            int st = quantbias ? quantbias : r.below(7);
            int base = r.range(6, 12);
            for (int k = 0; k < 5; k++)
            {
                int a, c;
                switch (st)
                {
                    case 1: a = c = 6; break;
                    case 2: a = c = 15; break;
                    case 3: a = r.range(6, 15); c = r.range(6, 15); break;
                    case 4: a = std::min(15, base + k / 2); c = std::min(15, base + k / 2); break;
                    case 5: a = r.range(6, 8); c = r.range(6, 8); break;
                    case 6: a = r.p(0.5) ? 6 : 15; c = r.p(0.5) ? 6 : 15; break;
                    default: { static const int dq[5] = { 0x66, 0x66, 0x77, 0x88, 0x98 }; a = dq[k] & 15; c = dq[k] >> 4; break; }
                }
                snprintf(b, sizeof(b), "%02x", a | c << 4); s += b;
            }
        }
        return s;
    }
    void make_pool(HS &h)
    {
        int n = r.p(0.3) ? 1 : r.p(0.6) ? r.range(2, 6) : r.range(4, 24);
        h.pool.clear();
        int x = 0, y = 0;
        bool yuv = h.fmt == RFX_FORMAT_YUV;
        for (int i = 0; i < n; i++)
        {
            int m = r.below(8);
            if (h.pro)
            {
                if (m == 0) { x = r.below(64); y = r.below(64); }
                else if (m == 1) std::swap(x, y);
                else if (m == 2) x = (x + 32) & 63;
                else if (m == 3) y = (y + 32) & 63;
                else if (m == 4) { x = pick({ 0, 63, 62, 1, 31, 32 }); }
                else if (m == 5) { y = pick({ 0, 63, 62, 1, 31, 32 }); }
                else if (m == 6) { x = (x + 1) & 63; if (!x) y = (y + 1) & 63; }
                else { x = r.below(64); y = r.below(64); }
                h.pool.push_back({ x * 64, y * 64 });
            }
            else if (yuv)
            {
                if (m < 5) { x = r.below(40); y = r.below(40); }
                else if (m == 5) { x = pick({ 255, 256, 300, 511 }); y = 0; }
                else if (m == 6) { x = 0; y = pick({ 255, 256, 257, 300 }); }
                else { x = r.below(4); y = r.below(4); }
                h.pool.push_back({ x * 64, y * 64 });
            }
            else
            {
                if (m < 6) { x = r.below(12); y = r.below(12); }
                else if (m == 6) { x = pick({ 255, 256, 260 }); y = 0; }
                else { x = 0; y = pick({ 255, 256, 258 }); }
                if (x > 100 && y > 20) y = 0;
                h.pool.push_back({ x * 64, y * 64 });
            }
        }
        // wide and tall pictures together would need too much memory
        int mx = 0, my = 0; for (auto &q : h.pool) { mx = std::max(mx, q.first / 64); my = std::max(my, q.second / 64); }
        if ((long) (mx + 1) * (my + 1) > 3000) for (auto &q : h.pool) { if (q.first / 64 > 60 || q.second / 64 > 60) q = { (q.first / 64 % 40) * 64, (q.second / 64 % 40) * 64 }; }
    }
    int cap_small() { return r.p(0.5) ? r.below(130) : r.p(0.5) ? r.below(1000) : r.below(30000); }
    Cap make_cap(const HS &h, int ntiles, int nreg, int nq)
    {
        Cap c;
        if (r.p(0.04)) { c.kind = 'R'; c.d = r.p(0.5) ? 0 : r.below(200); return c; }
        if (r.p(worst ? 0.7 : h.pro ? 0.03 : 0.12)) { c.kind = 'm'; c.k = r.below(std::min(ntiles, worst ? 2 : 4)); c.d = r.p(0.5) ? r.range(0, 4) : r.range(-4, 40); return c; }
        int hdr = h.pro ? 22 + 12 + 18 + 6 : 47 + 14 + 15 + 22 + 8;
        int m = r.below(20);
        if (m < 2) { c.kind = 'A'; c.d = r.below(h.pro ? 90 : 150); }
        else if (m == 2) { c.kind = 'A'; c.d = std::max(0, hdr + 8 * nreg + 5 * nq + r.range(-40, 60)); }
        else if (m == 3) { c.kind = 'A'; c.d = r.below(3000); }
        else if (m == 4) { c.kind = 'A'; c.d = r.below(30000); }
        else if (m == 5) { c.kind = 'A'; c.d = r.below(100000); }
        else if (m < 9) { c.kind = 'e'; c.k = r.below(ntiles); c.d = r.range(-9, 9); }
        else if (m < 12) { c.kind = 'e'; c.k = r.below(ntiles); c.d = pick({ 6, 8, 5, 7, 0, 28, 27, 29, 22, 21 }); }
        else if (m < 14) { c.kind = 't'; c.k = r.below(ntiles); c.d = r.range(0, 40); }
        else if (m < 17) { c.kind = 'c'; c.k = r.below(ntiles); c.j = r.below(4); c.d = r.range(-3, 30); }
        else { c.kind = 'c'; c.k = r.below(ntiles); c.j = r.below(4); c.d = r.range(-3, 3000); }
        if (!h.pro && (c.kind != 'A' ? r.p(0.75) : r.p(0.3)))
        {
            // the standard encoder keeps a reserve of a worst-case tile; aim around it
            c.d += 24595 + (r.p(0.5) ? r.range(-3, 3) : r.range(-40, 40));
        }
        return c;
    }
    void bad_tile(TileReq &t, int nq)
    {
        t.bad = 1;
        static const int bx[] = { 64 * 64, 64 * 64 + 1, -64, -65, 64 * 65536, 64 * 65536 + 3 * 64, 0x7fffffc0, 64 * 64 + 64 * 63, 64 * 255, 64 * 256, 64 * 65535, -64 * 65536, (int) 0x80000000u, 64 * 128, 64 * 65536 + 64 * 64 };
        static const int dq[] = { 0, 1, 255, 256, -1, -256, 512, 65536, 0x7fffffff, -2 };
        int m = r.below(5);
        if (m == 0) t.x = bx[r.below(15)];
        else if (m == 1) t.y = bx[r.below(15)];
        else
        {
            int k = r.below(3), v = dq[r.below(10)];
            if (v == 0 || v == 1) v = nq + v;
            else if (v == 255 && nq >= 256) v = 256;
            else if (r.p(0.3)) v = 256 + r.below(nq);
            if (v >= 0 && v < nq) v = nq;
            t.q[k] = v;
        }
    }
    void add_create(int h, bool retry_bad)
    {
        HS s;
        double ppro = 0.5;
        if (is("C01") || is("C11")) ppro = 1;
        if (is("C12") || is("C13")) ppro = 0;
        if (is("C15") || is("C18")) ppro = 0.85;
        if (is("C02") || is("C03")) ppro = 0.4;
        if (worst) ppro = 0.15;
        s.pro = r.p(ppro);
        s.fmt = s.pro ? RFX_FORMAT_YUV : r.p(0.25) ? RFX_FORMAT_YUV : r.below(5);
        s.fl = s.pro ? RFX_FLAGS_PRO1 : 0;
        if (r.p(0.5)) s.fl |= RFX_FLAGS_RLGR1;
        if (r.p(is("C09") ? 0.5 : 0.25)) s.fl |= RFX_FLAGS_NOACCEL;
        if (r.p(0.1)) s.fl |= pick({ RFX_FLAGS_OPT1, RFX_FLAGS_OPT2, RFX_FLAGS_OPT1 | RFX_FLAGS_OPT2 });
        if (same_fmt >= 0) { s.fmt = same_fmt; s.fl = same_fl; s.pro = s.fl & RFX_FLAGS_PRO1; }
        s.w = r.p(0.3) ? pick({ 1, 64, 255, 256, 1920, 3840, 16384, 32767, 32768, 40000, 65535 }) : r.range(1, 4096);
        s.ht = r.p(0.3) ? pick({ 1, 64, 255, 256, 1080, 2160, 16384, 32767, 32768, 40000, 65535 }) : r.range(1, 4096);
        if (retry_bad && r.p(0.5))
        {
            Op b; b.type = "create"; b.set("h", h); b.set("fmt", pick({ 5, -1, 6, 255, 100, 256, 65536, -2147483647 - 1 })); b.set("fl", s.fl); b.set("w", s.w); b.set("ht", s.ht); b.set("ex", r.below(2));
            if (x.p(0.6)) b.set("fmt", x.p(0.6) ? x.range(5, 64) : x.p(0.5) ? (1 << x.range(3, 30)) + x.range(0, 4) : x.p(0.5) ? -x.range(1, 40) : x.range(65, 100000));
            if (r.p(0.1)) b.set("af", 1);
            P.ops.push_back(b);
        }
        if (r.p(p_af))
        {
            Op b; b.type = "create"; b.set("h", h); b.set("fmt", s.fmt); b.set("fl", s.fl); b.set("w", s.w); b.set("ht", s.ht); b.set("af", pick({ 1, 1, 1, -1, 2, 3, 4 })); b.set("ex", r.below(2));
            P.ops.push_back(b);
        }
        Op c; c.type = "create"; c.set("h", h); c.set("fmt", s.fmt); c.set("fl", s.fl); c.set("w", s.w); c.set("ht", s.ht); c.set("ex", r.below(4) ? 1 : 0);
        P.ops.push_back(c);
        make_pool(s);
        hs[h] = s;
    }
    void add_frame(int hi, bool faults)
    {
        HS &h = hs[hi];
        Op f; f.type = "frame"; f.set("h", hi);
        int nt = r.p(0.25) ? 1 : r.range(1, maxtiles);
        if (r.p(0.02)) nt = r.range(20, 70);
        if (r.p(thorough ? 0.004 : 0.0015)) nt = r.range(200, 330);
        int nreg = r.p(0.5) ? 1 : r.p(0.7) ? r.below(12) : r.p(0.8) ? r.below(200) : r.below(5000);
        if (nt > 100) nreg = std::min(nreg, 50);
        // counts at and beyond what the message format can express
        double pm = is("C03") || is("C05") || is("C15") ? 0.006 : 0.001;
        if (r.p(pm)) nreg = faults ? pick({ 255, 256, 32767, 32768, 65535, 65536, 65537, 70000, 131072, 200000 }) : pick({ 256, 32768, 65535 });
        f.set("reg", nreg); f.set("rs", r.below(100000));
        int nq = 1; std::string q;
        if (!h.lastq.empty() && r.p(0.6)) { q = h.lastq; nq = q == "-" ? 1 : (int) q.size() / 10; }
        else q = make_q(nq);
        h.lastq = q;
        if (faults && r.p(pm)) q = make_q(nq, pick({ 256, 257, 300, 511, 512 }));
        if (r.p(0.12)) { f.set("cw", r.p(0.5) ? r.range(1, 4096) : pick({ 1, 63, 64, 65, 65535, 65536 })); f.set("ch", r.p(0.5) ? r.range(1, 4096) : pick({ 1, 63, 64, 65, 65535, 65536 })); }
        f.a["q"] = q;
        bool key = h.pro && r.p(p_key), alpha = !h.pro && r.p(p_alpha);
        f.set("fl", (key ? RFX_FLAGS_PRO_KEY : 0) | (alpha ? RFX_FLAGS_ALPHAV1 : 0));
        if (key && r.p(0.25)) f.set("ka", 1);
        if (r.p(0.04)) f.set("xfl", RFX_FLAGS_PRO_KEY | RFX_FLAGS_ALPHAV1);
        if (!key && !alpha && r.p(0.3)) f.set("ex", 0);
        bool yuv = h.fmt == RFX_FORMAT_YUV;
        bool grid = h.pro && nt > 100;
        if (q == "-" && r.p(0.2)) f.set("nqc", pick({ 1, 2, 7, 255 }));
        for (int i = 0; i < nt; i++)
        {
            TileReq t;
            auto pos = grid ? std::make_pair((i % 64) * 64, (i / 64 + 7) * 64) : h.pool[r.below((int) h.pool.size())];
            t.x = pos.first; t.y = pos.second;
            if (!yuv && r.p(0.02)) { /* unaligned origin is not part of the protocol; keep to the grid */ }
            if (!yuv && r.p(p_partial)) { t.cx = r.p(0.3) ? pick({ 1, 2, 63, 62, 33, 32 }) : r.range(1, 64); }
            if (!yuv && r.p(p_partial)) { t.cy = r.p(0.3) ? pick({ 1, 2, 63, 62, 33, 32 }) : r.range(1, 64); }
            // planar tiles at the edge may declare less than 64 x 64 (the caller has filled them up)
            if (yuv && x.p(p_partial * 0.3)) { t.cx = x.p(0.4) ? pickx({ 1, 2, 16, 32, 33, 62, 63 }) : x.range(1, 64); t.cy = x.p(0.4) ? 64 : x.p(0.4) ? pickx({ 1, 2, 16, 32, 33, 62, 63 }) : x.range(1, 64); if (x.p(0.2)) std::swap(t.cx, t.cy); }
            for (auto &k : t.q) k = r.p(0.3) ? 0 : r.below(nq);
            t.content = nt > 100 ? fresh_content() : next_content(h, pos);
            f.tiles.push_back(t);
        }
        if (!yuv)
        {
            // overlapping requests with different content for one position cannot be one picture: keep first content
            std::map<std::pair<int, int>, TileReq> seen;
            for (auto &t : f.tiles)
            {
                auto k = std::make_pair(t.x, t.y);
                if (seen.count(k)) { t.content = seen[k].content; }
                else seen[k] = t;
            }
            f.set("pad", r.p(0.5) ? 0 : r.p(0.5) ? r.below(16) : r.below(300));
        }
        else
        {
            std::map<std::pair<int, int>, TileReq> seen;
            for (auto &t : f.tiles) { auto k = std::make_pair(t.x, t.y); if (seen.count(k)) { t.content = seen[k].content; t.cx = seen[k].cx; t.cy = seen[k].cy; } else seen[k] = t; }
            int mx = 1; for (auto &t : f.tiles) mx = std::max(mx, t.x / 64 + 1);
            if (r.p(0.4)) f.set("tpr", mx + r.below(5));
        }
        // a picture far larger than what is requested of it: offsets up to what an int can say
        if (!is("C09") && !is("C10") && P.e("host", 0) < 6 && !P.e("clang", 0) && nt < 40 && x.p(0.02))
        {
            int my = 1; for (auto &t : f.tiles) my = std::max(my, t.y + 64);
            double u = x.p(0.5) ? 1.0 : 0.05 + 0.95 * (x.below(1000) / 1000.0);
            if (yuv) f.set("tpr", (long) std::max(1.0, (131072 - 1) / (my / 64) * u)); else f.set("far", (long) std::min(2.0e9 / my, 2.0e9) * u);
        }
        if (faults && h.pro && r.p(p_bad))
        {
            int n = r.p(0.7) ? 1 : 2;
            while (n--)
            {
                TileReq t = f.tiles[r.below((int) f.tiles.size())];
                if (t.bad) continue;
                bad_tile(t, nq);
                int at = r.p(0.4) ? (int) f.tiles.size() : r.below((int) f.tiles.size() + 1);
                f.tiles.insert(f.tiles.begin() + at, t);
            }
        }
        // a call without any tile delivers nothing and must leave no trace
        if (faults && r.p(p_empty)) f.tiles.clear();
        if (faults)
        {
            int n = 0;
            if (r.p(p_cap)) n = r.p(0.5) ? 1 : r.range(1, 5);
            for (int i = 0; i < n; i++)
            {
                Cap c = make_cap(h, std::max(1, nt), nreg, nq);
                if (r.p(0.15)) { c = Cap(); c.d = r.below(2000); }
                if (nt > 30 && c.kind != 'A' && c.kind != 'F' && i > 1) { c = Cap(); }
                if (r.p(p_af)) c.af = pick({ 1, 1, 1, 2, 2, 3, 4, 5, -1, -1 });
                f.caps.push_back(c);
            }
            if (!n && r.p(p_af)) { Cap c; c.af = pick({ 1, 1, 1, 2, 2, 3, 4, 5, 6, 7, -1, -1 }); f.caps.push_back(c); if (r.p(0.2)) f.caps.push_back(c); }
            if (r.p(p_giveup) && !f.caps.empty()) f.a["pol"] = "o";
            // a capacity as large as an int can say
            if (P.env["mode"] == "seq" && P.e("host", 0) < 6 && r.p(is("C06") || is("C02") ? 0.015 : 0.004))
            {
                Cap c; c.kind = 'A'; c.d = r.p(0.4) ? 0x7fffffff - (r.p(0.5) ? 0 : r.below(40)) : r.p(0.5) ? pick({ 1 << 28, 1 << 29, 1 << 30, 3 << 29, 1 << 27 }) + r.range(-2, 2) : r.range(40000000, 2000000000);
                f.caps.insert(f.caps.begin(), c);
            }
        }
        P.ops.push_back(f);
    }
    void env()
    {
        P.eset("fill", pick({ 0xA5, 0, 0xff, 0x100, 0x5a })); P.eset("hfill", pick({ 0x5a, 0, 0xff, 0xA5 }));
        P.eset("hoff", r.below(2));
        if (r.p(0.3)) P.eset("hreuse", 1);
        P.eset("place", r.p(is("C02") ? 0.15 : 0.4) ? 1 : 0);
        int outal = r.below(64);
        P.eset("outal", outal);
        if (outal & 2) P.eset("halign", 8);   // 32-bit hosts only: malloc promises 8 bytes there
        P.eset("inal", r.p(0.6) ? 0 : 16 * r.below(4));
        P.eset("stack", r.p(0.5) ? r.below(256) : 0);
        P.eset("stdout", r.p(0.2));
        P.eset("lat", pick({ 1, 5, 50, 500 }));
        // which build and CPU the library under test runs on in this run
        P.eset("host", r.p(0.3) ? 0 : r.p(0.8) ? r.below(6) : r.range(6, 9));
        if (r.p(0.15)) P.eset("clang", 1);
        P.eset("cpux", r.below(4));
        if (r.p(is("C06") ? 0.5 : 0.15)) P.eset("tight", 1);
        if (r.p(0.15)) { P.eset("noise", 1); P.eset("noiseseed", r.below(100000)); }
    }
    void swarm()
    {
        p_cap = r.p(0.75) ? pick({ 0.2, 0.5, 0.9 }) : 0;
        p_af = r.p(0.4) ? pick({ 0.1, 0.4 }) : 0;
        p_bad = r.p(0.4) ? pick({ 0.1, 0.35 }) : 0;
        p_key = r.p(0.6) ? pick({ 0.1, 0.3, 0.6 }) : 0;
        p_crash = r.p(0.4) ? pick({ 0.1, 0.3 }) : 0;
        p_alpha = r.p(0.6) ? pick({ 0.3, 1.0 }) : 0;
        p_same = pick({ 0.05, 0.2, 0.4 });
        p_null = pick({ 0.0, 0.15, 0.7 });
        p_partial = pick({ 0.1, 0.5, 0.9 });
        contentbias = r.p(0.5) ? 0 : r.range(1, 2);
        quantbias = r.p(0.5) ? 0 : r.range(1, 6);
        maxtiles = pick({ 1, 3, 6, 6, 12 });
        // per property emphasis
        if (is("C02")) { p_cap = std::max(p_cap, 0.6); p_alpha = pick({ 0.0, 0.5, 1.0 }); }
        if ((is("C02") && r.p(0.2)) || (is("C06") && r.p(0.1)))
        {
            worst = true; contentbias = 3; quantbias = 1; p_null = 0; p_alpha = 1; p_partial = 0; p_cap = 1; p_af = 0;
            maxtiles = pick({ 1, 2, 3 });
        }
        if (is("C03")) { p_cap = std::max(p_cap, 0.3); }
        if (is("C04")) { p_cap = pick({ 0.3, 0.6 }); maxtiles = pick({ 1, 2, 4 }); }
        if (is("C05")) { p_cap = pick({ 0.6, 0.9 }); maxtiles = pick({ 3, 6, 12, 16 }); p_giveup = 0.02; }
        if (is("C06") && !worst) { p_cap = pick({ 0.3, 0.6 }); contentbias = r.p(0.5) ? 2 : r.below(3); quantbias = r.p(0.5) ? 1 : r.below(7); }
        if (is("C07")) { p_af = pick({ 0.2, 0.5, 0.8 }); p_cap = r.p(0.5) ? p_cap : 0; p_bad = 0; p_recreate = 0.1; }
        if (is("C08")) { p_recreate = pick({ 0.05, 0.3 }); p_key = pick({ 0.1, 0.5 }); }
        if (is("C11")) { p_key = pick({ 0.2, 0.4, 0.7 }); p_crash = pick({ 0.15, 0.4 }); }
        if (is("C12")) { p_af = 0; p_bad = 0; }
        if (is("C13")) { p_alpha = pick({ 0.7, 1.0 }); p_af = 0; p_bad = 0; }
        if (is("C15")) { p_bad = pick({ 0.3, 0.6 }); p_cap = r.p(0.6) ? pick({ 0.2, 0.5 }) : 0; }
        if (is("C09")) { p_bad = 0; p_cap = pick({ 0.0, 0.3 }); p_crash = 0; p_recreate = pick({ 0.0, 0.2 }); maxtiles = 3; }
        if (is("C10") || is("C14")) { p_crash = 0; }
        if (is("C18")) { p_same = pick({ 0.2, 0.4, 0.5 }); p_af /= 2; p_bad = 0; p_key = r.p(0.4) ? 0.1 : 0; p_alpha = pick({ 0.5, 1.0 }); p_giveup = 0.05; p_crash = 0; }
    }
    int nframes() { return thorough && r.p(0.1) ? r.range(12, 40) : r.p(0.7) ? r.range(2, 8) : r.range(6, 16); }

    Plan make()
    {
        swarm();
        env();
        if (x.p(is("C14") ? 0.04 : is("C09") ? 0.03 : is("C10") ? 0 : 0.003) && P.e("host", 0) < (is("C09") ? 99 : 6))
            P.eset(is("C14") ? "b_churn" : "churn", x.p(0.03) ? pickx({ 65535, 32767 }) - x.below(3) : x.p(0.85) ? pickx({ 63, 127, 255, 255, 255, 511, 1023 }) - x.below(3) : x.range(1, 2100));
        if (is("C09")) return threads();
        P.env["mode"] = is("C10") ? "hosts" : is("C14") ? "envs" : "seq";
        if (is("C14"))
        {
            Gen o(prop, r.next(), 1, thorough); o.env();
            P.eset("b_hreuse", o.r.p(0.4));
            for (auto &kv : o.P.env) if (kv.first != "host" && kv.first != "tight") P.env["b_" + kv.first] = kv.second;
            P.eset("b_inal", o.r.p(0.5) ? 16 * o.r.below(4) : o.r.below(64)); P.eset("b_noise", o.r.p(0.5)); P.eset("b_noiseseed", o.r.below(10000));
            if (!P.env.count("noise")) P.eset("noise", 0);
            if (!P.env.count("b_halign")) P.eset("b_halign", 16);
            int clk = o.r.below(1000000000); P.eset("b_clock", clk); P.eset("b_envv", clk % 4); P.eset("b_rand", o.r.below(1000000000));
            P.eset("b_hgap", o.r.below(64));
        }
        if ((is("C04") || is("C08")) && r.p(thorough ? 0.006 : 0.004)) { haul(); return P; }
        if (r.p(is("C11") ? 0.008 : 0.005)) { longrun(0); return P; }
        if (r.p(0.02)) { longrun(pick({ 24, 40, 50, 70, 140 })); return P; }
        if ((is("C03") || is("C05") || is("C02")) && x.p(is("C03") ? 0.0008 : 0.0003)) { bulk(); return P; }
        if ((is("C03") || is("C05")) && r.p(0.0006)) { crowd(false); return P; }
        if ((is("C11") || is("C01") || is("C04") || is("C07") || is("C08") || is("C15")) && r.p(is("C11") ? 0.003 : 0.0008)) { storm(); return P; }
        if (!is("C10") && !is("C14") && r.p(is("C05") || is("C06") ? 0.004 : 0.0006)) { crowd(true); return P; }
        if (!is("C10") && !is("C14") && r.p(is("C12") || is("C13") ? 0.0005 : 0.0015)) { grid(); return P; }
        if (!is("C10") && r.p(is("C08") || is("C14") ? 0.006 : 0.002)) { herd(); return P; }
        if (is("C02") && r.p(0.25)) { comps(); return P; }
        if (is("C10") && r.p(0.12)) { comps(); return P; }
        int nh = r.p(0.75) ? 1 : r.range(2, 3);
        for (int h = 0; h < nh; h++) add_create(h, is("C15") || r.p(0.05));
        int n = nframes();
        if (nh > 1) n += 2;
        for (int i = 0; i < n; i++)
        {
            int h = r.below(nh);
            if (r.p(p_recreate))
            {
                if (r.p(0.5)) { Op d; d.type = "destroy"; d.set("h", h); P.ops.push_back(d); }
                add_create(h, is("C15"));
            }
            if (r.p(0.02)) { Op d; d.type = "nulldestroy"; P.ops.push_back(d); }
            if (r.p(p_crash) && hs[h].pro) { Op c; c.type = "crash"; c.set("h", h); c.set("dt", r.below(60)); P.ops.push_back(c); }
            if (r.p(0.05)) { Op c; c.type = "wait"; c.set("ms", r.below(2000)); P.ops.push_back(c); }
            // mixed sizes on one handle
            if (r.p(0.1)) make_pool(hs[h]);
            add_frame(h, true);
        }
        // faults stop: the system must work again
        double k = p_key; p_key = std::min(k, 0.2);
        int tail = r.range(1, 2);
        for (int i = 0; i < tail; i++) add_frame(r.below(nh), false);
        return P;
    }
    // several hundred small frames with every oracle on: counters that wrap early, slow accumulation
    void longrun(int n)
    {
        maxtiles = 1; contentbias = 1; quantbias = 0; p_null = 0.7; p_recreate = 0; p_af /= 4; p_cap /= 4; p_bad /= 4; p_crash /= 4;
        if (r.p(0.3)) p_cap = p_af = p_bad = p_crash = 0;
        p_empty = r.p(0.5) ? 0 : 0.005;
        if (r.p(0.5)) p_key = pick({ 0.0, 0.0, 0.01, 0.9 });
        add_create(0, false);
        HS &h = hs[0];
        h.pool.resize(std::min<size_t>(h.pool.size(), r.range(1, 2)));
        if (!n) n = r.p(0.85) ? pick({ 140, 270, 300, 530 }) : r.p(0.8) ? 1100 : 4200;
        // the place of work may move on now and then, to positions never used before
        int wander = r.p(0.6) ? r.range(2, 40) : 0;
        // one event exactly where a counter of frames rolls over, in an otherwise undisturbed stream
        int evat = r.p(is("C11") ? 0.6 : 0.4) ? (n < 200 ? pick({ 15, 16, 31, 32, 63, 64, 127, 128 }) : pick({ 255, 255, 255, 256, 256, 127, 63, 511, 512 })) + (r.p(0.7) ? 0 : r.range(-1, 1)) : -1;
        int evkind = r.p(is("C11") ? 0.8 : 0.5) ? 0 : r.range(1, 3);
        if (evat > 0) { p_key = p_cap = p_af = p_bad = p_crash = 0; n = evat + 12; }
        for (int i = 0; i < n; i++)
        {
            if (r.p(p_crash)) { Op c; c.type = "crash"; c.set("h", 0); c.set("dt", r.below(60)); P.ops.push_back(c); }
            if (wander && i % wander == wander - 1)
            {
                if (h.pro && r.p(0.6)) h.pool[r.below((int) h.pool.size())] = { (r.p(0.6) ? pick({ 0, 63, 63, 62 }) : r.below(64)) * 64, (r.p(0.6) ? pick({ 0, 63, 63, 62 }) : r.below(64)) * 64 };
                else { make_pool(h); h.pool.resize(std::min<size_t>(h.pool.size(), 2)); }
            }
            size_t at = P.ops.size();
            add_frame(0, evat < 0);
            Op &f = P.ops[at];
            if (f.tiles.size() > 3) f.tiles.resize(3);
            if (f.i("reg") > 20) f.set("reg", 1);
            if (i == evat && !f.tiles.empty())
            {
                if (evkind == 0 && h.pro) { f.set("fl", RFX_FLAGS_PRO_KEY); f.a.erase("ex"); }
                else if (evkind == 2 && h.pro) { TileReq t = f.tiles[0]; int nq = f.a["q"] == "-" ? 1 : (int) f.a["q"].size() / 10; bad_tile(t, nq); f.tiles.push_back(t); }
                else { Cap c; if (evkind == 3 && h.pro) { c.af = -1; f.tiles[0].x = 64 * r.below(64); f.tiles[0].y = 64 * r.below(64); } else { c.kind = 'A'; c.d = r.below(120); } f.caps.insert(f.caps.begin(), c); }
            }
        }
        add_frame(0, false);
    }
    // positions that were delivered once, then many events (key frames, failed calls, refused tiles, failed
    // allocations) elsewhere, then the old positions again one after the other: counters of such events that wrap
    void storm()
    {
        if (P.e("host", 0) >= 6 || P.e("clang", 0)) { P.eset("host", 0); P.eset("clang", 0); }
        P.eset("noise", 0);
        same_fmt = RFX_FORMAT_YUV; same_fl = RFX_FLAGS_PRO1 | (r.below(2) ? RFX_FLAGS_RLGR1 : 0) | (r.below(2) ? RFX_FLAGS_NOACCEL : 0);
        add_create(0, false);
        int m = r.range(8, 24), base = r.below(100000), x0 = r.below(40), y0 = 1 + r.below(60), kind = r.p(0.7) ? 0 : r.below(4);
        auto tile = [&](int x, int y, const std::string &c) { TileReq t; t.x = x * 64; t.y = y * 64; t.content = c; return t; };
        auto frame = [&](int fl) { Op f; f.type = "frame"; f.set("h", 0); f.a["q"] = "-"; f.set("reg", 1); f.set("fl", fl); return f; };
        auto event = [&](int k)
        {
            Op f = frame(k == 0 ? RFX_FLAGS_PRO_KEY : 0);
            f.tiles.push_back(tile(0, 0, "f." + std::to_string(r.below(9))));
            if (k == 1) { Cap c; c.kind = 'A'; c.d = r.below(90); f.caps.push_back(c); f.a["pol"] = "o"; }
            if (k == 2) { f.tiles[0].x = 64 * 64; f.tiles[0].bad = 1; }
            if (k == 3) { Cap c; c.af = -1; f.caps.push_back(c); f.a["pol"] = "o"; f.tiles[0].x = 64 * r.below(64); }
            P.ops.push_back(f);
        };
        Op f = frame(0);
        for (int j = 0; j < m; j++) f.tiles.push_back(tile(x0 + j, y0, std::string(1, "tlsd"[j % 4]) + "." + std::to_string(base + j)));
        P.ops.push_back(f);
        int ahead = r.below(m), n = r.p(0.7) ? 256 : pick({ 128, 512 });
        if (kind == 0 && r.p(0.25))
        {
            Op o; o.type = "haul"; o.set("h", 0); o.set("n", 65536 - ahead); o.set("pos", 1); o.set("chg", 7); o.set("key", 1); o.set("keep", 1);
            P.ops.push_back(o);
        }
        else for (int i = 0; i < n - ahead; i++) event(kind);
        for (int j = 0; j < m; j++)
        {
            Op g = frame(0);
            g.tiles.push_back(f.tiles[j]); g.tiles[0].content += "~p." + std::to_string(r.below(1000));
            P.ops.push_back(g);
            event(kind);
        }
        add_frame(0, false);
    }
    // more tiles in one call than the message format can count
    void crowd(bool few)
    {
        if (P.e("host", 0) >= 6 || P.e("clang", 0)) { P.eset("host", 0); P.eset("clang", 0); }
        P.eset("noise", 0);
        add_create(0, false);
        Op f; f.type = "frame"; f.set("h", 0); f.a["q"] = "-"; f.set("reg", 1); f.set("rep", few ? pick({ 128, 255, 256, 257, 512, 513, 1024, 1025, 2049, 4095, 4096, 4097, 5000, 8193 }) : pick({ 65535, 65536, 65537, 66000, 256, 32768 }));
        auto pos = hs[0].pool[0];
        TileReq t; t.x = pos.first; t.y = pos.second; t.content = "f.3"; t.cx = t.cy = hs[0].fmt == RFX_FORMAT_YUV ? 64 : 2;
        f.tiles.push_back(t);
        P.ops.push_back(f);
        add_frame(0, false);
    }
    // a message of more than 16 MiB
    void bulk()
    {
        if (P.e("host", 0) >= 6 || P.e("clang", 0)) { P.eset("host", 0); P.eset("clang", 0); }
        P.eset("noise", 0);
        add_create(0, false);
        Op f; f.type = "frame"; f.set("h", 0); f.a["q"] = "6666666666"; f.set("reg", 1);
        for (int k = 0, n = hs[0].pro ? 1500 + x.below(100) : 4; k < n; k++) { TileReq t; t.x = 64 * (k % 64); t.y = 64 * (k / 64); t.content = "X." + std::to_string(k % 4); t.cx = t.cy = 64; f.tiles.push_back(t); }
        f.set("fl", !hs[0].pro && x.p(0.5) ? RFX_FLAGS_ALPHAV1 : 0);
        if (!hs[0].pro) f.set("rep", 1500 + x.below(200));
        Cap c; c.kind = 'A'; c.d = 31 << 20; f.caps.push_back(c);
        P.ops.push_back(f);
        add_frame(0, false);
    }
    // many distinct positions on one handle: whole screens, then parts of them again
    void grid()
    {
        if (P.e("host", 0) >= 6 || P.e("clang", 0)) { P.eset("host", 0); P.eset("clang", 0); }
        P.eset("noise", 0);
        p_af = 0;
        add_create(0, false);
        HS &h = hs[0];
        int n = r.p(0.6) ? r.range(257, 700) : r.p(0.8) ? r.range(1000, 1400) : pick({ 2049, 4096, 4096 });
        if (!h.pro) n = std::min(n, 700);
        int w = h.pro ? 64 : pick({ 16, 27, 40 });
        int start = h.pro && n < 4096 ? r.below(4096 - n) : 0;
        int nf = n > 1500 ? 2 : r.range(2, 4), base = r.below(100000);
        bool tex = n < 800 && r.p(0.7);
        for (int i = 0; i < nf; i++)
        {
            Op f; f.type = "frame"; f.set("h", 0); f.a["q"] = "-"; f.set("reg", 1); f.set("rs", r.below(1000));
            bool key = i && h.pro && r.p(p_key);
            f.set("fl", key ? RFX_FLAGS_PRO_KEY : !h.pro && r.p(p_alpha) ? RFX_FLAGS_ALPHAV1 : 0);
            int part = i == 0 ? 1000 : pick({ 1000, 300, 30 }), ks = r.below(1000);
            bool down = r.p(0.3), col = h.pro && r.p(0.3);
            for (int k = 0; k < n; k++)
            {
                int j = start + (down ? n - 1 - k : k);
                if (part < 1000 && r.below(1000) >= part) continue;
                TileReq t; t.x = (j % w) * 64; t.y = (j / w) * 64; if (col) std::swap(t.x, t.y);
                // flat, or a few textures that change a little from frame to frame so that differences pay
                if (tex) { t.content = std::string(1, "tlsd"[j % 4]) + "." + std::to_string(base + j % 7); if (i) t.content += "~p." + std::to_string(ks + j % 5); }
                else t.content = r.p(0.01) ? fresh_content() : "f." + std::to_string(ks + r.below(9));
                f.tiles.push_back(t);
            }
            if (f.tiles.empty()) continue;
            if (r.p(0.4)) { Cap c; c.kind = 'A'; c.d = r.range(30000, 30000 + 200 * n); f.caps.push_back(c); }
            P.ops.push_back(f);
        }
        add_frame(0, false);
    }
    // many handles alive at once, used in turn, destroyed in any order
    void herd()
    {
        if (P.e("host", 0) >= 6 || P.e("clang", 0)) { P.eset("host", 0); P.eset("clang", 0); }
        P.eset("noise", 0);
        maxtiles = 1; contentbias = 1; p_cap /= 4; p_af /= 4; p_bad /= 4;
        int n = pick({ 9, 17, 33, 40, 65, 70 }), m = r.range(n, 2 * n + 10);
        bool alike = r.p(0.5);
        for (int h = 0; h < n; h++)
        {
            add_create(h, false);
            if (alike && !h) { same_fmt = hs[h].fmt; same_fl = hs[h].fl; }
        }
        for (int i = 0; i < m; i++)
        {
            int h = r.p(0.4) ? i % n : r.below(n);
            if (r.p(0.08)) { Op d; d.type = "destroy"; d.set("h", h); P.ops.push_back(d); add_create(h, false); }
            size_t at = P.ops.size();
            add_frame(h, true);
            Op &f = P.ops[at];
            if (f.tiles.size() > 3) f.tiles.resize(3);
            if (f.i("reg") > 20) f.set("reg", 1);
        }
        add_frame(r.below(n), false);
    }
    void haul()
    {
        if (P.e("host", 0) >= 6) P.eset("host", 0);
        add_create(0, false);
        bool pro = hs[0].pro;
        P.eset("noise", 0);
        Op o; o.type = "haul"; o.set("h", 0);
        bool c4 = is("C04");
        o.set("n", c4 ? pick({ 66000, 66500, 300, 70000 }) : pick({ 3000, 6000, 12000 }));
        o.set("pos", r.p(0.5) ? 1 : r.range(1, 8));
        o.set("chg", pick({ 1, 7, 50 }));
        if (!c4 || r.p(0.2)) { o.set("fail", pick({ 0, 3, 10 })); }
        if (!c4 && pro) { o.set("key", pick({ 0, 2, 5, 50 })); if (r.p(0.5)) o.set("af", pick({ 3, 10 })); }
        if (!c4 && x.p(0.7)) { o.set("nq", x.range(1, 6)); o.set("nr", x.range(1, 4)); o.set("al", x.below(2)); }
        P.ops.push_back(o);
        add_frame(0, true);
    }
    void comps()
    {
        int n = r.range(2, 10);
        for (int i = 0; i < n; i++)
        {
            Op o; o.type = "comp";
            o.a["fn"] = pick({ "rlgr1", "rlgr3", "drlgr1", "drlgr3", "dwt", "sse2", "sse41", "quant", "differ" });
            o.a["c"] = fresh_content(); o.set("div", pick({ 1, 1, 2, 8, 40, 100 })); o.set("sparse", pick({ 0, 0, 30, 80, 97, 99 })); o.set("cs", r.below(1000000));
            // worst case size of a block is far below 16 KiB for these value ranges
            o.set("cap", is("C10") ? 32768 : r.p(0.3) ? 32768 : r.p(0.5) ? r.below(200) : r.below(9000));
            o.set("diff", r.p(0.5) ? 64 : 81); o.set("odd", r.below(2));
            P.ops.push_back(o);
        }
    }
    Plan threads()
    {
        P.env["mode"] = "threads"; P.eset("noise", 0); P.eset("host", 6);
        int nt = r.p(0.7) ? 2 : r.range(3, 4);
        P.eset("nthreads", nt);
        P.eset("schedseed", r.below(1000000000));
        P.eset("mean", pick({ 60, 400, 3000, 30000, 300000 }));
        P.eset("pshared", pick({ 5, 20, 60 }));
        P.eset("maxsw", 20000);
        if (r.p(0.4)) P.eset("tcpu", 1);
        // a few runs can be preempted inside the assembly as well: accelerated handles, few tiles
        bool astep = r.p(0.005);
        if (astep)
        {
            P.eset("astep", 1); P.eset("mean", pick({ 400, 3000, 30000 })); maxtiles = 1; nt = 2; P.eset("nthreads", nt); p_recreate = p_cap = p_af = 0; contentbias = 2;
            same_fmt = r.below(5); same_fl = r.below(2) ? RFX_FLAGS_RLGR1 : 0;
        }
        std::vector<std::vector<Op>> per(nt);
        bool twin = r.p(0.2), alike = r.p(0.6);
        for (int t = 0; t < nt; t++)
        {
            P.ops.clear();
            if (twin && t > 0)
            {
                P.ops = per[0];
                for (auto &o : P.ops) { o.set("h", t); for (auto &tl : o.tiles) if (r.p(0.5)) tl.content = fresh_content(); }
            }
            else
            {
                add_create(t, r.p(0.1));
                if (alike && !t) { same_fmt = hs[t].fmt; same_fl = hs[t].fl; }
                int n = astep ? 1 : r.range(1, 4);
                for (int i = 0; i < n; i++) { if (r.p(p_recreate)) add_create(t, false); add_frame(t, true); }
                if (r.p(0.3)) { Op d; d.type = "destroy"; d.set("h", t); P.ops.push_back(d); }
            }
            for (auto &o : P.ops)
            {
                o.set("th", t);
                for (auto &c : o.caps) if (c.kind != 'A' && c.kind != 'F' && c.kind != 'R') { c.kind = 'A'; c.d = r.below(60000); c.k = c.j = 0; }
                while (o.tiles.size() > (astep ? 1 : 6)) o.tiles.pop_back();
            }
            per[t] = P.ops;
        }
        P.ops.clear();
        for (auto &v : per) for (auto &o : v) P.ops.push_back(o);
        return P;
    }
};
inline Plan gen_plan(const std::string &prop, uint64_t seed, uint64_t idx, bool thorough) { Gen g(prop, seed, idx, thorough); return g.make(); }
