// A plan is one simulated execution written out: environment, workload, faults and schedule.
// Executing it is a pure function of the plan and the code under test.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <sstream>
#include <string>
#include <vector>

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int below(int n) { return n <= 0 ? 0 : (int) (next() % (uint64_t) n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool p(double x) { return (next() >> 11) * (1.0 / 9007199254740992.0) < x; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x100000001B3ull ^ (b + 0x7F4A7C159E3779B9ull)); r.next(); return r.next(); }

struct Cap
{
    // F: plenty (plus d); R: exactly the room for which progress is promised, plus d; A: absolute d; t/e: start/end of tile k in the unrestricted message + d;
    // c: start of component j of tile k + d
    char kind = 'F'; int k = 0, j = 0, d = 0;
    int af = 0;      // which allocation of this call fails (1-based), -1: all of them, 0: none
};
struct TileReq { int x = 0, y = 0, cx = 64, cy = 64, q[3] = { 0, 0, 0 }; std::string content = "f.1"; int bad = 0; };

struct Op
{
    std::string type;
    std::map<std::string, std::string> a;
    std::vector<TileReq> tiles;
    std::vector<Cap> caps;
    long i(const char *k, long def = 0) const { auto it = a.find(k); return it == a.end() ? def : strtol(it->second.c_str(), nullptr, 0); }
    std::string s(const char *k, const char *def = "") const { auto it = a.find(k); return it == a.end() ? def : it->second; }
    void set(const char *k, long v) { a[k] = std::to_string(v); }
};
struct Slice { int t; long n; };
struct Plan
{
    std::map<std::string, std::string> env;
    std::vector<Op> ops;
    std::vector<Slice> sched;
    long e(const char *k, long def = 0) const { auto it = env.find(k); return it == env.end() ? def : strtol(it->second.c_str(), nullptr, 0); }
    void eset(const char *k, long v) { env[k] = std::to_string(v); }
};

inline std::string cap_str(const Cap &c)
{
    std::string s(1, c.kind);
    if (c.kind == 't' || c.kind == 'e' || c.kind == 'm') s += std::to_string(c.k);
    if (c.kind == 'c') s += std::to_string(c.k) + "." + std::to_string(c.j);
    if (c.kind == 'A') s += std::to_string(c.d);
    else if (c.d) s += (c.d > 0 ? "+" : "") + std::to_string(c.d);
    return s;
}
inline std::string plan_str(const Plan &p)
{
    std::ostringstream o;
    o << "rfxplan 1\nenv";
    for (auto &kv : p.env) o << ' ' << kv.first << '=' << kv.second;
    o << '\n';
    for (auto &op : p.ops)
    {
        o << op.type;
        for (auto &kv : op.a) o << ' ' << kv.first << '=' << kv.second;
        o << '\n';
        for (auto &t : op.tiles)
        {
            o << "  tile " << t.x << ' ' << t.y << ' ' << t.cx << ' ' << t.cy << ' ' << t.q[0] << ' ' << t.q[1] << ' ' << t.q[2] << ' ' << t.content;
            if (t.bad) o << " bad";
            o << '\n';
        }
        for (auto &c : op.caps)
        {
            o << "  cap " << cap_str(c);
            if (c.af) o << " af=" << c.af;
            o << '\n';
        }
    }
    for (auto &s : p.sched) o << "slice " << s.t << ' ' << s.n << '\n';
    return o.str();
}
inline Plan plan_parse(const std::string &text)
{
    Plan p;
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line))
    {
        std::istringstream l(line);
        std::string w;
        if (!(l >> w) || w[0] == '#' || w == "rfxplan") continue;
        if (w == "tile")
        {
            if (p.ops.empty()) continue;
            TileReq t; std::string b;
            l >> t.x >> t.y >> t.cx >> t.cy >> t.q[0] >> t.q[1] >> t.q[2] >> t.content;
            if (l >> b) t.bad = 1;
            p.ops.back().tiles.push_back(t);
        }
        else if (w == "cap")
        {
            if (p.ops.empty()) continue;
            Cap c; std::string s, f; l >> s;
            c.kind = s[0];
            const char *q = s.c_str() + 1; char *e = const_cast<char *>(q);
            if (c.kind == 't' || c.kind == 'e' || c.kind == 'm' || c.kind == 'c') { c.k = strtol(q, &e, 10); if (*e == '.') c.j = strtol(e + 1, &e, 10); }
            if (*e) c.d = strtol(e, nullptr, 10);
            while (l >> f) if (f.rfind("af=", 0) == 0) c.af = atoi(f.c_str() + 3);
            p.ops.back().caps.push_back(c);
        }
        else if (w == "slice") { Slice s; l >> s.t >> s.n; p.sched.push_back(s); }
        else
        {
            std::map<std::string, std::string> kv; std::string f;
            while (l >> f) { auto eq = f.find('='); if (eq != std::string::npos) kv[f.substr(0, eq)] = f.substr(eq + 1); }
            if (w == "env") p.env = kv;
            else { Op op; op.type = w; op.a = kv; p.ops.push_back(op); }
        }
    }
    return p;
}

// ---- picture content -------------------------------------------------------------------------
// descriptor: base.seed[~tweak.seed]...  ; a pure function of the descriptor
struct Pic { uint8_t pl[4][4096]; };

inline int alpha_line_cost(const uint8_t *d);   // below

inline void content_base(char k, uint64_t seed, Pic &pc)
{
    for (int c = 0; c < 4; c++)
    {
        Rng r(mix(seed, 1000 + c));
        uint8_t *p = pc.pl[c];
        char kk = k;
        if (c == 3)
        {
            // alpha is drawn from its own family
            static const char ak[] = "ffffnbrrhtpmTTTTTlgvs";
            kk = ak[r.below((int) sizeof(ak) - 1)];
            if (k == 'A') kk = 'T';
            if (k == 'X') kk = r.p(0.6) ? 'n' : 'T';
            if (k == 'f') kk = r.p(0.5) ? 'f' : kk;
        }
        switch (kk)
        {
            case 'n': for (int i = 0; i < 4096; i++) p[i] = (uint8_t) r.next(); break;
            case 'b': { int den = r.range(1, 9); for (int i = 0; i < 4096; i++) p[i] = r.below(10) < den ? 255 : 0; break; }
            // independent saturated noise: the colour content that expands most
            case 'X': { int den = r.range(40, 60); for (int i = 0; i < 4096; i++) p[i] = r.below(100) < den ? 255 : 0; break; }
            case 'g': { int gx = r.range(-8, 8), gy = r.range(-8, 8), o = r.below(256); for (int i = 0; i < 4096; i++) p[i] = (uint8_t) (o + (gx * (i & 63) + gy * (i >> 6)) / 2); break; }
            case 'c': { int s = 1 << r.below(6), a = r.below(256), b = r.below(256); for (int i = 0; i < 4096; i++) p[i] = (((i & 63) / s + (i >> 6) / s) & 1) ? a : b; break; }
            case 's': { int base = r.below(256); memset(p, base, 4096); int n = r.range(1, 400); while (n--) p[r.below(4096)] = (uint8_t) r.next(); break; }
            case 't': { int bg = r.p(0.5) ? 255 : r.below(256), fg = r.p(0.5) ? 0 : r.below(256); memset(p, bg, 4096);
                        for (int ly = r.below(6); ly + 8 < 64; ly += 10) for (int lx = r.below(4); lx + 6 < 64; lx += 7) { uint64_t g = r.next(); for (int y = 0; y < 8; y++) for (int x = 0; x < 5; x++) if ((g >> ((y * 5 + x) % 61)) & 1) p[(ly + y) * 64 + lx + x] = fg; } break; }
            case 'h': { for (int y = 0; y < 64; y++) memset(p + y * 64, r.below(256), 64); break; }
            case 'v': { uint8_t ln[64]; for (auto &v : ln) v = (uint8_t) r.next(); for (int y = 0; y < 64; y++) memcpy(p + y * 64, ln, 64); break; }
            case 'l': { int base = r.below(256), am = r.range(1, 9); for (int i = 0; i < 4096; i++) { int v = base + r.below(am) - am / 2; p[i] = v < 0 ? 0 : v > 255 ? 255 : v; } break; }
            case 'r': { int i = 0; int mx = r.p(0.5) ? 8 : r.range(2, 120); while (i < 4096) { int n = r.range(1, mx), v = r.p(0.3) ? 0 : r.below(256); while (n-- && i < 4096) p[i++] = v; } break; }
            case 'm': { for (int q = 0; q < 4; q++) { int t = r.below(4), v = r.below(256); for (int y = 0; y < 32; y++) for (int x = 0; x < 32; x++) { uint8_t z = t == 0 ? v : t == 1 ? (uint8_t) r.next() : t == 2 ? ((x ^ y) & 1) * 255 : (uint8_t) (v + x + y); p[((q >> 1) * 32 + y) * 64 + (q & 1) * 32 + x] = z; } } break; }
            case 'k': { memset(p, r.p(0.5) ? 128 : r.below(256), 4096); int s = 1 << r.below(5); for (int y = 64 - s; y < 64; y++) for (int x = 64 - s; x < 64; x++) p[y * 64 + x] = (uint8_t) (r.p(0.5) ? 255 : r.p(0.5) ? 0 : r.below(256)); break; }
            case 'w': { int px = r.range(2, 40), py = r.range(2, 40), am = r.range(8, 255); for (int i = 0; i < 4096; i++) { int tx = (i & 63) % px, ty = (i >> 6) % py; int v = 128 + am * (tx * 2 - px) / (4 * px) + am * (ty * 2 - py) / (4 * py); p[i] = v < 0 ? 0 : v > 255 ? 255 : v; } break; }
            case 'z': { int base = r.p(0.5) ? 0 : r.below(256); memset(p, base, 4096); p[r.below(4096)] = (uint8_t) (base + r.range(1, 255)); break; }
            case 'd': { int x0 = r.below(64), y0 = r.below(64), x1 = r.range(x0, 63), y1 = r.range(y0, 63), a = r.below(256), b = r.below(256); memset(p, a, 4096); for (int y = y0; y <= y1; y++) for (int x = x0; x <= x1; x++) p[y * 64 + x] = b; break; }
            case 'p': { for (int y = 0; y < 64; y++) for (int x = 0; x < 64; x++) p[y * 64 + x] = (uint8_t) (r.p(0.05) ? r.next() : (y ? p[(y - 1) * 64 + x] : 255)); break; }
            case 'T':
            {
                // alpha whose packed size lands around the raw size: noisy lines, then short runs
                int target = 4096 + r.range(-70, 70); if (r.p(0.5)) target = 4096 + r.range(-6, 6);
                int got = 0; uint8_t prev[64]; memset(prev, 0, 64);
                for (int y = 0; y < 64; y++)
                {
                    int left = 63 - y, best = 1 << 30; uint8_t bl[64];
                    for (int tr = 0; tr < 6; tr++)
                    {
                        uint8_t dl[64]; int runs = tr == 0 ? 0 : r.range(0, 60);
                        for (int x = 0; x < 64; x++) dl[x] = (uint8_t) r.range(1, 255);
                        if (runs) { int st = r.below(64 - runs + 1); for (int x = st; x < st + runs && x < 64; x++) dl[x] = dl[st]; }
                        int c = alpha_line_cost(dl);
                        int rest = left * 64;     // what a typical mix still adds
                        int err = abs(got + c + rest - target);
                        if (left == 0) err = abs(got + c - target);
                        if (err < best || tr == 0) { best = err; memcpy(bl, dl, 64); }
                    }
                    got += alpha_line_cost(bl);
                    for (int x = 0; x < 64; x++)
                    {
                        if (y == 0) prev[x] = bl[x];
                        else { int v = bl[x]; int d = v & 1 ? -((v >> 1) + 1) : v >> 1; prev[x] = (uint8_t) (prev[x] + d); }
                        p[y * 64 + x] = prev[x];
                    }
                }
                break;
            }
            default: { int v = r.p(0.2) ? 255 : r.p(0.2) ? 0 : r.below(256); memset(p, v, 4096); break; }
        }
    }
}
inline int alpha_line_cost(const uint8_t *d)
{
    // greedy literal/run cost, close to what a planar packer needs
    int cost = 0, x = 0; uint8_t last = 0; int lit = 0;
    while (x < 64)
    {
        int n = 0; while (x + n < 64 && d[x + n] == last) n++;
        if (n >= 3) { cost += lit / 15 + 1 + lit; lit = 0; x += n; continue; }
        last = d[x]; lit++; x++;
    }
    if (lit) cost += (lit + 14) / 15 + lit;
    return cost;
}
inline void content_tweak(char k, uint64_t seed, Pic &pc)
{
    Rng r(mix(seed, 77));
    switch (k)
    {
        case 'p': { int n = r.range(1, 12); while (n--) pc.pl[r.below(3)][r.below(4096)] = (uint8_t) r.next(); break; }
        case 'q': { int x0 = r.below(64), y0 = r.below(64), w = r.range(1, 64 - x0), h = r.range(1, 64 - y0), c = r.below(3), d = r.p(0.5) ? 1 : r.range(-40, 40); for (int y = y0; y < y0 + h; y++) for (int x = x0; x < x0 + w; x++) pc.pl[c][y * 64 + x] += d; break; }
        case 'i': { int x0 = r.below(64), y0 = r.below(64), w = r.range(1, 64 - x0), h = r.range(1, 64 - y0); for (int c = 0; c < 3; c++) for (int y = y0; y < y0 + h; y++) for (int x = x0; x < x0 + w; x++) pc.pl[c][y * 64 + x] ^= 255; break; }
        case 'a': { int n = r.range(1, 40); while (n--) pc.pl[3][r.below(4096)] = (uint8_t) r.next(); break; }
        case 'u': { Pic o; static const char ks[] = "nfgltsc"; content_base(ks[r.below(7)], r.next(), o); int c = r.below(3); memcpy(pc.pl[c], o.pl[c], 4096); break; }
        case 's': { int dy = r.range(1, 63); for (int c = 0; c < 3; c++) { uint8_t t[4096]; memcpy(t, pc.pl[c], 4096); for (int i = 0; i < 4096; i++) pc.pl[c][i] = t[(i + dy * 64) & 4095]; } break; }
    }
}
inline void content_make(const std::string &desc, Pic &pc)
{
    size_t i = 0; bool first = true;
    memset(&pc, 0, sizeof(pc));
    while (i < desc.size())
    {
        char k = desc[i];
        size_t e = desc.find('~', i); if (e == std::string::npos) e = desc.size();
        uint64_t seed = i + 2 <= e ? strtoull(desc.c_str() + i + 2, nullptr, 10) : 1;
        if (first) content_base(k, seed, pc); else content_tweak(k, seed, pc);
        first = false; i = e + 1;
    }
}
