// rfxsim: deterministic simulation of callers, links and clients around librfxcodec.
//   rfxsim gen   PROP SEED INDEX TIER              print the plan
//   rfxsim run   PROP PLANFILE [-s SCHEDOUT]       execute one plan, print the outcome
//   rfxsim batch PROP SEED START STEP COUNT TIER WALL OUTDIR
#include <array>
#include <chrono>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <sys/personality.h>
#include <unordered_set>
#include "exec.hpp"
#include "i386.hpp"
#include "gen.hpp"

// the instrumented build's writable data lives in these sections; they must exist
extern "C" { __attribute__((section("v3data"), used)) int v3_dummy_data = 1; __attribute__((section("v3bss"), used)) int v3_dummy_bss = 1; }

static const struct { const char *prop, *classes; } g_props[] =
{
    { "C01", " pro unparse crash hang " },
    { "C02", " mem heap crash hang " },
    { "C03", " frame unparse crash hang " },
    { "C04", " seq unparse crash hang " },
    { "C05", " prefix unparse crash hang " },
    { "C06", " progress create crash hang " },
    { "C07", " alloc heap pro std seq progress frame unparse prefix create crash hang " },
    { "C08", " leak heap grow crash hang " },
    { "C09", " thread crash hang " },
    { "C10", " diff crash hang " },
    { "C11", " join unparse crash hang " },
    { "C12", " std unparse create crash hang " },
    { "C13", " alpha unparse crash hang " },
    { "C14", " diff crash hang " },
    { "C18", " cost unparse crash hang " },
    { "C15", " refuse pro seq join progress crash hang " },
};

static void res_reset()
{
    R->nviol = R->nforeign = R->nrec = R->nsit = R->nsl = R->nrecdrop = R->done = R->curop = R->curatt = 0;
    R->hash = 1; memset(R->k, 0, sizeof(R->k)); R->p_ntiles = R->p_ret = R->p_n = 0;
}
static void apply_env(const Plan &P)
{
    g_hfill = (int) P.e("hfill", 0x5a); g_hoff = (int) P.e("hoff", 0); g_hreuse = (int) P.e("hreuse", 0); g_stdout_fail = (int) P.e("stdout", 0);
    g_cpumodel = (int) P.e("cpux", 0); g_envv = (int) P.e("envv", 0) & 3;
    g_clock = 1000000 + P.e("clock", 0); g_randstate = 1 + P.e("rand", 0);
    g_brk = g_heap0 + (1 << 20) + PG * P.e("hgap", 0);
}
// the host a plan names, if this machine can be it
static int real_host(int h) { return h < 0 || h >= NHOSTS || (g_hosts[h].variant >= 10 && !i386_works()) ? 0 : h; }

// run one plan in this (already forked) process
static void seq_run(const Plan &P, int host, bool oracle)
{
    host = real_host(host);
    const Host &H = g_hosts[host];
    if (H.variant >= 10) { must(i386_enter(H.variant - 10), "32-bit host"); g_stack32 = (int) P.e("stack", 0); }
    apply_env(P); g_cpu = H.cpu; g_halign = H.variant >= 10 ? (int) P.e("halign", 16) : 16;
    Exec e(P, 0, H.variant >= 10 ? g_i386 : g_api[H.variant], H.xflags, oracle);
    watchdog(0);
    e.run_all();
}
typedef std::vector<Rec> Tr;
static Tr take_trace() { Tr t(R->rec, R->rec + R->nrec); R->nrec = 0; return t; }
static int sub(const std::function<void()> &f)
{
    pid_t pid = fork();
    if (pid == 0) { signals_init(); f(); _exit(X_FINE); }
    must(pid > 0, "fork");
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    return WIFEXITED(st) ? WEXITSTATUS(st) : X_SIG;
}
static void compare(const Tr &a, const Tr &b, const char *cls, const std::string &an, const std::string &bn)
{
    size_t n = std::min(a.size(), b.size());
    for (size_t i = 0; i < n; i++)
    {
        if (a[i].op == b[i].op && a[i].att == b[i].att && a[i].ret == b[i].ret && a[i].n == b[i].n && a[i].h == b[i].h) continue;
        R->curop = a[i].op; R->curatt = a[i].att;
        violate(cls, "operation %d call %d: %s returns %d with %d bytes (%016lx), %s returns %d with %d bytes (%016lx)", a[i].op, a[i].att, an.c_str(), a[i].ret, a[i].n, (unsigned long) a[i].h, bn.c_str(), b[i].ret, b[i].n, (unsigned long) b[i].h);
        return;
    }
    if (a.size() != b.size()) violate(cls, "%s made %zu calls, %s made %zu", an.c_str(), a.size(), bn.c_str(), b.size());
}

struct Thr { int id; const Plan *P; Exec *e; pthread_t t; };
static void *thread_main(void *a)
{
    Thr *t = (Thr *) a;
    signals_init();
    while (sem_wait(&B.sem[t->id]) != 0) {}
    t_me = t->id; t_ctx.thread = t->id;
    t->e->run_all();
    t_me = -1;
    bt_switch(t->id, true);
    return nullptr;
}
static void threads_run(const Plan &P)
{
    int nt = (int) std::min(4L, std::max(1L, P.e("nthreads", 2))), host = H_INSTR;
    std::vector<Tr> base(nt);
    for (int t = 0; t < nt; t++)
    {
        int rc = sub([&] { apply_env(P); g_cpu = (int) P.e("tcpu", g_hosts[host].cpu); Exec e(P, t, g_api[g_hosts[host].variant], g_hosts[host].xflags, false); e.only = t; e.run_all(); });
        if (rc != X_FINE) _exit(rc);
        base[t] = take_trace();
    }
    R->hash = 1;
    apply_env(P); g_cpu = (int) P.e("tcpu", g_hosts[host].cpu);
    if (P.e("churn", 0) > 0) { Exec e(P, 5, g_api[g_hosts[host].variant], g_hosts[host].xflags, false); watchdog(60); e.churn(P.e("churn", 0)); watchdog(0); }
    g_owner_pg = new std::vector<uint16_t>();
    B.n = nt; B.rng = Rng(mix(P.e("schedseed", 1), 11)); B.mean = (double) P.e("mean", 1000); B.pshared = P.e("pshared", 20) / 100.0; B.maxsw = P.e("maxsw", 20000);
    B.limit = 4000000000L;
    B.plan = P.sched; B.replay = !P.sched.empty();
    R->k[K_hetero] += nt;
    std::vector<Thr> th(nt);
    for (int t = 0; t < nt; t++) { sem_init(&B.sem[t], 0, 0); B.fin[t] = false; }
    for (int t = 0; t < nt; t++)
    {
        th[t].id = t; th[t].P = &P; th[t].e = new Exec(P, t, g_api[g_hosts[host].variant], g_hosts[host].xflags, false); th[t].e->only = t;
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4 << 20);
        must(pthread_create(&th[t].t, &at, thread_main, &th[t]) == 0, "pthread_create");
    }
    watchdog(200, true);
    B.on = true; sim_astep = (char) P.e("astep", 0);
    B.cur = -1;
    int first = bt_pick();
    B.cur = first;
    sem_post(&B.sem[first]);
    for (auto &t : th) pthread_join(t.t, nullptr);
    B.on = false; sim_astep = 0;
    watchdog(0, true);
    R->k[K_steps] += B.steps;
    Tr all = take_trace();
    for (int t = 0; t < nt; t++)
    {
        Tr mine;
        for (auto &x : all) if (x.op < (int) P.ops.size() ? P.ops[x.op].i("th") == t : x.op == (int) P.ops.size() + t) mine.push_back(x);
        compare(base[t], mine, "thread", "thread " + std::to_string(t) + " alone", "the same thread among others");
    }
}
static void plan_run(const Plan &P)
{
    std::string mode = P.env.count("mode") ? P.env.at("mode") : "seq";
    signals_init();
    if (mode == "threads") threads_run(P);
    else if (mode == "hosts")
    {
        Tr ref;
        int only = (int) P.e("hosts", 0);          // bit mask of hosts besides 0; 0 = all
        i386_works();
        for (int h = 0; h < NHOSTS; h++)
        {
            if (real_host(h) != h || (h == H_INSTR && !P.e("clang", 0))) continue;
            if (h && only && !(only & (1 << h))) continue;
            int rc = sub([&] { seq_run(P, h, false); });
            if (rc == X_VIOL && R->nviol) { char b[400]; snprintf(b, sizeof(b), "on host '%s': %.330s", g_hosts[h].name, R->v[R->nviol - 1].msg); memcpy(R->v[R->nviol - 1].msg, b, sizeof(b)); }
            if (rc != X_FINE) _exit(rc);
            R->k[K_hosts]++;
            if (!h) ref = take_trace();
            else compare(ref, take_trace(), "diff", std::string("host '") + g_hosts[0].name + "'", std::string("host '") + g_hosts[h].name + "'");
        }
    }
    else if (mode == "envs")
    {
        int host = (int) P.e("host", 0);
        int rc = sub([&] { seq_run(P, host, false); });
        if (rc != X_FINE) _exit(rc);
        Tr a = take_trace();
        Plan Q = P;
        for (auto &kv : P.env) if (kv.first.rfind("b_", 0) == 0) Q.env[kv.first.substr(2)] = kv.second;
        rc = sub([&] { seq_run(Q, host, false); });
        if (rc != X_FINE) _exit(rc);
        compare(a, take_trace(), "diff", "environment a", "environment b");
    }
    else seq_run(P, (int) P.e("host", 0), true);
    R->done = 1;
}
// execute in a child; returns exit code
static int execute(const Plan &P)
{
    res_reset();
    pid_t pid = fork();
    if (pid == 0)
    {
        plan_run(P);
        _exit(R->nviol ? X_VIOL : X_FINE);
    }
    must(pid > 0, "fork");
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st)) return X_SIG;
    int rc = WEXITSTATUS(st);
    if (rc == X_STOP && R->nviol) rc = X_VIOL;
    return rc;
}
static std::string js(const std::string &s)
{
    std::string o = "\"";
    for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char) c < 32) o += ' '; else o += c; }
    return o + "\"";
}
static std::string viol_json(const Viol &v) { std::ostringstream o; o << "{\"class\":" << js(v.cls) << ",\"op\":" << v.op << ",\"call\":" << v.att << ",\"msg\":" << js(v.msg) << "}"; return o.str(); }
static void outcome_json(std::ostream &o, int rc)
{
    char h[20]; snprintf(h, sizeof(h), "%016lx", (unsigned long) R->hash);
    o << "{\"rc\":" << rc << ",\"hash\":\"" << h << "\",\"violation\":";
    if (R->nviol) o << viol_json(R->v[0]); else o << "null";
    o << ",\"foreign\":";
    if (R->nforeign) o << viol_json(R->f); else o << "null";
    o << ",\"counters\":{";
    bool f = true; for (int i = 0; i < K_N; i++) if (R->k[i]) { o << (f ? "" : ",") << "\"" << k_names[i] << "\":" << R->k[i]; f = false; }
    o << "}}\n";
}
static std::string slurp(const char *f) { std::ifstream i(f); std::ostringstream s; s << i.rdbuf(); return s.str(); }
static bool nontrivial(const std::string &prop)
{
    const long *k = R->k;
    if (prop == "C09") return k[K_switch] >= 2 && k[K_calls] >= 2;
    if (prop == "C10") return k[K_hosts] >= 2 && (k[K_calls] >= 2 || k[K_compcall]);
    if (prop == "C14") return k[K_calls] >= 2;
    if (prop == "C02" && k[K_compcall]) return true;
    if (prop == "C07") return k[K_afail] > 0 && k[K_delivered] > 0;
    if (prop == "C15") return (k[K_bad] || k[K_badcreate]) && k[K_delivered] > 0;
    if (prop == "C11") return k[K_join] > 0 && (k[K_crash] || k[K_short] || k[K_failed]) && k[K_delivered] >= 2;
    if (prop == "C13") return k[K_alphapx] > 0;
    if (prop == "C18") return k[K_costcmp] || k[K_alphapx];
    if (prop == "C12") return k[K_coefs] > 0;
    return k[K_delivered] > 0 && (k[K_short] || k[K_failed] || k[K_key] || k[K_diff] || k[K_crash] || k[K_afail] || k[K_bad]);
}
int main(int argc, char **argv)
{
    int per = personality(0xffffffff);
    if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("RFXSIM_REEXEC"))
    {
        setenv("RFXSIM_REEXEC", "1", 1);
        if (personality(per | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    if (argc < 2) { fprintf(stderr, "usage\n"); return 99; }
    std::string cmd = argv[1];
    if (cmd == "gen" && argc >= 6) { std::cout << plan_str(gen_plan(argv[2], strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), !strcmp(argv[5], "thorough"))); return 0; }
    R = (Res *) mmap(nullptr, sizeof(Res), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    must(R != MAP_FAILED, "mmap");
    g_blk = new std::vector<Blk>(); g_blk->reserve(64);
    std::string prop = argv[2];
    for (auto &p : g_props) if (prop == p.prop) g_filter = p.classes;
    if (g_filter.empty()) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 99; }
    world_init(6);
    i386_works();
    if (cmd == "run" && argc >= 4)
    {
        Plan P = plan_parse(slurp(argv[3]));
        int rc = execute(P);
        if (argc >= 6 && !strcmp(argv[4], "-s"))
        {
            P.sched.assign(R->sl, R->sl + R->nsl);
            std::ofstream o(argv[5]); o << plan_str(P);
        }
        outcome_json(std::cout, rc);
        return rc == X_FINE || rc == X_VIOL || rc == X_STOP ? 0 : 99;
    }
    if (cmd == "batch" && argc >= 10)
    {
        uint64_t seed = strtoull(argv[3], 0, 10); long start = atol(argv[4]), step = atol(argv[5]), count = atol(argv[6]); bool th = !strcmp(argv[7], "thorough");
        double wall = atof(argv[8]); std::string out = argv[9];
        auto t0 = std::chrono::steady_clock::now();
        long k[K_N]; memset(k, 0, sizeof(k));
        std::unordered_set<uint64_t> sits, hashes;
        long runs = 0, nontriv = 0, foreign = 0, stopped = 0, twice = 0, runs_with[K_N]; memset(runs_with, 0, sizeof(runs_with));
        std::string fmsg; std::vector<std::string> samples;
        long vidx = -1, divergent = -1, err = -1; std::string vjson; int lastrc = 0;
        for (long i = start; i < count; i += step)
        {
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > wall) break;
            Plan P = gen_plan(prop, seed, i, th);
            int rc = execute(P);
            runs++; lastrc = rc;
            for (int j = 0; j < K_N; j++) { k[j] += R->k[j]; if (R->k[j]) runs_with[j]++; }
            for (int j = 0; j < R->nsit; j++) sits.insert(R->sit[j]);
            if (R->nforeign) { if (!foreign++) fmsg = std::to_string(i) + ": " + R->f.cls + ": " + R->f.msg; }
            if (rc == X_STOP) { stopped++; continue; }
            if (rc == X_VIOL)
            {
                vidx = i; vjson = viol_json(R->v[0]);
                P.sched.assign(R->sl, R->sl + R->nsl);
                std::ofstream o(out + "/viol." + std::to_string(start)); o << plan_str(P);
                break;
            }
            if (rc != X_FINE) { err = i; break; }
            if (nontrivial(prop)) { hashes.insert(R->hash); nontriv++; if (samples.size() < 2 && runs > 3) { std::string s = plan_str(P); if (s.size() < 3000) samples.push_back("# index " + std::to_string(i) + "\n" + s); } }
            if (runs % 64 == 5)
            {
                // determinism: the same plan again must leave the same trace
                uint64_t h = R->hash; twice++;
                if (execute(P) != X_FINE || R->hash != h) { divergent = i; break; }
            }
        }
        { std::ofstream o(out + "/sits." + std::to_string(start), std::ios::binary); for (auto v : sits) o.write((const char *) &v, 8); }
        { std::ofstream o(out + "/hashes." + std::to_string(start), std::ios::binary); for (auto v : hashes) o.write((const char *) &v, 8); }
        std::ofstream o(out + "/sum." + std::to_string(start));
        o << "{\"runs\":" << runs << ",\"nontrivial\":" << nontriv << ",\"foreign\":" << foreign << ",\"foreign_first\":" << js(fmsg) << ",\"stopped\":" << stopped << ",\"twice\":" << twice
          << ",\"violation_index\":" << vidx << ",\"violation\":" << (vjson.empty() ? "null" : vjson) << ",\"divergent\":" << divergent << ",\"error_index\":" << err << ",\"rc\":" << lastrc << ",\"counters\":{";
        bool f = true; for (int j = 0; j < K_N; j++) { o << (f ? "" : ",") << "\"" << k_names[j] << "\":" << k[j]; f = false; }
        o << "},\"runs_with\":{";
        f = true; for (int j = 0; j < K_N; j++) { o << (f ? "" : ",") << "\"" << k_names[j] << "\":" << runs_with[j]; f = false; }
        o << "},\"samples\":["; f = true; for (auto &s : samples) { o << (f ? "" : ",") << js(s); f = false; } o << "]}\n";
        return 0;
    }
    return 99;
}
