// T01: threads that evaluate integrals at the same time on shared objects.
#include "hist.hpp"
#include "fort.hpp"
#include "sched.hpp"

static const int NV = 5;
static const char *vname[NV] = {"A,B", "B,A", "A,A", "larger L", "other centre"};
static Scene scene(int v)
{
    Scene s;
    s.a = P3(0.7, 0.6, -0.5);
    s.b = P3(-0.4, 0.9, 0.8);
    s.c = P3(0.1, -0.2, 0.3);
    s.pt = s.a;
    s.la = 1;
    s.lb = 2;
    s.l = 1;
    s.ca = {0.6, -0.5};
    s.aa = {1.7, 0.3};
    s.cb = {0.8};
    s.ab = {0.45};
    s.u = PotSpec{{2, 1, 0}, {2.0, -3.0, 0.5}, {1.3, 6.0, 2.2}, "mixed"};
    s.oc = {{1, 1, PotSpec{{1, 2}, {-2.0, 0.7}, {1.4, 3.0}, ""}, {0.6, -0.5}, {2.4, 0.5}}, {1, 3, PotSpec{{2}, {1.3}, {0.9}, ""}, {1.0}, {0.7}}};
    s.nuc = {0.2, 0.03, -0.3};
    if (v == 3) { s.la = 3; s.lb = 1; s.l = 2; s.oc[1].l = 2; }
    return s;
}
// shared by all threads of an execution
struct Shared {
    Live base, big;
    P3 c2, p2;
    Shared() : base(scene(0)), big(scene(3)), c2(0.4, 0.1, -0.6), p2(0.4, 0.1, -0.6) {}
    Args args(int v)
    {
        Args a = v == 3 ? big.args() : base.args();
        if (v == 1) { std::swap(a.A, a.B); }
        if (v == 2) a.B = a.A;
        if (v == 4) { a.C = c2; a.point = p2; }
        return a;
    }
};
static Blocks outputs(int k, const Args &a)
{
    size_t n = (size_t)libgrpp_get_shell_size(a.A) * libgrpp_get_shell_size(a.B);
    return Blocks(blocks(k).size(), VD(n, 7.0));
}
static void run(int k, const Args &a, Blocks &o)
{
    double *p[16];
    int i = 0;
    for (auto &x : o) p[i++] = x.data();
    evaluate(k, a, p);
}

static VD refs[NV][K_ALL];
static bool have[NV][K_ALL];
static double cost[NV][K_ALL];
static void references()
{
    bool ok;
    libgrpp_init();
    for (int v = 0; v < NV; v++)
        for (int k = 0; k < K_ALL; k++) {
            double t = mc::now();
            refs[v][k] = in_child([&] {
                alarm(60);
                Shared s;
                Args a = s.args(v);
                Blocks o = outputs(k, a);
                run(k, a, o);
                return flat(o);
            }, ok);
            have[v][k] = ok;
            cost[v][k] = mc::now() - t;
            if (getenv("VERBOSE")) printf("%s %s %.3f\n", kname(k), vname[v], cost[v][k]);
        }
}

struct Step { int k, v; };
// every thread executes its list of calls
static void together(mc::Ctx &c, const std::vector<std::vector<Step>> &words)
{
    std::string d;
    for (auto &w : words) {
        d += d.empty() ? "" : "  ||  ";
        for (size_t i = 0; i < w.size(); i++) d += std::string(i ? "; " : "") + kname(w[i].k) + " (" + vname[w[i].v] + ")";
    }
    c.desc("%s", d.c_str());
    c.state("%.250s", d.c_str());
    for (auto &w : words)
        for (auto s : w) c.expect(have[s.v][s.k], "the reference evaluation did not end normally");
    sched::Options o;
    sched::Stats st = sched::explore(c, o, [&]() -> std::string {
        Shared sh;
        std::vector<std::vector<Blocks>> out(words.size());
        std::vector<std::vector<Args>> args(words.size());
        std::vector<std::function<void()>> fs;
        for (size_t t = 0; t < words.size(); t++) {
            for (auto s : words[t]) {
                args[t].push_back(sh.args(s.v));
                out[t].push_back(outputs(s.k, args[t].back()));
            }
            fs.push_back([&, t] {
                for (size_t i = 0; i < words[t].size(); i++) run(words[t][i].k, args[t][i], out[t][i]);
            });
        }
        sched::spawn_all(fs);
        for (size_t t = 0; t < words.size(); t++)
            for (size_t i = 0; i < words[t].size(); i++) {
                VD r = flat(out[t][i]), &w = refs[words[t][i].v][words[t][i].k];
                for (size_t e = 0; e < w.size(); e++)
                    if (memcmp(&r[e], &w[e], 8)) {
                        char b[300];
                        snprintf(b, sizeof b, "thread %zu, %s (%s): element %zu is %.17g, alone it is %.17g", t + 1, kname(words[t][i].k), vname[words[t][i].v], e, r[e], w[e]);
                        return b;
                    }
            }
        return "";
    });
    c.call((long)words.size());
    c.expect(st.complete, "schedule limit reached");
}

static void pairs(mc::Ctx &c)
{
    int k1 = c.choose(K_ALL, "first"), k2 = k1 + c.choose(K_ALL - k1, "second");
    int v = mc::thorough ? c.choose(NV, "operands") : c.pick<int>("operands", {k1 == k2 ? 0 : (k1 + k2) % 3});
    c.go();
    // both orders of the two calls, and both at the same time
    together(c, {{{k1, 0}, {k2, v}}, {{k2, v}, {k1, 0}}});
}
static void same(mc::Ctx &c)
{
    int k = c.choose(K_ALL, "kind"), v1 = c.choose(NV, "operands 1"), v2 = v1 + c.choose(NV - v1, "operands 2");
    c.go();
    together(c, {{{k, v1}}, {{k, v2}}});
}
static void triples(mc::Ctx &c)
{
    int k1 = c.choose(K_ALL, "first"), k2, k3;
    if (mc::thorough) {
        k2 = k1 + c.choose(K_ALL - k1, "second");
        k3 = k2 + c.choose(K_ALL - k2, "third");
    } else {
        int m = c.choose(2, "others");
        k2 = m ? (k1 + 7) % K_ALL : k1;
        k3 = m ? (k1 + 13) % K_ALL : k1;
    }
    c.go();
    together(c, {{{k1, 0}}, {{k2, 1}}, {{k3, 2}}});
}

// unusual operands: two threads make one call on the same objects (or through the Fortran binding, on the same arrays).
// Nothing in a call synchronises, so one schedule decides: any conflicting pair of accesses is unordered.
struct Unusual { const char *name; int la, lb, l; int geo, prims, oc; double tight; };
static const Unusual UN[] = {
    {"all centres at one point", 2, 1, 1, 0, 2, 4, 1},
    {"bra on the operator", 2, 2, 2, 1, 2, 2, 1},
    {"ket on the operator", 1, 3, 1, 2, 3, 2, 1},
    {"bra and ket at one point", 2, 2, 2, 3, 2, 4, 1},
    {"far apart", 1, 1, 1, 4, 2, 2, 1},
    {"eight primitives", 1, 2, 1, 5, 8, 2, 1},
    {"tight functions", 2, 2, 2, 6, 2, 2, 300},
    {"high L", 4, 2, 3, 5, 1, 2, 1},
    {"highest L", 9, 8, 0, 5, 1, 1, 1},
    {"high L, s", 8, 0, 0, 5, 1, 1, 1},
    {"high l", 1, 0, 7, 5, 1, 1, 1},
    {"empty potential, no pseudospinor", 2, 1, 1, 5, 2, 0, 1},
    {"s functions", 0, 0, 0, 5, 1, 5, 1},
};
enum { NUN = sizeof UN / sizeof *UN };
static Scene unusual(const Unusual &u)
{
    Scene s = scene(0);
    s.la = u.la; s.lb = u.lb; s.l = u.l;
    P3 O(0.1, -0.2, 0.3), A(0.7, 0.6, -0.5), B(-0.4, 0.9, 0.8);
    s.a = A; s.b = B; s.c = O;
    if (u.geo == 0) s.a = s.b = O;
    if (u.geo == 1) s.a = O;
    if (u.geo == 2) s.b = O;
    if (u.geo == 3) s.b = A;
    if (u.geo == 4) { s.a = P3(14, 3, -2); s.b = P3(13, 4, -2.5); }
    if (u.geo == 6) { s.a = P3(0.11, -0.2, 0.31); s.b = P3(0.1, -0.19, 0.3); }
    s.pt = s.a;
    s.ca = s.aa = s.cb = s.ab = {};
    for (int i = 0; i < u.prims; i++) {
        s.aa.push_back(u.tight * (0.3 + 0.45 * i)); s.ca.push_back(0.5 - 0.13 * i);
        s.ab.push_back(u.tight * (0.4 + 0.3 * i)); s.cb.push_back(0.7 - 0.2 * i);
    }
    std::vector<OcSpec> all = {{0, 1, PotSpec{{2, 0}, {1.1, 0.4}, {0.8, 2.0}, ""}, {0.6, 0.5}, {1.4, 0.5}}, {1, 1, PotSpec{{1, 2}, {-2.0, 0.7}, {1.4, 3.0}, ""}, {0.6, -0.5}, {2.4, 0.5}},
                               {1, 1, PotSpec{{}, {}, {}, ""}, {1.0}, {1.3}}, {1, 3, PotSpec{{2}, {1.3}, {0.9}, ""}, {1.0}, {0.7}}, {2, 5, PotSpec{{2}, {0.3}, {0.9}, ""}, {1.0}, {0.8}}};
    all.resize(u.oc);
    s.oc = all;
    if (!u.oc) s.u = PotSpec{{}, {}, {}, ""};
    return s;
}
static void inputs(mc::Ctx &c)
{
    int k = c.choose(K_ALL, "kind"), i = c.choose(NUN, "operands"), f = in_fortran(k) ? c.choose(2, "binding") : 0;
    const Unusual &u = UN[i];
    bool dear = !(k <= K_MOMENTUM || k == K_NUC_POINT || k == K_TYPE1 || k == K_OVERLAP_G || k == K_TYPE1_G);
    if (dear && u.la + u.lb > (mc::thorough ? 6 : is_gradient(k) ? 3 : 4)) return;
    if (u.l > 3 && !(k == K_TYPE2 || k == K_SO || k == K_TYPE2_G || k == K_SO_G)) return;
    if (u.l > 3 && is_gradient(k) && !mc::thorough) return;
    c.desc("%s: %s%s, two threads", u.name, kname(k), f ? " (Fortran)" : "");
    c.go();
    c.state("%d %d %d", k, i, f);
    double t0 = mc::now();
    Scene s = unusual(u);
    VD want = flat(evaluate(k, s));
    sched::Options o;
    sched::Stats st = sched::explore(c, o, [&]() -> std::string {
        Live v(s);
        Flat fl(s);
        Args a = v.args();
        Blocks out[2] = {outputs(k, a), outputs(k, a)};
        std::vector<std::function<void()>> fs;
        for (int t = 0; t < 2; t++)
            fs.push_back([&, t] {
                if (!f) { run(k, a, out[t]); return; }
                double *p[16];
                int n = 0;
                for (auto &x : out[t]) p[n++] = x.data();
                fortran(k, fl, p);
            });
        sched::spawn_all(fs);
        for (int t = 0; t < 2; t++) {
            VD r = flat(out[t]);
            for (size_t e = 0; e < want.size(); e++)
                if (memcmp(&r[e], &want[e], 8)) {
                    char b[300];
                    snprintf(b, sizeof b, "thread %d: element %zu is %.17g, alone it is %.17g", t + 1, e, r[e], want[e]);
                    return b;
                }
        }
        return "";
    });
    c.call(2);
    c.expect(st.complete, "schedule limit reached");
    if (getenv("VERBOSE")) fprintf(stderr, "%7.2f %s %s\n", mc::now() - t0, u.name, kname(k));
}

static void init() { libgrpp_init(); }
int main(int argc, char **argv)
{
    mc::warmup = references;
    mc::prefork = init;
    return mc::drive(argc, argv, {{"pairs", pairs, 300}, {"same kind", same, 300}, {"three threads", triples, 300}, {"unusual operands", inputs, 300}});
}
