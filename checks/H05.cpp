// H05: all histories of initialise / finalise / query / evaluate, each in a fresh process.
#include "hist.hpp"
#ifdef ASAN_BUILD
#include "alloc.hpp"
#else
#include <malloc.h>
// bytes in use, counted around library calls only
namespace heap {
static long bytes = 0;
inline void install() {}
inline long used() { auto m = mallinfo2(); return (long)(m.uordblks + m.hblkhd); }
}
#define LIB(expr) ([&] { long u_ = heap::used(); auto r_ = expr; heap::bytes += heap::used() - u_; return r_; }())
#endif

static Scene scene()
{
    Scene s;
    s.a = P3(0.7, 0.6, -0.5);
    s.b = P3(-0.4, 0.9, 0.8);
    s.c = P3(0.1, -0.2, 0.3);
    s.pt = s.a;
    s.la = s.lb = s.l = 1;
    s.ca = {0.6};
    s.aa = {1.7};
    s.cb = {0.8};
    s.ab = {0.45};
    s.u = PotSpec{{2, 1}, {2.0, -3.0}, {1.3, 6.0}, "mixed"};
    s.oc = {{1, 1, PotSpec{{1}, {-2.0}, {1.4}, ""}, {0.6}, {2.4}}};
    s.nuc = {0.2, 0.03, -0.3};
    return s;
}
extern "C" void libgrpp_init_();
extern "C" void libgrpp_finalize_();
extern "C" void libgrpp_set_default_parameters_();

enum { INIT, FIN, EVAL1, EVAL2, FINIT, FFIN, NACT };
static const char *an[] = {"init", "finalise", "evaluate", "evaluate another", "init (Fortran)", "finalise (Fortran)"};

static VD silent(int k)
{
    return flat(evaluate(k, scene()));
}
// reference: one initialisation, one evaluation, in a process of its own
static VD refs[K_ALL];
static bool alive[K_ALL];
static void references()
{
    for (int k = 0; k < K_ALL; k++) refs[k] = in_child([&] { libgrpp_init(); return silent(k); }, alive[k]);
}
static void fill(int k, VD &r)
{
    VD v = silent(k);
    if (v.size() == r.size()) std::copy(v.begin(), v.end(), r.begin());
}
static const int PAIRS[][2] = {{K_TYPE2, K_TYPE1}, {K_SO, K_NUC_BALL}, {K_OC, K_FULL_G}, {K_TYPE1_G, K_FULL}, {K_NUC_POINT, K_OC_G}, {K_TYPE2_G, K_NUC_FERMI}, {K_SO_G, K_NUC_NUM}, {K_NUC_GAUSS, K_NUC_BUBBLE}};

struct State { bool up = false, seen = false; long live1 = 0; std::string h; };

static void step(mc::Ctx &c, State &st, int a, int k1, int k2)
{
    st.h += std::string(st.h.empty() ? "" : "; ") + an[a];
    c.state("%s", st.h.c_str());
    c.call();
    switch (a) {
        case INIT: LIB((libgrpp_init(), 0)); st.up = true; break;
        case FINIT: LIB((libgrpp_init_(), 0)); st.up = true; break;
        case FIN: LIB((libgrpp_finalize(), 0)); st.up = false; break;
        case FFIN: LIB((libgrpp_finalize_(), 0)); st.up = false; break;
        case EVAL1: case EVAL2: {
            int k = a == EVAL1 ? k1 : k2;
            VD &want = refs[k];
            c.expect(alive[k], "init and evaluate ends the process");
            if (st.up) {
                VD got(want.size(), -1.0);
                LIB((fill(k, got), 0));
                c.same(kname(k), got.data(), want.data(), got.size() * 8);
            } else if (needs_init(k)) {
                bool lived;
                in_child([&] { return silent(k); }, lived);
                if (lived) c.fail("%s returned numbers although the library is not initialised", kname(k));
                c.s->compared++;
            }
            break;
        }
    }
    c.expect((libgrpp_is_initialized() != 0) == st.up, "the library misreports whether it is initialised");
    if (st.up && !st.seen) { st.seen = true; st.live1 = heap::bytes; }
    if (st.seen && heap::bytes > st.live1) c.fail("%ld more bytes of the library are alive than after the first initialisation", heap::bytes - st.live1);
}
static void run(mc::Ctx &c, const std::vector<int> &w, int k1, int k2)
{
    heap::install();
    State st;
    for (int a : w) step(c, st, a, k1, k2);
}
// all continuations; every branching point forks, so that each history has a process state of its own
static void tree(mc::Ctx &c, State st, int depth, int nact, int k1, int k2)
{
    for (int a = 0; depth > 0 && a < nact; a++) {
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            State s2 = st;
            try {
                step(c, s2, a, k1, k2);
                tree(c, s2, depth - 1, nact, k1, k2);
            } catch (mc::Fail &) { _exit(1); }
            _exit(0);
        }
        int r = 0;
        waitpid(p, &r, 0);
        if (c.s->done == 2) throw mc::Fail();
        if (!WIFEXITED(r) || WEXITSTATUS(r)) c.fail("%s; %s: the process ended", st.h.c_str(), an[a]);
    }
}
static void words(mc::Ctx &c)
{
    int n = mc::thorough ? 6 : 5, na = mc::thorough ? 6 : 4, np = sizeof PAIRS / sizeof PAIRS[0];
    int a = c.choose(na, "first"), b = c.choose(na, "second"), q = (a * 3 + b) % np;
    if (mc::thorough) q = c.choose(np, "kinds");
    c.desc("%s; %s; and all continuations (%s, %s)", an[a], an[b], kname(PAIRS[q][0]), kname(PAIRS[q][1]));
    c.go();
    heap::install();
    State st;
    step(c, st, a, PAIRS[q][0], PAIRS[q][1]);
    step(c, st, b, PAIRS[q][0], PAIRS[q][1]);
    tree(c, st, n - 2, na, PAIRS[q][0], PAIRS[q][1]);
}
// every kind, every word of length 4 of {init, finalise, Fortran init, Fortran finalise, evaluate}
static void kinds(mc::Ctx &c)
{
    int k = c.choose(K_ALL, "kind");
    static const int al[] = {INIT, FIN, FINIT, FFIN};
    std::vector<int> w;
    for (int i = 0; i < (mc::thorough ? 3 : 2); i++) { w.push_back(al[c.choose(4, "action")]); w.push_back(EVAL1); }
    w.insert(w.begin(), EVAL1);
    std::string h;
    for (int a : w) h += std::string(h.empty() ? "" : "; ") + an[a];
    c.desc("%s: %s", kname(k), h.c_str());
    c.go();
    run(c, w, k, K_OVERLAP);
}
// many cycles
static void cycles(mc::Ctx &c)
{
    int k = c.pick<int>("kind", {K_TYPE1, K_TYPE2, K_SO, K_OC, K_NUC_POINT, K_FULL_G, K_NUC_FERMI}), m = c.choose(3, "cycle");
    c.desc("many cycles of %s, %s", m == 0 ? "init, evaluate, finalise" : m == 1 ? "init, init, evaluate, finalise, finalise" : "init, evaluate", kname(k));
    c.go();
    std::vector<int> w;
    for (int i = 0; i < (mc::thorough ? 150 : 12); i++) {
        w.push_back(INIT);
        if (m == 1) w.push_back(FINIT);
        w.push_back(EVAL1);
        if (m == 0) w.push_back(FIN);
        if (m == 1) { w.push_back(FFIN); w.push_back(FIN); }
    }
    run(c, w, k, K_OVERLAP);
}
// nothing else works differently without the tables: plain integrals and objects before initialisation
static void plain(mc::Ctx &c)
{
    int k = c.pick<int>("kind", {K_OVERLAP, K_KINETIC, K_MOMENTUM, K_OVERLAP_G}), st = c.choose(3, "state");
    c.desc("%s %s", kname(k), st == 0 ? "before initialisation" : st == 1 ? "after finalisation" : "initialised");
    c.go();
    c.state("run");
    bool ok;
    VD w = refs[k];
    c.expect(alive[k], "evaluation ends the process");
    VD g = in_child([&] { if (st) libgrpp_init(); if (st == 1) libgrpp_finalize(); return silent(k); }, ok);
    c.call();
    if (ok) c.same(kname(k), g.data(), w.data(), g.size() * 8);      // terminating is allowed, other numbers are not
}

int main(int argc, char **argv)
{
    mc::warmup = references;
    return mc::drive(argc, argv, {{"words", words, 600}, {"every kind", kinds, 60}, {"many cycles", cycles, 120}, {"plain integrals", plain, 30}});
}
