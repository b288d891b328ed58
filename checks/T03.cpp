// T03: the C front-end (its own main, instrumented) under every schedule of its OpenMP loop.
#include "front.hpp"
#include "sched.hpp"
using namespace front;
extern "C" int driver_main(int argc, char **argv);

static const P3 R[4] = {P3(0.3, -0.2, 0.5), P3(-0.9, 1.1, 0.25), P3(1.5, 0.75, -1.125), P3(0.0, 2.0, -1.0)};

// shells: how many, 2..5
static Mol mol(int kind, int shells)
{
    Mol m;
    BBlock s{{0.8}, {{1.0}}}, p{{0.6, 0.2}, {{0.4, 0.8}}}, s2{{1.1, 0.4}, {{0.3, 0.8}, {1.0, 0.0}}}, d{{0.7}, {{1.0}}};
    m.atoms = {{26, R[0], ""}, {8, R[1], ""}};
    Basis two = {s}, eight = {s};
    if (shells >= 3) two = {s, p};
    if (shells >= 4) eight = {s2};
    if (shells >= 5) two = {s, p, d};
    m.basis[26] = two;
    m.basis[8] = eight;
    switch (kind) {
    case 0: m.ecp[26] = ecp_shape(4, 1.0); break;                                        // one operator with all its parts
    case 1: m.ecp[26] = ecp_shape(1, 1.0); m.ecp[8] = ecp_shape(3, 1.2); break;          // two operators
    case 2:                                                                              // one operator object at two places
        m.atoms.push_back({82, R[2], ""});
        m.atoms.push_back({82, R[3], ""});
        m.basis[82] = {};
        m.ecp[82] = ecp_shape(4, 0.9);
        break;
    case 3: m.ecp[26] = ecp_shape(7, 1.0); m.ecp[8] = ecp_shape(2, 1.1); break;
    case 4: m.atoms[1].r = m.atoms[0].r; m.ecp[26] = ecp_shape(8, 1.0); m.ecp[8] = ecp_shape(6, 1.1); break;      // at one point
    }
    return m;
}
static void together(mc::Ctx &c, const Mol &m, const std::vector<int> &flags, const sched::Options &o, const char *what)
{
    c.desc("%s", what);
    c.state("%s", what);
    Layout l;
    Dir dir;
    Text t = text(m, l);
    libgrpp_set_radial_tolerance(1e-16);
    Files want;
    {
        Assembly as(m, l);
        for (int f : flags) as.make(f, "libgrpp_c_", want);
    }
    std::vector<std::string> args = {"test_libgrpp_c.x"};
    for (int f : flags) args.push_back(flag_name(f));
    sched::Stats st = sched::explore(c, o, [&]() -> std::string {
        char b[400];
        Dir d;
        d.put(t);
        if (chdir(d.p.c_str())) return "no directory";
        int n = open("/dev/null", O_WRONLY), keep = dup(1);
        dup2(n, 1);
        std::vector<char *> av;
        for (auto &a : args) av.push_back((char *)a.c_str());
        av.push_back(nullptr);
        int r = driver_main((int)args.size(), av.data());
        fflush(stdout);
        dup2(keep, 1);
        if (chdir("/")) return "no directory";
        if (r) { snprintf(b, sizeof b, "the program returned %d", r); return b; }
        for (auto &w : want) {
            std::string e = differ(read_mat(d.p + "/" + w.first), w.second, 1e-10, 2e-14);
            if (!e.empty()) { snprintf(b, sizeof b, "%.80s: %.250s", w.first.c_str(), e.c_str()); return b; }
        }
        return "";
    });
    c.call((long)want.size());
    c.expect(st.complete, "schedule limit reached");
}
// every iteration on a thread of its own: no two iterations may touch the same memory, whoever executes them
static void disjoint(mc::Ctx &c)
{
    int k = c.choose(5, "molecule"), n = 2 + c.choose(mc::thorough ? 4 : 3, "shells");
    c.go();
    sched::Options o;
    o.one_each = true;
    char w[100];
    snprintf(w, sizeof w, "every iteration on a thread of its own, molecule %d, %d shells", k, n);
    std::vector<int> f;
    for (int i = 0; i < NFLAGS; i++)
        if (i != F_BUBBLE)      // known finding, see D01
        if (i == F_GRPP || (n == 2 && (mc::thorough || k < 3)) || i == F_OVERLAP) f.push_back(i);
    together(c, mol(k, n), f, o, w);
}
// every assignment of the iterations to 2 or 3 threads
static void teams(mc::Ctx &c)
{
    int k = c.choose(5, "molecule"), team = 2 + (mc::thorough ? c.choose(2, "threads") : 0), n = 2 + (team == 2 && mc::thorough ? c.choose(2, "shells") : 0);
    c.go();
    sched::Options o;
    o.team = team;
    char w[100];
    snprintf(w, sizeof w, "%d threads, molecule %d, %d shells", team, k, n);
    together(c, mol(k, n), {F_GRPP}, o, w);
}
int main(int argc, char **argv)
{
    mc::warmup = [] { libgrpp_init(); };
    return mc::drive(argc, argv, {{"disjoint", disjoint, 900}, {"teams", teams, 1800}});
}
