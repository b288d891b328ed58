// N05: outercore (non-local) integrals against the defining sum evaluated by quadrature.
#include "grpp.hpp"

static void one(mc::Ctx &c, Sh &A, Sh &B, P3 C, const std::vector<OcSpec> &l, double eps, bool elsewhere = false)
{
    Oc o(l, elsewhere);
    size_t n = A.r.nf * B.r.nf;
    VD m[4];
    for (auto &x : m) x.assign(n, 7.0);
    c.call();
    libgrpp_outercore_potential_integrals(A.s, B.s, C, (int)l.size(), o.u.data(), o.s.data(), m[0].data(), m[1].data(), m[2].data(), m[3].data());
    ref::Mat w[4];
    ref::outercore(A.r, B.r, C, o.r, w);
    VD tol = norm_tol(A.r, B.r, eps * o.size());
    const char *nm[4] = {"scalar part", "spin-orbit x", "spin-orbit y", "spin-orbit z"};
    for (int k = 0; k < 4; k++) c.near(nm[k], m[k].data(), w[k].data(), n, 0, tol.data());
}

static void values(mc::Ctx &c)
{
    auto gs = geos();
    auto cs = contrs(5);
    auto ls = oclists();
    int g = c.choose((int)gs.size(), "geometry"), ka = c.choose(mc::thorough ? 5 : 3, "bra"), kb = c.choose(mc::thorough ? 5 : 3, "ket");
    int q = c.choose((int)ls.size(), "pseudospinors");
    c.desc("%s, bra %s ket %s, pseudospinors %s", gs[g].name, cs[ka].name, cs[kb].name, ls[q].first);
    c.go();
    libgrpp_init();
    int lmax = mc::thorough ? 4 : 3;
    for (int la = 0; la <= lmax; la++)
        for (int lb = 0; lb <= lmax; lb++) {
            if (!mc::thorough && (la + 2 * lb + q + ka) % 2) continue;
            c.state("L=%d,%d", la, lb);
            Sh A(gs[g].a, la, cs[ka].c, cs[ka].a), B(gs[g].b, lb, cs[kb].c, cs[kb].a);
            one(c, A, B, gs[g].c, ls[q].second, 3e-13, (la + lb) % 2);
        }
}

// every documented (l, j), basis functions up to L=10
static void angular(mc::Ctx &c)
{
    int l = c.choose(11, "l"), lo = c.choose(l ? 2 : 1, "j"), la = c.pick("L bra", mc::thorough ? VI{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10} : VI{0, 1, 2, 4, 7, 10});
    auto gs = geos();
    int g = c.pick("geometry", VI{0, 2, 3, 7, 8, 9});
    int j2 = (l && !lo) ? 2 * l - 1 : 2 * l + 1;
    c.desc("l=%d 2j=%d L=%d %s", l, j2, la, gs[g].name);
    c.go();
    libgrpp_init();
    for (int lb : mc::thorough ? VI{0, 1, 2, 3, 5, 10} : VI{0, 2, 5}) {
        if (!mc::thorough && la + lb + l > 15) continue;
        c.state("L'=%d", lb);
        Sh A(gs[g].a, la, {1.0}, {0.9}), B(gs[g].b, lb, {1.0}, {0.6});
        one(c, A, B, gs[g].c, {{l, j2, PotSpec{{2, 1}, {1.0, 0.4}, {0.8, 1.1}, ""}, {1.0}, {0.75}}}, 3e-12 * std::pow(10.0, 0.2 * std::max(0, la + lb + 2 * l - 8)));
    }
}

// all ordered lists of up to 3 pseudospinors out of 5 kinds
static void lists(mc::Ctx &c)
{
    std::vector<std::pair<int, int>> kinds = {{0, 1}, {1, 1}, {1, 3}, {2, 3}, {2, 5}};
    int n = 1 + c.choose(3, "count");
    std::vector<OcSpec> v;
    std::string d;
    for (int i = 0; i < n; i++) {
        int k = c.choose(5, "kind");
        int empty = n < 3 || mc::thorough ? c.choose(2, "empty") : 0;
        v.push_back({kinds[k].first, kinds[k].second, empty ? PotSpec{{}, {}, {}, ""} : PotSpec{{2 - i, 2}, {1.0 + i, -0.5}, {0.8 + 0.6 * i, 2.0}, ""}, {1.0, 0.3 * i}, {0.5 + i, 0.2 + 0.1 * i}});
        d += " " + std::to_string(kinds[k].first) + "," + std::to_string(kinds[k].second) + "/2" + (empty ? " without potential" : "");
    }
    c.desc("list of %d:%s", n, d.c_str());
    c.go();
    libgrpp_init();
    auto gs = geos();
    for (int g : {0, 3, 7})
        for (int la : {0, 2}) {
            c.state("%s L=%d", gs[g].name, la);
            Sh A(gs[g].a, la, {1.0, 0.2}, {0.9, 0.15}), B(gs[g].b, 1, {1.0}, {0.6});
            one(c, A, B, gs[g].c, v, 3e-13, true);
        }
}

int main(int argc, char **argv)
{
    mc::warmup = warm_tables;
    mc::prefork = libgrpp_init;
    return mc::drive(argc, argv, {{"values", values, 100}, {"all l, j", angular, 100}, {"all lists", lists, 100}});
}
