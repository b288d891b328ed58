// N11: symmetries of the operators, checked on the library against itself for the whole octahedral group, general rotations,
// translations and the exchange of bra and ket.
#include "ops.hpp"

typedef std::array<std::array<double, 3>, 3> M3;

static std::vector<M3> octahedral()
{
    std::vector<M3> v;
    int p[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (auto &q : p)
        for (int s = 0; s < 8; s++) {
            M3 m{};
            for (int i = 0; i < 3; i++) m[i][q[i]] = (s >> i & 1) ? -1 : 1;
            v.push_back(m);
        }
    return v;
}
static std::vector<M3> rotations()
{
    std::vector<M3> v;
    double ax[3][4] = {{0, 0, 1, 0.7}, {1, 2, -2, 2.1}, {-0.3, 0.4, 1.2, 1.0}};
    for (auto &a : ax) {
        double n = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]), u[3] = {a[0] / n, a[1] / n, a[2] / n}, c = std::cos(a[3]), s = std::sin(a[3]);
        M3 m;
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++) {
                int k = 3 - i - j;
                double e = i == j ? 0 : (j == (i + 1) % 3 ? -u[k] : u[k]);
                m[i][j] = (i == j ? c : 0) + (1 - c) * u[i] * u[j] + s * e;
            }
        v.push_back(m);
        for (auto &r : m)
            for (auto &x : r) x = -x;
        v.push_back(m);      // with inversion
    }
    return v;
}
static double det(const M3 &m)
{
    return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) +
           m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
}
static P3 mul(const M3 &m, P3 p)
{
    P3 q;
    for (int i = 0; i < 3; i++) q.v[i] = m[i][0] * p.v[0] + m[i][1] * p.v[1] + m[i][2] * p.v[2];
    return q;
}

// monomial_i(R r) = sum_k D_ik monomial_k(r), in the library's own order of functions
static VD rep(const M3 &m, libgrpp_shell_t *s)
{
    int n = s->cart_size;
    VD D(n * n, 0.0);
    for (int i = 0; i < n; i++) {
        ref::Poly p;
        p[{0, 0, 0}] = 1;
        for (int x = 0; x < 3; x++) {
            ref::Poly lin;
            for (int y = 0; y < 3; y++)
                if (m[x][y] != 0) {
                    std::array<int, 3> e{0, 0, 0};
                    e[y] = 1;
                    lin[e] += m[x][y];
                }
            for (int q = 0; q < s->cart_list[3 * i + x]; q++) p = ref::pmul(p, lin);
        }
        for (int k = 0; k < n; k++) {
            auto it = p.find({s->cart_list[3 * k], s->cart_list[3 * k + 1], s->cart_list[3 * k + 2]});
            if (it != p.end()) D[i * n + k] = it->second;
        }
    }
    return D;
}
static VD sandwich(const VD &DA, const VD &M, const VD &DB, int na, int nb)
{
    VD t(na * nb, 0.0), r(na * nb, 0.0);
    for (int i = 0; i < na; i++)
        for (int k = 0; k < na; k++)
            if (DA[i * na + k] != 0)
                for (int j = 0; j < nb; j++) t[i * nb + j] += DA[i * na + k] * M[k * nb + j];
    for (int j = 0; j < nb; j++)
        for (int k = 0; k < nb; k++)
            if (DB[j * nb + k] != 0)
                for (int i = 0; i < na; i++) r[i * nb + j] += t[i * nb + k] * DB[j * nb + k];
    return r;
}

static Scene scene(int g, int la, int lb, int l, int contr)
{
    auto gs = geos();
    auto cs = contrs(2);
    auto oc = oclists()[l == 0 ? 5 : l == 1 ? 4 : 9].second;
    Scene s;
    s.a = gs[g].a;
    s.b = gs[g].b;
    s.c = gs[g].c;
    s.la = la;
    s.lb = lb;
    s.l = l;
    s.ca = cs[contr].c;
    s.aa = cs[contr].a;
    s.cb = {0.8};
    s.ab = {0.45};
    s.u = pots()[l == 0 ? 0 : l == 1 ? 9 : 10];
    s.oc = oc;
    s.nuc = {0.2, 0.03, -0.3};
    return s;
}
static P3 point(const Scene &s, int k) { return k == 0 ? s.a : k == 1 ? s.b : s.c; }

static bool affordable(int k, int la, int lb, int l)
{
    int hi = mc::thorough ? 4 : 3;
    if (k <= K_MOMENTUM || k == K_TYPE1 || k == K_OVERLAP_G || k == K_NUC_POINT) hi = mc::thorough ? 6 : 5;
    if (is_numerical(k)) hi = 2;
    if (k == K_SO_G || k == K_FULL_G || k == K_OC_G || k == K_TYPE2_G || k == K_SO || k == K_FULL) hi = mc::thorough ? 3 : 2;
    if (la > hi || lb > hi) return false;
    if (!mc::thorough && (k == K_FULL_G || k == K_SO_G || k == K_OC_G) && la + lb > 3) return false;
    if (k == K_OVERLAP || k == K_KINETIC || k == K_MOMENTUM || k == K_OVERLAP_G || k == K_TYPE1 || k == K_TYPE1_G || (k >= K_NUC_POINT && k <= K_NUC_BUBBLE)) return l == 0 || k == K_TYPE1;
    return true;
}
static const double EPS = 3e-11, EPST = 3e-12;

static void transform(mc::Ctx &c, const std::vector<M3> &group, const std::vector<int> &geom)
{
    int k = c.choose(K_ALL, "kind"), la = c.choose(mc::thorough ? 7 : 6, "L bra"), lb = c.choose(mc::thorough ? 7 : 6, "L ket"), l = c.choose(3, "l");
    if (!affordable(k, la, lb, l)) return;
    if (!mc::thorough && (la + lb + l) % 2 && is_gradient(k)) return;
    int g = geom[c.choose((int)geom.size(), "geometry")];
    int pt = is_gradient(k) ? c.choose(mc::thorough ? 3 : 1, "point") : 0;
    c.desc("%s L=%d,%d l=%d %s point %d", kname(k), la, lb, l, geos()[g].name, pt);
    c.go();
    libgrpp_init();
    Scene s = scene(g, la, lb, l, (la + lb) % 2);
    s.pt = point(s, mc::thorough ? pt : (la + 2 * lb + g) % 3);
    Blocks base = evaluate(k, s);
    c.call();
    auto inf = blocks(k);
    VD tol = ktol(k, s, EPST);
    // all elements of a vector/tensor mix, and so do the functions: one tolerance for the block
    double t0 = 0;
    for (double t : tol) t0 = std::max(t0, t);
    Live probe(s);
    int na = probe.A->cart_size, nb = probe.B->cart_size;
    int q = 0;
    for (auto &R : group) {
        c.state("transformation %d", q++);
        Scene r = s;
        r.a = mul(R, s.a);
        r.b = mul(R, s.b);
        r.c = mul(R, s.c);
        r.pt = s.pt.v[0] == s.a.v[0] && s.pt.v[1] == s.a.v[1] && s.pt.v[2] == s.a.v[2] ? r.a : mul(R, s.pt);
        Blocks got = evaluate(k, r);
        c.call();
        VD DA = rep(R, probe.A), DB = rep(R, probe.B);
        double dt = det(R);
        std::vector<VD> sw;
        for (auto &m : base) sw.push_back(sandwich(DA, m, DB, na, nb));
        for (size_t x = 0; x < inf.size(); x++) {
            VD want(na * nb, 0.0);
            for (size_t y = 0; y < inf.size(); y++) {
                if (inf[y].vec != inf[x].vec) continue;
                double f = 1;
                if (inf[x].vec) f *= R[inf[x].comp][inf[y].comp] * (inf[x].vec == 2 ? dt : 1);
                if (inf[x].der >= 0) f *= R[inf[x].der][inf[y].der];
                if (f != 0)
                    for (int i = 0; i < na * nb; i++) want[i] += f * sw[y][i];
            }
            c.near(kname(k), got[x].data(), want.data(), want.size(), 3 * t0);
        }
    }
}
static void axes(mc::Ctx &c) { transform(c, octahedral(), mc::thorough ? std::vector<int>{2, 5, 7, 9} : std::vector<int>{7}); }
static void rotate(mc::Ctx &c) { transform(c, rotations(), mc::thorough ? std::vector<int>{2, 3, 5, 7, 8, 9, 10} : std::vector<int>{5, 7, 9}); }

static void exchange(mc::Ctx &c)
{
    int k = c.choose(K_ALL, "kind"), la = c.choose(mc::thorough ? 7 : 6, "L bra"), lb = c.choose(mc::thorough ? 7 : 6, "L ket"), l = c.choose(3, "l");
    if (la < lb || !affordable(k, la, lb, l)) return;
    int g = c.choose((int)geos().size(), "geometry");
    c.desc("%s L=%d,%d l=%d %s", kname(k), la, lb, l, geos()[g].name);
    c.go();
    libgrpp_init();
    for (int contr = 0; contr < 2; contr++)
        for (int pt = 0; pt < (is_gradient(k) ? 3 : 1); pt++) {
            if (!mc::thorough && is_gradient(k) && (contr + pt + g) % 3) continue;
            c.state("contraction %d point %d", contr, pt);
            Scene s = scene(g, la, lb, l, contr), t = s;
            s.pt = point(s, pt);
            t.a = s.b; t.b = s.a; t.la = s.lb; t.lb = s.la; t.ca = s.cb; t.cb = s.ca; t.aa = s.ab; t.ab = s.aa;
            t.pt = s.pt;
            Blocks x = evaluate(k, s), y = evaluate(k, t);
            c.call(2);
            VD tol = ktol(k, s, EPS);
            if (k == K_KINETIC || k == K_MOMENTUM) { VD t2 = ktol(k, t, EPS); double m = 0; for (double q : t2) m = std::max(m, q); for (auto &q : tol) q = std::max(q, m); }
            auto inf = blocks(k);
            int na = (la + 1) * (la + 2) / 2, nb = (lb + 1) * (lb + 2) / 2;
            for (size_t b = 0; b < inf.size(); b++) {
                VD w(na * nb);
                for (int i = 0; i < na; i++)
                    for (int j = 0; j < nb; j++) w[i * nb + j] = (antisym(inf[b]) ? -1 : 1) * y[b][j * na + i];
                c.near(kname(k), x[b].data(), w.data(), w.size(), 0, tol.data());
            }
        }
}

static void translate(mc::Ctx &c)
{
    int k = c.choose(K_ALL, "kind"), la = c.choose(mc::thorough ? 7 : 5, "L bra"), lb = c.choose(mc::thorough ? 7 : 5, "L ket"), l = c.choose(3, "l");
    if (!affordable(k, la, lb, l)) return;
    int g = c.choose((int)geos().size(), "geometry");
    c.desc("%s L=%d,%d l=%d %s", kname(k), la, lb, l, geos()[g].name);
    if (!mc::thorough && (g + la + lb + k) % 2) return;
    c.go();
    libgrpp_init();
    Scene s = scene(g, la, lb, l, (la + lb) % 2);
    s.pt = point(s, g % 3);
    Blocks base = evaluate(k, s);
    VD tol = ktol(k, s, EPS);
    for (P3 t : {P3(0.5, 0, 0), P3(-0.25, 4.0, 1.75), P3(128.5, -64.25, 0.125)}) {       // exactly representable
        c.state("shift %s", fmt(t).c_str());
        Scene r = s;
        r.a = s.a + t;
        r.b = s.b + t;
        r.c = s.c + t;
        r.pt = point(r, g % 3);
        Blocks got = evaluate(k, r);
        c.call();
        for (size_t b = 0; b < got.size(); b++) c.near(kname(k), got[b].data(), base[b].data(), base[b].size(), 0, tol.data());
    }
}

int main(int argc, char **argv)
{
    mc::warmup = warm_tables;
    mc::prefork = libgrpp_init;
    return mc::drive(argc, argv, {{"axes: all 48 signed permutations", axes, 300}, {"rotations", rotate, 300}, {"bra and ket exchanged", exchange, 200}, {"translations", translate, 200}});
}
