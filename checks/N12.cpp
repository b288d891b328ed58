// N12: linearity in contraction and potential coefficients, checked on the library against itself.
#include "ops.hpp"
#include <set>

struct Term { double c, a; int n; };
typedef std::vector<Term> Terms;
// a rewriting of a sum: several sums whose (weighted) total is the same function
struct Rewrite { std::string name; std::vector<std::pair<double, Terms>> parts; double scale = 1; };

static std::vector<Rewrite> rewrites(const Terms &t)
{
    std::vector<Rewrite> r;
    Rewrite s{"split into primitives", {}};
    for (auto &x : t) s.parts.push_back({1.0, {x}});
    r.push_back(s);
    Rewrite s1{"split, unit coefficients", {}};
    for (auto &x : t) s1.parts.push_back({x.c, {{1.0, x.a, x.n}}});
    r.push_back(s1);
    std::vector<int> id;
    for (size_t i = 0; i < t.size(); i++) id.push_back((int)i);
    do {
        Terms p;
        for (int i : id) p.push_back(t[i]);
        r.push_back({"permuted", {{1.0, p}}});
    } while (std::next_permutation(id.begin(), id.end()));
    for (size_t i = 0; i < t.size(); i++) {
        Terms p = t;
        p[i].c *= 0.3;
        p.push_back({0.7 * t[i].c, t[i].a, t[i].n});
        r.push_back({"one repeated, coefficient split", {{1.0, p}}});
        p.back().c = -t[i].c;
        p[i].c = 2 * t[i].c;
        r.push_back({"one repeated with cancelling coefficients", {{1.0, p}}});
    }
    for (size_t i = 0; i <= t.size(); i++) {
        Terms p = t;
        p.insert(p.begin() + i, {0.0, 3.3, i % 3 == 0 ? 2 : i % 3 == 1 ? 1 : 0});
        r.push_back({"zero coefficient inserted", {{1.0, p}}});
    }
    for (double f : {2.0, -1.0, 1e-3, 1e4}) {
        Terms p = t;
        for (auto &x : p) x.c *= f;
        Rewrite q{"scaled", {{1.0 / f, p}}};
        r.push_back(q);
    }
    {
        Terms p = t;
        for (auto &x : p) x.c *= 0;
        Rewrite q{"all coefficients zero", {{1.0, p}}};
        q.scale = 0;
        r.push_back(q);
    }
    return r;
}

static Terms terms(int k)
{
    std::vector<Terms> v = {{{0.6, 1.7, 2}, {-0.5, 0.3, 1}}, {{0.2, 40.0, 0}, {0.5, 2.0, 2}, {-0.4, 0.15, 1}}, {{1.0, 0.8, 1}}};
    return v[k];
}

static Scene scene(int g, int la, int lb, int l)
{
    auto gs = geos();
    Scene s;
    s.a = gs[g].a;
    s.b = gs[g].b;
    s.c = gs[g].c;
    s.pt = g % 3 == 0 ? s.a : g % 3 == 1 ? s.b : s.c;
    s.la = la;
    s.lb = lb;
    s.l = l;
    s.ca = {0.6, -0.5};
    s.aa = {1.7, 0.3};
    s.cb = {0.8};
    s.ab = {0.45};
    s.u = pots()[9];
    s.oc = oclists()[l == 0 ? 5 : l == 1 ? 7 : 9].second;
    s.nuc = {0.2, 0.03, -0.3};
    return s;
}

static void put(Scene &s, int where, const Terms &t)
{
    VD c, a;
    VI n;
    for (auto &x : t) { c.push_back(x.c); a.push_back(x.a); n.push_back(x.n); }
    if (where == 0) { s.ca = c; s.aa = a; }
    if (where == 1) { s.cb = c; s.ab = a; }
    if (where == 2) s.u = {n, c, a, ""};
}

static void linear(mc::Ctx &c)
{
    int k = c.choose(K_ALL, "kind"), where = c.choose(3, "bra, ket or potential");
    if (where == 2 && !uses_pot(k)) return;
    int la = c.choose(mc::thorough ? 4 : 3, "L bra"), lb = c.choose(mc::thorough ? 4 : 3, "L ket"), l = c.choose(3, "l");
    if (!(uses_pot(k) || uses_oc(k) || uses_full(k)) && l) return;
    if (!mc::thorough && is_gradient(k) && (la + lb + l) % 2) return;
    int g = mc::thorough ? c.choose((int)geos().size(), "geometry") : c.pick<int>("geometry", {1, 3, 5, 7, 10});
    int ti = c.choose(3, "contraction");
    if (!mc::thorough && (la + 2 * lb + g + ti) % 2) return;
    if (mc::thorough && (k == K_SO_G || k == K_FULL_G || k == K_OC_G) && la + lb > 4) return;
    c.desc("%s in the %s, L=%d,%d l=%d %s contraction %d", kname(k), where == 0 ? "bra" : where == 1 ? "ket" : "potential", la, lb, l, geos()[g].name, ti);
    c.go();
    libgrpp_init();
    Scene s = scene(g, la, lb, l);
    Terms t = terms(ti);
    put(s, where, t);
    Blocks base = evaluate(k, s);
    c.call();
    VD tol;
    {   // sizes are those of the pieces, which may cancel
        Scene w = s;
        Terms p = t;
        for (auto &x : p) x.c = 3 * std::fabs(x.c);
        put(w, where, p);
        tol = ktol(k, w, 3e-11);
    }
    for (auto &r : rewrites(t)) {
        c.state("%s", r.name.c_str());
        Blocks sum(base.size(), VD(base[0].size(), 0.0));
        for (auto &p : r.parts) {
            Scene w = s;
            put(w, where, p.second);
            Blocks x = evaluate(k, w);
            c.call();
            for (size_t b = 0; b < x.size(); b++) ref::axpy(p.first, x[b], sum[b]);
        }
        for (size_t b = 0; b < sum.size(); b++) {
            VD w = base[b];
            for (auto &q : w) q *= r.scale;
            VD t2 = tol;
            // absolute thresholds in the library grow with the factor when the pieces are scaled back
            for (auto &q : t2) q *= 1 + 0.01 * std::fabs(r.parts[0].first) * (r.name == "scaled");
            c.near(r.name.c_str(), sum[b].data(), w.data(), w.size(), 0, t2.data());
        }
    }
}

// outercore and full operators are linear in their potentials taken together
static void potentials(mc::Ctx &c)
{
    int k = c.pick<int>("kind", {K_OC, K_FULL, K_OC_G, K_FULL_G});
    int la = c.choose(3, "L bra"), lb = c.choose(3, "L ket"), li = c.choose((int)oclists().size(), "pseudospinors");
    int g = mc::thorough ? c.choose((int)geos().size(), "geometry") : c.pick<int>("geometry", {1, 3, 7});
    if (!mc::thorough && is_gradient(k) && (la + lb + li) % 3) return;
    auto lists = oclists();
    auto oc = lists[li].second;
    c.desc("%s L=%d,%d %s %s", kname(k), la, lb, lists[li].first, geos()[g].name);
    c.go();
    libgrpp_init();
    Scene s = scene(g, la, lb, 1);
    s.oc = oc;
    Blocks base = evaluate(k, s);
    c.call();
    VD tol = ktol(k, s, 1e-10);
    // every potential primitive alone
    Scene z = s;
    z.u = {{}, {}, {}, ""};
    for (auto &o : z.oc) o.u = {{}, {}, {}, ""};
    Blocks sum(base.size(), VD(base[0].size(), 0.0));
    auto add = [&](const Scene &w) {
        Blocks x = evaluate(k, w);
        c.call();
        for (size_t b = 0; b < x.size(); b++) ref::axpy(1.0, x[b], sum[b]);
    };
    c.state("one primitive at a time");
    if (uses_full(k))
        for (size_t i = 0; i < s.u.n.size(); i++) {
            Scene w = z;
            w.u = {{s.u.n[i]}, {s.u.c[i]}, {s.u.a[i]}, ""};
            add(w);
        }
    for (size_t q = 0; q < oc.size(); q++)
        for (size_t i = 0; i < oc[q].u.n.size(); i++) {
            Scene w = z;
            w.oc[q].u = {{oc[q].u.n[i]}, {oc[q].u.c[i]}, {oc[q].u.a[i]}, ""};
            add(w);
        }
    for (size_t b = 0; b < sum.size(); b++) c.near("sum over potential primitives", sum[b].data(), base[b].data(), base[b].size(), 0, tol.data());
    for (double f : {-1.0, 3.0, 1e-4}) {
        c.state("all potentials scaled by %g", f);
        Scene w = s;
        for (auto &x : w.u.c) x *= f;
        for (auto &o : w.oc)
            for (auto &x : o.u.c) x *= f;
        Blocks x = evaluate(k, w);
        c.call();
        VD t = tol;
        for (auto &q : t) q *= std::max(std::fabs(f), 1e-2);
        for (size_t b = 0; b < x.size(); b++) {
            VD v = base[b];
            for (auto &q : v) q *= f;
            c.near("scaled", x[b].data(), v.data(), v.size(), 0, t.data());
        }
    }
    c.state("no potential");
    Blocks x = evaluate(k, z);
    VD zero(base[0].size(), 0.0);
    for (auto &m : x) c.near("no potential", m.data(), zero.data(), zero.size(), 1e-300);
    // the order of the pseudospinors does not matter, nor does appending one without a potential and with nothing to couple to
    Scene rev = s;
    std::reverse(rev.oc.begin(), rev.oc.end());
    c.state("reversed");
    x = evaluate(k, rev);
    for (size_t b = 0; b < x.size(); b++) c.near("list reversed", x[b].data(), base[b].data(), base[b].size(), 0, tol.data());
}

// sums of many terms: the whole against the sum over its pieces of at most three
static Terms many_terms(int n, bool pot)
{
    Terms t;
    for (int i = 0; i < n; i++)
        t.push_back({0.9 * std::cos(1.7 * i + 0.3) / std::sqrt((double)n), 0.12 * std::pow(400.0, (i * 37 % n + 0.5) / n), pot ? i % 3 : 2});
    return t;
}
static void many(mc::Ctx &c)
{
    static const char *nm[] = {"bra", "ket", "potential", "bra and ket", "potential of a pseudospinor"};
    int k = c.choose(K_ALL, "kind"), where = c.choose(5, "where"), n = c.pick<int>("terms", {5, 8, 9, 10, 11, 16, 17, 20, 21, 25, 26, 30, 31, 32, 33, 50, 51, 64, 65, 100, 101, 128, 129, 200, 257});
    if (where == 2 && !uses_pot(k)) return;
    if (where >= 4 && !(uses_oc(k) || uses_full(k))) return;
    bool dear = is_numerical(k) || is_gradient(k) || k == K_FULL || k == K_SO || k == K_TYPE2 || k == K_OC;
    int top = where == 3 ? (dear ? 21 : 65) : (k == K_FULL_G || k == K_OC_G || k == K_SO_G) ? 65 : 257;
    if (mc::thorough) top *= 2;
    if (n > top) return;
    c.desc("%s, %d terms in the %s", kname(k), n, nm[where]);
    c.go();
    libgrpp_init();
    double t0 = mc::now();
    for (int v = 0; v < (mc::thorough ? 3 : 1); v++) {
        Scene s = scene(v == 1 ? 1 : v == 2 ? 3 : 7, 1 - v % 2, v == 0 ? 0 : 1, 1);
        Terms t = many_terms(n, where == 2 || where == 4);
        auto set = [&](Scene &w, const Terms &p, const Terms &q) {
            if (where < 3) put(w, where, p);
            if (where == 3) { put(w, 0, p); put(w, 1, q); }
            if (where == 4) {
                w.oc[0].u = {{}, {}, {}, ""};
                for (auto &x : p) { w.oc[0].u.n.push_back(x.n); w.oc[0].u.c.push_back(x.c); w.oc[0].u.a.push_back(x.a); }
                for (size_t i = 1; i < w.oc.size(); i++) w.oc[i].u = {{}, {}, {}, ""};
                w.u = {{}, {}, {}, ""};
            }
        };
        Scene a = s;
        set(a, t, t);
        c.state("v%d", v);
        Blocks base = evaluate(k, a);
        c.call();
        VD tol;
        {
            Scene w = s;
            Terms p = t;
            for (auto &x : p) x.c = 3 * std::fabs(x.c);
            set(w, p, p);
            tol = ktol(k, w, 3e-11);
        }
        std::vector<Terms> piece;
        for (size_t i = 0; i < t.size(); i += 3) piece.push_back(Terms(t.begin() + i, t.begin() + std::min(t.size(), i + 3)));
        Blocks sum(base.size(), VD(base[0].size(), 0.0));
        for (auto &p : piece)
            for (auto &q : piece) {
                if (where != 3 && &q != &piece[0]) break;
                Scene w = s;
                set(w, p, q);
                Blocks x = evaluate(k, w);
                c.call();
                for (size_t b = 0; b < x.size(); b++) ref::axpy(1.0, x[b], sum[b]);
            }
        for (size_t b = 0; b < sum.size(); b++) c.near("sum of the pieces", sum[b].data(), base[b].data(), sum[b].size(), 0, tol.data());
    }
    if (getenv("VERBOSE")) fprintf(stderr, "%7.2f %s %s %d\n", mc::now() - t0, kname(k), nm[where], n);
}

// an operator with many pseudospinors is the sum over its (l, j)
static void groups(mc::Ctx &c)
{
    int k = c.pick<int>("kind", {K_OC, K_FULL, K_OC_G, K_FULL_G}), top = c.pick<int>("largest l", {2, 4, 6, 8, 10}), per = c.choose(3, "per group") + 1;
    if (is_gradient(k) && top > (mc::thorough ? 6 : 4)) return;
    if (per == 3 && top > 4) return;
    c.desc("%s, l up to %d, %d pseudospinors for each l, j", kname(k), top, per);
    c.go();
    libgrpp_init();
    Scene s = scene(7, 1, 0, 1);
    s.oc.clear();
    std::vector<std::vector<OcSpec>> gr;
    for (int l = 0; l <= top; l++)
        for (int j = 2 * l + 1; j >= std::max(1, 2 * l - 1); j -= 2) {
            gr.push_back({});
            for (int i = 0; i < per; i++) {
                double a = 0.5 + 0.17 * l + 0.6 * i + 0.03 * (j - 2 * l);
                gr.back().push_back({l, j, PotSpec{{2 - i % 2}, {0.8 - 0.3 * i + 0.05 * l}, {0.9 + 0.2 * i + 0.02 * l}, ""}, {0.6, -0.3}, {a, 2.5 * a}});
            }
        }
    // members of the groups are spread over the list in turn, the groups in mixed order
    for (int i = 0; i < per; i++)
        for (size_t q = 0; q < gr.size(); q++) s.oc.push_back(gr[(q * 8 + 3 * i) % gr.size()][i]);
    std::set<std::pair<int, int>> seen;
    for (auto &o : s.oc) seen.insert({o.l, o.j2});
    if (seen.size() != gr.size()) c.fail("the harness lost a group");
    Scene e = s;
    e.oc.clear();
    Blocks zero = evaluate(k, e);
    Blocks base = evaluate(k, s), sum = zero;
    VD tol = ktol(k, s, 1e-10);
    c.call(2);
    for (auto &g : gr) {
        Scene w = s;
        w.oc = g;
        Blocks x = evaluate(k, w);
        c.call();
        c.state("l=%d j=%d", g[0].l, g[0].j2);
        for (size_t b = 0; b < x.size(); b++) { ref::axpy(1.0, x[b], sum[b]); ref::axpy(-1.0, zero[b], sum[b]); }
    }
    for (size_t b = 0; b < sum.size(); b++) c.near("sum over (l, j)", sum[b].data(), base[b].data(), sum[b].size(), 0, tol.data());
}

int main(int argc, char **argv)
{
    mc::warmup = warm_tables;
    mc::prefork = libgrpp_init;
    return mc::drive(argc, argv, {{"contractions and potentials", linear, 300}, {"operators", potentials, 200}, {"many terms", many, 300}, {"many pseudospinors", groups, 300}});
}
