// H04: the order of Cartesian components permutes rows and columns and belongs to the shell.
#include "hist.hpp"

// orders: the two named ones and two of the caller's own
static std::vector<std::array<int, 3>> lex(int L)
{
    std::vector<std::array<int, 3>> r;
    for (int i = L; i >= 0; i--)
        for (int j = L - i; j >= 0; j--) r.push_back({i, j, L - i - j});
    return r;
}
static std::vector<std::array<int, 3>> order_list(int o, int L)
{
    auto v = lex(L);
    if (o == 2) std::reverse(v.begin(), v.end());
    if (o == 3) std::rotate(v.begin(), v.begin() + (L % 2 ? 1 : 2) % v.size(), v.end());
    return v;
}
static int put(int o, int L, int *list)
{
    auto v = order_list(o, L);
    for (size_t i = 0; i < v.size(); i++)
        for (int k = 0; k < 3; k++) list[3 * i + k] = v[i][k];
    return (int)v.size();
}
static int gen2(int L, int *l) { return put(2, L, l); }
static int gen3(int L, int *l) { return put(3, L, l); }
static void set(int o)
{
    if (o == 0) libgrpp_set_cartesian_order(LIBGRPP_CART_ORDER_DIRAC);
    if (o == 1) libgrpp_set_cartesian_order(LIBGRPP_CART_ORDER_TURBOMOLE);
    if (o == 2) libgrpp_set_cartesian_generator(gen2);
    if (o == 3) libgrpp_set_cartesian_generator(gen3);
}
static const char *on[] = {"Dirac", "Turbomole", "reversed", "rotated"};

static Scene scene(int g, int la, int lb, int l, int v)
{
    auto gs = geos();
    Scene s;
    s.a = gs[g].a;
    s.b = gs[g].b;
    s.c = gs[g].c;
    s.pt = v % 3 == 0 ? s.a : v % 3 == 1 ? s.b : s.c;
    s.la = la;
    s.lb = lb;
    s.l = l;
    s.ca = {0.6, -0.5};
    s.aa = {1.7, 0.3};
    s.cb = {0.8};
    s.ab = {0.45};
    s.u = PotSpec{{2, 1, 0}, {2.0, -3.0, 0.5}, {1.3, 6.0, 2.2}, "mixed"};
    s.oc = oclists()[v % 2 ? 9 : 4].second;
    s.nuc = {0.2, 0.03, -0.3};
    return s;
}
static libgrpp_shell_t *make(P3 o, int L, VD c, VD a) { return libgrpp_new_shell(o, L, (int)a.size(), c.data(), a.data()); }

static void check_list(mc::Ctx &c, const char *w, libgrpp_shell_t *s, int o)
{
    auto v = order_list(o, s->L);
    bool ok = s->cart_size == (int)v.size();
    for (size_t i = 0; ok && i < v.size(); i++)
        for (int k = 0; k < 3; k++) ok = ok && s->cart_list[3 * i + k] == v[i][k];
    c.s->compared++;
    if (!ok) c.fail("%s does not have the %s order", w, on[o]);
}

// permute a result from orders (0, 0) to (oa, ob)
static Blocks permuted(const Blocks &r, int la, int lb, int oa, int ob)
{
    auto A = lex(la), B = lex(lb), A2 = order_list(oa, la), B2 = order_list(ob, lb);
    Blocks q = r;
    for (size_t b = 0; b < r.size(); b++)
        for (size_t i = 0; i < A2.size(); i++)
            for (size_t j = 0; j < B2.size(); j++) {
                size_t p = std::find(A.begin(), A.end(), A2[i]) - A.begin(), t = std::find(B.begin(), B.end(), B2[j]) - B.begin();
                q[b][i * B2.size() + j] = r[b][p * B2.size() + t];
            }
    return q;
}

static void check(mc::Ctx &c, int k, const Scene &s, int oa, int ob, int oo, int now_, int copy)
{
    set(0);
    Blocks base = evaluate(k, s);
    VD tol = ktol(k, s, 2e-13);
    auto A0 = lex(s.la), B0 = lex(s.lb);
    c.call();
    // history: order oo, operator; order oa, A; order ob, B; copies under yet another order; call under order now_
    set(oo);
    Live l(s);
    set(oa);
    libgrpp_shell_t *A = make(s.a, s.la, s.ca, s.aa), *A1 = A;
    check_list(c, "a new shell", A, oa);
    set(ob);
    libgrpp_shell_t *B = make(s.b, s.lb, s.cb, s.ab), *B1 = B;
    check_list(c, "a new shell", B, ob);
    set(now_);
    if (copy & 1) A1 = libgrpp_shell_deep_copy(A);
    if (copy & 2) B1 = libgrpp_shell_deep_copy(B);
    check_list(c, "a copy", A1, oa);
    check_list(c, "a copy", B1, ob);
    Args x = l.args();
    x.A = A1;
    x.B = B1;
    Blocks got = evaluate(k, x, NAN), want = permuted(base, s.la, s.lb, oa, ob);
    Blocks tb = permuted({tol}, s.la, s.lb, oa, ob);
    c.call();
    for (size_t b = 0; b < got.size(); b++) c.near(kname(k), got[b].data(), want[b].data(), got[b].size(), 0, tb[0].data());
    check_list(c, "shell A after the call", A, oa);
    check_list(c, "shell B after the call", B, ob);
    check_list(c, "the copy of A after the call", A1, oa);
    check_list(c, "the copy of B after the call", B1, ob);
    for (int i = 0; i < x.noc; i++) check_list(c, "a pseudospinor after the call", x.ocs[i], oo);
    libgrpp_shell_t *N = make(s.a, 3, s.ca, s.aa);
    check_list(c, "a shell made after the call", N, now_);
    libgrpp_delete_shell(N);
    if (A1 != A) libgrpp_delete_shell(A1);
    if (B1 != B) libgrpp_delete_shell(B1);
    libgrpp_delete_shell(A);
    libgrpp_delete_shell(B);
    set(0);
}

static void mixed(mc::Ctx &c)
{
    int k = c.choose(K_ALL, "kind"), oa = c.choose(4, "order of A"), ob = c.choose(4, "order of B"), nw = c.choose(4, "order at the call"), copy = c.choose(mc::thorough ? 4 : 2, "copy");
    if (copy == 1 && !mc::thorough) copy = 3;
    int oo = uses_oc(k) || uses_full(k) ? c.choose(4, "order of the pseudospinors") : 0;
    if (!mc::thorough && oa == 1 && ob == 1) return;
    c.desc("%s, A %s, B %s, pseudospinors %s, call under %s, copies %d", kname(k), on[oa], on[ob], on[oo], on[nw], copy);
    c.go();
    libgrpp_init();
    bool cheap = k <= K_TYPE1 || k == K_NUC_POINT || k == K_OVERLAP_G;
    for (int la = 0; la <= (mc::thorough ? 3 : 2); la++)
        for (int lb = 0; lb <= (mc::thorough ? 3 : 2); lb++)
            for (int g : {7, 9, 2}) {
                if (!cheap && !mc::thorough && (la + 2 * lb + g + oa + ob) % 3) continue;
                c.state("L=%d,%d %s", la, lb, geos()[g].name);
                check(c, k, scene(g, la, lb, (la + lb + 1) % 3, la + lb + nw), oa, ob, oo, nw, copy);
            }
}
// every pair of angular momenta up to 5 (10 for the cheap kinds), orders different
static void pairs(mc::Ctx &c)
{
    int k = c.choose(K_ALL, "kind");
    bool cheap = k <= K_TYPE1 || k == K_NUC_POINT || k == K_OVERLAP_G;
    int top = cheap ? 10 : mc::thorough ? 5 : is_gradient(k) ? 3 : 4;
    int la = c.choose(top + 1, "la"), lb = c.choose(top + 1, "lb");
    if (!cheap && !mc::thorough && la + lb > 6) return;
    c.desc("%s L=%d,%d", kname(k), la, lb);
    c.go();
    libgrpp_init();
    c.state("orders reversed/rotated");
    check(c, k, scene(7, la, lb, 1, 0), 2, 3, 3, 2, 0);
    c.state("orders Turbomole/Dirac");
    check(c, k, scene(7, la, lb, 1, 1), 1, 0, 2, 1, 0);
}
// histories of order changes and shell creation: every word up to length 6 (8)
static void words(mc::Ctx &c)
{
    int n = mc::thorough ? 8 : 6;
    std::vector<int> w;
    for (int i = 0; i < n; i++) w.push_back(c.choose(i < n - 4 ? 6 : 6, "action"));
    c.desc("word");
    c.go();
    static const char *nm[] = {"Dirac", "Turbomole", "reversed", "create", "copy", "defaults"};
    std::vector<libgrpp_shell_t *> sh;
    VI o;
    int cur = 0;
    std::string h;
    for (int a : w) {
        h += std::string(h.empty() ? "" : ";") + nm[a];
        c.state("%s", h.c_str());
        c.call();
        if (a < 3) { set(a); cur = a; }
        if (a == 5) { libgrpp_set_default_parameters(); cur = 0; }
        if (a == 3) { sh.push_back(make(P3(0, 0, 0), 2 + (int)sh.size() % 3, {1.0}, {0.5})); o.push_back(cur); }
        if (a == 4 && sh.size()) { sh.push_back(libgrpp_shell_deep_copy(sh.back())); o.push_back(o.back()); }
        for (size_t i = 0; i < sh.size(); i++) check_list(c, "a shell", sh[i], o[i]);
    }
    for (auto s : sh) libgrpp_delete_shell(s);
}
static void lists(mc::Ctx &c)
{
    int o = c.choose(4, "order"), L = c.choose(15, "L");
    c.desc("component list of L=%d in the %s order", L, on[o]);
    c.go();
    c.state("list");
    set(o);
    libgrpp_shell_t *s = make(P3(0, 0, 0), L, {1.0}, {0.5});
    check_list(c, "a new shell", s, o);
    int *l = libgrpp_generate_shell_cartesians(L);
    auto v = order_list(o, L);
    for (size_t i = 0; i < v.size(); i++)
        for (int k = 0; k < 3; k++) c.expect(l[3 * i + k] == v[i][k], "generated component list");
    free(l);
    libgrpp_delete_shell(s);
    c.call();
}

int main(int argc, char **argv)
{
    mc::prefork = libgrpp_init;
    return mc::drive(argc, argv, {{"mixed orders", mixed, 60}, {"pairs of angular momenta", pairs, 60}, {"words", words, 30}, {"lists", lists, 30}});
}
