// Reference model of libgrpp's integrals.
//
// Deliberately boring: basis functions are sums of monomials times Gaussians, every operator is
// integrated by brute-force product quadrature about the operator's centre (Gauss-Legendre in r and
// cos(theta), trapezoid in phi with the polar axis turned along the exponent's direction, so that phi
// is exact), nothing is shared with the library: no recurrences, no special functions, no tables,
// no screening.  Derivatives are taken analytically on the monomials.
#pragma once
#include <array>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace ref {

typedef std::vector<double> Mat;

struct Mono { double c; int e[3]; };

struct Prim {
    double a;                              // Gaussian exponent
    std::vector<std::vector<Mono>> f;      // f[function] = polynomial, coefficients included
};

struct Shell {
    double o[3];
    std::vector<Prim> p;
    int nf = 0;
    int deg = 0;
};

struct PotPrim { int n; double d, z; };    // d * r^(n-2) * exp(-z r^2)
typedef std::vector<PotPrim> Pot;

inline double gto_norm(double a, int L) { return std::pow(2 * a / M_PI, 0.75) * std::pow(4 * a, 0.5 * L); }

// canonical Cartesian list: x-power descending, then y-power descending
inline std::vector<std::array<int, 3>> carts(int L)
{
    std::vector<std::array<int, 3>> v;
    for (int r = L; r >= 0; r--)
        for (int s = L - r; s >= 0; s--) v.push_back({r, s, L - r - s});
    return v;
}

inline Shell make_shell(const double *o, int L, const std::vector<double> &c, const std::vector<double> &a,
                        const std::vector<std::array<int, 3>> &list)
{
    Shell s;
    for (int k = 0; k < 3; k++) s.o[k] = o[k];
    s.nf = (int)list.size();
    s.deg = L;
    for (size_t i = 0; i < a.size(); i++) {
        Prim p;
        p.a = a[i];
        double N = c[i] * gto_norm(a[i], L);
        for (auto &t : list) p.f.push_back({Mono{N, {t[0], t[1], t[2]}}});
        s.p.push_back(p);
    }
    return s;
}

inline Shell make_shell(const double *o, int L, const std::vector<double> &c, const std::vector<double> &a)
{
    return make_shell(o, L, c, a, carts(L));
}

// derivative with respect to the electron coordinate (sign=+1) or to the centre (sign=-1)
inline Shell deriv(const Shell &s, int ax, double sign)
{
    Shell d = s;
    d.deg = s.deg + 1;
    for (size_t i = 0; i < s.p.size(); i++)
        for (int f = 0; f < s.nf; f++) {
            std::vector<Mono> v;
            for (auto &m : s.p[i].f[f]) {
                if (m.e[ax] > 0) {
                    Mono t = m;
                    t.c *= sign * m.e[ax];
                    t.e[ax]--;
                    v.push_back(t);
                }
                Mono t = m;
                t.c *= -sign * 2 * s.p[i].a;
                t.e[ax]++;
                v.push_back(t);
            }
            d.p[i].f[f] = v;
        }
    return d;
}

// ---------------------------------------------------------------- quadratures
struct Rule { std::vector<double> x, w; };

inline const Rule &gauss_legendre(int n)
{
    static thread_local std::map<int, Rule> cache;
    auto it = cache.find(n);
    if (it != cache.end()) return it->second;
    Rule r;
    r.x.resize(n);
    r.w.resize(n);
    for (int i = 0; i < n; i++) {
        long double x = cosl(M_PIl * (i + 0.75L) / (n + 0.5L)), pp = 1;
        for (int it2 = 0; it2 < 100; it2++) {
            long double p0 = 1, p1 = x;
            for (int k = 2; k <= n; k++) {
                long double p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k;
                p0 = p1;
                p1 = p2;
            }
            if (n == 1) p0 = 1;
            pp = n * (x * p1 - p0) / (x * x - 1);
            long double dx = p1 / pp;
            x -= dx;
            if (fabsl(dx) < 1e-19L) break;
        }
        r.x[n - 1 - i] = (double)x;
        r.w[n - 1 - i] = (double)(2 / ((1 - x * x) * pp * pp));
    }
    return cache[n] = r;
}

// monomials about a centre at many points
inline double mono_eval(const std::vector<Mono> &v, const double pw[3][32])
{
    double s = 0;
    for (auto &m : v) s += m.c * pw[0][m.e[0]] * pw[1][m.e[1]] * pw[2][m.e[2]];
    return s;
}

inline void powers(const double d[3], int deg, double pw[3][32])
{
    for (int k = 0; k < 3; k++) {
        pw[k][0] = 1;
        for (int i = 1; i <= deg; i++) pw[k][i] = pw[k][i - 1] * d[k];
    }
}

inline void frame(const double k[3], double e[3][3])
{
    double n = std::sqrt(k[0] * k[0] + k[1] * k[1] + k[2] * k[2]);
    double z[3] = {0, 0, 1};
    if (n > 0)
        for (int i = 0; i < 3; i++) z[i] = k[i] / n;
    int small = 0;
    for (int i = 1; i < 3; i++)
        if (std::fabs(z[i]) < std::fabs(z[small])) small = i;
    double t[3] = {0, 0, 0};
    t[small] = 1;
    double d = z[small];
    double x[3], nx = 0;
    for (int i = 0; i < 3; i++) { x[i] = t[i] - d * z[i]; nx += x[i] * x[i]; }
    nx = std::sqrt(nx);
    for (int i = 0; i < 3; i++) x[i] /= nx;
    double y[3] = {z[1] * x[2] - z[2] * x[1], z[2] * x[0] - z[0] * x[2], z[0] * x[1] - z[1] * x[0]};
    for (int i = 0; i < 3; i++) { e[0][i] = x[i]; e[1][i] = y[i]; e[2][i] = z[i]; }
}

// Gauss-Legendre points for exp(kap t) * polynomial(deg) on [-1,1] (on the upper end only if kap > 21)
inline int angular_points(double kap, int deg)
{
    if (kap > 21) kap = 21;
    return std::max(4, 10 + (deg + 1) / 2 + (int)std::ceil(1.2 * kap));
}

struct Panel { double lo, hi; int n; };

// panels for  r^N exp(-p (r-r0)^2)
inline std::vector<Panel> gauss_panels(double p, double r0, int N, int n = 64)
{
    double w = (8.3 + std::sqrt(0.5 * N)) / std::sqrt(p);
    double lo = r0 - w;
    if (lo < 0) lo = 0;
    return {{lo, r0 + w, n + 4 * ((3 * N + 3) / 4)}};
}

// ------------------------------------------------ local operator  <A| V(|r-C|) exp(-z r_C^2) |B>
// v(r) must already contain everything but the Gaussian factor; rp = extra power of r (includes r^2 jacobian)
template <class V>
inline void local_prim(const Shell &A, int i, const Shell &B, int j, const double C[3], double z, V v,
                       const std::vector<Panel> *panels, int npow, double scale, Mat &out)
{
    const Prim &pa = A.p[i], &pb = B.p[j];
    double RA[3], RB[3], k[3], RA2 = 0, RB2 = 0, kk = 0;
    for (int x = 0; x < 3; x++) {
        RA[x] = A.o[x] - C[x];
        RB[x] = B.o[x] - C[x];
        RA2 += RA[x] * RA[x];
        RB2 += RB[x] * RB[x];
        k[x] = 2 * (pa.a * RA[x] + pb.a * RB[x]);
        kk += k[x] * k[x];
    }
    kk = std::sqrt(kk);
    double p = pa.a + pb.a + z;
    double r0 = kk / (2 * p);
    double pref = std::exp(kk * kk / (4 * p) - pa.a * RA2 - pb.a * RB2) * scale;
    if (pref == 0) return;
    double e[3][3];
    frame(k, e);
    std::vector<Panel> own;
    if (!panels) {
        own = gauss_panels(p, r0, A.deg + B.deg + npow);
        panels = &own;
    }
    int nphi = A.deg + B.deg + 1;
    std::vector<double> cphi(nphi), sphi(nphi);
    for (int q = 0; q < nphi; q++) {
        double ph = 2 * M_PI * (q + 0.25) / nphi;
        cphi[q] = std::cos(ph);
        sphi[q] = std::sin(ph);
    }
    std::vector<double> fa(A.nf), fb(B.nf);
    double pwa[3][32], pwb[3][32];
    for (auto &pn : *panels) {
        const Rule &gr = gauss_legendre(pn.n);
        for (int ir = 0; ir < pn.n; ir++) {
            double r = 0.5 * (pn.hi + pn.lo) + 0.5 * (pn.hi - pn.lo) * gr.x[ir];
            double wr = 0.5 * (pn.hi - pn.lo) * gr.w[ir] * v(r) * pref;
            double g = p * (r - r0) * (r - r0);
            if (g > 700) continue;
            wr *= std::exp(-g);
            if (wr == 0) continue;
            double kap = kk * r;
            double tmin = -1;
            if (kap > 21) tmin = std::max(-1.0, 1 - 42 / kap);
            const int NT = angular_points(kap, A.deg + B.deg);
            const Rule &gt = gauss_legendre(NT);
            for (int it = 0; it < NT; it++) {
                double t = 0.5 * (1 + tmin) + 0.5 * (1 - tmin) * gt.x[it];
                double w = wr * 0.5 * (1 - tmin) * gt.w[it] * std::exp(kap * (t - 1)) * (2 * M_PI / nphi);
                double st = std::sqrt(std::max(0.0, 1 - t * t));
                for (int q = 0; q < nphi; q++) {
                    double da[3], db[3];
                    for (int x = 0; x < 3; x++) {
                        double u = r * (st * cphi[q] * e[0][x] + st * sphi[q] * e[1][x] + t * e[2][x]);
                        da[x] = u - RA[x];
                        db[x] = u - RB[x];
                    }
                    powers(da, A.deg, pwa);
                    powers(db, B.deg, pwb);
                    for (int f = 0; f < A.nf; f++) fa[f] = w * mono_eval(pa.f[f], pwa);
                    for (int f = 0; f < B.nf; f++) fb[f] = mono_eval(pb.f[f], pwb);
                    for (int f = 0; f < A.nf; f++)
                        for (int h = 0; h < B.nf; h++) out[f * B.nf + h] += fa[f] * fb[h];
                }
            }
        }
    }
}

inline Mat type1(const Shell &A, const Shell &B, const double C[3], const Pot &U)
{
    Mat m(A.nf * B.nf, 0.0);
    for (size_t i = 0; i < A.p.size(); i++)
        for (size_t j = 0; j < B.p.size(); j++)
            for (auto &u : U) {
                int n = u.n;
                local_prim(A, i, B, j, C, u.z, [n](double r) { return std::pow(r, n); }, nullptr, n, u.d, m);
            }
    return m;
}

// -Z/r and finite nuclei: V(r) is the potential energy; R = length scale of its inner structure (0: none)
inline Mat local_general(const Shell &A, const Shell &B, const double C[3], const std::function<double(double)> &V,
                         double R, double brk = 0 /* kink of V */)
{
    Mat m(A.nf * B.nf, 0.0);
    for (size_t i = 0; i < A.p.size(); i++)
        for (size_t j = 0; j < B.p.size(); j++) {
            double kk = 0;
            for (int x = 0; x < 3; x++) {
                double t = 2 * (A.p[i].a * (A.o[x] - C[x]) + B.p[j].a * (B.o[x] - C[x]));
                kk += t * t;
            }
            double p = A.p[i].a + B.p[j].a, r0 = std::sqrt(kk) / (2 * p);
            auto g = gauss_panels(p, r0, A.deg + B.deg + 2);
            std::vector<Panel> pn;
            if (R > 0 && g[0].lo < 40 * R) {
                double lo = g[0].lo, h = R / 4;
                while (lo < g[0].hi) {
                    double hi = std::min(g[0].hi, lo + h);
                    if (hi - lo > 1.5 / std::sqrt(p)) hi = lo + 1.5 / std::sqrt(p);
                    hi = std::min(hi, g[0].hi);
                    if (lo < brk && hi > brk) hi = brk;
                    pn.push_back({lo, hi, 20});
                    lo = hi;
                    h = lo < 4 * R ? R / 4 : lo;
                }
            } else
                pn = g;
            local_prim(A, i, B, j, C, 0.0, [&V](double r) { return r * r * V(r); }, &pn, 2, 1.0, m);
        }
    return m;
}

// ------------------------------------------------ plain overlap (exact Gauss-Hermite via Legendre on each axis)
inline const Rule &gauss_hermite(int n)
{
    static thread_local std::map<int, Rule> cache;
    auto it = cache.find(n);
    if (it != cache.end()) return it->second;
    // roots of H_n by bisection between sign changes on a fine grid (long double, orthonormal recursion)
    Rule r;
    auto H = [n](long double x, long double *dn) {
        long double p0 = 0, p1 = powl(M_PIl, -0.25L);
        for (int k = 0; k < n; k++) {
            long double p2 = x * sqrtl(2.0L / (k + 1)) * p1 - sqrtl((long double)k / (k + 1)) * p0;
            p0 = p1;
            p1 = p2;
        }
        *dn = sqrtl(2.0L * n) * p0;
        return p1;
    };
    long double X = sqrtl(2.0L * n + 1) + 1, dn, step = 2 * X / (200 * n);
    long double prev = H(-X, &dn), xp = -X;
    for (long double x = -X + step; x <= X; x += step) {
        long double cur = H(x, &dn);
        if (cur == 0 || (cur < 0) != (prev < 0)) {
            long double lo = xp, hi = x, flo = prev;
            for (int b = 0; b < 200; b++) {
                long double mid = 0.5L * (lo + hi), fm = H(mid, &dn);
                if ((fm < 0) == (flo < 0)) { lo = mid; flo = fm; } else hi = mid;
            }
            long double x0 = 0.5L * (lo + hi);
            H(x0, &dn);
            r.x.push_back((double)x0);
            r.w.push_back((double)(2.0L / (dn * dn)));
        }
        prev = cur;
        xp = x;
    }
    if ((int)r.x.size() != n) { fprintf(stderr, "gauss_hermite(%d) found %zu roots\n", n, r.x.size()); abort(); }
    return cache[n] = r;
}

inline Mat overlap(const Shell &A, const Shell &B)
{
    Mat m(A.nf * B.nf, 0.0);
    int n = (A.deg + B.deg) / 2 + 2;
    const Rule &g = gauss_hermite(n);
    for (auto &pa : A.p)
        for (auto &pb : B.p) {
            double p = pa.a + pb.a;
            std::vector<std::vector<std::array<double, 3>>> S(A.deg + 1, std::vector<std::array<double, 3>>(B.deg + 1));
            for (int x = 0; x < 3; x++) {
                double P = (pa.a * A.o[x] + pb.a * B.o[x]) / p, R = A.o[x] - B.o[x];
                double K = std::exp(-pa.a * pb.a / p * R * R) / std::sqrt(p);
                std::vector<long double> pa_((A.deg + 1) * n), pb_((B.deg + 1) * n);
                for (int q = 0; q < n; q++) {
                    long double t = g.x[q] / std::sqrt(p), v = g.w[q];
                    for (int i = 0; i <= A.deg; i++, v *= P - A.o[x] + t) pa_[i * n + q] = v;
                    v = 1;
                    for (int j = 0; j <= B.deg; j++, v *= P - B.o[x] + t) pb_[j * n + q] = v;
                }
                for (int i = 0; i <= A.deg; i++)
                    for (int j = 0; j <= B.deg; j++) {
                        long double s = 0;
                        for (int q = 0; q < n; q++) s += pa_[i * n + q] * pb_[j * n + q];
                        S[i][j][x] = (double)(K * s);
                    }
            }
            for (int f = 0; f < A.nf; f++)
                for (int h = 0; h < B.nf; h++) {
                    double s = 0;
                    for (auto &ma : pa.f[f])
                        for (auto &mb : pb.f[h])
                            s += ma.c * mb.c * S[ma.e[0]][mb.e[0]][0] * S[ma.e[1]][mb.e[1]][1] * S[ma.e[2]][mb.e[2]][2];
                    m[f * B.nf + h] += s;
                }
        }
    return m;
}

inline void axpy(double a, const Mat &x, Mat &y)
{
    for (size_t i = 0; i < y.size(); i++) y[i] += a * x[i];
}

inline Mat kinetic(const Shell &A, const Shell &B)
{
    Mat m(A.nf * B.nf, 0.0);
    for (int x = 0; x < 3; x++) axpy(-0.5, overlap(A, deriv(deriv(B, x, 1), x, 1)), m);
    return m;
}

// imaginary part of <A|-i d/dx|B>
inline Mat momentum(const Shell &A, const Shell &B, int x)
{
    Mat m(A.nf * B.nf, 0.0);
    axpy(-1.0, overlap(A, deriv(B, x, 1)), m);
    return m;
}

// ------------------------------------------------ real spherical harmonics (any fixed orthonormal convention)
typedef std::map<std::array<int, 3>, double> Poly;

inline Poly pmul(const Poly &a, const Poly &b)
{
    Poly r;
    for (auto &x : a)
        for (auto &y : b) r[{x.first[0] + y.first[0], x.first[1] + y.first[1], x.first[2] + y.first[2]}] += x.second * y.second;
    return r;
}
inline Poly padd(const Poly &a, double s, const Poly &b)
{
    Poly r = a;
    for (auto &y : b) r[y.first] += s * y.second;
    return r;
}
inline Poly pscale(const Poly &a, double s)
{
    Poly r;
    for (auto &y : a) r[y.first] = s * y.second;
    return r;
}
inline double dfac(int n) { double r = 1; for (; n > 1; n -= 2) r *= n; return r; }
// integral of a polynomial over the unit sphere
inline double psphere(const Poly &a)
{
    double s = 0;
    for (auto &t : a) {
        int i = t.first[0], j = t.first[1], k = t.first[2];
        if ((i | j | k) & 1) continue;
        s += t.second * 4 * M_PI * dfac(i - 1) * dfac(j - 1) * dfac(k - 1) / dfac(i + j + k + 1);
    }
    return s;
}
inline Poly pdiff(const Poly &a, int x)
{
    Poly r;
    for (auto &t : a)
        if (t.first[x] > 0) {
            auto e = t.first;
            e[x]--;
            r[e] += t.second * t.first[x];
        }
    return r;
}

struct Harm {
    int l;
    std::vector<Poly> y;                        // 2l+1 orthonormal solid harmonics
    std::vector<std::vector<Mono>> mono;
    std::vector<double> D[3];                   // D[eta][m1*(2l+1)+m2] = int Y_m1 (r x grad)_eta Y_m2
};

inline const Harm &harm(int l)
{
    static thread_local std::map<int, Harm> cache;
    auto it = cache.find(l);
    if (it != cache.end()) return it->second;
    Harm h;
    h.l = l;
    Poly r2 = {{{2, 0, 0}, 1}, {{0, 2, 0}, 1}, {{0, 0, 2}, 1}}, z = {{{0, 0, 1}, 1}}, X = {{{1, 0, 0}, 1}}, Y = {{{0, 1, 0}, 1}};
    Poly Cm = {{{0, 0, 0}, 1}}, Sm;
    for (int m = 0; m <= l; m++) {
        if (m > 0) {
            Poly c = padd(pmul(X, Cm), -1, pmul(Y, Sm)), s = padd(pmul(X, Sm), 1, pmul(Y, Cm));
            Cm = c;
            Sm = s;
        }
        Poly p0, p1 = {{{0, 0, 0}, 1}};
        for (int k = m + 1; k <= l; k++) {
            Poly p2 = padd(pscale(pmul(z, p1), (2.0 * k - 1) / (k - m)), -(k + m - 1.0) / (k - m), pmul(r2, p0));
            p0 = p1;
            p1 = p2;
        }
        for (int part = 0; part < (m ? 2 : 1); part++) {
            Poly q = pmul(p1, part ? Sm : Cm);
            q = pscale(q, 1 / std::sqrt(psphere(pmul(q, q))));
            h.y.push_back(q);
            std::vector<Mono> v;
            for (auto &t : q)
                if (t.second != 0) v.push_back({t.second, {t.first[0], t.first[1], t.first[2]}});
            h.mono.push_back(v);
        }
    }
    int n = 2 * l + 1;
    Poly xyz[3] = {X, Y, z};
    for (int eta = 0; eta < 3; eta++) {
        int a = (eta + 1) % 3, b = (eta + 2) % 3;
        h.D[eta].assign(n * n, 0.0);
        for (int m2 = 0; m2 < n; m2++) {
            Poly d = padd(pmul(xyz[a], pdiff(h.y[m2], b)), -1, pmul(xyz[b], pdiff(h.y[m2], a)));
            for (int m1 = 0; m1 < n; m1++) h.D[eta][m1 * n + m2] = psphere(pmul(h.y[m1], d));
        }
    }
    return cache[l] = h;
}

// int dOmega poly_f(r u + C - A) exp(2 a r R (cos-1)) Y_lm(u), for all f, m; polar axis along A-C
inline void project(const Shell &A, int i, const double C[3], int l, double r, double *out /* nf*(2l+1) */)
{
    const Harm &h = harm(l);
    const Prim &pa = A.p[i];
    int n = 2 * l + 1;
    double RA[3], R = 0, e[3][3];
    for (int x = 0; x < 3; x++) { RA[x] = A.o[x] - C[x]; R += RA[x] * RA[x]; }
    R = std::sqrt(R);
    frame(RA, e);
    double kap = 2 * pa.a * R * r, tmin = -1;
    if (kap > 21) tmin = std::max(-1.0, 1 - 42 / kap);
    int NT = kap < 1e-14 ? (A.deg + l) / 2 + 2 : angular_points(kap, A.deg + l), nphi = A.deg + l + 1;
    const Rule &gt = gauss_legendre(NT);
    for (int k = 0; k < A.nf * n; k++) out[k] = 0;
    double pwa[3][32], pwu[3][32];
    std::vector<double> y(n);
    for (int it = 0; it < NT; it++) {
        double t = 0.5 * (1 + tmin) + 0.5 * (1 - tmin) * gt.x[it];
        double w = 0.5 * (1 - tmin) * gt.w[it] * std::exp(kap * (t - 1)) * (2 * M_PI / nphi);
        double st = std::sqrt(std::max(0.0, 1 - t * t));
        for (int q = 0; q < nphi; q++) {
            double ph = 2 * M_PI * (q + 0.25) / nphi, c = std::cos(ph), s = std::sin(ph);
            double u[3], da[3];
            for (int x = 0; x < 3; x++) {
                u[x] = st * c * e[0][x] + st * s * e[1][x] + t * e[2][x];
                da[x] = r * u[x] - RA[x];
            }
            powers(da, A.deg, pwa);
            powers(u, l, pwu);
            for (int m = 0; m < n; m++) y[m] = w * mono_eval(h.mono[m], pwu);
            for (int f = 0; f < A.nf; f++) {
                double v = mono_eval(pa.f[f], pwa);
                for (int m = 0; m < n; m++) out[f * n + m] += v * y[m];
            }
        }
    }
}

// semilocal operator: res[0] = <A|U P_l|B>, res[1..3] = Im <A|U P_l l_eta|B>
inline void semilocal(const Shell &A, const Shell &B, const double C[3], int l, const Pot &U, Mat &scal, Mat *so)
{
    const Harm &h = harm(l);
    int n = 2 * l + 1;
    scal.assign(A.nf * B.nf, 0.0);
    if (so)
        for (int x = 0; x < 3; x++) so[x].assign(A.nf * B.nf, 0.0);
    double RA = 0, RB = 0;
    for (int x = 0; x < 3; x++) {
        RA += (A.o[x] - C[x]) * (A.o[x] - C[x]);
        RB += (B.o[x] - C[x]) * (B.o[x] - C[x]);
    }
    RA = std::sqrt(RA);
    RB = std::sqrt(RB);
    std::vector<double> ca(A.nf * n), cb(B.nf * n), db(B.nf * n);
    for (size_t i = 0; i < A.p.size(); i++)
        for (size_t j = 0; j < B.p.size(); j++)
            for (auto &u : U) {
                double a = A.p[i].a, b = B.p[j].a, p = a + b + u.z, r0 = (a * RA + b * RB) / p;
                double mx = a * (r0 - RA) * (r0 - RA) + b * (r0 - RB) * (r0 - RB) + u.z * r0 * r0;
                if (mx > 600) continue;
                auto pn = gauss_panels(p, r0, A.deg + B.deg + u.n, 56)[0];
                const Rule &g = gauss_legendre(pn.n);
                for (int q = 0; q < pn.n; q++) {
                    double r = 0.5 * (pn.hi + pn.lo) + 0.5 * (pn.hi - pn.lo) * g.x[q];
                    double ex = a * (r - RA) * (r - RA) + b * (r - RB) * (r - RB) + u.z * r * r;
                    double w = 0.5 * (pn.hi - pn.lo) * g.w[q] * u.d * std::pow(r, u.n) * std::exp(-ex);
                    if (w == 0) continue;
                    project(A, i, C, l, r, ca.data());
                    project(B, j, C, l, r, cb.data());
                    for (int f = 0; f < A.nf; f++)
                        for (int k = 0; k < B.nf; k++) {
                            double s = 0;
                            for (int m = 0; m < n; m++) s += ca[f * n + m] * cb[k * n + m];
                            scal[f * B.nf + k] += w * s;
                        }
                    if (so)
                        for (int x = 0; x < 3; x++) {
                            for (int k = 0; k < B.nf; k++)
                                for (int m = 0; m < n; m++) {
                                    double s = 0;
                                    for (int m2 = 0; m2 < n; m2++) s += h.D[x][m * n + m2] * cb[k * n + m2];
                                    db[k * n + m] = s;
                                }
                            for (int f = 0; f < A.nf; f++)
                                for (int k = 0; k < B.nf; k++) {
                                    double s = 0;
                                    for (int m = 0; m < n; m++) s += ca[f * n + m] * db[k * n + m];
                                    so[x][f * B.nf + k] -= w * s;   // l = -i (r x grad)
                                }
                        }
                }
            }
}

inline Mat type2(const Shell &A, const Shell &B, const double C[3], int l, const Pot &U)
{
    Mat m;
    semilocal(A, B, C, l, U, m, nullptr);
    return m;
}

inline double radial_norm(double a, int L)
{
    return std::sqrt(2 * std::pow(2 * a, L + 1.5) / std::tgamma(L + 1.5));
}

struct OC { int l, j2; Pot U; std::vector<double> c, a; };   // pseudospinor: sum c_i * normalized radial primitive

// int r^2 chi_A^{lm}(r) g(r) dr with g = (U or 1) * R_nlj
inline std::vector<double> oc_proj(const Shell &A, const double C[3], const OC &o, bool withU)
{
    int n = 2 * o.l + 1;
    std::vector<double> res(A.nf * n, 0.0), ca(A.nf * n);
    double RA = 0;
    for (int x = 0; x < 3; x++) RA += (A.o[x] - C[x]) * (A.o[x] - C[x]);
    RA = std::sqrt(RA);
    Pot one = {{2, 1.0, 0.0}};
    for (size_t i = 0; i < A.p.size(); i++)
        for (size_t k = 0; k < o.a.size(); k++)
            for (auto &u : withU ? o.U : one) {
                double a = A.p[i].a, z = o.a[k] + u.z, p = a + z, r0 = a * RA / p;
                if (a * (r0 - RA) * (r0 - RA) + z * r0 * r0 > 600) continue;
                auto pn = gauss_panels(p, r0, A.deg + o.l + u.n, 56)[0];
                const Rule &g = gauss_legendre(pn.n);
                double N = o.c[k] * radial_norm(o.a[k], o.l) * u.d;
                for (int q = 0; q < pn.n; q++) {
                    double r = 0.5 * (pn.hi + pn.lo) + 0.5 * (pn.hi - pn.lo) * g.x[q];
                    double w = 0.5 * (pn.hi - pn.lo) * g.w[q] * N * std::pow(r, u.n + o.l) *
                               std::exp(-a * (r - RA) * (r - RA) - z * r * r);
                    if (w == 0) continue;
                    project(A, i, C, o.l, r, ca.data());
                    for (int f = 0; f < A.nf * n; f++) res[f] += w * ca[f];
                }
            }
    return res;
}

inline double oc_radial(const OC &a, const Pot &U, const OC &b)
{
    double s = 0;
    for (size_t i = 0; i < a.a.size(); i++)
        for (size_t j = 0; j < b.a.size(); j++)
            for (auto &u : U) {
                double p = a.a[i] + b.a[j] + u.z;
                auto pn = gauss_panels(p, 0, 2 * a.l + u.n, 64)[0];
                const Rule &g = gauss_legendre(pn.n);
                double t = 0;
                for (int q = 0; q < pn.n; q++) {
                    double r = 0.5 * (pn.hi + pn.lo) + 0.5 * (pn.hi - pn.lo) * g.x[q];
                    t += 0.5 * (pn.hi - pn.lo) * g.w[q] * std::pow(r, u.n + 2 * a.l) * std::exp(-p * r * r);
                }
                s += t * u.d * a.c[i] * b.c[j] * radial_norm(a.a[i], a.l) * radial_norm(b.a[j], b.l);
            }
    return s;
}

// outercore (non-local) part: res[0] scalar-relativistic, res[1..3] effective spin-orbit (factor 2/(2l+1) included)
inline void outercore(const Shell &A, const Shell &B, const double C[3], const std::vector<OC> &oc, Mat res[4])
{
    for (int x = 0; x < 4; x++) res[x].assign(A.nf * B.nf, 0.0);
    size_t N = oc.size();
    std::vector<std::vector<double>> SA(N), SB(N), UA(N), UB(N);
    for (size_t i = 0; i < N; i++) {
        SA[i] = oc_proj(A, C, oc[i], false);
        SB[i] = oc_proj(B, C, oc[i], false);
        UA[i] = oc_proj(A, C, oc[i], true);
        UB[i] = oc_proj(B, C, oc[i], true);
    }
    auto add = [&](int l, int j2, double w, const std::vector<double> &a, const std::vector<double> &b) {
        const Harm &h = harm(l);
        int n = 2 * l + 1;
        double fa = (j2 < 2 * l) ? l / (2.0 * l + 1) : (l + 1) / (2.0 * l + 1);
        double fs = ((j2 < 2 * l) ? -2.0 : 2.0) / (2 * l + 1);
        for (int f = 0; f < A.nf; f++)
            for (int k = 0; k < B.nf; k++)
                for (int m = 0; m < n; m++) {
                    res[0][f * B.nf + k] += w * fa * a[f * n + m] * b[k * n + m];
                    for (int x = 0; x < 3; x++)
                        for (int m2 = 0; m2 < n; m2++)
                            res[1 + x][f * B.nf + k] -= w * fs * a[f * n + m] * h.D[x][m * n + m2] * b[k * n + m2];
                }
    };
    for (size_t i = 0; i < N; i++) {
        add(oc[i].l, oc[i].j2, 1.0, SA[i], UB[i]);
        add(oc[i].l, oc[i].j2, 1.0, UA[i], SB[i]);
        for (size_t k = 0; k < N; k++)
            if (oc[i].l == oc[k].l && oc[i].j2 == oc[k].j2) {
                double d = 0.5 * (oc_radial(oc[i], oc[i].U, oc[k]) + oc_radial(oc[i], oc[k].U, oc[k]));
                add(oc[i].l, oc[i].j2, -d, SA[i], SB[k]);
            }
    }
}

// ------------------------------------------------ nuclear charge distributions (Z = 1, positive density)
struct Nucleus {
    int model;             // 0 point, 1 ball(R_rms), 2 gauss(R_rms), 3 fermi(c,a), 4 bubble(c,a,k)
    double prm[3];
    double rho0 = 1, R = 0, rmax = 0;
    double shape(double r) const
    {
        switch (model) {
            case 1: { double R0 = std::sqrt(5.0 / 3) * prm[0]; return r <= R0 ? 1.0 : 0.0; }
            case 2: return std::exp(-1.5 * r * r / (prm[0] * prm[0]));
            case 3: return 1 / (1 + std::exp((r - prm[0]) / prm[1]));
            case 4: return (1 + prm[2] * r * r / (prm[0] * prm[0])) / (1 + std::exp((r - prm[0]) / prm[1]));
        }
        return 0;
    }
    template <class F> double integ(double lo, double hi, F f) const
    {
        // panels no wider than a fraction of the structure
        double s = 0;
        if (model == 1) {
            double R0 = std::sqrt(5.0 / 3) * prm[0];
            if (hi > R0) hi = R0;
        }
        if (hi > rmax) hi = rmax;
        if (hi <= lo) return 0;
        int np = std::max(1, (int)std::ceil((hi - lo) / (R / 3)));
        const Rule &g = gauss_legendre(20);
        for (int k = 0; k < np; k++) {
            double a = lo + (hi - lo) * k / np, b = lo + (hi - lo) * (k + 1) / np;
            for (int q = 0; q < 20; q++) {
                double r = 0.5 * (a + b) + 0.5 * (b - a) * g.x[q];
                s += 0.5 * (b - a) * g.w[q] * f(r);
            }
        }
        return s;
    }
    void init()
    {
        if (model == 0) return;
        if (model == 1) { R = prm[0]; rmax = std::sqrt(5.0 / 3) * prm[0]; }
        if (model == 2) { R = prm[0]; rmax = 8 * prm[0]; }
        if (model >= 3) { R = std::min(prm[0], 3 * prm[1]); rmax = prm[0] + 45 * prm[1]; }
        rho0 = 1 / (4 * M_PI * integ(0, rmax, [this](double r) { return r * r * shape(r); }));
    }
    double rho(double r) const { return rho0 * shape(r); }
    double moment(int k) const
    {
        return 4 * M_PI * integ(0, rmax, [this, k](double r) { return std::pow(r, k + 2) * rho(r); });
    }
    // potential energy of the electron, Z = 1
    double V(double r) const
    {
        if (model == 0) return -1 / r;
        double in = 4 * M_PI * integ(0, r, [this](double s) { return s * s * rho(s); });
        double out = 4 * M_PI * integ(r, rmax, [this](double s) { return s * rho(s); });
        return -(in / r + out);
    }
};

}  // namespace ref
