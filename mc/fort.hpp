// The Fortran binding: its routines, and operands as flat arguments.
#pragma once
#include "ops.hpp"
#include <cstdint>

typedef int32_t I;
#define SHELLS double *, I *, I *, double *, double *, double *, I *, I *, double *, double *
extern "C" {
void libgrpp_set_default_parameters_();
void libgrpp_set_radial_tolerance_(const double *);
void libgrpp_set_angular_screening_tolerance_(const double *);
void libgrpp_set_modified_bessel_tolerance_(const double *);
void libgrpp_set_cartesian_order_(const I *);
void libgrpp_init_();
void libgrpp_finalize_();
void libgrpp_type1_integrals_(SHELLS, double *, I *, I *, double *, double *, double *);
void libgrpp_type2_integrals_(SHELLS, double *, I *, I *, I *, double *, double *, double *);
void libgrpp_spin_orbit_integrals_(SHELLS, double *, I *, I *, I *, double *, double *, double *, double *, double *);
void libgrpp_outercore_potential_integrals_part_1_(SHELLS, double *, I *, I *, I *, I *, double *, double *, I *, double *, double *, double *, double *,
                                                   double *, double *);
void libgrpp_outercore_potential_integrals_part_2_(SHELLS, double *, I *, I *, I *, I *, double *, double *, I *, double *, double *, I *, I *, I *, I *,
                                                   double *, double *, I *, double *, double *, double *, double *, double *, double *);
void libgrpp_type1_integrals_gradient_(SHELLS, double *, I *, I *, double *, double *, double *, double *, double *, double *);
void libgrpp_type2_integrals_gradient_(SHELLS, double *, I *, I *, I *, double *, double *, double *, double *, double *, double *);
void libgrpp_spin_orbit_integrals_gradient_(SHELLS, double *, I *, I *, I *, double *, double *, double *, double *, double *, double *, double *, double *,
                                            double *, double *, double *, double *);
void evaluate_overlap_integral_contracted_(double *, I *, I *, I *, I *, double *, double *, double *, I *, I *, I *, I *, double *, double *, double *);
void radial_gto_norm_factor_(I *, I *, double *, double *, double *);
void libgrpp_overlap_integrals_(SHELLS, double *);
void libgrpp_kinetic_energy_integrals_(SHELLS, double *);
void libgrpp_momentum_integrals_(SHELLS, double *, double *, double *);
void libgrpp_nuclear_attraction_integrals_(SHELLS, double *, I *, I *, double *, double *);
void libgrpp_nuclear_attraction_integrals_point_charge_(SHELLS, double *, I *, double *);
void libgrpp_nuclear_attraction_integrals_charged_ball_(SHELLS, double *, I *, double *, double *);
void libgrpp_nuclear_attraction_integrals_gaussian_model_(SHELLS, double *, I *, double *, double *);
void libgrpp_nuclear_attraction_integrals_fermi_model_(SHELLS, double *, I *, double *, double *, double *);
void libgrpp_nuclear_attraction_integrals_fermi_bubble_model_(SHELLS, double *, I *, double *, double *, double *, double *);
void libgrpp_estimate_nuclear_rms_radius_johnson_1985_(I *, double *);
void libgrpp_estimate_nuclear_rms_radius_golovko_2008_(I *, double *);
void libgrpp_estimate_fermi_model_parameters_(double *, double *, double *, I *);
void libgrpp_charge_density_ball_(double *, double *, double *, double *);
void libgrpp_charge_density_gaussian_(double *, double *, double *, double *);
void libgrpp_charge_density_fermi_(double *, double *, double *, double *, double *);
void libgrpp_charge_density_fermi_bubble_(double *, double *, double *, double *, double *, double *);
void libgrpp_coulomb_potential_point_(double *, double *, double *);
void libgrpp_coulomb_potential_ball_(double *, double *, double *, double *);
void libgrpp_coulomb_potential_gaussian_(double *, double *, double *, double *);
void libgrpp_coulomb_potential_fermi_(double *, double *, double *, double *, double *);
void libgrpp_coulomb_potential_fermi_bubble_(double *, double *, double *, double *, double *, double *);
void libgrpp_rms_radius_fermi_(I *, double *, double *, double *);
void libgrpp_rms_radius_fermi_bubble_(I *, double *, double *, double *, double *);
}

// the operands as flat Fortran arguments
struct Flat {
    Scene s;
    VD oa, ob, ca, aa, cb, ab, C, pt, uc, ua, nuc;
    std::vector<I> un;
    I la, lb, na, nb, l, nu, Z;
    Flat(const Scene &q) : s(q), oa(q.a.v, q.a.v + 3), ob(q.b.v, q.b.v + 3), ca(q.ca), aa(q.aa), cb(q.cb), ab(q.ab), C(q.c.v, q.c.v + 3), pt(q.pt.v, q.pt.v + 3),
                           uc(q.u.c), ua(q.u.a), nuc(q.nuc), un(q.u.n.begin(), q.u.n.end())
    {
        la = q.la; lb = q.lb; na = (I)q.aa.size(); nb = (I)q.ab.size(); l = q.l; nu = (I)q.u.n.size(); Z = q.Z;
        nuc.resize(10, 0.0);
    }
    bool intact() const
    {
        Flat f(s);
        return f.oa == oa && f.ob == ob && f.ca == ca && f.aa == aa && f.cb == cb && f.ab == ab && f.C == C && f.pt == pt && f.uc == uc && f.ua == ua && f.un == un &&
               f.nuc == nuc && f.la == la && f.lb == lb && f.na == na && f.nb == nb && f.l == l && f.nu == nu && f.Z == Z;
    }
};
#define SH(f) f.oa.data(), &f.la, &f.na, f.ca.data(), f.aa.data(), f.ob.data(), &f.lb, &f.nb, f.cb.data(), f.ab.data()

inline bool in_fortran(int k) { return !(k == K_FULL || k == K_FULL_G || k == K_OC_G || k == K_OVERLAP_G || k == K_OC); }

inline void fortran(int k, Flat &f, double **o)
{
    I model[] = {LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE, LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE_NUMERICAL, LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL, LIBGRPP_NUCLEAR_MODEL_GAUSSIAN,
                 LIBGRPP_NUCLEAR_MODEL_FERMI, LIBGRPP_NUCLEAR_MODEL_FERMI_BUBBLE};
    switch (k) {
        case K_OVERLAP: libgrpp_overlap_integrals_(SH(f), o[0]); break;
        case K_KINETIC: libgrpp_kinetic_energy_integrals_(SH(f), o[0]); break;
        case K_MOMENTUM: libgrpp_momentum_integrals_(SH(f), o[0], o[1], o[2]); break;
        case K_TYPE1: libgrpp_type1_integrals_(SH(f), f.C.data(), &f.nu, f.un.data(), f.uc.data(), f.ua.data(), o[0]); break;
        case K_TYPE2: libgrpp_type2_integrals_(SH(f), f.C.data(), &f.l, &f.nu, f.un.data(), f.uc.data(), f.ua.data(), o[0]); break;
        case K_SO: libgrpp_spin_orbit_integrals_(SH(f), f.C.data(), &f.l, &f.nu, f.un.data(), f.uc.data(), f.ua.data(), o[0], o[1], o[2]); break;
        case K_NUC_POINT: case K_NUC_NUM: case K_NUC_BALL: case K_NUC_GAUSS: case K_NUC_FERMI: case K_NUC_BUBBLE:
            libgrpp_nuclear_attraction_integrals_(SH(f), f.C.data(), &f.Z, model + (k - K_NUC_POINT), f.nuc.data(), o[0]);
            break;
        case K_TYPE1_G: libgrpp_type1_integrals_gradient_(SH(f), f.C.data(), &f.nu, f.un.data(), f.uc.data(), f.ua.data(), f.pt.data(), o[0], o[1], o[2]); break;
        case K_TYPE2_G: libgrpp_type2_integrals_gradient_(SH(f), f.C.data(), &f.l, &f.nu, f.un.data(), f.uc.data(), f.ua.data(), f.pt.data(), o[0], o[1], o[2]); break;
        case K_SO_G:
            libgrpp_spin_orbit_integrals_gradient_(SH(f), f.C.data(), &f.l, &f.nu, f.un.data(), f.uc.data(), f.ua.data(), f.pt.data(), o[0], o[1], o[2], o[3], o[4],
                                                   o[5], o[6], o[7], o[8]);
            break;
    }
}
