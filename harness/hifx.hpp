// Bridge between the generators and the HIFIR C++ API.
#pragma once
#ifndef HIF_THROW
#  define HIF_THROW
#endif
#ifdef VF_ASSERT_ABORT  // a failed internal assertion ends the process
#  ifndef HIF_DEBUG
#    define HIF_DEBUG
#  endif
#  include "hif/macros.hpp"
#  include "hif/utils/log.hpp"
#  undef hif_assert
#  define hif_assert(__cond, __msgs...)                                                                  \
    if (!(__cond)) {                                                                                     \
      fprintf(stderr, "internal assertion failed: %s in %s\n", #__cond, __func__);                       \
      fprintf(stderr, __msgs);                                                                           \
      fflush(stderr);                                                                                    \
      abort();                                                                                           \
    }
#endif
#include <hifir.hpp>

#include "gen.hpp"

namespace vf {
template <class T, class I = int, class P = std::ptrdiff_t>
hif::CRS<T, I, P> mk_crs(const Csr<T> &a, int base = 0) {
  hif::CRS<T, I, P> A;
  A.resize(a.m, a.n);
  A.row_start().resize(a.m + 1);
  A.col_ind().resize(a.nnz());
  A.vals().resize(a.nnz());
  for (int i = 0; i <= a.m; ++i) A.row_start()[i] = (P)(a.ptr[i] + base);
  for (ptrdiff_t k = 0; k < a.nnz(); ++k) {
    A.col_ind()[k] = (I)(a.ind[k] + base);
    A.vals()[k]    = a.val[k];
  }
  return A;
}
template <class T, class I = int, class P = std::ptrdiff_t>
hif::CCS<T, I, P> mk_ccs(const Csr<T> &a0, int base = 0) {
  const Csr<T>      a = a0.transpose();
  hif::CCS<T, I, P> A;
  A.resize(a0.m, a0.n);
  A.col_start().resize(a.m + 1);
  A.row_ind().resize(a.nnz());
  A.vals().resize(a.nnz());
  for (int i = 0; i <= a.m; ++i) A.col_start()[i] = (P)(a.ptr[i] + base);
  for (ptrdiff_t k = 0; k < a.nnz(); ++k) {
    A.row_ind()[k] = (I)(a.ind[k] + base);
    A.vals()[k]    = a.val[k];
  }
  return A;
}
template <class T>
hif::Array<T> arr(const std::vector<T> &v) {
  hif::Array<T> a(v.size());
  std::copy(v.begin(), v.end(), a.begin());
  return a;
}
template <class A>
cvec upa(const A &v) {
  cvec r(v.size());
  for (size_t i = 0; i < v.size(); ++i) r[i] = up(v[i]);
  return r;
}
template <class Cs>
Dense dense_of(const Cs &A) {
  Dense d(A.nrows(), A.ncols());
  if (A.ind_start().size() <= 1) return d;
  const auto *ip = A.ind_start().data();
  for (size_t i = 0; i < A.primary_size(); ++i)
    for (auto k = ip[i]; k < ip[i + 1]; ++k) {
      const auto j = A.inds()[k];
      if (Cs::ROW_MAJOR)
        d(i, j) += up(A.vals()[k]);
      else
        d(j, i) += up(A.vals()[k]);
    }
  return d;
}
inline std::string pdesc(const hif::Params &p) {
  return fmt("tau=%g/%g kd=%g k=%g al=%g/%g reo=%d piv=%d symm=%d nopre=%d spl=%d rf=%d thr=%d rrqr=%g dth=%d cd=%g rho=%g ps=%d beta=%g gam=%g fat=%d N=%d spd=%d nzp=%g",
             p.tau_L, p.tau_U, p.kappa_d, p.kappa, p.alpha_L, p.alpha_U, p.reorder, p.pivot, p.is_symm, p.no_pre,
             p.symm_pre_lvls, p.rf_par, p.threads, p.rrqr_cond, p.dense_thres, p.c_d, p.rho, p.pre_scale, p.beta,
             p.gamma, p.fat_schur_1st, p.N, p.spd, p.nzp_thres);
}
template <class T>
std::string mdesc(const Csr<T> &a) {
  return fmt("%s<%s> %dx%d nnz=%ld", a.kind.c_str(), Tr<T>::name(), a.m, a.n, (long)a.nnz());
}
// Random but valid control parameters.  nodrop: disables every dropping rule.
// extreme but valid settings, written reports: only for the memory/UB monitor
inline bool &wild_params() {
  static bool f = false;
  return f;
}
inline void make_wild(Rng &r, hif::Params &p) {
  const int k = (int)r.in(0, 3);
  for (int i = 0; i < k; ++i) {
    const double big = r.pick({1e6, 1e9, 1e10, 1e19, 1e30, 1e300, (double)INFINITY}), tiny = r.pick({0.0, 1e-300, 1e-30, 1e-9});
    switch (r.in(0, 18)) {
      case 0: p.tau_L = r.chance(.5) ? big : tiny; break;
      case 1: p.tau_U = r.chance(.5) ? big : tiny; break;
      case 2: p.kappa_d = std::min(big, 1e300); break;
      case 3: p.kappa = std::min(big, 1e300); break;
      case 4: p.alpha_L = r.chance(.5) ? big : tiny; break;
      case 5: p.alpha_U = r.chance(.5) ? big : tiny; break;
      case 6: p.rho = r.chance(.5) ? big : tiny; break;
      case 7: p.c_d = r.chance(.5) ? big : tiny; break;
      case 8: p.c_h = r.chance(.5) ? big : tiny; break;
      case 9: p.N = (int)r.pick({-1, 0, 1, 1000, 2147483647}); break;
      case 10: p.verbose = (int)r.pick({1, 2, 3, 7, 15, 31, 63, 127, 255}); break;
      case 11: p.rf_par = (int)r.pick({-1, 2, 5}); break;
      case 12: p.dense_thres = (int)r.pick({-1, 0, 1, 2147483647}); break;
      case 13: p.symm_pre_lvls = (int)r.pick({-1000, 1000, 2147483647, -2147483647}); break;
      case 14: p.threads = (int)r.pick({-5, 0, 1, 2, 64}); break;
      case 15: p.rrqr_cond = r.chance(.5) ? big : tiny; break;
      case 16: p.gamma = r.chance(.5) ? big : tiny; break;
      case 17: p.beta = r.chance(.5) ? big : tiny; break;
      case 18: p.nzp_thres = r.pick({-1.0, 2.0, (double)INFINITY}); break;
    }
  }
  if (r.chance(.1)) p.verbose = (int)r.in(0, 255);
}
inline hif::Params gen_params0(Rng &r, bool nodrop, bool symm_ok);
inline hif::Params gen_params(Rng &r, bool nodrop, bool symm_ok) {
  hif::Params p = gen_params0(r, nodrop, symm_ok);
  if (wild_params()) make_wild(r, p);
  return p;
}
inline hif::Params gen_params0(Rng &r, bool nodrop, bool symm_ok) {
  hif::Params p = hif::get_default_params();
  p.verbose     = hif::VERBOSE_NONE;
  p.threads     = 1;
  if (nodrop) {
    p.tau_L = p.tau_U = 0;
    p.alpha_L = p.alpha_U = 200;
  } else if (r.chance(.75)) {
    p.tau_L   = std::pow(10.0, r.uni(-5, -.7));
    p.tau_U   = r.chance(.5) ? p.tau_L : std::pow(10.0, r.uni(-5, -.7));
    p.alpha_L = r.pick({1.0, 1.5, 2.0, 3.0, 5.0, 10.0, 20.0});
    p.alpha_U = r.chance(.5) ? p.alpha_L : r.pick({1.0, 2.0, 3.0, 10.0});
  }
  p.kappa   = r.pick({1.2, 2.0, 3.0, 3.0, 5.0, 10.0, 50.0});
  p.kappa_d = r.pick({1.2, 2.0, 3.0, 3.0, 5.0, 10.0, 50.0});
  p.reorder = (int)r.pick({0, 1, 2, 2, 2, 3});
  p.pivot   = (int)r.in(0, 2);
  p.rf_par  = (int)r.in(0, 1);
  p.no_pre  = r.chance(.15);
  p.symm_pre_lvls = (int)r.pick({-2, -2, 0, 1, 2, -1, 5});
  // make multi-level structures and the dense endgame reachable at small sizes
  p.c_d         = r.pick({10.0, 10.0, 1.0, 0.1, 3.0});
  p.dense_thres = (int)r.pick({2000, 2000, 1, 5, 10, 50});
  p.rho         = r.pick({.5, .5, .9, 1.1});
  p.gamma       = r.pick({1.0, 1.0, .5, .1});
  p.beta        = r.pick({1e3, 1e3, 10.0, 1e8});
  p.fat_schur_1st = r.chance(.2);
  p.pre_scale     = (int)r.pick({0, 0, 0, 1, 2});
  p.nzp_thres     = r.pick({.65, .65, 0.0, 1.0});
  if (r.chance(.45)) {  // deep hierarchies: (almost) never switch to the dense block early
    p.c_d         = .01;
    p.dense_thres = (int)r.pick({1, 1, 2, 4});
    p.rho         = 1e12;
    p.kappa       = r.pick({1.2, 2.0, 2.0, 3.0});
    p.kappa_d     = r.pick({1.2, 2.0, 2.0, 3.0});
  }
  if (symm_ok && r.chance(.5)) p.is_symm = 1;
  return p;
}
}  // namespace vf
