// The C interface compiled into the harness, addressed by value type.
#pragma once
#ifndef HIF_THROW
#  define HIF_THROW
#endif
#include "libhifir.cpp"

#include "hifx.hpp"

namespace vf {
template <class T>
struct Lhf;
#define VF_LHF(L, CT, ...)                                                                                          \
  template <>                                                                                                       \
  struct Lhf<__VA_ARGS__> {                                                                                         \
    typedef __VA_ARGS__        T;                                                                                   \
    typedef CT                 C;                                                                                   \
    typedef Lhf##L##MatrixHdl  Mat;                                                                                 \
    typedef Lhf##L##HifHdl     Hif;                                                                                 \
    static Mat       create_matrix(int rm, size_t n, const LhfIndPtr *p, const LhfInt *i, const T *v) {             \
      return lhf##L##CreateMatrix(rm, n, p, i, (const C *)v);                                                       \
    }                                                                                                               \
    static LhfStatus destroy_matrix(Mat m) { return lhf##L##DestroyMatrix(m); }                                     \
    static size_t    matrix_size(Mat m) { return lhf##L##GetMatrixSize(m); }                                        \
    static size_t    matrix_nnz(Mat m) { return lhf##L##GetMatrixNnz(m); }                                          \
    static LhfStatus wrap(Mat m, size_t n, const LhfIndPtr *p, const LhfInt *i, const T *v) {                       \
      return lhf##L##WrapMatrix(m, n, p, i, (const C *)v);                                                          \
    }                                                                                                               \
    static LhfStatus read_sparse(const char *f, Mat m) { return lhf##L##ReadSparse(f, m); }                         \
    static LhfStatus read_vector(const char *f, size_t n, T *v) { return lhf##L##ReadVector(f, n, (C *)v); }        \
    static Hif       create(Mat A, Mat S, const double *p) { return lhf##L##Create(A, S, p); }                      \
    static LhfStatus destroy(Hif h) { return lhf##L##Destroy(h); }                                                  \
    static LhfStatus setup(Hif h, Mat A, Mat S, const double *p) { return lhf##L##Setup(h, A, S, p); }              \
    static LhfStatus update(Hif h, Mat A) { return lhf##L##Update(h, A); }                                          \
    static LhfStatus refactorize(Hif h, Mat S, const double *p) { return lhf##L##Refactorize(h, S, p); }            \
    static LhfStatus apply(Hif h, LhfOperationType op, const T *b, int nirs, const double *bt, int rank, T *x,      \
                           int *st) {                                                                               \
      return lhf##L##Apply(h, op, (const C *)b, nirs, bt, rank, (C *)x, st);                                        \
    }                                                                                                               \
    static LhfStatus solve(Hif h, const T *b, T *x) { return lhf##L##Solve(h, (const C *)b, (C *)x); }              \
    static LhfStatus stats(Hif h, size_t *s) { return lhf##L##GetStats(h, s); }                                     \
    static size_t    nnz(Hif h) { return lhf##L##GetNnz(h); }                                                       \
    static size_t    levels(Hif h) { return lhf##L##GetLevels(h); }                                                 \
    static size_t    schur_size(Hif h) { return lhf##L##GetSchurSize(h); }                                          \
    static size_t    schur_rank(Hif h) { return lhf##L##GetSchurRank(h); }                                          \
  }
VF_LHF(d, double, double);
VF_LHF(s, float, float);
VF_LHF(z, double _Complex, std::complex<double>);
VF_LHF(c, float _Complex, std::complex<float>);
#undef VF_LHF

// single-precision handles used with double-precision data
template <class T>
struct LhfMix {
  static const bool have = false;
};
#define VF_MIX(LO, MX, HI, HC, ...)                                                                               \
  template <>                                                                                                     \
  struct LhfMix<__VA_ARGS__> {                                                                                    \
    static const bool have = true;                                                                                \
    typedef HI        W;                                                                                          \
    typedef Lhf<W>    LW;                                                                                         \
    typedef typename Lhf<__VA_ARGS__>::Hif Hif;                                                                   \
    static LhfStatus update(Hif h, LW::Mat A) { return lhf##MX##Update(h, A); }                                   \
    static LhfStatus apply(Hif h, LhfOperationType op, const W *b, int nirs, const double *bt, int rank, W *x,    \
                           int *st) {                                                                             \
      return lhf##MX##Apply(h, op, (const HC *)b, nirs, bt, rank, (HC *)x, st);                                   \
    }                                                                                                             \
    static LhfStatus solve(Hif h, const W *b, W *x) { return lhf##MX##Solve(h, (const HC *)b, (HC *)x); }         \
  }
VF_MIX(s, sd, double, double, float);
VF_MIX(c, cz, std::complex<double>, double _Complex, std::complex<float>);
#undef VF_MIX

// the parameter vector that describes p to the C interface
inline std::vector<double> lhf_params(const hif::Params &p) {
  std::vector<double> v(LHF_NUMBER_PARAMS, 0);
  v[LHF_DROPTOL_L]   = p.tau_L;
  v[LHF_DROPTOL_U]   = p.tau_U;
  v[LHF_COND_D]      = p.kappa_d;
  v[LHF_COND]        = p.kappa;
  v[LHF_ALPHA_L]     = p.alpha_L;
  v[LHF_ALPHA_U]     = p.alpha_U;
  v[LHF_VERBOSE]     = p.verbose;
  v[LHF_REORDER]     = p.reorder;
  v[LHF_SYMMPRELVLS] = p.symm_pre_lvls;
  v[LHF_THREADS]     = p.threads;
  v[LHF_RRQR_COND]   = p.rrqr_cond;
  v[LHF_PIVOT]       = p.pivot;
  v[LHF_BETA]        = p.beta;
  v[LHF_ISSYMM]      = p.is_symm;
  v[LHF_NOPRE]       = p.no_pre;
  v[LHF_NZP_THRES]   = p.nzp_thres;
  v[LHF_DENSE_THRES] = p.dense_thres;
  return v;
}
}  // namespace vf
