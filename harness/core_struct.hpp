// Oracles over the stored levels: C11, C19, C23, C25, C26.
#pragma once

template <class Cs>
static bool well_formed(Ctx &c, const Cs &A, size_t nr, size_t nc, const char *nm, int tri) {
  // tri: -1 strictly lower, +1 strictly upper, 0 general
  bool ok = c.expect(A.nrows() == nr && A.ncols() == nc, "block-shape", fmt("%s %zux%zu expected %zux%zu", nm, A.nrows(), A.ncols(), nr, nc));
  if (!ok) return false;
  const size_t ps = Cs::ROW_MAJOR ? nr : nc, ss = Cs::ROW_MAJOR ? nc : nr;
  if (A.ind_start().size() == 0) return c.expect(ps == 0 || A.nnz() == 0, "block-indptr", fmt("%s missing offsets", nm));
  if (!c.expect(A.ind_start().size() == ps + 1 && A.ind_start()[0] == 0, "block-indptr", nm)) return false;
  for (size_t i = 0; i < ps; ++i)
    if (!c.expect(A.ind_start()[i] <= A.ind_start()[i + 1], "block-indptr", nm)) return false;
  const size_t nz = (size_t)A.ind_start()[ps];
  if (!c.expect(A.inds().size() >= nz && A.vals().size() >= nz && (size_t)A.nnz() == nz, "block-arrays", fmt("%s nnz=%zu inds=%zu vals=%zu", nm, nz, A.inds().size(), A.vals().size()))) return false;
  bool sorted = true, range = true, fin = true, side = true;
  for (size_t i = 0; i < ps; ++i)
    for (auto k = A.ind_start()[i]; k < A.ind_start()[i + 1]; ++k) {
      long j = (long)A.inds()[k];
      if (j < 0 || j >= (long)ss) range = false;
      if (k > A.ind_start()[i] && !(A.inds()[k - 1] < A.inds()[k])) sorted = false;
      if (!finite_(A.vals()[k])) fin = false;
      long row = Cs::ROW_MAJOR ? (long)i : j, col = Cs::ROW_MAJOR ? j : (long)i;
      if (tri < 0 && !(row > col)) side = false;
      if (tri > 0 && !(row < col)) side = false;
    }
  ok = c.expect(range, "block-index-range", nm) && ok;
  ok = c.expect(sorted, "block-index-sorted", nm) && ok;
  ok = c.expect(fin, "block-finite", nm) && ok;
  ok = c.expect(side, "factor-not-strictly-triangular", nm) && ok;
  return ok;
}
template <class P>
static bool is_perm(const P &p, const P &pi, size_t n) {
  if (p.size() != n || pi.size() != n) return false;
  std::vector<char> seen(n, 0);
  for (size_t i = 0; i < n; ++i) {
    long v = (long)p[i];
    if (v < 0 || v >= (long)n || seen[v]) return false;
    seen[v] = 1;
    if ((long)pi[v] != (long)i) return false;
  }
  return true;
}
static bool structure(Ctx &c, const H &M, const Case &k) {
  const size_t N  = k.A.n;
  bool         ok = c.expect(!M.empty() && M.nrows() == N && M.ncols() == N, "reported-size");
  size_t       expect_n = N, lv = 0;
  for (auto it = M.precs().cbegin(); it != M.precs().cend(); ++it, ++lv) {
    const auto & b = *it;
    const size_t m = b.m, n = b.n;
    auto         nx   = it;
    const bool   last = ++nx == M.precs().cend();
    if (!c.expect(n == expect_n && m <= n, "level-sizes-do-not-chain", fmt("level %zu n=%zu expected %zu m=%zu", lv, n, expect_n, m))) return false;
    ok = c.expect(is_perm(b.p, b.p_inv, n), "row-permutation", fmt("level %zu", lv)) && ok;
    ok = c.expect(is_perm(b.q, b.q_inv, n), "column-permutation", fmt("level %zu", lv)) && ok;
    if (!ok) return false;
    bool sc = b.s.size() == n && b.t.size() == n;
    for (size_t i = 0; sc && i < n; ++i)
      sc = std::isfinite((double)b.s[i]) && b.s[i] > 0 && std::isfinite((double)b.t[i]) && b.t[i] > 0;
    ok = c.expect(sc, "scaling-positive-finite", fmt("level %zu", lv)) && ok;
    if (m) {
      ok     = well_formed(c, b.L_B, m, m, "L", -1) && ok;
      ok     = well_formed(c, b.U_B, m, m, "U", 1) && ok;
      bool d = b.d_B.size() >= m;
      for (size_t i = 0; d && i < m; ++i) d = finite_(b.d_B[i]) && b.d_B[i] != T(0);
      ok = c.expect(d, "diagonal-nonzero-finite", fmt("level %zu", lv)) && ok;
      if (n > m) {
        ok = well_formed(c, b.E, n - m, m, "E", 0) && ok;
        ok = well_formed(c, b.F, m, n - m, "F", 0) && ok;
      }
    }
    const bool dense = !b.dense_solver.empty(), sdense = !b.symm_dense_solver.empty();
    if (last) {
      ok = c.expect((m == n) == !(dense || sdense), "last-level-dense-block", fmt("m=%zu n=%zu", m, n)) && ok;
      if (dense || sdense) {
        const auto &mb = dense ? b.dense_solver.mat_backup() : b.symm_dense_solver.mat_backup();
        bool        f  = mb.nrows() == n - m && mb.ncols() == n - m;
        for (size_t i = 0; f && i < n - m; ++i)
          for (size_t j = 0; f && j < n - m; ++j) f = finite_(mb(i, j));
        ok = c.expect(f, "dense-block-shape-finite") && ok;
        ok = c.expect(dense != sdense && sdense == (bool)k.p.is_symm, "dense-block-kind") && ok;
      }
    } else {
      ok = c.expect(!dense && !sdense, "dense-block-in-inner-level") && ok;
      ok = c.expect(m < n && m > 0, "inner-level-empty-or-complete", fmt("level %zu m=%zu n=%zu", lv, m, n)) && ok;
    }
    expect_n = n - m;
  }
  return ok;
}
// scaled and permuted first-level matrix
static Dense first_level(const H &M, const Case &k) {
  const auto &b = M.precs().front();
  Dense       a = k.A.dense(), A(b.n, b.n);
  for (size_t i = 0; i < b.n; ++i)
    for (size_t j = 0; j < b.n; ++j) A(i, j) = (ld)b.s[b.p[i]] * a(b.p[i], b.q[j]) * (ld)b.t[b.q[j]];
  return A;
}

static void run_c11(Ctx &c, Rng &r) {
  Case k = make(c, r, r.chance(.3), c.thorough ? 120 : 56, G_ANY);
  H    M;
  factorize(M, k);
  ev_shape(c, M, k);
  if (!structure(c, M, k)) return;
  const auto &b = M.precs().front();
  if (b.m && b.n > b.m) {
    Dense  A = first_level(M, k), E = dense_of(b.E), F = dense_of(b.F);
    double e = 0;
    bool   st = true;
    size_t nzE = 0, nzF = 0;
    for (size_t i = b.m; i < b.n; ++i)
      for (size_t j = 0; j < b.m; ++j) {
        e = std::max(e, (double)(std::abs(E(i - b.m, j) - A(i, j)) / (std::abs(A(i, j)) + 1e-300L)));
        e = std::max(e, (double)(std::abs(F(j, i - b.m) - A(j, i)) / (std::abs(A(j, i)) + 1e-300L)));
        nzE += A(i, j) != cld(0);
        nzF += A(j, i) != cld(0);
      }
    // in symmetric mode the upper block is taken from the lower one; the input
    // is symmetric only up to rounding of its generation, hence the tolerance
    c.near(e, 64 * EPS, "offdiagonal-blocks-are-the-scaled-input", fmt("m=%zu n=%zu", b.m, b.n));
    st = (size_t)b.E.nnz() >= nzE && (size_t)b.F.nnz() >= nzF;
    c.expect(st, "offdiagonal-blocks-lose-entries");
    c.ev("judged-offdiagonal");
  }
  // export interface reproduces the stored levels
  {
    size_t lv = 0;
    for (auto it = M.precs().begin(); it != M.precs().end(); ++it, ++lv) {
      size_t m, n, nl, nu, ne, nf;
      it->inquire_sizes(m, n, nl, nu, ne, nf);
      c.expect(m == it->m && n == it->n && nl == (size_t)it->L_B.nnz() && nu == (size_t)it->U_B.nnz() &&
                   ne == (size_t)it->E.nnz() && nf == (size_t)it->F.nnz(),
               "inquired-sizes");
    }
  }
  Hash h;
  h.pod(k.A.hash());
  h.pod(M.nnz());
  h.pod(M.levels());
  c.nontrivial(h.h);
  if (c.samples.size() < 3) c.sample(c.desc + fmt(" levels=%zu nnz=%zu", M.levels(), M.nnz()));
}

// ---------------------------------------------------------------- C19 / C26
struct LvlPar {
  double kd, kap, tL, tU, aL, aU;
};
static LvlPar lvl_par(const hif::Params &p, int lvl) {
  LvlPar q = {p.kappa_d, p.kappa, p.tau_L, p.tau_U, p.alpha_L, p.alpha_U};
  if (p.rf_par) {
    const int f = lvl < 2 ? 1 : 2;
    q.kd        = std::max(2.0, f == 1 ? p.kappa_d : std::sqrt(p.kappa_d));
    q.kap       = std::max(2.0, f == 1 ? p.kappa : std::sqrt(p.kappa));
    if (lvl > 1) q.tL /= 10, q.tU /= 10;
    if (lvl <= 2) q.aL *= f, q.aU *= f;
  }
  return q;
}
// inverse-norm estimates from the stored unit triangular factor X (upper,
// X(i,j), i<j); unreliable[j]: a sign decision was a numerical tie
static cvec kappas(const Dense &X, std::vector<char> &bad) {
  size_t m = X.m;
  cvec   k(m);
  bad.assign(m, 0);
  for (size_t j = 0; j < m; ++j) {
    cld  s  = 0;
    ld   sa = 0;
    bool dep = false;
    for (size_t i = 0; i < j; ++i)
      if (X(i, j) != cld(0)) {
        s += k[i] * X(i, j);
        sa += std::abs(k[i] * X(i, j));
        dep = dep || bad[i];
      }
    const ld a = std::abs(cld(1) - s), b = std::abs(cld(-1) - s);
    k[j]       = a < b ? cld(-1) - s : cld(1) - s;
    if (j && sa > 0 && std::fabs(a - b) <= 100 * EPS * (1 + sa)) bad[j] = 1;
    if (dep) bad[j] = 1;
  }
  return k;
}
static std::vector<size_t> ref_sizes(const Csr<T> &A, bool cols) {
  std::vector<size_t> z(A.n, 0);
  for (int i = 0; i < A.m; ++i)
    for (ptrdiff_t q = A.ptr[i]; q < A.ptr[i + 1]; ++q) ++z[cols ? A.ind[q] : i];
  size_t lo = (size_t)std::ceil(HIF_MIN_LOCAL_SIZE_PERCTG / 100.0 * A.nnz() / A.n);
  for (auto &v : z) v = std::max(v, lo);
  return z;
}

// stored entries (explicit zeros included) of every row or column
template <class Cs>
static std::vector<size_t> line_counts(const Cs &A, bool rows) {
  std::vector<size_t> z(rows ? A.nrows() : A.ncols(), 0);
  const size_t        ps = Cs::ROW_MAJOR ? A.nrows() : A.ncols();
  for (size_t i = 0; i < ps; ++i)
    for (auto k = A.ind_start()[i]; k < A.ind_start()[i + 1]; ++k) ++z[Cs::ROW_MAJOR == rows ? i : (size_t)A.inds()[k]];
  return z;
}

static void run_drop(Ctx &c, Rng &r, bool c19) {
  Case k = make(c, r, r.chance(c19 ? .1 : .2), c.thorough ? 90 : 48, G_ANY);
  if (c19 && k.m0) {
    k.m0 = 0;
    c.desc += " m0:=0";
  }
  if (c19 && r.chance(.5)) {  // binding fill limits
    k.p.alpha_L = r.pick({.3, .5, .8, 1.0, 1.3});
    k.p.alpha_U = r.pick({.3, .5, .8, 1.0, 1.3});
    c.desc += fmt(" al:=%g/%g", k.p.alpha_L, k.p.alpha_U);
  }
  H M;
  factorize(M, k);
  ev_shape(c, M, k);
  const bool          cond = !c19;
  std::vector<size_t> rs = ref_sizes(k.A, false), cs = ref_sizes(k.A, true);
  int                 lvl = 0;
  bool                any = false;
  for (auto &b : M.precs()) {
    ++lvl;
    const LvlPar q = lvl_par(k.p, lvl);
    const size_t m = b.m, n = b.n;
    if (m) {
      any = true;
      Dense L = dense_of(b.L_B).T(), U = dense_of(b.U_B);
      if (L.m != m || U.m != m) return;
      std::vector<char> bl, bu;
      cvec              kl = kappas(L, bl), ku = kappas(U, bu);
      const double      rel = 1e4 * EPS;
      double            dmin = 0, dmin_ = 1e300;
      for (size_t i = 0; i < m; ++i) {
        const double x = 1.0 / (k.p.is_symm ? std::fabs((double)up(b.d_B[i]).real()) : (double)std::abs(up(b.d_B[i])));
        dmin           = std::max(dmin, x);
        dmin_          = std::min(dmin_, x);
        if (cond) {
          c.expect(x <= q.kd * (1 + rel), "pivot-inverse-exceeds-kappa_d", fmt("level %d row %zu 1/|d|=%g kappa_d=%g", lvl, i, x, q.kd));
          if (k.p.is_symm && k.p.spd) c.expect((k.p.spd > 0) == (up(b.d_B[i]).real() > 0), "definite-pivot-sign", fmt("level %d", lvl));
          if (!bl[i]) {
            c.mx("kappa_l/kappa", (double)std::abs(kl[i]) / q.kap);
            c.expect(std::abs(kl[i]) <= q.kap * (1 + rel), "lower-inverse-norm-exceeds-kappa", fmt("level %d col %zu |k|=%g kappa=%g", lvl, i, (double)std::abs(kl[i]), q.kap));
          }
          if (!bu[i] && !k.p.is_symm) {
            c.mx("kappa_u/kappa", (double)std::abs(ku[i]) / q.kap);
            c.expect(std::abs(ku[i]) <= q.kap * (1 + rel), "upper-inverse-norm-exceeds-kappa", fmt("level %d row %zu |k|=%g kappa=%g", lvl, i, (double)std::abs(ku[i]), q.kap));
          }
          if (bl[i] || bu[i]) c.ev("tie-skipped");
        }
      }
      if (cond) {
        c.mx("kappa_d-use", dmin / q.kd);
        if (dmin > .5 * q.kd) c.ev("pivot-near-bound");
      }
      if (c19) {
        const bool maybe_pivot = !k.p.is_symm && k.p.pivot != 0;
        // which kernel made the first level decides its fill factor
        double mulA = maybe_pivot ? 4 : 1;
        Dense  A, LV(m, m), UV(m, m), LE(m, m), UE(m, m);  // undropped values and error bounds
        bool   replay = lvl == 1, amb = false;  // amb: either kernel fits
        if (replay) {
          A = first_level(M, k);
          Dense dU(m, m);  // d*U
          for (size_t i = 0; i < m; ++i)
            for (size_t j = i + 1; j < m; ++j) dU(i, j) = up(b.d_B[i]) * U(i, j);
          // d-consistency under both kernels
          cvec              dn(m), dp(m);
          std::vector<ld>   en(m, 0), ep(m, 0);
          for (size_t i = 0; i < m; ++i) dn[i] = dp[i] = A(i, i), en[i] = ep[i] = std::abs(A(i, i));
          for (size_t kk = 0; kk < m; ++kk) {
            const cld dk = up(b.d_B[kk]);
            for (size_t j = kk + 1; j < m; ++j) {
              cld u = A(kk, j), l = A(j, kk);
              ld  ue = std::abs(u), le = std::abs(l);
              for (size_t i = 0; i < kk; ++i) {
                if (dU(i, j) != cld(0) && L(i, kk) != cld(0)) {
                  cld t = L(i, kk) * dU(i, j);
                  u -= t, ue += std::abs(t);
                }
                if (L(i, j) != cld(0) && dU(i, kk) != cld(0)) {
                  cld t = L(i, j) * dU(i, kk);
                  l -= t, le += std::abs(t);
                }
              }
              if (k.p.is_symm) u = std::conj(l), ue = le;
              UV(kk, j) = u / dk, LV(kk, j) = l / dk;
              UE(kk, j) = 32 * EPS * (double)kk * ue / std::abs(dk) + 8 * EPS * std::abs(UV(kk, j));
              LE(kk, j) = 32 * EPS * (double)kk * le / std::abs(dk) + 8 * EPS * std::abs(LV(kk, j));
              const cld t1 = dk * UV(kk, j) * LV(kk, j), t2 = L(kk, j) * dU(kk, j);
              dn[j] -= t1, en[j] += std::abs(t1) + (ue + le) * (std::abs(UV(kk, j)) + std::abs(LV(kk, j)));
              dp[j] -= t2, ep[j] += std::abs(t2);
            }
          }
          bool okn = true, okp = true;
          double wn = 0, wp = 0;
          for (size_t i = 0; i < m; ++i) {
            const cld d = up(b.d_B[i]);
            double    a = (double)(std::abs(d - dn[i]) / (100 * EPS * (1 + i) * en[i])), p = (double)(std::abs(d - dp[i]) / (100 * EPS * (1 + i) * ep[i]));
            wn = std::max(wn, a), wp = std::max(wp, p);
            okn = okn && a <= 1, okp = okp && p <= 1;
          }
          const bool allow_n = k.p.is_symm || k.p.pivot != 1, allow_p = maybe_pivot;
          if (allow_n && okn && !(allow_p && okp)) mulA = 1;
          if (allow_p && okp && !(allow_n && okn)) mulA = 4;
          c.expect((allow_n && okn) || (allow_p && okp), "diagonal-is-not-the-recurrence", fmt("n-dev %g p-dev %g m=%zu", wn, wp, m));
          amb = allow_n && okn && allow_p && okp;
          c.ev(okn ? (okp ? "kernel-either" : "kernel-nonpivot") : "kernel-pivot");
        }
        const std::vector<size_t> cntL = line_counts(b.L_B, false), cntU = line_counts(b.U_B, true);
        for (int side = 0; side < 2; ++side) {
          if (k.p.is_symm && side == 1) continue;
          const Dense &            X = side ? U : L;
          const cvec &             kk = side ? ku : kl;
          const std::vector<char> &bad = side ? bu : bl;
          const char *             nm = side ? "upper" : "lower";
          for (size_t i = 0; i < m; ++i) {
            const double tau = side ? q.tU : q.tL, alpha = (side ? q.aU : q.aL) * mulA;
            const double thr = tau > 0 ? tau / ((double)std::abs(kk[i]) * q.kd) : 0;
            const size_t sz  = side ? rs[b.p[i]] : (k.p.is_symm ? rs[b.p[i]] : cs[b.q[i]]);
            const size_t lim = (size_t)std::min(std::ceil(alpha * sz), 1e15);
            size_t       kept = 0;
            double       mn = 1e300;
            for (size_t j = i + 1; j < m; ++j)
              if (X(i, j) != cld(0)) {
                ++kept;
                mn = std::min(mn, (double)std::abs(X(i, j)));
              }
            const size_t stored = side ? cntU[i] : cntL[i];
            c.expect(stored <= std::max<size_t>(lim, 1), fmt("%s-fill-exceeds-limit", nm), fmt("level %d line %zu stored=%zu limit=%zu alpha=%g", lvl, i, stored, lim, alpha));
            if (stored && stored == lim) c.ev("fill-limit-binding");
            if (thr > 0 && !bad[i]) {
              c.expect(stored == 0 || (kept == stored && mn > thr * (1 - 1e3 * EPS)), fmt("%s-kept-below-threshold", nm),
                       fmt("level %d line %zu min=%g threshold=%g", lvl, i, mn, thr));
            }
            if (replay) {
              const Dense &V = side ? UV : LV, &VE = side ? UE : LE;
              size_t       nd = 0;
              for (size_t j = i + 1; j < m; ++j) {
                const double e = (double)std::abs(VE(i, j)), v = (double)std::abs(V(i, j));
                if (X(i, j) != cld(0)) {
                  c.expect(std::abs(X(i, j) - V(i, j)) <= e + 1e-300, fmt("%s-entry-is-not-the-recurrence", nm),
                           fmt("line %zu,%zu kept %g recomputed %g bound %g", i, j, (double)std::abs(X(i, j)), v, e));
                } else {
                  if (v > 10 * e) ++nd;
                  if (kept) c.expect(v <= mn * (1 + 1e3 * EPS) + e + 1e-300, fmt("%s-dropped-larger-than-kept", nm), fmt("line %zu,%zu dropped %g min kept %g", i, j, v, mn));
                  if (!bad[i] && v > thr * (1 + 1e3 * EPS) + 10 * e) {
                    c.ev("dropped-by-fill");
                    c.expect(stored + (n - m) >= (amb ? (size_t)std::min(std::ceil((side ? q.aU : q.aL) * sz), 1e15) : lim), fmt("%s-dropped-although-allowed", nm), fmt("line %zu,%zu value %g threshold %g stored %zu limit %zu rest %zu", i, j, v, thr, stored, lim, n - m));
                  }
                }
              }
              if (nd) c.ev(fmt("%s-lines-with-drops", nm));
            }
          }
        }
      }
    }
    // reference sizes of the next level
    std::vector<size_t> r2(n - m), c2(n - m);
    for (size_t i = m; i < n; ++i) {
      r2[i - m] = rs[b.p[i]];
      c2[i - m] = k.p.is_symm ? r2[i - m] : cs[b.q[i]];
    }
    rs.swap(r2);
    cs.swap(c2);
  }
  if (any) {
    c.ev("judged");
    Hash h;
    h.pod(k.A.hash());
    h.pod(M.nnz());
    h.pod(k.p.tau_L);
    h.pod(k.p.kappa);
    c.nontrivial(h.h);
  }
  if (c.samples.size() < 3) c.sample(c.desc + fmt(" levels=%zu drops=%zu/%zu", M.levels(), M.stats(4), M.stats(5)));
}

// ------------------------------------------------------------------- C23
// is A + delta I positive definite (A Hermitian)?
static bool is_psd(const Dense &A, ld delta) {
  size_t n = A.m;
  Dense  L(n, n);
  for (size_t j = 0; j < n; ++j) {
    ld d = A(j, j).real() + delta;
    for (size_t k = 0; k < j; ++k) d -= std::norm(L(j, k));
    if (!(d > 0)) return false;
    d       = std::sqrt(d);
    L(j, j) = d;
    for (size_t i = j + 1; i < n; ++i) {
      cld v = A(i, j);
      for (size_t k = 0; k < j; ++k) v -= L(i, k) * std::conj(L(j, k));
      L(i, j) = v / d;
    }
  }
  return true;
}
static void run_c23(Ctx &c, Rng &r) {
  Case k;
  for (int tries = 0;; ++tries) {
    k = make(c, r, r.chance(.3), c.thorough ? 80 : 44, G_SYMM);
    if (k.A.symm) break;
    if (tries > 50) return;
  }
  k.p.is_symm = 1;
  k.m0        = 0;
  k.p.spd     = (int)r.pick({0, 0, 1, -1});
  c.desc += fmt(" is_symm:=1 spd:=%d", k.p.spd);
  H M;
  factorize(M, k);
  ev_shape(c, M, k);
  const size_t n = k.A.n;
  if (!structure(c, M, k)) return;
  for (auto &b : M.precs()) {
    bool same = true, sc = true;
    for (size_t i = 0; i < b.n; ++i) {
      same = same && b.p[i] == b.q[i] && b.p_inv[i] == b.q_inv[i];
      sc   = sc && b.s[i] == b.t[i];
    }
    c.expect(same, "row-and-column-permutations-differ");
    c.expect(sc, "row-and-column-scalings-differ");
    if (b.m) {
      Dense L = dense_of(b.L_B), U = dense_of(b.U_B);
      c.expect((L.H() - U).maxabs() == 0, "factors-do-not-mirror");
      if (b.n > b.m) {
        Dense E = dense_of(b.E), F = dense_of(b.F);
        c.expect((E.H() - F).maxabs() == 0, "offdiagonal-blocks-do-not-mirror");
      }
      double im = 0, ab = 0;
      for (size_t i = 0; i < b.m; ++i) im = std::max(im, std::fabs((double)up(b.d_B[i]).imag())), ab = std::max(ab, (double)std::abs(up(b.d_B[i])));
      c.near(im, 1e4 * EPS * ab, "diagonal-not-real");
    }
  }
  Dense        G = op(M, n, 0, 0), P = op(M, n, 2, 0);
  const double kap = (double)(G.fro() * P.fro());
  const double g   = level_growth(M);
  const double tol = 2e3 * EPS * kap;
  if (!G.finite() || !P.finite() || !(tol < 2e-2) || !(g < 1e6)) {
    c.ev("skipped-illconditioned");
    return;
  }
  c.ev("judged");
  c.nontrivial(k.A.hash() ^ M.nnz());
  c.near((double)((P - P.H()).fro() / (P.fro() + 1e-300L)), 2e3 * EPS * std::sqrt(kap) + 1e-3 * tol, "product-not-symmetric");
  c.near((double)((G - G.H()).fro() / (G.fro() + 1e-300L)), tol, "solve-not-symmetric");
  if (k.p.spd) {
    c.ev(k.p.spd > 0 ? "judged-positive" : "judged-negative");
    const ld sg = k.p.spd > 0 ? 1 : -1;
    Dense    S  = G;
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j) S(i, j) = sg * (G(i, j) + std::conj(G(j, i))) / 2.0L;
    c.expect(is_psd(S, (tol + 1e-12) * G.fro() + 1e-300L), "definite-solve-has-opposite-direction", fmt("spd=%d cond=%g schur %zu/%zu", k.p.spd, kap, M.schur_rank(), M.schur_size()));
    if (M.rank() < n) c.ev("definite-truncated");
  }
  if (c.samples.size() < 3) c.sample(c.desc + fmt(" levels=%zu rank=%zu", M.levels(), M.rank()));
}

// ------------------------------------------------------------------- C25
static void run_c25(Ctx &c, Rng &r) {
  H M;
  c.expect(M.empty() && M.levels() == 0 && M.nnz() == 0 && M.rank() == 0 && M.schur_size() == 0 && M.schur_rank() == 0 && M.nnz_ef() == 0 && M.nnz_ldu() == 0,
           "empty-object-reports-content");
  const int rounds = (int)r.in(1, 3);
  for (int q = 0; q < rounds; ++q) {
    Case k = make(c, r, r.chance(.3), c.thorough ? 70 : 40, G_ANY);
    factorize(M, k);
    ev_shape(c, M, k);
    const size_t N = k.A.n;
    auto         check = [&](const char *when) {
      size_t nz = 0, ef = 0, lev = 0, def = 0, lr = 0, ls = 0, first = 1;
      for (auto &b : M.precs()) {
        const size_t m = b.m, n = b.n;
        ++lev;
        size_t a = 0;
        if (m) {
          for (size_t i = 0; i < m; ++i) {
            a += (size_t)(b.L_B.ind_start()[i + 1] - b.L_B.ind_start()[i]);
            a += (size_t)(b.U_B.ind_start()[i + 1] - b.U_B.ind_start()[i]);
          }
          a += m;
          if (n > m) {
            size_t e = (size_t)b.E.ind_start()[b.E.ind_start().size() - 1] + (size_t)b.F.ind_start()[b.F.ind_start().size() - 1];
            a += e;
            ef += e;
          }
        }
        def += (first && k.m0 ? k.m0 : n) - m;
        first = 0;
        ls    = n - m;
        const bool dn = !b.dense_solver.empty(), sd = !b.symm_dense_solver.empty();
        if (dn || sd) {
          ++lev;
          a += (n - m) * (n - m);
          lr = dn ? b.dense_solver.rank() : b.symm_dense_solver.rank();
        }
        nz += a;
      }
      c.expect(M.nnz() == nz, "nnz", fmt("%s reported %zu counted %zu", when, M.nnz(), nz));
      c.expect(M.nnz_ef() == ef, "nnz-offdiagonal", fmt("%s reported %zu counted %zu", when, M.nnz_ef(), ef));
      c.expect(M.nnz_ldu() == nz - ef, "nnz-factors", when);
      c.expect(M.levels() == lev, "levels", fmt("%s reported %zu counted %zu", when, M.levels(), lev));
      c.expect(M.nrows() == N && M.ncols() == N, "size", when);
      c.expect(M.schur_size() == ls, "final-block-size", when);
      c.expect(M.schur_rank() == lr, "final-block-rank", when);
      c.expect(M.rank() == N - (ls - lr), "rank", fmt("%s reported %zu", when, M.rank()));
      if (!k.m0) c.expect(M.stats(0) == def, "total-deferrals", fmt("%s reported %zu counted %zu", when, M.stats(0), def));
      c.expect(M.stats(1) <= M.stats(0), "dynamic-deferrals-exceed-total", fmt("%zu %zu", M.stats(1), M.stats(0)));
      c.expect(M.stats(1) == M.stats(2) + M.stats(3), "deferral-causes-do-not-add-up", fmt("%s %zu %zu %zu", when, M.stats(1), M.stats(2), M.stats(3)));
      c.expect(M.stats(5) <= M.stats(4), "space-droppings-exceed-total", fmt("%zu %zu", M.stats(5), M.stats(4)));
    };
    check("after-build");
    if (k.nodrop) c.expect(M.stats(4) == 0 && M.stats(5) == 0, "droppings-without-dropping", fmt("%zu %zu", M.stats(4), M.stats(5)));
    // droppings and static deferrals of the last level seen in the operator
    Dense  G = op(M, N, 0, 0), P = op(M, N, 2, 0);
    double kap = (double)(G.fro() * P.fro());
    check("after-use");
    if (G.finite() && P.finite() && 2e3 * EPS * kap < 2e-3 && level_growth(M) < 1e6) {
      cld tr = 0;
      for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < N; ++j) tr += G(i, j) * P(j, i);
      c.near((double)std::abs(tr - cld((ld)M.rank())), .25, "rank-of-the-operator", fmt("trace %g rank %zu", (double)tr.real(), M.rank()));
      c.ev("judged-rank");
      if (M.rank() < N) c.ev("judged-deficient-rank");
    }
    // something was dropped <=> reported (first level, exact reconstruction)
    if (M.stats(4) == 0 && M.stats(5) == 0 && M.rank() == N && M.levels() <= 2) {
      const auto &b = M.precs().front();
      if (b.m == b.n || true) {
        Dense  a = k.A.dense();
        double e = (double)((P - a).fro() / a.fro());
        if (b.m == b.n && k.A.kind.find("badscale") == std::string::npos && !k.m0) {
          c.near(e, 2e5 * EPS, "no-droppings-reported-but-inexact", c.desc);
          c.ev("judged-no-drops");
        }
      }
    }
    c.nontrivial(k.A.hash() ^ M.nnz() * 31);
  }
  if (r.chance(.5)) {
    M.clear();
    c.expect(M.empty() && M.levels() == 0 && M.nnz() == 0 && M.rank() == 0 && M.schur_size() == 0 && M.schur_rank() == 0 && M.nnz_ef() == 0,
             "emptied-object-reports-content");
    bool thrown = false;
    try {
      (void)M.stats(0);
    } catch (const std::exception &) {
      thrown = true;
    }
    c.expect(thrown, "statistics-of-an-emptied-object");
    c.ev("emptied");
  }
  if (c.samples.size() < 3 && !M.empty()) c.sample(c.desc + fmt(" nnz=%zu stats=%zu/%zu/%zu/%zu/%zu/%zu", M.nnz(), M.stats(0), M.stats(1), M.stats(2), M.stats(3), M.stats(4), M.stats(5)));
}

static void run_struct(Ctx &c, Rng &r) {
  if (c.prop == "C11")
    run_c11(c, r);
  else if (c.prop == "C19")
    run_drop(c, r, true);
  else if (c.prop == "C26")
    run_drop(c, r, false);
  else if (c.prop == "C23")
    run_c23(c, r);
  else if (c.prop == "C25")
    run_c25(c, r);
  else
    throw std::runtime_error("unknown property");
}
