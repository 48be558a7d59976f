// Exact rational feasibility of { a_i . x + c_i >= 0, x >= 0 } by phase-1 simplex (Bland's rule)
// on rationals with 128-bit numerators; any overflow makes the answer "unknown" (0).
#include <vector>
#include <cstdint>
#include <boost/multiprecision/cpp_int.hpp>
typedef boost::multiprecision::cpp_int Big;
typedef __int128 I128;
struct Ov {};
static const I128 LIM128 = ((I128)1) << 100;
static I128 gcdI(I128 a, I128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I128 t = a % b; a = b; b = t; } return a; }
static inline I128 mulc(I128 a, I128 b) { I128 r; if (__builtin_mul_overflow(a, b, &r)) throw Ov(); return r; }
static inline I128 subc(I128 a, I128 b) { I128 r; if (__builtin_sub_overflow(a, b, &r)) throw Ov(); return r; }
static inline bool toobig(const I128& v) { return v > LIM128 || v < -LIM128; }
static inline double dbl(const I128& v) { return (double)v; }
static inline bool nz(const I128& v) { return v != 0; }
static Big gcdI(const Big& a, const Big& b) { return boost::multiprecision::gcd(a, b); }
static inline Big mulc(const Big& a, const Big& b) { return a * b; }
static inline Big subc(const Big& a, const Big& b) { return a - b; }
static inline bool toobig(const Big&) { return false; }
static inline double dbl(const Big& v) { return v.convert_to<double>(); }
static inline bool nz(const Big& v) { return v != 0; }
// Row-wise integer tableau: each row is kept as integers (scaled by a positive factor), divided by gcd.
template <class I> int solve(int m, int n, const long long* d, double* out, int maxit) {
  // slack form: s_i = c_i + a_i x >= 0.   x = 0 feasible iff all c_i >= 0.
  // dual-like approach: Phase 1 with one artificial x0: s_i = c_i + a_i x + x0, minimise x0.
  {
    int cols = n + 1; // x_1..x_n, x0
    std::vector<std::vector<I>> T(m, std::vector<I>(cols + 2)); // row i: D*basic = sum coef*nonbasic + const ; last = D (den>0)
    std::vector<int> B(m), N(cols);
    bool need = false; int worst = -1;
    for (int i = 0; i < m; i++) {
      for (int j = 0; j < n; j++) T[i][j] = d[(long)i * (n + 1) + j];
      T[i][n] = 1;
      T[i][cols] = d[(long)i * (n + 1) + n];
      T[i][cols + 1] = 1;
      B[i] = cols + i;
      if (T[i][cols] < 0) { need = true; if (worst < 0 || T[i][cols] < T[worst][cols]) worst = i; }
    }
    for (int j = 0; j < cols; j++) N[j] = j; // ids: 0..n-1 x, n = x0, cols.. slacks
    for (int j = 0; j < n; j++) out[j] = 0;
    if (!need) return 2;
    auto normrow = [&](std::vector<I>& r) {
      I g = 0; for (auto& v : r) if (nz(v)) { g = gcdI(g, v); if (g == 1) break; }
      if (g > 1) for (auto& v : r) v /= g;
      for (auto& v : r) if (toobig(v)) throw Ov();
    };
    std::vector<I> Z(cols + 2, 0); // objective: minimise x0 :  Z = x0
    auto pivot = [&](int r, int c) {
      // basic B[r] = (sum_j T[r][j] N_j + T[r][cols]) / D ; solve for N[c]
      std::vector<I>& R = T[r];
      I a = R[c]; I D = R[cols + 1];
      // a*N_c = D*B_r - sum_{j!=c} R_j N_j - const
      std::vector<I> nr(cols + 2);
      I sgn = a > 0 ? 1 : -1;
      for (int j = 0; j <= cols; j++) nr[j] = -R[j] * sgn;
      nr[c] = D * sgn; nr[cols + 1] = a * sgn;
      R = nr; normrow(R);
      int tmp = B[r]; B[r] = N[c]; N[c] = tmp;
      auto sub = [&](std::vector<I>& Q) {
        I q = Q[c]; if (q == 0) return;
        // Q: D_Q*y = ... + q*N_c(old) ; N_c(old) = (R . )/D_R
        I DR = R[cols + 1];
        for (int j = 0; j <= cols; j++) {
          if (j == c) Q[j] = mulc(q, R[j]);
          else Q[j] = subc(mulc(Q[j], DR), -mulc(q, R[j]));
        }
        Q[cols + 1] = mulc(Q[cols + 1], DR);
        normrow(Q);
      };
      for (int i = 0; i < m; i++) if (i != r) sub(T[i]);
      sub(Z);
    };
    auto sol = [&]() {
      for (int i = 0; i < m; i++) if (B[i] < n) out[B[i]] = dbl(T[i][cols]) / dbl(T[i][cols + 1]);
      return 2;
    };
    Z[n] = 1; Z[cols + 1] = 1;
    pivot(worst, n); // x0 enters, making everything feasible
    for (int it = 0; it < maxit; it++) {
      // minimise Z: choose entering nonbasic with negative coef (Bland: smallest id)
      int c = -1;
      for (int j = 0; j < cols; j++) if (Z[j] < 0 && (c < 0 || N[j] < N[c])) c = j;
      if (c < 0) {
        if (Z[cols] > 0) return 1; return sol();
      }
      // ratio test: rows with negative coef on c
      int r = -1;
      for (int i = 0; i < m; i++) {
        if (T[i][c] < 0) {
          if (r < 0) { r = i; continue; }
          // compare const_i/(-T[i][c]) with const_r/(-T[r][c])
          I lhs = mulc(T[i][cols], -T[r][c]), rhs = mulc(T[r][cols], -T[i][c]);
          // prefer x0 leaving on ties
          if (lhs < rhs || (lhs == rhs && (B[i] == n || (B[r] != n && B[i] < B[r])))) r = i;
        }
      }
      if (r < 0) return 0; // unbounded below cannot happen (x0>=0)
      bool x0leave = (B[r] == n);
      pivot(r, c);
      if (x0leave) return sol(); // feasible with x0 = 0
    }
    return 0;
  }
}

#include <cmath>
#include <algorithm>
// Verify a Farkas certificate exactly: find y on rows R with sum y = 1, sum y_i a_ij = 0 for the columns in J, and check
// y >= 0, sum y_i a_ij <= 0 for all columns, sum y_i c_i < 0.   1 = verified, 0 = not
template <class I> int farkas(int n, const long long* d, const std::vector<int>& R, const std::vector<int>& J) {
  int k = R.size(), e = J.size() + 1;
  std::vector<std::vector<I>> M(e, std::vector<I>(k + 1));
  for (int i = 0; i < k; i++) {
    M[0][i] = 1;
    for (int j = 0; j + 1 < e; j++) M[j + 1][i] = d[(long)R[i] * (n + 1) + J[j]];
  }
  M[0][k] = 1;
  auto norm = [&](std::vector<I>& r) {
    I g = 0; for (auto& v : r) if (nz(v)) { g = gcdI(g, v); if (g == 1) break; }
    if (g > 1) for (auto& v : r) v /= g;
    for (auto& v : r) if (toobig(v)) throw Ov();
  };
  std::vector<int> prow(k, -1);
  std::vector<char> used(e, 0);
  for (int c = 0; c < k; c++) {
    int p = -1;
    for (int r = 0; r < e; r++) if (!used[r] && nz(M[r][c])) { p = r; break; }
    if (p < 0) return 0;
    used[p] = 1; prow[c] = p;
    for (int r = 0; r < e; r++) if (r != p && nz(M[r][c])) {
      I a = M[p][c], b = M[r][c];
      for (int j = 0; j <= k; j++) M[r][j] = subc(mulc(M[r][j], a), mulc(M[p][j], b));
      norm(M[r]);
    }
  }
  for (int r = 0; r < e; r++) if (!used[r] && nz(M[r][k])) return 0;
  // y_c = M[prow][k] / M[prow][c]; bring to a common denominator
  std::vector<I> y(k); I D = 1;
  for (int c = 0; c < k; c++) {
    I q = M[prow[c]][c]; if (q < 0) q = -q;
    I g = gcdI(D, q); D = mulc(D, q / g);
  }
  for (int c = 0; c < k; c++) {
    I q = M[prow[c]][c], v = M[prow[c]][k];
    if (q < 0) { q = -q; v = -v; }
    if (v < 0) return 0;
    y[c] = mulc(v, D / q);
  }
  norm(y);
  for (int j = 0; j <= n; j++) {
    I s = 0;
    for (int c = 0; c < k; c++) s = subc(s, -mulc(y[c], I(d[(long)R[c] * (n + 1) + j])));
    if (j < n ? s > 0 : s >= 0) return 0;
  }
  return 1;
}
static int fsolve(int m, int n, const long long* d, double* out) {
  // 1 infeasible (verified), 2 feasible (approximately), 0 don't know
  int cols = n + 1;
  std::vector<double> rs(m), cs(n, 1.0);
  std::vector<double> A((size_t)m * (cols + 1));
  for (int i = 0; i < m; i++) for (int j = 0; j <= n; j++) A[(size_t)i * (cols + 1) + (j < n ? j : cols)] = (double)d[(long)i * (n + 1) + j];
  auto at = [&](int i, int j) -> double& { return A[(size_t)i * (cols + 1) + j]; };
  bool need = false;
  for (int i = 0; i < m; i++) if (at(i, cols) < 0) need = true;
  for (int j = 0; j < n; j++) out[j] = 0;
  if (!need) return 2;
  // geometric scaling (powers of two)
  for (int pass = 0; pass < 3; pass++) {
    for (int i = 0; i < m; i++) {
      double mx = 0, mn = 1e300;
      for (int j = 0; j <= n; j++) { int q = j < n ? j : cols; double v = std::fabs(at(i, q)); if (v > 0) { mx = std::max(mx, v); mn = std::min(mn, v); } }
      double f = mx > 0 ? std::exp2(-std::round(std::log2(std::sqrt(mx * mn)))) : 1;
      if (f != 1) for (int j = 0; j <= cols; j++) at(i, j) *= f;
    }
    for (int j = 0; j < n; j++) {
      double mx = 0, mn = 1e300;
      for (int i = 0; i < m; i++) { double v = std::fabs(at(i, j)); if (v > 0) { mx = std::max(mx, v); mn = std::min(mn, v); } }
      double f = mx > 0 ? std::exp2(-std::round(std::log2(std::sqrt(mx * mn)))) : 1;
      cs[j] *= f;
      if (f != 1) for (int i = 0; i < m; i++) at(i, j) *= f;
    }
  }
  int worst = -1;
  for (int i = 0; i < m; i++) { at(i, n) = 1; if (at(i, cols) < 0 && (worst < 0 || at(i, cols) < at(worst, cols))) worst = i; }
  std::vector<int> B(m), N(cols);
  for (int i = 0; i < m; i++) B[i] = cols + i;
  for (int j = 0; j < cols; j++) N[j] = j;
  std::vector<double> Z(cols + 1, 0.0);
  Z[n] = 1;
  auto pivot = [&](int r, int c) {
    double* R = &A[(size_t)r * (cols + 1)];
    double inv = 1.0 / R[c];
    for (int j = 0; j <= cols; j++) if (j != c) R[j] *= -inv;
    R[c] = inv;
    std::swap(B[r], N[c]);
    auto sub = [&](double* Q) {
      double q = Q[c]; if (q == 0) return;
      for (int j = 0; j <= cols; j++) if (j != c) { Q[j] += q * R[j]; if (std::fabs(Q[j]) < 1e-13) Q[j] = 0; }
      Q[c] = q * inv;
    };
    for (int i = 0; i < m; i++) if (i != r) sub(&A[(size_t)i * (cols + 1)]);
    sub(Z.data());
  };
  pivot(worst, n);
  auto point = [&]() {
    for (int i = 0; i < m; i++) if (B[i] < n) out[B[i]] = at(i, cols) * cs[B[i]];
    return 2;
  };
  for (int it = 0; it < 1500; it++) {
    int c = -1;
    for (int j = 0; j < cols; j++) if (Z[j] < -1e-10) {
      if (c < 0) c = j;
      else if (it < 300 ? Z[j] < Z[c] : N[j] < N[c]) c = j;
    }
    if (c < 0 || Z[cols] < 1e-11) {
      if (Z[cols] < 1e-11) return point();
      std::vector<int> R, R2, J;
      std::vector<char> nb(n, 0);
      for (int j = 0; j < cols; j++) {
        if (N[j] < n) nb[N[j]] = 1;
        else if (N[j] >= cols) { R2.push_back(N[j] - cols); if (Z[j] > 1e-9) R.push_back(N[j] - cols); }
        else return 0;
      }
      for (int j = 0; j < n; j++) if (!nb[j]) J.push_back(j);
      for (auto* r : {&R, &R2}) {
        int k = 0;
        try { k = farkas<I128>(n, d, *r, J); } catch (Ov&) { k = farkas<Big>(n, d, *r, J); }
        if (k) return 1;
      }
      return 0;
    }
    int r = -1; double best = 0;
    for (int i = 0; i < m; i++) {
      double a = at(i, c);
      if (a < -1e-9) {
        double v = at(i, cols); if (v < 0) v = 0;
        double ratio = v / -a;
        if (r < 0 || ratio < best - 1e-12 || (ratio <= best + 1e-12 && (B[i] == n || (B[r] != n && a < at(r, c))))) { r = i; best = ratio; }
      }
    }
    if (r < 0) return 0;
    bool x0 = B[r] == n;
    pivot(r, c);
    if (x0) return point();
  }
  return 0;
}
extern "C" { long lp_cnt[6]; }
extern "C" int lp_infeasible(int m, int n, const long long* d, double* out) {
  lp_cnt[0]++;
  int r = fsolve(m, n, d, out);
#ifdef LPCHECK
  if (r != 1) { double o2[1000]; for (int j=0;j<n;j++) o2[j]=0; int q = solve<Big>(m, n, d, o2, 2000); if (q == 1) { lp_cnt[4]++; if (r==2) lp_cnt[5]++; } }
#endif
  if (r == 1 || r == 2) return r;
  lp_cnt[1]++;
  for (int j = 0; j < n; j++) out[j] = 0;
  try { r = solve<I128>(m, n, d, out, 300); if (r == 0) lp_cnt[2]++; return r; }
  catch (Ov&) { lp_cnt[3]++; }
  return 0;
}

// rows in sparse form; fidx[j] = column of the negative part of a free variable, or -1
extern "C" int lp_sparse(int m, int n, int nfree, const int* ptr, const int* idx, const long long* val, const long long* cst, const int* fidx, double* out) {
  static std::vector<long long> d;
  int N = n + nfree;
  d.assign((size_t)m * (N + 1), 0);
  for (int i = 0; i < m; i++) {
    long long* r = &d[(size_t)i * (N + 1)];
    for (int k = ptr[i]; k < ptr[i + 1]; k++) {
      int j = idx[k];
      r[j] += val[k];
      if (fidx[j] >= 0) r[fidx[j]] -= val[k];
    }
    r[N] = cst[i];
  }
  return lp_infeasible(m, N, d.data(), out);
}
