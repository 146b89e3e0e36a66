// Stand-in for BLAS/LAPACK and for Intel MKL PARDISO, which are not installed
// here.  devsim loads it through DEVSIM_MATH_LIBS.  Dense LU with partial
// pivoting; a PARDISO that takes the phases, matrix types, 0-based CSR input and
// transpose flags devsim uses.
//
// It is also a seam: sim_math_set_fault() arms a fault that the simulator has
// scheduled for the k-th factorisation or solve (an error code, a NaN, an
// infinity, a wrong result, a stall counted in calls).
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstring>
#include <limits>
#include <map>
#include <vector>

typedef std::complex<double> zd;

namespace {
double mag(double x) { return std::fabs(x); }
double mag(const zd &x) { return std::fabs(x.real()) + std::fabs(x.imag()); }

template <typename T>
int getrf(int m, int n, T *a, int lda, int *ipiv)
{
  int info = 0;
  const int mn = std::min(m, n);
  for (int j = 0; j < mn; ++j)
  {
    int p = j;
    double best = mag(a[j + (size_t)j * lda]);
    for (int i = j + 1; i < m; ++i)
    {
      const double v = mag(a[i + (size_t)j * lda]);
      if (v > best) { best = v; p = i; }
    }
    ipiv[j] = p + 1;
    if (a[p + (size_t)j * lda] == T(0.0))
    {
      if (!info) info = j + 1;
      continue;
    }
    if (p != j)
    {
      for (int k = 0; k < n; ++k) std::swap(a[j + (size_t)k * lda], a[p + (size_t)k * lda]);
    }
    for (int i = j + 1; i < m; ++i) a[i + (size_t)j * lda] /= a[j + (size_t)j * lda];
    for (int k = j + 1; k < n; ++k)
    {
      const T f = a[j + (size_t)k * lda];
      if (f == T(0.0)) continue;
      for (int i = j + 1; i < m; ++i) a[i + (size_t)k * lda] -= a[i + (size_t)j * lda] * f;
    }
  }
  return info;
}

template <typename T> T cj(const T &x) { return x; }
template <> zd cj(const zd &x) { return std::conj(x); }

template <typename T>
void getrs(char trans, int n, int nrhs, const T *a, int lda, const int *ipiv, T *b, int ldb)
{
  for (int r = 0; r < nrhs; ++r)
  {
    T *x = b + (size_t)r * ldb;
    if (trans == 'N' || trans == 'n')
    {
      for (int i = 0; i < n; ++i) { const int p = ipiv[i] - 1; if (p != i) std::swap(x[i], x[p]); }
      for (int j = 0; j < n; ++j) { for (int i = j + 1; i < n; ++i) x[i] -= a[i + (size_t)j * lda] * x[j]; }
      for (int j = n - 1; j >= 0; --j)
      {
        x[j] /= a[j + (size_t)j * lda];
        for (int i = 0; i < j; ++i) x[i] -= a[i + (size_t)j * lda] * x[j];
      }
    }
    else
    {
      const bool c = (trans == 'C' || trans == 'c');
      auto A = [&](int i, int j) { const T v = a[i + (size_t)j * lda]; return c ? cj(v) : v; };
      for (int j = 0; j < n; ++j)
      {
        for (int i = 0; i < j; ++i) x[j] -= A(i, j) * x[i];
        x[j] /= A(j, j);
      }
      for (int j = n - 1; j >= 0; --j) { for (int i = j + 1; i < n; ++i) x[j] -= A(i, j) * x[i]; }
      for (int i = n - 1; i >= 0; --i) { const int p = ipiv[i] - 1; if (p != i) std::swap(x[i], x[p]); }
    }
  }
}

template <typename T>
void rotg(T *a, T *b, T *c, T *s)
{
  // real rotation with a real or complex pair, enough for gmres
  const double na = std::abs(*a), nb = std::abs(*b);
  if (nb == 0.0) { *c = T(1.0); *s = T(0.0); return; }
  const double r = std::sqrt(na * na + nb * nb);
  const T ph = (na == 0.0) ? T(1.0) : *a / na;
  *c = T(na / r);
  *s = ph * cj(*b) / r;
  *a = ph * r;
}

// ---- faults
struct Fault { int kind = 0; long countdown = 0; };
Fault factor_fault, solve_fault;
long nfactor = 0, nsolve = 0, nfired = 0;

int take(Fault &f)
{
  if (f.kind == 0) return 0;
  if (f.countdown-- > 0) return 0;
  const int k = f.kind;
  f.kind = 0;
  ++nfired;
  return k;
}

struct Fact {
  int n = 0;
  bool cplx = false;
  bool ok = false;
  std::vector<double> ad;
  std::vector<zd> az;
  std::vector<int> piv;
};
std::map<void *, Fact *> facts;
long next_id = 1;

template <typename T>
bool singular(int n, const std::vector<T> &a)
{
  for (int i = 0; i < n; ++i)
  {
    const T v = a[i + (size_t)i * n];
    if (v == T(0.0) || !std::isfinite(std::abs(v))) return true;
  }
  return false;
}
}

extern "C" {
#define VIS __attribute__((visibility("default")))
VIS void dgetrf_(int *m, int *n, double *a, int *lda, int *ipiv, int *info) { *info = getrf(*m, *n, a, *lda, ipiv); }
VIS void zgetrf_(int *m, int *n, zd *a, int *lda, int *ipiv, int *info) { *info = getrf(*m, *n, a, *lda, ipiv); }
VIS void dgetrs_(char *t, int *n, int *nrhs, double *a, int *lda, int *ipiv, double *b, int *ldb, int *info) { getrs(*t, *n, *nrhs, a, *lda, ipiv, b, *ldb); *info = 0; }
VIS void zgetrs_(char *t, int *n, int *nrhs, zd *a, int *lda, int *ipiv, zd *b, int *ldb, int *info) { getrs(*t, *n, *nrhs, a, *lda, ipiv, b, *ldb); *info = 0; }
VIS void drotg_(double *a, double *b, double *c, double *s) { rotg(a, b, c, s); }
VIS void zrotg_(zd *a, zd *b, zd *c, zd *s) { rotg(a, b, c, s); }

VIS void mkl_get_version_string(char *s, int l)
{
  memset(s, ' ', l);
  const char *v = "simulated PARDISO";
  memcpy(s, v, std::min<size_t>(strlen(v), l));
}

// kind: 1 error code, 2 NaN in the result, 3 infinity, 4 result scaled by `scale`-like garbage,
//       5 result untouched (stale x)
VIS void sim_math_set_fault(int which, int kind, long countdown)
{
  Fault &f = which ? solve_fault : factor_fault;
  f.kind = kind;
  f.countdown = countdown;
}
VIS void sim_math_counts(long *o)
{
  o[0] = nfactor; o[1] = nsolve; o[2] = nfired; o[3] = (long)facts.size();
}
VIS void sim_math_reset() { nfactor = nsolve = nfired = 0; factor_fault = Fault(); solve_fault = Fault(); }

VIS void PARDISO(void *pt_, const int *, const int *, const int *mtype, const int *phase, const int *n,
             const void *a, const int *ia, const int *ja, int *, const int *nrhs, int *iparm, const int *,
             void *b, void *x, int *error)
{
  void **pt = reinterpret_cast<void **>(pt_);
  *error = 0;
  if (*phase == -1)
  {
    auto it = facts.find(pt[0]);
    if (it != facts.end()) { delete it->second; facts.erase(it); }
    pt[0] = nullptr;
    return;
  }
  if (*phase == 11)
  {
    auto it = facts.find(pt[0]);
    if (it == facts.end())
    {
      pt[0] = reinterpret_cast<void *>(next_id++);
      facts[pt[0]] = new Fact;
    }
    return;
  }
  auto it = facts.find(pt[0]);
  if (it == facts.end()) { *error = -1; return; }
  Fact &f = *it->second;
  if (*phase == 22)
  {
    ++nfactor;
    f.ok = false;
    f.n = *n;
    f.cplx = (*mtype == 13);
    const size_t sz = (size_t)f.n * f.n;
    f.piv.assign(f.n, 0);
    const double *ad = reinterpret_cast<const double *>(a);
    const zd *az = reinterpret_cast<const zd *>(a);
    // rows of the CSR input become columns of a column major dense matrix's rows
    if (f.cplx) { f.az.assign(sz, zd(0.0)); } else { f.ad.assign(sz, 0.0); }
    for (int r = 0; r < f.n; ++r)
    {
      for (int k = ia[r]; k < ia[r + 1]; ++k)
      {
        const size_t p = r + (size_t)ja[k] * f.n;
        if (f.cplx) f.az[p] += az[k]; else f.ad[p] += ad[k];
      }
    }
    const int kind = take(factor_fault);
    if (kind == 1) { *error = -4; return; }
    int info;
    if (f.cplx) info = getrf(f.n, f.n, f.az.data(), f.n, f.piv.data());
    else        info = getrf(f.n, f.n, f.ad.data(), f.n, f.piv.data());
    const bool sing = info || (f.cplx ? singular(f.n, f.az) : singular(f.n, f.ad));
    if (sing) { *error = -4; return; }
    f.ok = true;
    return;
  }
  if (*phase == 33)
  {
    ++nsolve;
    if (!f.ok) { *error = -3; return; }
    const char t = (iparm[11] == 0) ? 'N' : ((iparm[11] == 2) ? 'T' : 'C');
    const int kind = f.n > 0 ? take(solve_fault) : 0; // there may be no unknowns
    if (kind == 1) { *error = -5; return; }
    if (kind == 5) { return; }
    if (f.cplx)
    {
      zd *xz = reinterpret_cast<zd *>(x);
      memcpy((void *)xz, b, sizeof(zd) * (size_t)f.n * *nrhs);
      getrs(t, f.n, *nrhs, f.az.data(), f.n, f.piv.data(), xz, f.n);
      if (kind == 2) xz[f.n / 2] = zd(std::numeric_limits<double>::quiet_NaN(), 0.0);
      if (kind == 3) xz[f.n / 2] = zd(std::numeric_limits<double>::infinity(), 0.0);
      if (kind == 4) for (int i = 0; i < f.n; ++i) xz[i] *= -3.0;
    }
    else
    {
      double *xd = reinterpret_cast<double *>(x);
      memcpy(xd, b, sizeof(double) * (size_t)f.n * *nrhs);
      getrs(t, f.n, *nrhs, f.ad.data(), f.n, f.piv.data(), xd, f.n);
      if (kind == 2) xd[f.n / 2] = std::numeric_limits<double>::quiet_NaN();
      if (kind == 3) xd[f.n / 2] = std::numeric_limits<double>::infinity();
      if (kind == 4) for (int i = 0; i < f.n; ++i) xd[i] *= -3.0;
    }
    return;
  }
  *error = -1;
}
}
