#pragma once
// comparisons with rounding for floating point, exact otherwise
template<class X> struct Num
{
  static bool close(const X& a, const X& b, double) { return a == b; }
};
template<class X> struct NumF
{
  static bool close(X a, X b, double scale)
  {
    if (a != a || b != b) return false;
    double eps = std::is_same<X, float>::value ? 2e-4 : 1e-9;
    return std::abs((double)a - (double)b) <= eps * (scale + 1);
  }
};
template<> struct Num<float> : NumF<float> {};
template<> struct Num<double> : NumF<double> {};
template<> struct Num<long double> : NumF<long double> {};
static bool close(const T& a, const T& b, double scale) { return Num<T>::close(a, b, scale); }
static void expect_close(const Mat& m, const Mat& w, double scale, const char* what)
{
  ++n_checks;
  if (w.r != m.r || w.c != m.c) fail(std::string(what) + " has the wrong shape");
  for (std::size_t a = 0; a < m.r; ++a) for (std::size_t b = 0; b < m.c; ++b)
    if (!close(m(a, b), w(a, b), scale)) fail(std::string(what) + " entry (" + std::to_string(a) + "," + std::to_string(b) + ") is " + str(m(a, b)) + ", expected " + str(w(a, b)));
}
template<class X> double dbl(const X& x) { return (double)x; }
inline double dbl(const GF&) { return 0; }
inline double dbl(const cplx& x) { return std::abs(x); }
#ifdef USE_Q
inline double dbl(const Q&) { return 0; }
#endif
static double maxabs(const Mat& m) { double s = 0; for (auto& x : m.v) s = std::max(s, std::abs(dbl(x))); return s; }
// product of the rows' 1-norms: bounds the determinant
static double bound(const Mat& m)
{
  double p = 1;
  for (std::size_t a = 0; a < m.r; ++a) { double s = 0; for (std::size_t b = 0; b < m.c; ++b) s += std::abs(dbl(m(a, b))); p *= s > 1 ? s : 1; }
  return p;
}
static const bool EXACT = exact_field<T>::value;
static const bool INTEGRAL = std::is_integral<T>::value;
// all matrices n x n with entries from lo..hi, numbered
static Mat nth(std::size_t n, unsigned long long x, int lo, int hi)
{
  return make(n, n, [&](std::size_t, std::size_t) { int d = lo + int(x % (hi - lo + 1)); x /= (hi - lo + 1); return T(d); });
}

// For float and double from 4x4 on the code eliminates without choosing pivots by size. A value that is exactly zero in
// exact arithmetic but comes out as rounding noise, or a pivot much smaller than its column, makes any such elimination
// meaningless: those inputs say nothing about the property and are left out. Over the exact fields nothing is left out.
static bool benign(V2<__int128> m)
{
  typedef std::size_t z;
  z n = m.size();
  if (EXACT || INTEGRAL || n <= 3) return true;
  double G = std::is_same<T, float>::value ? 30 : 3000;
  V2<char> in(n, std::vector<char>(n, 0));      // 1: this entry may carry rounding errors
  __int128 prev = 1;
  for (z k = 0; k < n; ++k)
  {
    z p = k;
    while (p < n && m[p][k] == 0) { if (in[p][k]) return false; ++p; }
    if (p == n) return true;                    // a column of exact zeros: the determinant is zero for sure
    if (p != k) { std::swap(m[p], m[k]); std::swap(in[p], in[k]); for (auto& x : m[k]) x = -x; }
    double pv = std::abs((double)m[k][k] / (double)prev), mx = 0;
    for (z a = k; a < n; ++a) for (z b = k; b < n; ++b) mx = std::max(mx, std::abs((double)m[a][b] / (double)prev));
    if (mx > G * pv || pv > 1e6 || pv < 1e-4) return false;
    int ex;
    bool pow2 = !in[k][k] && std::frexp(pv, &ex) == 0.5;
    for (z a = k + 1; a < n; ++a) for (z b = k + 1; b < n; ++b)
    {
      bool touched = !(m[a][k] == 0 && !in[a][k]) && !(m[k][b] == 0 && !in[k][b]);
      if (touched && !(pow2 && !in[a][k] && !in[k][b])) in[a][b] = 1;
      m[a][b] = (m[a][b] * m[k][k] - m[a][k] * m[k][b]) / prev;
      if (m[a][b] == 0 && in[a][b]) return false;
      if (m[a][b] != 0 && std::abs((double)m[a][b] / (double)m[k][k]) < 1e-4) return false;
    }
    prev = m[k][k];
  }
  return true;
}
static bool benign(const Mat& A) { return EXACT || INTEGRAL || A.r <= 3 || benign(ivec(A)); }
static bool benign_inv(const Mat& A)            // also for the minors of A
{
  typedef std::size_t z;
  z n = A.r;
  if (!benign(A)) return false;
  if (EXACT || INTEGRAL || n <= 4) return true;
  auto v = ivec(A);
  for (z i = 0; i < n; ++i) for (z j = 0; j < n; ++j)
  {
    V2<__int128> q;
    for (z a = 0; a < n; ++a) if (a != i) { q.emplace_back(); for (z b = 0; b < n; ++b) if (b != j) q.back().push_back(v[a][b]); }
    if (!benign(q)) return false;
  }
  return true;
}
