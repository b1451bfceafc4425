#include "common.hpp"
#include "numeric.hpp"
typedef std::pair<Mat, Mat> (*F)(const Mat&);
static void one(F f, const Mat& A)
{
  typedef std::size_t z;
  if (!benign(A)) return;
  Mat A1 = A;
  std::size_t n = A.r;
  std::pair<Mat, Mat> p;
  bool ovf = false;
  std::string other;
  op("lu(A)", {A});
  try { p = f(A1); }
  catch (const std::overflow_error&) { ovf = true; }
  catch (const std::exception& e) { other = e.what(); if (other.empty()) other = "exception"; }
  catch (...) { other = "something that is not a std::exception"; }
  CHECK(other.empty(), "threw " + other);
  unchanged(A1, A, "A");
  bool zero = false;
  if (EXACT) { for (z k = 1; k <= n && !zero; ++k) zero = det_field(leading(vec(A), k)) == T(0); CHECK(ovf == zero, zero ? "a leading principal minor is zero, but factors were returned" : "overflow_error although no leading principal minor is zero"); }
  else
  {
    auto v = ivec(A);
    z k0 = n + 1;
    for (z k = 1; k <= n && !zero; ++k)
    {
      V2<__int128> q(k, std::vector<__int128>(k));
      for (z a = 0; a < k; ++a) for (z b = 0; b < k; ++b) q[a][b] = v[a][b];
      zero = det_int(q) == 0;
      if (zero) k0 = k;
    }
    if (!zero) CHECK(!ovf, "overflow_error although no leading principal minor is zero");
    else if (k0 <= 1) CHECK(ovf, "a leading principal minor is zero, but factors were returned");
    if (zero) return;
  }
  if (ovf) return;
  double sc = EXACT ? 0 : maxabs(p.first) * maxabs(p.second) * n * 100;
  for (z a = 0; a < n; ++a) for (z b = 0; b < n; ++b)
  {
    if (b > a) CHECK(p.first(a, b) == T(0), "L is not lower triangular: " + str(p.first));
    if (b == a) CHECK(close(p.first(a, b), T(1), 1), "L has a diagonal entry that is not 1: " + str(p.first));
    if (b < a) CHECK(p.second(a, b) == T(0), "U is not upper triangular: " + str(p.second));
    if (b == a) CHECK(!(p.second(a, b) == T(0)), "U has a zero on the diagonal: " + str(p.second));
  }
  if (EXACT) expect(prod(p.first, p.second), A, "L*U"); else expect_close(prod(p.first, p.second), A, sc, "L*U");
}
static void drive(F f, std::size_t n)
{
  Rng r(seed_ * 1009 + n);
  int k = n <= 8 ? 10 : 2;
  for (int q = 0; q < k * SQ_KINDS * reps_; ++q) one(f, square(r, n, q));
  // one diagonal entry very small or very large
  if (!EXACT && !INTEGRAL)
    for (int q = 0; q < 20; ++q)
    {
      const double e = std::ldexp(1.0, (q & 1 ? -1 : 1) * (std::is_same<T, float>::value ? 85 : 600));
      const std::size_t at = r.below(n);
      Mat A = make(n, n, [&](std::size_t a, std::size_t b) { return a != b ? T(0) : a == at ? T(e) : T(1); });
      op("lu(A)", {A});
      std::pair<Mat, Mat> p;
      bool ovf = false;
      try { p = f(A); } catch (const std::overflow_error&) { ovf = true; }
      CHECK(!ovf, "overflow_error although no leading principal minor is zero");
      expect(prod(p.first, p.second), A, "L*U");
    }
  if (n <= 3) for (unsigned long long x = 0, e = n == 1 ? 3 : n == 2 ? 81 : 19683; x < e; x += n == 3 && !std::is_same<T, GF>::value ? 7 : 1) one(f, nth(n, x, -1, 1));
  if (n == 4) for (unsigned long long x = 1; x < 65536; x += std::is_same<T, GF>::value ? 2 : 74) one(f, nth(n, x, 0, 1));
}
template<std::size_t N> struct D
{
  static std::pair<Mat, Mat> f(const Mat& a) { auto p = mlib::lu(in<N, N>(a)); return {out(p.first), out(p.second)}; }
  static void go() { drive(f, N); }
};
template<class X> typename std::enable_if<is_gf<X>::value>::type big() { sizes<D>(Dims<8, 9, 10, 12, 16, 17, 20, 33, 65>()); sizes<D>(Extra()); }
template<class X> typename std::enable_if<!is_gf<X>::value>::type big() {}
void run() { sizes<D>(Dims<1, 2, 3, 4, 5, 6, 7>()); big<T>(); }
