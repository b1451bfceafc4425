#include "common.hpp"
#include "numeric.hpp"
typedef std::size_t z;
// what a call does: 0 returns, 1 throws std::overflow_error, 2 throws anything else
template<class F> int outcome(F f)
{
  try { f(); return 0; }
  catch (const std::overflow_error&) { return 1; }
  catch (...) { return 2; }
}
static const char* say(int k) { return k == 0 ? "the call returned" : k == 1 ? "std::overflow_error was thrown" : "something else than std::overflow_error was thrown"; }
static void want(int got, int w, const char* why) { CHECK(got == w, std::string(say(got)) + " although " + why); }
typedef void (*FS)(const Mat&, const T&);
typedef void (*F1)(const Mat&);
typedef void (*FP)(const Mat&, int);
static void divs(FS d, FS o, z R, z C)
{
  Rng r(seed_ * 1009 + R * 131 + C);
  for (int k = 0; k < 12 * reps_; ++k)
  {
    Mat A = k % 3 == 0 ? smallm(r, R, C, 0, 0) : anym(r, R, C);
    T zs[] = {T(0), T(-0.0), T(0) * T(3), Any<T>::get(r), T(1), small<T>(r, -3, 3), std::is_floating_point<T>::value ? special<T>(r) : T(2)};
    for (auto& s : zs)
    {
      bool zero = s == T(0);
      op("div(A,s)", {A, s}); want(outcome([&] { d(A, s); }), zero, zero ? "the scalar is zero" : "the scalar is not zero");
      op("A/s", {A, s}); want(outcome([&] { o(A, s); }), zero, zero ? "the scalar is zero" : "the scalar is not zero");
    }
  }
}
static int is_sing(const Mat& A)      // 1 singular, 0 not, -1 rounding decides
{
  if (EXACT) return det_field(vec(A)) == T(0);
  double d = (double)det_int(ivec(A));
  if (d != 0) return benign_inv(A) ? 0 : -1;
  if (A.r <= 3) return 1;
  for (z a = 0; a < A.r; ++a)
  {
    bool zr = true, zc = true;
    for (z b = 0; b < A.r; ++b) { zr = zr && A(a, b) == T(0); zc = zc && A(b, a) == T(0); }
    if (zr || zc) return 1;
  }
  return -1;
}
static void sq(F1 inv, FP pw, F1 lu, z n)
{
  Rng r(seed_ * 1009 + n);
  auto each = [&](const Mat& A, bool deep)
  {
    int s = is_sing(A);
    if (s >= 0)
    {
      op("inv(A)", {A});
      want(outcome([&] { inv(A); }), s, s ? "the matrix is singular" : "the matrix is not singular");
      for (int p : {-1, -2, -3, -7, 0, 1, 2, 5}) if (deep || p == -2)
      {
        if (!EXACT && p < (n <= 3 ? -2 : -1)) continue;
        op("pow(A,p)", {A, num("p", p)});
        // floating point powers may leave the range; only the small ones are judged
        want(outcome([&] { pw(A, p); }), s && p < 0, s && p < 0 ? "the matrix is singular and the power negative" : "the power exists");
      }
    }
    if (INTEGRAL) return;
    int lead = 0;
    if (EXACT) { for (z k = 1; k <= n && !lead; ++k) lead = det_field(leading(vec(A), k)) == T(0); }
    else
    {
      for (z k = 1; k <= n && !lead; ++k) { V2<__int128> v = ivec(A), q(k, std::vector<__int128>(k)); for (z a = 0; a < k; ++a) for (z b = 0; b < k; ++b) q[a][b] = v[a][b]; if (det_int(q) == 0) lead = k == 1 ? 1 : -1; }
    }
    if (!benign(A)) return;
    op("lu(A)", {A});
    if (lead >= 0) want(outcome([&] { lu(A); }), lead, lead ? "a leading principal minor is zero" : "no leading principal minor is zero");
    else CHECK(outcome([&] { lu(A); }) != 2, say(2));
  };
  for (int q = 0; q < (n <= 6 ? 4 : 1) * SQ_KINDS * reps_; ++q) each(square(r, n, q), true);
  // one entry very small or very large: the determinant and every pivot are still far from zero
  if (!EXACT && !INTEGRAL)
    for (int q = 0; q < 40; ++q)
    {
      const double e = std::ldexp(1.0, (q & 1 ? -1 : 1) * (std::is_same<T, float>::value ? 85 : 600));
      const z at = r.below(n);
      std::vector<z> p(n);
      for (z a = 0; a < n; ++a) p[a] = a;
      if (q % 3 == 2) for (z a = n; a > 1; --a) std::swap(p[r.below(a)], p[a - 1]);
      Mat A = make(n, n, [&](z a, z b) { return p[a] != b ? T(0) : a == at ? T(e) : T(1); });
      op("inv(A)", {A});
      want(outcome([&] { inv(A); }), 0, "the matrix is not singular");
      if (q % 3 == 2) continue;
      op("lu(A)", {A});
      want(outcome([&] { lu(A); }), 0, "no leading principal minor is zero");
    }
  if (n <= 2) for (unsigned long long x = 0, e = n == 1 ? 3 : 81; x < e; ++x) each(nth(n, x, -1, 1), true);
  if (n == 3) for (unsigned long long x = 0; x < 19683; x += 5) each(nth(n, x, -1, 1), false);
  if (n == 4) for (unsigned long long x = 0; x < 65536; x += 61) each(nth(n, x, 0, 1), false);
}
template<z R, z C> struct Sh
{
  static void d(const Mat& a, const T& s) { auto x = mlib::div(in<R, C>(a), s); (void)x; }
  static void o(const Mat& a, const T& s) { using namespace mlib; auto x = in<R, C>(a) / s; (void)x; }
  static void go() { divs(d, o, R, C); }
};
template<z N> struct D
{
  static void i(const Mat& a) { auto x = mlib::inv(in<N, N>(a)); (void)x; }
  static void p(const Mat& a, int k) { auto x = mlib::pow(in<N, N>(a), k); (void)x; }
  static void l(const Mat& a) { auto x = mlib::lu(in<N, N>(a)); (void)x; }
  static void go() { sq(i, p, l, N); }
};
template<z N, bool = (N <= 20)> struct DC { static void go() { D<N>::go(); } };
template<z N> struct DC<N, false> { static void go() {} };
template<z N> struct DD { static void go() { DC<N>::go(); } };
template<class X, bool = INTEGRAL> struct R_ { static void go() { sizes<D>(Dims<1, 2, 3>()); } };
template<class X> struct R_<X, false> { static void go() { sizes<D>(Dims<1, 2, 3, 4, 5, 6, 8>()); sizes<DD>(Extra()); } };
void run() { all_shapes<Sh>(); R_<T>::go(); }
