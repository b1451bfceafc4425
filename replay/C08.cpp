#include "common.hpp"
#include "numeric.hpp"
typedef Mat (*F)(const Mat&);
static void one(F f, const Mat& A, bool surely_singular = false)
{
  if (!benign_inv(A)) return;
  Mat A1 = A, R;
  std::size_t n = A.r;
  bool ovf = false;
  std::string other;
  op("inv(A)", {A});
  try { R = f(A1); }
  catch (const std::overflow_error&) { ovf = true; }
  catch (const std::exception& e) { other = e.what(); if (other.empty()) other = "exception"; }
  catch (...) { other = "something that is not a std::exception"; }
  CHECK(other.empty(), "threw " + other);
  unchanged(A1, A, "A");
  if (EXACT)
  {
    T d = det_field(vec(A));
    if (d == T(0)) { CHECK(ovf, "the matrix is singular, but " + str(R) + " was returned"); return; }
    CHECK(!ovf, "overflow_error although the determinant is " + str(d));
    expect(prod(R, A), ident(n), "inv(A)*A");
    expect(prod(A, R), ident(n), "A*inv(A)");
    return;
  }
  double d = (double)det_int(ivec(A));
  if (d == 0)
  {
    if (n <= 3 || surely_singular) CHECK(ovf, "the matrix is singular, but " + str(R) + " was returned");
    return;
  }
  CHECK(!ovf, "overflow_error although the determinant is " + str(d));
  if (INTEGRAL) { if (std::abs(d) == 1) { expect(prod(R, A), ident(n), "inv(A)*A"); expect(prod(A, R), ident(n), "A*inv(A)"); } return; }
  double sc = maxabs(R) * maxabs(A) * n * 1000;
  expect_close(prod(R, A), ident(n), sc, "inv(A)*A");
  expect_close(prod(A, R), ident(n), sc, "A*inv(A)");
}
static void drive(F f, std::size_t n)
{
  Rng r(seed_ * 1009 + n);
  int k = n <= 6 ? 6 : n <= 12 ? 1 : 1;
  for (int q = 0; q < k * SQ_KINDS * reps_; ++q)
  {
    if (n > 12 && !(q % SQ_KINDS == 0 || q % SQ_KINDS == 4 || q % SQ_KINDS == 6 || q % SQ_KINDS == 10)) continue;
    one(f, square(r, n, q), q % SQ_KINDS == 6 || q % SQ_KINDS == 7);
  }
  if (n <= 3) for (unsigned long long x = 0, e = n == 1 ? 3 : n == 2 ? 81 : 19683; x < e; x += n == 3 && !std::is_same<T, GF>::value ? 7 : 1) one(f, nth(n, x, -1, 1));
  if (n == 4) for (unsigned long long x = 0; x < 65536; x += std::is_same<T, GF>::value ? 5 : 97) one(f, nth(n, x, 0, 1));
  // one entry very small or very large, in every position of a permuted diagonal
  if (!EXACT && !INTEGRAL)
    for (int q = 0; q < 40; ++q)
    {
      const double e = std::ldexp(1.0, (q & 1 ? -1 : 1) * (std::is_same<T, float>::value ? 85 : 600));
      const std::size_t at = r.below(n);
      std::vector<std::size_t> p(n);
      for (std::size_t a = 0; a < n; ++a) p[a] = a;
      if (q % 3) for (std::size_t a = n; a > 1; --a) std::swap(p[r.below(a)], p[a - 1]);
      Mat A = make(n, n, [&](std::size_t a, std::size_t b) { return p[a] != b ? T(0) : a == at ? T(e) : T(1); });
      op("inv(A)", {A});
      Mat R;
      bool ovf = false;
      try { R = f(A); } catch (const std::overflow_error&) { ovf = true; }
      CHECK(!ovf, "overflow_error although the determinant is not zero");
      expect(prod(R, A), ident(n), "inv(A)*A");
    }
  if (!EXACT && !INTEGRAL && n <= 5)
    for (int q = 0; q < 60; ++q)
    {
      Mat A = square(r, n, q);
      double w = (double)det_int(ivec(A));
      if (w == 0 || !benign_inv(A)) continue;
      for (int s : {-40, -20, 20, 40})
      {
        if (std::is_same<T, float>::value && n * std::abs(s) > 100) continue;
        Mat B = make(n, n, [&](std::size_t a, std::size_t b) { return T(std::ldexp(dbl(A(a, b)), s)); });
        op("inv(A)", {B});
        Mat R = f(B);
        expect_close(prod(R, B), ident(n), maxabs(R) * maxabs(B) * n * 1000, "inv(A)*A");
      }
    }
}
template<std::size_t N> struct D
{
  static Mat f(const Mat& a) { return out(mlib::inv(in<N, N>(a))); }
  static void go() { drive(f, N); }
};
template<class X, bool = INTEGRAL> struct R { static void go() { sizes<D>(Dims<1, 2, 3>()); } };
template<std::size_t N, bool = (N <= 24)> struct DC { static void go() { D<N>::go(); } };
template<std::size_t N> struct DC<N, false> { static void go() {} };
template<std::size_t N> struct DD { static void go() { DC<N>::go(); } };
template<class X> struct R<X, false>
{
  static void go()
  {
    sizes<D>(Dims<1, 2, 3, 4, 5, 6, 7>());
    big<X>(0);
  }
  template<class Y> static typename std::enable_if<is_gf<Y>::value>::type big(int) { sizes<D>(Dims<8, 9, 10, 12, 16>()); sizes<DD>(Extra()); }
  template<class Y> static typename std::enable_if<!is_gf<Y>::value>::type big(long) {}
};
void run() { R<T>::go(); }
