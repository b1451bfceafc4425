#include "common.hpp"
#include "numeric.hpp"
typedef T (*F)(const Mat&);
static void one(F f, const Mat& A)
{
  if (!benign(A)) return;
  Mat A1 = A;
  op("det(A)", {A});
  T d = f(A1);
  if (EXACT) { T w = det_field(vec(A)); CHECK(d == w, "the result is " + str(d) + ", the determinant is " + str(w)); }
  else
  {
    long double w = det_int(ivec(A));
    if (INTEGRAL) CHECK(d == T((long long)w), "the result is " + str(d) + ", the determinant is " + str((double)w));
    else CHECK(close(d, T(w), bound(A)), "the result is " + str(d) + ", the determinant is " + str((double)w));
  }
  unchanged(A1, A, "A");
}
static void drive(F f, std::size_t n)
{
  Rng r(seed_ * 1009 + n);
  int k = n <= 8 ? 8 : n <= 20 ? 2 : 1;
  for (int q = 0; q < k * SQ_KINDS * reps_; ++q) one(f, square(r, n, q));
  if (n <= 3) for (unsigned long long x = 0, e = n == 1 ? 3 : n == 2 ? 81 : 19683; x < e; x += n == 3 && !std::is_same<T, GF>::value ? 7 : 1) one(f, nth(n, x, -1, 1));
  if (n == 4) for (unsigned long long x = 0; x < 65536; x += std::is_same<T, GF>::value ? 1 : 37) one(f, nth(n, x, 0, 1));
  if (n == 5) for (int q = 0; q < 4000; ++q) one(f, nth(n, r.next() & 0x1ffffff, 0, 1));
  // one entry very small or very large, in every position of a permuted diagonal
  if (!EXACT && !INTEGRAL)
    for (int q = 0; q < 60; ++q)
    {
      const int e = (q & 1 ? -1 : 1) * (std::is_same<T, float>::value ? 85 : 600);
      const std::size_t at = r.below(n);
      std::vector<std::size_t> p(n);
      for (std::size_t a = 0; a < n; ++a) p[a] = a;
      int sg = 1;
      if (q % 3) for (std::size_t a = n; a > 1; --a) { std::size_t b = r.below(a); if (b != a - 1) { std::swap(p[b], p[a - 1]); sg = -sg; } }
      Mat A = make(n, n, [&](std::size_t a, std::size_t b) { return p[a] != b ? T(0) : a == at ? T(std::ldexp(1.0, e)) : T(1); });
      op("det(A)", {A});
      const double d = dbl(f(A)), w = sg * std::ldexp(1.0, e);
      CHECK(d == w, "the result is " + str(d) + ", the determinant is " + str(w));
    }
  // scaled by powers of two: thresholds on the size of a pivot show up
  if (!EXACT && !INTEGRAL && n <= 6)
    for (int q = 0; q < 40; ++q)
    {
      Mat A = square(r, n, q);
      if (!benign(A)) continue;
      for (int s : {-40, -20, 20, 40})
      {
        if (std::is_same<T, float>::value && n * std::abs(s) > 100) continue;
        double k = std::ldexp(1.0, s);
        Mat B = make(n, n, [&](std::size_t a, std::size_t b) { return T(dbl(A(a, b)) * k); });
        op("det(A)", {B});
        double d = dbl(f(B)), w = (double)det_int(ivec(A));
        d = std::ldexp(d, -s * (int)n);
        CHECK(close(T(d), T(w), bound(A)), "the result scaled back is " + str(d) + ", the determinant is " + str(w));
      }
    }
}
template<std::size_t N> struct D
{
  static T f(const Mat& a) { return mlib::det(in<N, N>(a)); }
  static void go() { drive(f, N); }
};
template<class X, bool = INTEGRAL> struct R { static void go() { sizes<D>(Dims<1, 2, 3>()); } };
template<class X> struct R<X, false>
{
  static void go()
  {
    sizes<D>(Dims<1, 2, 3, 4, 5, 6, 7, 8, 9>());
    big<X>(0);
  }
  template<class Y> static typename std::enable_if<is_gf<Y>::value>::type big(int) { sizes<D>(Dims<10, 11, 12, 13, 16, 17, 20, 33, 65>()); sizes<D>(Extra()); }
  template<class Y> static typename std::enable_if<!is_gf<Y>::value>::type big(long) {}
};
void run() { R<T>::go(); }
