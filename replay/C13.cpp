#include "common.hpp"
#include "numeric.hpp"
typedef std::size_t z;
typedef T (*F)(const Mat&);
template<class X> X gfroot(const X& x) { return x; }
inline GF gfroot(const GF& x) { return x.pw((GF::P + 1) / 4); }
template<class X, bool = std::is_floating_point<X>::value> struct H      // exact fields
{
  static void go(F m, F v, F s, const Mat& A)
  {
    Mat A1 = A;
    T sum = T(0), n = T((long long)A.v.size());
    for (auto& x : A.v) sum += x;
    T me = sum / n;
    op("mean(A)", {A});
    T got = m(A1);
    CHECK(got == me, "the result is " + str(got) + ", the mean is " + str(me));
    T q = T(0);
    for (auto& x : A.v) q += (x - me) * (x - me);
    T va = q / n;
    op("var(A)", {A});
    got = v(A1);
    CHECK(got == va, "the result is " + str(got) + ", the variance is " + str(va));
    if (is_gf<T>::value)
    {
      op("stddev(A)", {A});
      got = s(A1);
      T rt = gfroot(va);
      CHECK(got == rt, "the result is " + str(got) + ", the square root of the variance is " + str(rt));
    }
    unchanged(A1, A, "A");
  }
};
template<class X> struct H<X, true>
{
  static void go(F m, F v, F s, const Mat& A)
  {
    Mat A1 = A;
    long double sum = 0, ab = 0, n = A.v.size();
    for (auto& x : A.v) { long double y = dbl(x); sum += y; ab = std::max(ab, y < 0 ? -y : y); }
    long double me = sum / n, q = 0, tol = (std::is_same<X, float>::value ? 1e-5L : 1e-12L) * (n < 50 ? 8 : n / 6);
    op("mean(A)", {A});
    double got = dbl(m(A1));
    CHECK(std::abs(got - me) <= tol * ab, "the result is " + str(got) + ", the mean is " + str((double)me));
    for (auto& x : A.v) { long double y = dbl(x) - me; q += y * y; }
    long double va = q / n;
    op("var(A)", {A});
    got = dbl(v(A1));
    CHECK(std::abs(got - va) <= 4 * tol * ab * ab, "the result is " + str(got) + ", the variance is " + str((double)va));
    op("stddev(A)", {A});
    got = dbl(s(A1));
    CHECK(std::abs((long double)got * got - va) <= 8 * tol * (ab * ab), "the result is " + str(got) + ", the standard deviation is " + str((double)std::sqrt(va)));
    CHECK(got >= 0, "the result is " + str(got) + ", the standard deviation is " + str((double)std::sqrt(va)));
    unchanged(A1, A, "A");
  }
};
template<class X> typename std::enable_if<std::is_integral<X>::value>::type each(F m, F v, F s, const Mat& A)
{
  Mat A1 = A;
  long long sum = 0;
  for (auto& x : A.v) sum += (long long)x;
  op("mean(A)", {A});
  T got = m(A1);
  T w = T(sum / (long long)A.v.size());
  CHECK(got == w, "the result is " + str(got) + ", the mean rounded toward zero is " + str(w));
  long long me = sum / (long long)A.v.size(), q = 0;
  for (auto& x : A.v) q += ((long long)x - me) * ((long long)x - me);
  T va = T(q / (long long)A.v.size());
  op("var(A)", {A});
  got = v(A1);
  CHECK(got == va, "the result is " + str(got) + ", the mean of the squared deviations (rounded toward zero) is " + str(va));
  op("stddev(A)", {A});
  got = s(A1);
  T rt = T(std::sqrt((double)va));
  CHECK(got == rt, "the result is " + str(got) + ", the square root of the variance (rounded toward zero) is " + str(rt));
  unchanged(A1, A, "A");
}
template<class X> typename std::enable_if<!std::is_integral<X>::value>::type each(F m, F v, F s, const Mat& A) { H<X>::go(m, v, s, A); }
static void drive(F m, F v, F s, z R, z C)
{
  Rng r(seed_ * 1009 + R * 131 + C);
  z n = R * C;
  for (int k = 0; k < 8 * reps_; ++k)
  {
    Mat A = k % 4 == 0 ? smallm(r, R, C, -9, 9) : k % 4 == 1 ? smallm(r, R, C, -9, 0) : k % 4 == 2 ? smallm(r, R, C, 3, 3) : INTEGRAL ? smallm(r, R, C, 0, 60) : anym(r, R, C);
    if (std::is_same<T, signed char>::value && n > 12) A = smallm(r, R, C, -1, 1);
    if (std::is_same<T, signed char>::value && n > 100) continue;
    if (k % 4 == 0 && n < 12 && std::is_same<T, signed char>::value) A = smallm(r, R, C, -9, 9);
    each<T>(m, v, s, A);
  }
  // numbers whose sums and sums of squares just fit the element type
  for (int k = 0; k < 3 * reps_; ++k)
  {
    int b = (DIGITS - 4 - floor_log2(n)) / 2;
    each<T>(m, v, s, widem(r, R, C, b > 22 ? 22 : b));
  }
  // one entry at a time
  if (n <= 40) for (z q = 0; q < n; ++q) { Mat A(R, C); for (auto& x : A.v) x = T(0); A.v[q] = T(100); each<T>(m, v, s, A); }
}
template<z R, z C> struct Sh
{
  static T m(const Mat& a) { return mlib::mean(in<R, C>(a)); }
  static T v(const Mat& a) { return mlib::var(in<R, C>(a)); }
  static T s(const Mat& a) { return mlib::stddev(in<R, C>(a)); }
  static void go() { drive(m, v, s, R, C); }
};
void run() { all_shapes<Sh>(); }
