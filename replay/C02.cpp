#include "common.hpp"
// matrix product for many n x m x p, and Strassen 2x2
using namespace mlib;
typedef Mat (*Fn)(const Mat&, const Mat&);
static T pick(Rng& r, int k) { return std::is_floating_point<T>::value || k % 2 ? small<T>(r, k % 3 ? -9 : -1, k % 3 ? 9 : 1) : Any<T>::get(r); }
static void drive(const char* name, Fn f, std::size_t n, std::size_t m, std::size_t p)
{
  Rng r(seed_ * 77 + n * 10007 + m * 101 + p);
  auto one = [&](const Mat& A, const Mat& B)
  {
    Mat A1 = A, B1 = B;
    op(name, {A, B});
    expect(f(A1, B1), prod(A, B));
    unchanged(A1, A, "A");
    unchanged(B1, B, "B");
  };
  for (int k = 0; k < 8 * reps_; ++k)
  {
    Mat A = make(n, m, [&](std::size_t, std::size_t) { return pick(r, k); }), B = make(m, p, [&](std::size_t, std::size_t) { return pick(r, k); });
    one(A, B);
  }
  for (int k = 0; k < 3 * reps_; ++k)
  {
    // every partial sum is exact in the element type, in any order, but not in a narrower one
    int b = (DIGITS - 2 - floor_log2(m)) / 2 - (n == 2 && m == 2 ? 2 : 0);
    one(widem(r, n, m, b), widem(r, m, p, b));
  }
  if (std::is_floating_point<T>::value && strcmp(name, "strassen(A,B)"))
    for (int k = 0; k < 4 * reps_; ++k)
    {
      // not-a-number and infinite entries take part in the sums they belong to, whatever the other factor
      Mat A = smallm(r, n, m, -2, 2), B = smallm(r, m, p, -2, 2);
      auto put = [&](Mat& M) { M.v[r.below(M.v.size())] = k % 2 ? T(std::numeric_limits<double>::quiet_NaN()) : T((r.chance(50) ? 1 : -1) * std::numeric_limits<double>::infinity()); };
      put(r.chance(50) ? A : B);
      one(A, B);
    }
  // unit matrices: each single product on its own
  for (std::size_t k = 0; k < m && n * m * p < 400; ++k)
    for (std::size_t a = 0; a < n; ++a) for (std::size_t b = 0; b < p; ++b)
    {
      Mat A(n, m), B(m, p);
      for (auto& x : A.v) x = T(0);
      for (auto& x : B.v) x = T(0);
      A(a, k) = T(2);
      B(k, b) = T(3);
      one(A, B);
    }
  if (n == m && m == p)
  {
    Mat A = make(n, m, [&](std::size_t, std::size_t) { return pick(r, 1); });
    op("A*A (one object)", {A});
    expect(f(A, A), prod(A, A));
  }
}
template<std::size_t n, std::size_t m, std::size_t p> struct S3
{
  static Mat f(const Mat& a, const Mat& b) { return out(mlib::mult(in<n, m>(a), in<m, p>(b))); }
  static Mat g(const Mat& a, const Mat& b) { return out(in<n, m>(a) * in<m, p>(b)); }
  static void go() { drive("mult(A,B)", f, n, m, p); drive("A*B", g, n, m, p); }
};
template<std::size_t n, std::size_t p> struct In
{
  template<std::size_t... m> static void each(Dims<m...>) { int d[] = {0, (S3<n, m, p>::go(), 0)...}; (void)d; }
  static void go() { each(Dims<1, 2, 3, 4, 5>()); }
};
template<std::size_t a, std::size_t b> struct Ext
{
  static void go() { S3<a, b, a>::go(); S3<b, a, b>::go(); S3<a, a, b>::go(); S3<b, a, a>::go(); }
};
static Mat str2(const Mat& a, const Mat& b) { return out(mlib::strassen(in<2, 2>(a), in<2, 2>(b))); }
template<std::size_t a> struct Cu { static void go() { S3<a, a, a>::go(); S3<a, a, 1>::go(); S3<1, a, a>::go(); S3<1, a, 1>::go(); S3<2, a, 3>::go(); S3<a, 2, a>::go(); S3<a, 1, a>::go(); } };
void run()
{
  drive("strassen(A,B)", str2, 2, 2, 2);
  // every matrix with entries in {-1,0,1} for one operand
  Rng r(seed_);
  for (int x = 0; x < 6561; ++x)
  {
    int y = x;
    auto dig = [&]() { int d = y % 3 - 1; y /= 3; return T(std::is_unsigned<T>::value ? d + 1 : d); };
    Mat A = make(2, 2, [&](std::size_t, std::size_t) { return dig(); }), B = make(2, 2, [&](std::size_t, std::size_t) { return dig(); });
    op("strassen(A,B)", {A, B});
    expect(str2(A, B), prod(A, B));
  }
  shape_grid<In>(Dims<1, 2, 3, 4, 5>(), Dims<1, 2, 3, 4, 5>());
  sizes<Cu>(Dims<6, 7, 8, 9, 12, 16, 17, 33>());
  S3<1, 130, 1>::go(); S3<130, 1, 1>::go(); S3<1, 1, 130>::go(); S3<1, 258, 2>::go(); S3<258, 2, 1>::go(); S3<2, 1, 258>::go();
  shape_grid<Ext>(Extra(), Dims<1, 2, 3>());
  shape_sq<Ext>(Extra());
}
