#include "common.hpp"
#include "numeric.hpp"
typedef Mat (*F)(const Mat&);
template<class X> struct Pos { static X get(Rng& r) { return X(int(r.range(1, 6))); } };
template<> struct Pos<GF> { static GF get(Rng& r) { GF a = GF::raw(r.next() | 1); return a * a; } };      // squares are their own principal root's values
// diagonally dominant matrices of values that no narrower type holds: the square roots are irrational
static void rounded(F f, std::size_t n)
{
  typedef std::size_t z;
  if (EXACT || INTEGRAL) return;
  Rng r(seed_ * 2003 + n);
  for (int q = 0; q < 8 * reps_; ++q)
  {
    Mat A = make(n, n, [&](z, z) -> T { return q % 4 == 1 ? T(0) : small<T>(r, -97, 97) / T(101); });
    for (z a = 0; a < n; ++a) for (z b = 0; b < a; ++b) A(a, b) = A(b, a);
    for (z a = 0; a < n; ++a) A(a, a) = T(n) + small<T>(r, 1, 97) / T(101);
    const Mat A0 = A;
    op("chol(A)", {A0});
    Mat R = f(A);
    unchanged(A, A0, "A");
    for (z a = 0; a < n; ++a)
    {
      for (z b = a + 1; b < n; ++b) CHECK(R(a, b) == T(0), "the factor is not lower triangular: " + str(R));
      CHECK(!(R(a, a) < T(0)) && !(R(a, a) == T(0)), "the factor has a diagonal entry that is not positive: " + str(R));
    }
    expect_close(prod(R, transp(R)), A0, maxabs(A0), "L*trans(L)");
  }
}
static void drive(F f, std::size_t n)
{
  rounded(f, n);
  typedef std::size_t z;
  Rng r(seed_ * 1009 + n);
  for (int q = 0; q < 24 * reps_; ++q)
  {
    bool sparse = q % 3 == 1, diag = q % 8 == 7, frac = q % 4 == 2;
    Mat L = make(n, n, [&](z a, z b) -> T
    {
      if (b > a) return T(0);
      if (a == b) return q == 0 ? T(1) : frac ? Pos<T>::get(r) / T(4) : Pos<T>::get(r);
      if (diag || (sparse && r.chance(60))) return T(0);
      return is_gf<T>::value ? Any<T>::get(r) : frac ? small<T>(r, -7, 7) / T(2) : small<T>(r, -3, 3);
    });
    if (frac && is_gf<T>::value) for (z a = 0; a < n; ++a) L(a, a) = Pos<T>::get(r);
    const Mat A = prod(L, transp(L));
    Mat A1 = A;
    op("chol(A)", {A});
    Mat R = f(A1);
    unchanged(A1, A, "A");
    for (z a = 0; a < n; ++a)
    {
      for (z b = a + 1; b < n; ++b) CHECK(R(a, b) == T(0), "the factor is not lower triangular: " + str(R));
      CHECK(!(R(a, a) < T(0)) && !(R(a, a) == T(0)), "the factor has a diagonal entry that is not positive: " + str(R));
    }
    if (EXACT) { expect(prod(R, transp(R)), A, "L*trans(L)"); expect(R, L, "L"); }
    else { expect_close(prod(R, transp(R)), A, maxabs(A) * n, "L*trans(L)"); }
  }
}
template<std::size_t N> struct D
{
  static Mat f(const Mat& a) { return out(mlib::chol(in<N, N>(a))); }
  static void go() { drive(f, N); }
};
void run()
{
  sizes<D>(Dims<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 33>());
  sizes<D>(Extra());
}
