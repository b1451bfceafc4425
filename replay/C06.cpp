#include "common.hpp"
typedef std::size_t z;
static Mat vcat(const Mat& A, const Mat& B) { return make(A.r + B.r, A.c, [&](z a, z b) { return a < A.r ? A(a, b) : B(a - A.r, b); }); }
static Mat hcat(const Mat& A, const Mat& B) { return make(A.r, A.c + B.c, [&](z a, z b) { return b < A.c ? A(a, b) : B(a, b - A.c); }); }
static Mat gen(Rng& r, z R, z C, int base)
{
  if (base) { int n = base; return make(R, C, [&](z, z) { return T(n++ % 120); }); }
  return anym(r, R, C);
}
typedef std::pair<Mat, Mat> (*Fp)(const Mat&, const Mat&);
typedef Mat (*F)(const Mat&, const Mat&);
static void drive(F f, z r1, z c1, z r2, z c2, bool v, const char* nm)
{
  Rng r(seed_ * 1009 + r1 * 131 + c1 * 7 + r2 * 3 + c2);
  for (int k = 0; k < 3 * reps_; ++k)
  {
    Mat A = gen(r, r1, c1, k ? 0 : 1), B = gen(r, r2, c2, k ? 0 : 60);
    const Mat A0 = A, B0 = B;
    op(nm, {A0, B0});
    expect(f(A, B), v ? vcat(A0, B0) : hcat(A0, B0));
    unchanged(A, A0, "A");
    unchanged(B, B0, "B");
  }
}
static void drivep(Fp f, z n)
{
  Rng r(seed_ * 1009 + n);
  for (int k = 0; k < 3 * reps_; ++k)
  {
    Mat A = gen(r, n, n, k ? 0 : 1), B = gen(r, n, n, k ? 0 : 60);
    const Mat A0 = A, B0 = B;
    op("concatenate(A,B) (square, pair)", {A0, B0});
    auto p = f(A, B);
    expect(p.first, vcat(A0, B0), "first");
    expect(p.second, hcat(A0, B0), "second");
    unchanged(A, A0, "A");
    unchanged(B, B0, "B");
  }
}
template<z N> struct P
{
  static std::pair<Mat, Mat> f(const Mat& a, const Mat& b) { auto p = mlib::concatenate(in<N, N>(a), in<N, N>(b)); return {out(p.first), out(p.second)}; }
  static Mat v(const Mat& a, const Mat& b) { return out(mlib::concatenateV(in<N, N>(a), in<N, N>(b))); }
  static Mat h(const Mat& a, const Mat& b) { return out(mlib::concatenateH(in<N, N>(a), in<N, N>(b))); }
  static void go() { drivep(f, N); drive(v, N, N, N, N, true, "concatenateV(A,B)"); drive(h, N, N, N, N, false, "concatenateH(A,B)"); }
};
template<z A, z B, z C> struct VH
{
  static Mat v(const Mat& a, const Mat& b) { return out(mlib::concatenate(in<A, C>(a), in<B, C>(b))); }
  static Mat h(const Mat& a, const Mat& b) { return out(mlib::concatenate(in<C, A>(a), in<C, B>(b))); }
  static void go() { drive(v, A, C, B, C, true, "concatenate(A,B) (vertical)"); drive(h, C, A, C, B, false, "concatenate(A,B) (horizontal)"); }
};
template<z A, z C> struct VH1
{
  static void go() { VH<A, A + 1, C>::go(); VH<A + 2, A, C>::go(); VH<A, A + 3, C>::go(); VH<A + 5, A, C>::go(); VH<1, A + 1, C>::go(); VH<A + 1, 1, C>::go(); }
};
void run()
{
  sizes<P>(Dims<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 33>());
  sizes<P>(Extra());
  shape_grid<VH1>(Dims<1, 2, 3, 4, 7>(), Dims<1, 2, 3, 4, 5, 6, 9>());
  shape_grid<VH1>(Dims<15, 32>(), Dims<1, 2, 17, 33>());
  VH<130, 1, 1>::go(); VH<1, 130, 2>::go(); VH<258, 2, 1>::go(); VH<3, 258, 1>::go(); VH<1, 2, 130>::go(); VH<2, 1, 258>::go(); P<130>::go();
  shape_grid<VH1>(Extra(), Dims<1, 2>());
  shape_grid<VH1>(Dims<1, 2>(), Extra());
  shape_sq<VH1>(Extra());
}
