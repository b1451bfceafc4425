#include "common.hpp"
typedef std::size_t z;
typedef Mat (*F)(const Mat&, const Mat&);
static Mat full(const Mat& A, const Mat& K)
{
  return make(A.r + 2, A.c + 2, [&](z x, z y)
  {
    T s = T(0);
    for (z a = 0; a < 3; ++a) for (z b = 0; b < 3; ++b)
      if (x >= a && y >= b && x - a < A.r && y - b < A.c) s += K(a, b) * A(x - a, y - b);
    return s;
  });
}
static Mat part(const Mat& m, z o, z r, z c) { return make(r, c, [&](z a, z b) { return m(a + o, b + o); }); }
static void one(F f, F s, F v, const Mat& A, const Mat& K)
{
  Mat A1 = A, K1 = K, W = full(A, K);
  op("conv2_full(A,K)", {A, K});
  expect(f(A1, K1), W);
  op("conv2(A,K)", {A, K});
  expect(s(A1, K1), part(W, 1, A.r, A.c));
  if (v)
  {
    op("conv2_valid(A,K)", {A, K});
    expect(v(A1, K1), part(W, 2, A.r - 2, A.c - 2));
  }
  unchanged(A1, A, "A");
  unchanged(K1, K, "K");
}
static void drive(F f, F s, F v, z R, z C)
{
  Rng r(seed_ * 1009 + R * 131 + C);
  for (int k = 0; k < 6 * reps_; ++k)
  {
    bool sm = std::is_floating_point<T>::value || k % 2;
    one(f, s, v, sm ? smallm(r, R, C, -9, 9) : anym(r, R, C), sm ? smallm(r, 3, 3, -5, 5) : anym(r, 3, 3));
  }
  for (int k = 0; k < 2 * reps_; ++k) one(f, s, v, widem(r, R, C, (DIGITS - 5) / 2), widem(r, 3, 3, (DIGITS - 5) / 2));
  if (R * C <= 200)
  {
    // one kernel entry at a time; one matrix entry at a time
    Mat A = make(R, C, [&](z a, z b) { return T(int(a * C + b + 1)); });
    for (z q = 0; q < 9; ++q) { Mat K(3, 3); for (auto& x : K.v) x = T(0); K.v[q] = T(1); if (R * C < 120 || !std::is_same<T, signed char>::value) one(f, s, v, A, K); }
  }
  // kernels with special structure: separable, symmetric, zero sum, all equal
  for (int w = 0; w < 4; ++w)
  {
    Mat A = smallm(r, R, C, -4, 4), K(3, 3);
    T u[3], x[3];
    for (int a = 0; a < 3; ++a) { u[a] = small<T>(r, -2, 2); x[a] = small<T>(r, -2, 2); }
    for (z a = 0; a < 3; ++a) for (z b = 0; b < 3; ++b)
      K(a, b) = w == 0 ? u[a] * x[b] : w == 1 ? u[a > b ? a - b : b - a] : w == 2 ? T(int(a) - 1 < 0 && std::is_unsigned<T>::value ? 0 : int(a) - 1) : T(1);
    one(f, s, v, A, K);
  }
}
template<z R, z C, bool = (R >= 3 && C >= 3)> struct V { static F get() { return f; } static Mat f(const Mat& a, const Mat& k) { return out(mlib::conv2_valid(in<R, C>(a), in<3, 3>(k))); } };
template<z R, z C> struct V<R, C, false> { static F get() { return nullptr; } };
template<z R, z C> struct Sh
{
  static Mat f(const Mat& a, const Mat& k) { return out(mlib::conv2_full(in<R, C>(a), in<3, 3>(k))); }
  static Mat s(const Mat& a, const Mat& k) { return out(mlib::conv2(in<R, C>(a), in<3, 3>(k))); }
  static void go() { drive(f, s, V<R, C>::get(), R, C); }
};
void run() { all_shapes<Sh>(); }
