#include "common.hpp"
using namespace mlib;
typedef Mat (*F1)(const T&);
static void eq(const char* nm, const Mat& m, std::size_t r, std::size_t c, const T& v, bool diag)
{
  op(nm, {v, num("rows", r), num("cols", c)});
  expect(m, make(r, c, [&](std::size_t a, std::size_t b) { return !diag || a == b ? v : T(0); }));
}
static void drive(F1 f, F1 z, F1 o, std::size_t R, std::size_t C)
{
  Rng r(seed_ * 1009 + R * 131 + C);
  for (int k = 0; k < 10 * reps_; ++k)
  {
    T v = k == 0 ? T(0) : k == 1 ? T(1) : k % 4 == 3 && std::is_floating_point<T>::value ? special<T>(r) : Any<T>::get(r);
    op("fill<T,i,j>(v)", {v, num("rows", R), num("cols", C)});
    eq("fill<T,i,j>(v)", f(v), R, C, v, false);
    op("zeros<T,i,j>()", {num("rows", R), num("cols", C)});
    eq("zeros<T,i,j>()", z(v), R, C, T(0), false);
    op("ones<T,i,j>()", {num("rows", R), num("cols", C)});
    eq("ones<T,i,j>()", o(v), R, C, T(1), false);
  }
}
static void unsig(const unsigned* p, std::size_t r, std::size_t c, std::size_t R, std::size_t C, const char* nm)
{
  op(nm, {num("rows", R), num("cols", C)});
  CHECK(r == R && c == C, "the result is " + std::to_string(r) + "x" + std::to_string(c));
  for (std::size_t k = 0; k < r * c; ++k) CHECK(p[k] == 1u, "entry " + std::to_string(k) + " is " + std::to_string(p[k]) + ", expected 1");
}
template<std::size_t R, std::size_t C> void ou(const std::array<std::array<unsigned, C>, R>& m, std::size_t r, std::size_t c, const char* nm) { unsig(&m[0][0], R, C, r, c, nm); }
template<std::size_t R, std::size_t C> struct Sh
{
  static Mat f(const T& v) { return out(mlib::fill<T, R, C>(v)); }
  static Mat z(const T&) { return out(mlib::zeros<T, R, C>()); }
  static Mat o(const T&) { return out(mlib::ones<T, R, C>()); }
  static void go()
  {
    drive(f, z, o, R, C);
    ou(mlib::ones<R, C>(), R, C, "ones<i,j>()");
  }
};
static void drive_eye(F1 f, F1 g, Mat (*o1)(), std::size_t N)
{
  Rng r(seed_ * 1009 + N);
  for (int k = 0; k < 10 * reps_; ++k)
  {
    T v = k == 0 ? T(0) : k == 1 ? T(1) : Any<T>::get(r);
    op("eye<T,n>(v)", {v, num("n", N)});
    eq("eye<T,n>(v)", f(v), N, N, v, true);
  }
  op("eye<T,n>()", {num("n", N)});
  eq("eye<T,n>()", g(T(0)), N, N, T(1), true);
  op("ones<T,n>()", {num("n", N)});
  eq("ones<T,n>()", o1(), N, N, T(1), false);
}
template<std::size_t N> struct Ey
{
  static Mat f(const T& v) { return out(mlib::eye<T, N>(v)); }
  static Mat g(const T&) { return out(mlib::eye<T, N>()); }
  static Mat o1() { return out(mlib::ones<T, N>()); }
  static void go() { drive_eye(f, g, o1, N); ou(mlib::ones<N>(), N, N, "ones<n>()"); }
};
void run()
{
  all_shapes<Sh>();
  sizes<Ey>(Dims<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 32, 33, 64, 65, 130, 258>());
  sizes<Ey>(Extra());
}
