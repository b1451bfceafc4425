#include "common.hpp"
typedef Mat (*F)(const Mat&, std::size_t, std::size_t);
static void drive(F f, std::size_t n)
{
  typedef std::size_t z;
  Rng r(seed_ * 1009 + n);
  for (int k = 0; k < 2 * reps_; ++k)
  {
    Mat A = k % 2 ? anym(r, n, n) : make(n, n, [&](z a, z b) { return T(int((a * n + b) % 127)); });
    const Mat A0 = A;
    for (z i = 0; i < n; ++i) for (z j = 0; j < n; ++j)
    {
      if (n > 140 && !((i == 0 || i + 1 == n || i == 130) && (j == 0 || j + 1 == n || j == 140))) continue;
      if (n > 20 && i != j && i + 1 != n && j + 1 != n && i && j && !r.chance(3)) continue;
      op("getminor(A,i,j)", {A0, num("i", i), num("j", j)});
      expect(f(A, i, j), make(n - 1, n - 1, [&](z a, z b) { return A0(a < i ? a : a + 1, b < j ? b : b + 1); }));
    }
    unchanged(A, A0, "A");
  }
}
template<std::size_t N> struct G
{
  static Mat f(const Mat& a, std::size_t i, std::size_t j) { return out(mlib::getminor(in<N, N>(a), i, j)); }
  static void go() { drive(f, N); }
};
void run()
{
  sizes<G>(Dims<2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 32, 33, 64, 65, 130, 258>());
  sizes<G>(Extra());
}
