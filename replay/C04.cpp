#include "common.hpp"
using namespace mlib;
typedef Mat (*Ft)(const Mat&);
typedef void (*Fs)(Mat&, std::size_t, std::size_t);
static Mat tagged(Rng& r, std::size_t R, std::size_t C, int k)
{
  if (k == 0) { long n = 0; return make(R, C, [&](std::size_t, std::size_t) { return T(int(n++ % 100)); }); }
  if (k == 2) return smallm(r, R, C, -1, 1);
  return anym(r, R, C);
}
static void drive(Ft t, Fs sr, Fs sc, std::size_t R, std::size_t C)
{
  typedef std::size_t z;
  Rng r(seed_ * 1009 + R * 131 + C);
  for (int k = 0; k < 4 * reps_; ++k)
  {
    Mat A = tagged(r, R, C, k % 4);
    if (std::is_floating_point<T>::value && k % 4 == 3) for (auto& x : A.v) if (r.chance(20)) x = special<T>(r);
    const Mat A0 = A;
    op("trans(A)", {A});
    expect(t(A), transp(A0));
    unchanged(A, A0, "A");
    for (int w = 0; w < 2; ++w)
    {
      z n = w ? C : R;
      std::vector<std::pair<z, z>> ix;
      if (n <= 9) { for (z a = 0; a < n; ++a) for (z b = 0; b < n; ++b) ix.push_back({a, b}); }
      else
      {
        for (int q = 0; q < 30; ++q) ix.push_back({r.below(n), r.below(n)});
        ix.push_back({0, n - 1}); ix.push_back({n - 1, 0}); ix.push_back({n - 1, n - 1}); ix.push_back({n - 2, n - 1});
      }
      for (auto& p : ix)
      {
        Mat B = A0;
        op(w ? "swap_cols(A,p,q)" : "swap_rows(A,p,q)", {A0, num("p", p.first), num("q", p.second)});
        (w ? sc : sr)(B, p.first, p.second);
        auto sw = [&](z x) { return x == p.first ? p.second : x == p.second ? p.first : x; };
        expect(B, make(R, C, [&](z a, z b) { return w ? A0(a, sw(b)) : A0(sw(a), b); }), "A");
      }
    }
  }
}
template<std::size_t R, std::size_t C> struct Sh
{
  static Mat t(const Mat& a) { return out(mlib::trans(in<R, C>(a))); }
  static void sr(Mat& a, std::size_t p, std::size_t q) { mlib::swap_rows(inout<R, C>(a), p, q); }
  static void sc(Mat& a, std::size_t p, std::size_t q) { mlib::swap_cols(inout<R, C>(a), p, q); }
  static void go() { drive(t, sr, sc, R, C); }
};
void run() { all_shapes<Sh>(); }
