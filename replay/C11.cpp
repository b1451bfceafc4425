#include "common.hpp"
#include "numeric.hpp"
#include <ctime>
// powers: signed and unsigned exponent types over their whole range
static Mat pw(Mat b, unsigned long long e)
{
  Mat r = ident(b.r);
  // left-to-right, bit by bit
  for (int k = 63; k >= 0; --k) { r = prod(r, r); if ((e >> k) & 1) r = prod(r, b); }
  return r;
}
static Mat inverse(const Mat& A)         // adjugate over an exact field
{
  typedef std::size_t z;
  z n = A.r;
  T d = det_field(vec(A));
  return make(n, n, [&](z a, z b)
  {
    V2<T> q;
    for (z x = 0; x < n; ++x) if (x != b) { std::vector<T> w; for (z y = 0; y < n; ++y) if (y != a) w.push_back(A(x, y)); q.push_back(w); }
    T c = det_field(q);
    return ((a + b) % 2 ? T(0) - c : c) / d;
  });
}
template<class P> using F = Mat (*)(const Mat&, P);
template<class P> void one(F<P> f, const Mat& A, P p, const char* nm)
{
  Mat A1 = A, R;
  bool neg = p < 0;
  unsigned long long mag = neg ? (unsigned long long)(-(__int128)p) : (unsigned long long)p;
  T d = EXACT ? det_field(vec(A)) : T(1);
  if (!EXACT && (neg || mag > 6)) return;
  bool ovf = false;
  op(nm, {A, num("p", (long long)p)});
  try { R = f(A1, p); }
  catch (const std::overflow_error&) { ovf = true; }
  unchanged(A1, A, "A");
  if (neg && d == T(0)) { CHECK(ovf, "negative power of a singular matrix returned " + str(R)); return; }
  CHECK(!ovf, "threw std::overflow_error");
  expect(R, pw(neg ? inverse(A) : A, mag), "power");
}
template<class P> void drive(F<P> f, std::size_t n, const char* nm)
{
  typedef std::numeric_limits<P> L;
  Rng r(seed_ * 1009 + n);
  std::vector<P> ps;
  for (int p = -20; p <= 40; ++p) if (p >= 0 || L::is_signed) ps.push_back(P(p));
  for (int k = 3; k < L::digits; ++k) for (int d = -1; d <= 1; ++d) { P x = P(((unsigned long long)1 << k) + d); ps.push_back(x); if (L::is_signed) ps.push_back(P(-x)); }
  ps.push_back(L::max()); ps.push_back(P(L::max() - 1)); ps.push_back(L::min()); ps.push_back(P(L::min() + 1));
  for (long long x : xints) { ps.push_back(P(x)); if (L::is_signed) ps.push_back(P(-x)); }
  for (int k = 0; k < 6; ++k) ps.push_back(P(r.next()));
  std::sort(ps.begin(), ps.end());
  ps.erase(std::unique(ps.begin(), ps.end()), ps.end());
  if (EXACT && L::digits > 21)
  {
    // an implementation that multiplies p times is as right as any other: leave the exponents out that it cannot reach
    const int big = n <= 2 ? 1 << 20 : 1 << 17;
    Mat A = square(r, n, 0);
    clock_t best = -1;
    for (int k = 0; k < 4; ++k)
    {
      op(nm, {A, num("p", big)});
      clock_t c0 = clock();
      f(A, P(big));
      clock_t c = clock() - c0;
      if (best < 0 || c < best) best = c;
    }
    if (best > (clock_t)(10 * n * n * n + 200))
      ps.erase(std::remove_if(ps.begin(), ps.end(), [](P p) { return p > P(1 << 14) || (L::is_signed && p < 0 && p < P(-(1 << 14))); }), ps.end());
  }
  static const int ks[] = {0, 1, 3, 4, 5, 6, 10};
  for (int q = 0; q < 7 * reps_; ++q)
  {
    Mat A = square(r, n, ks[q % 7]);
    for (P p : ps) { if (n > 3 && q > 1 && r.chance(70)) continue; one<P>(f, A, p, nm); }
  }
}
template<std::size_t N, class P> struct X1 { static Mat f(const Mat& a, P p) { return out(mlib::pow(in<N, N>(a), p)); } };
template<std::size_t N> struct D
{
  static void go()
  {
    drive<int>(X1<N, int>::f, N, "pow(A, int p)");
    drive<unsigned>(X1<N, unsigned>::f, N, "pow(A, unsigned p)");
    drive<long long>(X1<N, long long>::f, N, "pow(A, long long p)");
    drive<unsigned long long>(X1<N, unsigned long long>::f, N, "pow(A, unsigned long long p)");
    drive<short>(X1<N, short>::f, N, "pow(A, short p)");
    drive<signed char>(X1<N, signed char>::f, N, "pow(A, signed char p)");
    drive<std::size_t>(X1<N, std::size_t>::f, N, "pow(A, size_t p)");
  }
};
template<std::size_t N, bool = (N <= 20)> struct DC { static void go() { drive<int>(X1<N, int>::f, N, "pow(A, int p)"); } };
template<std::size_t N> struct DC<N, false> { static void go() {} };
template<std::size_t N> struct DD { static void go() { DC<N>::go(); } };
void run()
{
  sizes<D>(Dims<1, 2, 3, 4, 5>());
  sizes<DD>(Dims<6, 8>());
  sizes<DD>(Extra());
}
