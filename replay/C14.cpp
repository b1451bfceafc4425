#include "common.hpp"
typedef std::size_t z;
typedef T (*F)(const Mat&);
static void one(F f, const Mat& A, Rng& r)
{
  std::vector<T> v = A.v;
  // insertion sort: independent of std::sort
  if (v.size() > 1000) std::stable_sort(v.begin(), v.end());
  else for (z a = 1; a < v.size(); ++a) for (z b = a; b > 0 && v[b] < v[b - 1]; --b) std::swap(v[b], v[b - 1]);
  z n = v.size();
  T w = n % 2 ? v[n / 2] : T((v[n / 2 - 1] + v[n / 2]) / 2);
  Mat A1 = A;
  op("median(A)", {A});
  T got = f(A1);
  CHECK(same(got, w), "the result is " + str(got) + ", the median is " + str(w));
  unchanged(A1, A, "A");
  for (z a = n; a > 1; --a) std::swap(A1.v[a - 1], A1.v[r.below(a)]);
  op("median(A)", {A1});
  got = f(A1);
  CHECK(same(got, w), "the result is " + str(got) + ", the median is " + str(w));
}
template<class X> typename std::enable_if<std::is_integral<X>::value, X>::type extreme(Rng& r)
{
  const X lo = std::numeric_limits<X>::min(), hi = std::numeric_limits<X>::max();
  switch (r.below(5)) { case 0: return lo; case 1: return hi; case 2: return X(lo + X(r.below(3))); case 3: return X(hi - X(r.below(3))); default: return X(r.next()); }
}
template<class X> typename std::enable_if<std::is_floating_point<X>::value, X>::type extreme(Rng& r)
{
  switch (r.below(5))
  {
    case 0: return -std::numeric_limits<X>::infinity(); case 1: return std::numeric_limits<X>::infinity();
    case 2: return std::numeric_limits<X>::max(); case 3: return -std::numeric_limits<X>::max(); default: return Any<X>::get(r);
  }
}
template<class X> typename std::enable_if<!std::is_arithmetic<X>::value, X>::type extreme(Rng& r) { return Any<X>::get(r); }
static void drive(F f, z R, z C)
{
  Rng r(seed_ * 1009 + R * 131 + C);
  for (int k = 0; k < 10 * reps_; ++k)
    one(f, k % 5 == 0 ? smallm(r, R, C, -60, 60) : k % 5 == 1 ? smallm(r, R, C, -1, 1) : k % 5 == 2 ? smallm(r, R, C, -60, -1) : k % 5 == 3 ? smallm(r, R, C, 0, 9) :
      std::is_floating_point<T>::value ? anym(r, R, C) : smallm(r, R, C, -3, 60), r);
  for (int k = 0; k < 3 * reps_; ++k) one(f, widem(r, R, C, DIGITS - 3), r);
  // nothing is added for an odd count: the whole range of the type, infinities included
  if (R * C % 2)
    for (int k = 0; k < 4 * reps_; ++k)
      one(f, make(R, C, [&](z, z) { return extreme<T>(r); }), r);
  if (R * C <= 8)
  {
    // every order of 0..n-1 (sampled above 5), every 0/1 pattern
    std::vector<int> p(R * C);
    for (z a = 0; a < p.size(); ++a) p[a] = (int)a * 2 + 1;
    int k = 0;
    do { if (k++ % (R * C <= 5 ? 1 : R * C <= 6 ? 7 : 101) == 0) { z q = 0; one(f, make(R, C, [&](z, z) { return T(p[q++]); }), r); } } while (std::next_permutation(p.begin(), p.end()));
    for (int b = 0; b < (1 << (R * C)); ++b) { z q = 0; one(f, make(R, C, [&](z, z) { return T((b >> q++) & 1 ? 4 : 2); }), r); }
  }
}
template<z R, z C> struct Sh
{
  static T f(const Mat& a) { return mlib::median(in<R, C>(a)); }
  static void go() { drive(f, R, C); }
};
void run() { all_shapes<Sh>(); }
