#include "common.hpp"
typedef std::size_t z;
typedef std::map<T, z> M;
typedef M (*F)(const Mat&);
static void eq(const M& got, const std::vector<std::pair<T, z>>& want)
{
  ++n_checks;
  if (got.size() != want.size()) fail("the map has " + std::to_string(got.size()) + " keys, expected " + std::to_string(want.size()));
  if (want.size() > 1000)
  {
    auto w = want;
    std::sort(w.begin(), w.end(), [](const std::pair<T, z>& a, const std::pair<T, z>& b) { return a.first < b.first; });
    z k = 0;
    for (auto& q : got) { if (!(q.first == w[k].first) || q.second != w[k].second) fail("key " + str(w[k].first) + " should map to " + std::to_string(w[k].second) + ", found " + str(q.first) + " with " + std::to_string(q.second)); ++k; }
    return;
  }
  for (auto& p : want)
  {
    bool found = false;
    for (auto& q : got) if (q.first == p.first) { found = true; if (q.second != p.second) fail("key " + str(p.first) + " maps to " + std::to_string(q.second) + ", expected " + std::to_string(p.second)); }
    if (!found) fail("key " + str(p.first) + " is missing");
  }
}
static void one(F h, F c, const Mat& A)
{
  Mat A1 = A;
  std::vector<std::pair<T, z>> w, x;
  if (A.v.size() > 1000)
  {
    std::vector<T> v = A.v;
    std::sort(v.begin(), v.end());
    for (z k = 0; k < v.size(); )
    {
      z l = k;
      while (l < v.size() && v[l] == v[k]) ++l;
      w.push_back({v[k], l - k});
      x.push_back({v[k], l});
      k = l;
    }
  }
  else for (auto& e : A.v)
  {
    bool f = false;
    for (auto& p : w) f = f || p.first == e;
    if (f) continue;
    z n = 0, le = 0;
    for (auto& g : A.v) { if (g == e) ++n; if (!(e < g)) ++le; }
    w.push_back({e, n});
    x.push_back({e, le});
  }
  op("histogram(A)", {A});
  eq(h(A1), w);
  op("cumulative_histogram(A)", {A});
  eq(c(A1), x);
  unchanged(A1, A, "A");
}
static void drive(F h, F c, z R, z C)
{
  Rng r(seed_ * 1009 + R * 131 + C);
  for (int k = 0; k < 8 * reps_; ++k)
    one(h, c, k % 4 == 0 ? smallm(r, R, C, -60, 60) : k % 4 == 1 ? smallm(r, R, C, -1, 1) : k % 4 == 2 ? smallm(r, R, C, 7, 7) : anym(r, R, C));
  if (R * C <= 9) for (int b = 0; b < (1 << (R * C)); b += R * C > 6 ? 3 : 1) { z q = 0; one(h, c, make(R, C, [&](z, z) { return T((b >> q++) & 1 ? 4 : 2); })); }
  int n = 0;
  one(h, c, make(R, C, [&](z, z) { return T(n++ % 127); }));
  one(h, c, make(R, C, [&](z, z) { return T(n-- % 127); }));
}
template<z R, z C> struct Sh
{
  static M h(const Mat& a) { return mlib::histogram(in<R, C>(a)); }
  static M c(const Mat& a) { return mlib::cumulative_histogram(in<R, C>(a)); }
  static void go() { drive(h, c, R, C); }
};
void run() { all_shapes<Sh>(); }
