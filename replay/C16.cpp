#include "common.hpp"
#include "numeric.hpp"
typedef std::size_t z;
typedef bool (*FC)(const Mat&, const Mat&, float);
typedef bool (*FP)(const Mat&);
// the relation itself, in wide arithmetic
template<class X> typename std::enable_if<std::is_arithmetic<X>::value, bool>::type near1(X a, X b, float e)
{
  if (a != a || b != b) return false;
  if (a == b) return true;
  if (std::is_floating_point<X>::value) { X d = a - b; if (d < 0) d = -d; return d <= e; }
  return std::abs((long double)a - (long double)b) <= (long double)e;
}
template<class X> typename std::enable_if<!std::is_arithmetic<X>::value, bool>::type near1(X a, X b, float) { return a == b; }
static bool near(const Mat& A, const Mat& B, float e) { for (z k = 0; k < A.v.size(); ++k) if (!near1(A.v[k], B.v[k], e)) return false; return true; }
static void one(FC f, const Mat& A, const Mat& B, float e)
{
  Mat A1 = A, B1 = B;
  cur_op = "compare";
  std::string nm = "compare(A,B,epsilon=" + str(e) + ")";
  op(nm.c_str(), {A, B});
  bool w = near(A, B, e), g = f(A1, B1, e);
  CHECK(g == w, std::string("the result is ") + (g ? "true" : "false") + ", expected " + (w ? "true" : "false"));
  unchanged(A1, A, "A");
  unchanged(B1, B, "B");
}
static void drive(FC f, z R, z C)
{
  Rng r(seed_ * 1009 + R * 131 + C);
  const float es[] = {0.f, 0.5f, 1.f, 2.f, 0.25f, 1e-3f, 1e-6f, 100.f};
  z n = R * C;
  for (int k = 0; k < 6 * reps_; ++k)
  {
    Mat A = k % 2 ? anym(r, R, C) : smallm(r, R, C, -9, 9);
    Mat B = A;
    for (float e : es)
    {
      one(f, A, B, e);
      std::vector<z> at;
      if (n <= 36) for (z q = 0; q < n; ++q) at.push_back(q); else { for (int q = 0; q < 12; ++q) at.push_back(r.below(n)); at.push_back(0); at.push_back(n - 1); at.push_back(C - 1); at.push_back(n - C); }
      for (z q : at)
      {
        const double ds[] = {0.25, -0.25, 0.5, -0.5, 1, -1, 2, -2, 3, -3, 1e-5, -1e-5, 101, -101};
        for (double d : {ds[r.below(14)], (double)e, -(double)e, 2.0 * e, ds[6 + r.below(4)]})
        {
          Mat D = B;
          D.v[q] = D.v[q] + T(d);
          one(f, A, D, e);
          one(f, D, A, e);
        }
        if (std::is_floating_point<T>::value && k < 2)
        {
          Mat D = B, E = B;
          D.v[q] = special<T>(r);
          one(f, A, D, e); one(f, D, A, e);
          E.v[q] = special<T>(r);
          one(f, D, E, e); one(f, D, D, e);
        }
      }
    }
    one(f, A, anym(r, R, C), 1.f);
    // differences of both signs that cancel
    if (n >= 2) { Mat D = A; D.v[0] = D.v[0] + T(3); D.v[n - 1] = D.v[n - 1] - T(3); one(f, A, D, 1.f); one(f, A, D, 3.f); one(f, A, D, 4.f); }
  }
}
static void pred(FP id, FP sy, z n)
{
  Rng r(seed_ * 1009 + n);
  auto ask = [&](const Mat& A)
  {
    Mat A1 = A;
    bool wi = true, ws = true;
    for (z a = 0; a < n; ++a) for (z b = 0; b < n; ++b) { wi = wi && A(a, b) == (a == b ? T(1) : T(0)); if (a != b) ws = ws && A(a, b) == A(b, a); }
    op("isIdentity(A)", {A});
    CHECK(id(A1) == wi, std::string("expected ") + (wi ? "true" : "false"));
    op("isSymetric(A)", {A});
    CHECK(sy(A1) == ws, std::string("expected ") + (ws ? "true" : "false"));
    unchanged(A1, A, "A");
  };
  Mat I = ident(n);
  ask(I);
  for (int k = 0; k < 4 * reps_; ++k)
  {
    Mat S = square(r, n, 13), G = square(r, n, k);
    ask(S); ask(G);
    std::vector<std::pair<z, z>> at;
    if (n <= 12) { for (z a = 0; a < n; ++a) for (z b = 0; b < n; ++b) at.push_back({a, b}); }
    else { for (int q = 0; q < 40; ++q) at.push_back({r.below(n), r.below(n)}); at.push_back({n - 1, n - 1}); at.push_back({n - 1, 0}); at.push_back({0, n - 1}); at.push_back({n - 1, n - 2}); at.push_back({n - 2, n - 1}); }
    for (auto& p : at)
    {
      Mat D = I; D(p.first, p.second) = D(p.first, p.second) + T(1); ask(D);
      D(p.first, p.second) = T(0); ask(D);
      D = I; D(p.first, p.second) = T(0) - T(1); ask(D);
      if (std::is_floating_point<T>::value) { D = I; D(p.first, p.second) = D(p.first, p.second) + T(1e-6); ask(D); D = S; D(p.first, p.second) += T(1e-5); ask(D); if (p.first != p.second) { D = S; D(p.first, p.second) = special<T>(r); ask(D); } }
      D = S; D(p.first, p.second) = D(p.first, p.second) + T(1); ask(D);
    }
    Mat Z(n, n);
    for (auto& x : Z.v) x = T(0);
    ask(Z);
    for (auto& x : Z.v) x = T(1);
    ask(Z);
  }
}
template<z R, z C> struct Sh
{
  static bool f(const Mat& a, const Mat& b, float e) { return mlib::compare(in<R, C>(a), in<R, C>(b), e); }
  static void go() { drive(f, R, C); }
};
template<z N> struct D
{
  static bool i(const Mat& a) { return mlib::isIdentity(in<N, N>(a)); }
  static bool s(const Mat& a) { return mlib::isSymetric(in<N, N>(a)); }
  static void go() { pred(i, s, N); }
};
template<class X> typename std::enable_if<std::is_arithmetic<X>::value && std::is_signed<X>::value>::type cmp() { all_shapes<Sh>(); }
template<class X> typename std::enable_if<!(std::is_arithmetic<X>::value && std::is_signed<X>::value)>::type cmp() {}
void run()
{
  sizes<D>(Dims<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 33, 130>());
  sizes<D>(Extra());
  cmp<T>();
}
