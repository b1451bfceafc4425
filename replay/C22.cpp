#include "common.hpp"
typedef std::size_t z;
using namespace mlib;
template<class X> static bool eq(const X& a, const X& b) { return a == b; }
#define LAW(name, l, r, ...) do { op(name, {__VA_ARGS__}); auto l_ = l; auto r_ = r; CHECK(l_ == r_, "the two sides differ"); } while (0)
#define M2(a, b) in<a, b>
template<z R, z C> struct Add
{
  static void go()
  {
    Rng r(seed_ * 1009 + R * 131 + C);
    for (int k = 0; k < 5 * reps_; ++k)
    {
      Mat a = anym(r, R, C), b = anym(r, R, C), c = anym(r, R, C);
      if (k == 4) { b = a; }
      auto& A = in<R, C>(a); auto& B = in<R, C>(b); auto& D = in<R, C>(c);
      auto Z = zeros<T, R, C>();
      LAW("A+B == B+A", A + B, B + A, a, b);
      LAW("(A+B)+C == A+(B+C)", (A + B) + D, A + (B + D), a, b, c);
      LAW("A+zeros == A", A + Z, A, a);
      LAW("zeros+A == A", Z + A, A, a);
      LAW("(A+B)-B == A", (A + B) - B, A, a, b);
      LAW("A-A == zeros", A - A, Z, a);
      LAW("(A-B)+B == A", (A - B) + B, A, a, b);
      LAW("trans(trans(A)) == A", trans(trans(A)), A, a);
      LAW("trans(A+B) == trans(A)+trans(B)", trans(A + B), trans(A) + trans(B), a, b);
      LAW("A*eye == A", A * (eye<T, C>()), A, a);
      LAW("eye*A == A", (eye<T, R>()) * A, A, a);
      Mat d = anym(r, C, 3), e = anym(r, C, 3), f = anym(r, 3, 2);
      auto& P = in<C, 3>(d); auto& Q2 = in<C, 3>(e); auto& S = in<3, 2>(f);
      LAW("A*(B+C) == A*B+A*C", A * (P + Q2), A * P + A * Q2, a, d, e);
      LAW("(A+B)*C == A*C+B*C", (A + B) * P, A * P + B * P, a, b, d);
      LAW("(A*B)*C == A*(B*C)", (A * P) * S, A * (P * S), a, d, f);
      LAW("trans(A*B) == trans(B)*trans(A)", trans(A * P), trans(P) * trans(A), a, d);
    }
  }
};
template<z N> struct Sqr
{
  static void go()
  {
    Rng r(seed_ * 1009 + N);
    for (int k = 0; k < (N <= 7 ? 2 : 1) * SQ_KINDS * reps_; ++k)
    {
      Mat a = square(r, N, k), b = square(r, N, (int)r.below(SQ_KINDS)), c = anym(r, N, N);
      auto& A = in<N, N>(a); auto& B = in<N, N>(b); auto& D = in<N, N>(c);
      LAW("(A*B)*C == A*(B*C)", (A * B) * D, A * (B * D), a, b, c);
      LAW("det(A*B) == det(A)*det(B)", det(A * B), T(det(A) * det(B)), a, b);
      LAW("det(trans(A)) == det(A)", det(trans(A)), det(A), a);
      LAW("det(eye) == 1", det(eye<T, N>()), T(1), a);
      if (N > 1)
      {
        z p = r.below(N), q = r.below(N);
        if (p == q) q = (q + 1) % N;
        Mat s = a;
        op("swap_rows(A,p,q)", {a, num("p", p), num("q", q)});
        swap_rows(inout<N, N>(s), p, q);
        op("det changes sign with swap_rows(A,p,q)", {a, num("p", p), num("q", q)});
        CHECK(det(in<N, N>(s)) == T(0) - det(A), "it does not");
        op("swap_rows twice is the identity", {a, num("p", p), num("q", q)});
        swap_rows(inout<N, N>(s), p, q);
        CHECK(same(s, a), "it is not");
      }
      if (N <= 8)
      {
        op("inv(inv(A)) == A", {a});
        bool thrown = false;
        try
        {
          auto I1 = inv(A);
          auto I2 = inv(I1);
          CHECK(I2 == A, "it is not");
          CHECK(I1 * A == (eye<T, N>()) && A * I1 == (eye<T, N>()), "inv(A) is not an inverse");
          CHECK(det(I1) * det(A) == T(1), "det(inv(A)) is not 1/det(A)");
        }
        catch (const std::overflow_error&) { thrown = true; }
        CHECK(thrown == (det_field(vec(a)) == T(0)), thrown ? "overflow_error for an invertible matrix" : "no overflow_error for a singular matrix");
      }
    }
  }
};
template<z N, bool = (N <= 40)> struct SC { static void go() { Sqr<N>::go(); } };
template<z N> struct SC<N, false> { static void go() {} };
template<z N> struct SD { static void go() { SC<N>::go(); } };
void run()
{
  shape_grid<Add>(Dims<1, 2, 3, 4, 5>(), Dims<1, 2, 3, 4, 5>());
  Add<1, 9>::go(); Add<9, 2>::go(); Add<17, 17>::go(); Add<8, 8>::go(); Add<6, 7>::go();
  sizes<Sqr>(Dims<1, 2, 3, 4, 5, 6, 7, 8, 9, 12>());
  sizes<SD>(Extra());
  shape_sq<Add>(Extra());
}
