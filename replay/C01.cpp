#include "common.hpp"
// elementwise arithmetic: every operation, both spellings, operands unchanged
using namespace mlib;
struct Ops { Mat (*f[20])(const Mat&, const Mat&, const T&); };
enum { SUM, PLUS, SUB, MINUS, SUMS, PLUSS, SPLUS, SUBS, MINUSS, MULTS, TIMESS, STIMES, DIVS, OVERS, INC, DEC, ABS, NOPS };
static const char* names[] = {"sum(A,B)", "A+B", "sub(A,B)", "A-B", "sum(A,s)", "A+s", "s+A", "sub(A,s)", "A-s", "mult(A,s)", "A*s", "s*A",
  "div(A,s)", "A/s", "A++", "A--", "abs(A)"};
template<class X> typename std::enable_if<!std::is_unsigned<X>::value, X>::type myabs(const X& x) { return X(std::abs(x)); }
template<class X> typename std::enable_if<std::is_unsigned<X>::value, X>::type myabs(const X& x) { return x; }
static T oracle(int k, const T& a, const T& b, const T& s)
{
  switch (k)
  {
    case SUM: case PLUS: return T(a + b);
    case SUB: case MINUS: return T(a - b);
    case SUMS: case PLUSS: return T(a + s);
    case SPLUS: return T(s + a);
    case SUBS: case MINUSS: return T(a - s);
    case MULTS: case TIMESS: return T(a * s);
    case STIMES: return T(s * a);
    case DIVS: case OVERS: return T(a / s);
    case INC: return T(a + T(1));
    case DEC: return T(a - T(1));
    default: return myabs(a);
  }
}
static T pick(Rng& r, int mode)
{
  if (mode == 1 && std::is_floating_point<T>::value && r.chance(30)) return special<T>(r);
  if (mode == 2) return small<T>(r, -1, 1);
  return Any<T>::get(r);
}
static void drive(const Ops& o, std::size_t R, std::size_t C)
{
  Rng r(seed_ * 1000003 + R * 1009 + C);
  for (int k = 0; k < 12 * reps_; ++k)
  {
    Mat A = make(R, C, [&](std::size_t, std::size_t) { return pick(r, k % 3); }), B = make(R, C, [&](std::size_t, std::size_t) { return pick(r, k % 3); });
    T s = pick(r, k % 3);
    if (k % 5 == 4) B = A;
    const Mat A0 = A, B0 = B;
    for (int q = 0; q < NOPS; ++q)
    {
      if (!o.f[q]) continue;
      if (q <= MINUS) op(names[q], {A, B}); else if (q >= INC) op(names[q], {A}); else op(names[q], {A, s});
      if ((q == DIVS || q == OVERS) && s == T(0))
      {
        bool thrown = false;
        try { o.f[q](A, B, s); } catch (const std::overflow_error&) { thrown = true; } catch (...) {}
        CHECK(thrown, "division by zero returned, or threw something else than std::overflow_error");
        continue;
      }
      Mat res = o.f[q](A, B, s);
      expect(res, make(R, C, [&](std::size_t a, std::size_t b) { return oracle(q, A0(a, b), B0(a, b), s); }));
      unchanged(A, A0, "A");
      unchanged(B, B0, "B");
    }
    if (k % 3 == 0)
    {
      // numbers that use nearly all the digits of the element type; products and quotients with a small factor
      Mat W = widem(r, R, C, DIGITS - 5), V = widem(r, R, C, DIGITS - 5);
      T big = wide(r, DIGITS - 5), fac = small<T>(r, 1, 7);
      for (int q = 0; q < NOPS; ++q)
      {
        if (!o.f[q]) continue;
        const T& t = q >= MULTS && q <= OVERS ? fac : big;
        if (q <= MINUS) op(names[q], {W, V}); else if (q >= INC) op(names[q], {W}); else op(names[q], {W, t});
        expect(o.f[q](W, V, t), make(R, C, [&](std::size_t a, std::size_t b) { return oracle(q, W(a, b), V(a, b), t); }));
      }
    }
    // the same object as both operands
    op("A+A (one object)", {A});
    expect(o.f[PLUS](A, A, s), make(R, C, [&](std::size_t a, std::size_t b) { return T(A0(a, b) + A0(a, b)); }));
    op("A-A (one object)", {A});
    expect(o.f[MINUS](A, A, s), make(R, C, [&](std::size_t a, std::size_t b) { return T(A0(a, b) - A0(a, b)); }));
  }
}
template<std::size_t R, std::size_t C> struct Sh
{
#define FN(nm, ex) static Mat nm(const Mat& a, const Mat& b, const T& s) { auto& A = in<R, C>(a); auto& B = in<R, C>(b); (void)A; (void)B; (void)s; return out(ex); }
  FN(f0, mlib::sum(A, B)) FN(f1, A + B) FN(f2, mlib::sub(A, B)) FN(f3, A - B)
  FN(f4, mlib::sum(A, s)) FN(f5, A + s) FN(f6, s + A) FN(f7, mlib::sub(A, s)) FN(f8, A - s)
  FN(f9, mlib::mult(A, s)) FN(f10, A * s) FN(f11, s * A) FN(f12, mlib::div(A, s)) FN(f13, A / s)
  FN(f14, A++) FN(f15, A--)
  template<class X> static typename std::enable_if<!std::is_unsigned<X>::value, Mat>::type fa(const Mat& a, const Mat&, const X&) { return out(mlib::abs(in<R, C>(a))); }
  template<class X> static typename std::enable_if<std::is_unsigned<X>::value, Mat>::type fa(const Mat& a, const Mat&, const X&) { return a; }
  static void go()
  {
    Ops o{{f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, fa<T>}};
    drive(o, R, C);
  }
};
void run() { all_shapes<Sh>(); }
