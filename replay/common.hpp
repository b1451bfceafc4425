// Shared part of the replay harnesses: element types, input generation, oracles' helpers, reporting.
// A harness runs the real templates of /repo/matrix on concrete inputs and compares with an independent
// oracle; the first disagreement is printed as one line  FAIL <what> and the process exits with 3.
#pragma once
#include <array>
#include <algorithm>
#include <cfloat>
#include <climits>
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <vector>
#include <sys/time.h>
#include <unistd.h>

#include <math.h>
#include <stdlib.h>
#include <string.h>
#ifdef USE_Q
#include <boost/multiprecision/cpp_int.hpp>
#endif

// ------------------------------------------------------------------ the prime field GF(2^61-1)
struct GF
{
  std::uint64_t v;
  static constexpr std::uint64_t P = (1ull << 61) - 1;
  GF() : v(0) {}
  template<class N, class = typename std::enable_if<std::is_integral<N>::value>::type>
  GF(N x) { v = fromll(x); }
  GF(double x) : v(fromll(static_cast<long long>(x))) {}
  GF(long double x) : GF(static_cast<double>(x)) {}
  GF(float x) : GF(static_cast<double>(x)) {}
  template<class N>
  static std::uint64_t fromll(N x)
  {
    if (x >= 0) return static_cast<std::uint64_t>(x) % P;
    std::uint64_t m = (static_cast<std::uint64_t>(-(x + 1)) + 1) % P;
    return m ? P - m : 0;
  }
  static GF raw(std::uint64_t x) { GF r; r.v = x % P; return r; }
  static std::uint64_t mm(std::uint64_t a, std::uint64_t b)
  {
    unsigned __int128 t = (unsigned __int128)a * b;
    std::uint64_t lo = (std::uint64_t)(t & P), hi = (std::uint64_t)(t >> 61);
    lo += hi;
    if (lo >= P) lo -= P;
    return lo;
  }
  GF pw(std::uint64_t e) const
  {
    std::uint64_t r = 1, b = v;
    for (; e; e >>= 1, b = mm(b, b)) if (e & 1) r = mm(r, b);
    return raw(r);
  }
  static std::uint64_t dz;      // divisions by zero (in a field: undefined)
  GF inverse() const
  {
    if (v == 0) { ++dz; return GF(); }
    // extended Euclid
    std::int64_t a = v, b = P, x = 1, y = 0;
    while (b)
    {
      std::int64_t q = a / b, t = a % b;
      a = b; b = t;
      t = x - q * y; x = y; y = t;
    }
    x %= (std::int64_t)P;
    if (x < 0) x += P;
    return raw((std::uint64_t)x);
  }
  GF& operator+=(GF o) { v += o.v; if (v >= P) v -= P; return *this; }
  GF& operator-=(GF o) { v += P - o.v; if (v >= P) v -= P; return *this; }
  GF& operator*=(GF o) { v = mm(v, o.v); return *this; }
  GF& operator/=(GF o) { v = mm(v, o.inverse().v); return *this; }
  friend GF operator+(GF a, GF b) { return a += b; }
  friend GF operator-(GF a, GF b) { return a -= b; }
  friend GF operator*(GF a, GF b) { return a *= b; }
  friend GF operator/(GF a, GF b) { return a /= b; }
  GF operator-() const { GF z; z -= *this; return z; }
  GF operator+() const { return *this; }
  GF& operator++() { return *this += GF(1); }
  GF& operator--() { return *this -= GF(1); }
  GF operator++(int) { GF t = *this; ++*this; return t; }
  GF operator--(int) { GF t = *this; --*this; return t; }
  friend bool operator==(GF a, GF b) { return a.v == b.v; }
  friend bool operator!=(GF a, GF b) { return a.v != b.v; }
  friend bool operator<(GF a, GF b) { return a.v < b.v; }
  friend bool operator>(GF a, GF b) { return a.v > b.v; }
  friend bool operator<=(GF a, GF b) { return a.v <= b.v; }
  friend bool operator>=(GF a, GF b) { return a.v >= b.v; }
  friend std::ostream& operator<<(std::ostream& o, GF a)
  {
    if (a.v > P / 2) return o << "-" << (P - a.v);
    return o << a.v;
  }
};
std::uint64_t GF::dz = 0;
inline GF sqrt(GF a) { return a.pw((GF::P + 1) / 4); }
inline GF abs(GF a) { return a; }
inline GF fabs(GF a) { return a; }
namespace std
{
inline GF abs(GF a) { return a; }
inline GF fabs(GF a) { return a; }
inline GF sqrt(GF a) { return a.pw((GF::P + 1) / 4); }
}


#ifdef USE_Q
namespace bmp = boost::multiprecision;
typedef bmp::number<bmp::cpp_rational_backend, bmp::et_off> Q;
namespace boost { namespace multiprecision {
inline Q sqrt(const Q& a)
{
  if (a < 0) throw std::domain_error("square root of a negative number");
  cpp_int n = numerator(a), d = denominator(a);
  cpp_int rn = sqrt(n), rd = sqrt(d);
  if (rn * rn != n || rd * rd != d) throw std::domain_error("no rational square root");
  return Q(rn, rd);
}
}}
namespace std
{
inline Q abs(const Q& a) { return a < 0 ? Q(-a) : a; }
inline Q fabs(const Q& a) { return a < 0 ? Q(-a) : a; }
}
#endif

#include "matrix.hpp"

template<class T, std::size_t R, std::size_t C> using Mx = mlib::Matrix<T, R, C>;

#ifndef TT
#define TT double
#endif
#define STR1(x) #x
#define STR(x) STR1(x)
typedef std::complex<double> cplx;
typedef long long ll;
typedef unsigned long long ull;
typedef signed char schar;
typedef long long llong;
typedef long double ldouble;
typedef unsigned char uchar;
typedef unsigned short ushort_;

// ------------------------------------------------------------------ what is running, failures
// The test logic works on flat, shape-free views (TT is fixed per binary); only thin thunks that call the
// library are instantiated per shape.
typedef TT T;
struct Mat            // r x c matrix of T, row major
{
  std::size_t r, c;
  std::vector<T> v;
  Mat() : r(0), c(0) {}
  Mat(std::size_t r_, std::size_t c_) : r(r_), c(c_), v(r_ * c_) {}
  T& operator()(std::size_t a, std::size_t b) { return v[a * c + b]; }
  const T& operator()(std::size_t a, std::size_t b) const { return v[a * c + b]; }
};
struct Arg            // an operand, for the record
{
  const Mat* m; const T* t; long long n; int kind; const char* label;
  Arg(const Mat& x) : m(&x), kind(0) {}
  Arg(const T& x) : t(&x), kind(1) {}
  static Arg num(const char* l, long long k) { Arg a(k, l); return a; }
private:
  Arg(long long k, const char* l) : n(k), kind(2), label(l) {}
};
inline Arg num(const char* l, long long k) { return Arg::num(l, k); }

static std::string cur_op;
static std::vector<Arg> cur_args;
static unsigned long n_cases = 0, n_checks = 0;
#ifndef CASE_SECONDS_
#define CASE_SECONDS_ 20
#endif
static const int CASE_SECONDS = CASE_SECONDS_;
static int report_fd = 1;

template<class X> void put(std::ostream& o, const X& v) { o << v; }
inline void put(std::ostream& o, const signed char& v) { o << (int)v; }
inline void put(std::ostream& o, const unsigned char& v) { o << (int)v; }
inline void put(std::ostream& o, const long double& v) { char b[80]; snprintf(b, sizeof b, "%.21Lg", v); o << b; }
inline void put(std::ostream& o, const double& v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); o << b; }
inline void put(std::ostream& o, const float& v) { char b[64]; snprintf(b, sizeof b, "%.9g", (double)v); o << b; }
static void put(std::ostream& o, const Mat& m)
{
  o << "[" << m.r << "x" << m.c << ": ";
  for (std::size_t a = 0; a < m.r; ++a)
  {
    if (a) o << " | ";
    for (std::size_t b = 0; b < m.c; ++b) { if (b) o << " "; put(o, m(a, b)); }
  }
  o << "]";
}
template<class X> std::string str(const X& v) { std::ostringstream o; put(o, v); return o.str(); }

[[noreturn]] static void fail(const std::string& what)
{
  std::ostringstream o;
  o << "FAIL " << cur_op << " with element type " << STR(TT) << ": " << what;
  if (!cur_args.empty())
  {
    o << " -- input: ";
    bool first = true;
    for (auto& a : cur_args)
    {
      if (!first) o << ", ";
      first = false;
      if (a.kind == 0) put(o, *a.m);
      else if (a.kind == 1) put(o, *a.t);
      else o << a.label << "=" << a.n;
    }
  }
  std::string s = o.str();
  for (char& c : s) if (c == '\n') c = ';';
  s = s.substr(0, 8000) + "\n";
  ssize_t r = write(report_fd, s.data(), s.size());
  (void)r;
  _exit(3);
}
static void on_signal(int s)
{
  static volatile sig_atomic_t in = 0;
  if (in) _exit(3);
  in = 1;
  if (s == SIGVTALRM) fail("the call does not finish (" + std::to_string(CASE_SECONDS) + " s of processor time used)");
  fail(std::string("the call ends in signal ") + strsignal(s));
}
static void on_terminate()
{
  std::string w = "the call ends the process (std::terminate)";
  if (std::current_exception())
  {
    try { throw; } catch (const std::exception& e) { w = std::string("the call throws ") + typeid(e).name() + ": " + e.what(); }
    catch (...) { w = "the call throws something that is not a std::exception"; }
  }
  fail(w);
}
static void arm()
{
  itimerval t{};
  t.it_value.tv_sec = CASE_SECONDS;
  setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
// record what is about to run; the operands must outlive the call
static void op(const char* name, std::initializer_list<Arg> a)
{
  cur_op = name;
  cur_args.assign(a.begin(), a.end());
  ++n_cases;
  if ((n_cases & 7) == 0 || n_cases < 64) arm();
}
static void setup_handlers()
{
  static char alt[1 << 16];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
}
static void check(bool ok, const std::string& what) { ++n_checks; if (!ok) fail(what); }
#define CHECK(c, what) do { ++n_checks; if (!(c)) fail(what); } while (0)

// ------------------------------------------------------------------ random numbers
struct Rng
{
  std::uint64_t s;
  explicit Rng(std::uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  std::uint64_t next()
  {
    std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  std::uint64_t below(std::uint64_t n) { return next() % n; }
  long range(long a, long b) { return a + (long)below((std::uint64_t)(b - a + 1)); }
  bool chance(int p) { return below(100) < (unsigned)p; }
};

// numbers that appear in the library's source, and their neighbours
#ifndef XVALS
#define XVALS
#endif
static const std::vector<double> xvals = { XVALS };
#ifndef XINTS
#define XINTS
#endif
static const std::vector<long long> xints = { XINTS };

template<class T> struct is_gf : std::is_same<T, GF> {};
template<class T> struct is_cx : std::is_same<T, cplx> {};
#ifdef USE_Q
template<class T> struct is_q : std::is_same<T, Q> {};
#else
template<class T> struct is_q : std::false_type {};
#endif
template<class T> struct exact_field { static const bool value = is_gf<T>::value || is_q<T>::value; };

// small value, exactly representable in every type
template<class T> T small(Rng& r, long lo, long hi)
{
  if (std::is_unsigned<T>::value && lo < 0) { lo = 0; if (hi < 0) hi = -hi; }
  return T(static_cast<int>(r.range(lo, hi)));
}
template<class T> struct Any;
template<> struct Any<GF> { static GF get(Rng& r) { return r.chance(70) ? GF::raw(r.next()) : small<GF>(r, -3, 3); } };
template<class T> struct AnyInt
{
  static T get(Rng& r)
  {
    if (!xints.empty() && r.chance(10)) return T(xints[r.below(xints.size())]);
    return small<T>(r, -9, 9);
  }
};
template<> struct Any<int> : AnyInt<int> {};
template<> struct Any<short> : AnyInt<short> {};
template<> struct Any<signed char> : AnyInt<signed char> {};
template<> struct Any<unsigned char> : AnyInt<unsigned char> {};
template<> struct Any<unsigned short> : AnyInt<unsigned short> {};
template<> struct Any<long> : AnyInt<long> {};
template<> struct Any<long long> : AnyInt<long long> {};
template<> struct Any<unsigned> { static unsigned get(Rng& r) { return r.chance(50) ? (unsigned)r.next() : AnyInt<unsigned>::get(r); } };
template<> struct Any<unsigned long long> { static ull get(Rng& r) { return r.chance(50) ? r.next() : AnyInt<ull>::get(r); } };
template<class T> struct AnyFlt
{
  static T get(Rng& r)
  {
    if (!xvals.empty() && r.chance(10)) return T(xvals[r.below(xvals.size())] * (r.chance(50) ? 1 : r.chance(50) ? 0.5 : 2));
    switch (r.below(6))
    {
      case 0: return T(r.range(-9, 9));
      case 1: return T(r.range(-9, 9)) / 4;
      case 2: return std::ldexp(T(r.range(-1000, 1000)), (int)r.range(-12, 6));
      case 3: return T(r.range(-1000000, 1000000)) / 1000;
      case 4: return T(r.range(-1, 1));
      default: return T((double)(r.next() >> 11) / 9007199254740992.0 * 20 - 10);
    }
  }
};
template<> struct Any<float> : AnyFlt<float> {};
template<> struct Any<double> : AnyFlt<double> {};
template<> struct Any<long double> : AnyFlt<long double> {};
template<> struct Any<cplx> { static cplx get(Rng& r) { return cplx((double)r.range(-9, 9), (double)r.range(-9, 9)); } };
#ifdef USE_Q
template<> struct Any<Q> { static Q get(Rng& r)
{
  if (!xvals.empty() && r.chance(10)) { double x = xvals[r.below(xvals.size())]; return Q(x); }
  Q q(r.range(-9, 9));
  switch (r.below(5))
  {
    case 0: return Q(q / 1000000000000ll);
    case 1: return Q(q * 1000003);
    case 2: return Q(q / 7);
    default: return q;
  }
} };
#endif

template<class X> X special(Rng& r)     // values with unusual behaviour (floating point only)
{
  static const double s[] = {0.0, -0.0, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(),
    std::numeric_limits<double>::quiet_NaN(), DBL_MIN, DBL_MAX, FLT_MIN, FLT_MAX, 1e-300, 5e-324, 1.0, -1.0, 0.1};
  return X(s[r.below(sizeof s / sizeof *s)]);
}
#define SPECIALS (std::is_floating_point<T>::value)

template<class F> Mat make(std::size_t r, std::size_t c, F f)
{
  Mat m(r, c);
  for (std::size_t a = 0; a < r; ++a) for (std::size_t b = 0; b < c; ++b) m(a, b) = f(a, b);
  return m;
}
static Mat anym(Rng& r, std::size_t R, std::size_t C) { return make(R, C, [&](std::size_t, std::size_t) { return Any<T>::get(r); }); }
static Mat smallm(Rng& r, std::size_t R, std::size_t C, long lo, long hi) { return make(R, C, [&](std::size_t, std::size_t) { return small<T>(r, lo, hi); }); }

// whole numbers of up to so many bits: narrower intermediate types lose them
static int floor_log2(std::size_t n) { int k = 0; while (n >>= 1) ++k; return k; }
static T wide(Rng& r, int bits)
{
  bits = bits < 1 ? 1 : bits > 60 ? 60 : bits;
  long long v = (long long)(r.next() >> 3) & ((1ll << (int)r.range(bits - (bits > 8 ? 3 : 1), bits)) - 1);
  if (r.chance(50) && !std::is_unsigned<T>::value) v = -v;
  return T(v);
}
static Mat widem(Rng& r, std::size_t R, std::size_t C, int bits) { return make(R, C, [&](std::size_t, std::size_t) { return wide(r, bits); }); }
static const int DIGITS = std::numeric_limits<T>::is_specialized ? std::numeric_limits<T>::digits : 50;

// square matrices with the structures elimination code cares about
static const int SQ_KINDS = 14;
static Mat square(Rng& r, std::size_t N, int kind)
{
  typedef std::size_t z;
  auto val = [&]() -> T { return exact_field<T>::value ? Any<T>::get(r) : small<T>(r, -4, 4); };
  auto nz = [&]() -> T { for (;;) { T t = val(); if (!(t == T(0))) return t; } };
  Mat m = make(N, N, [&](z, z) { return val(); });
  auto zero_if = [&](std::function<bool(z, z)> p) { for (z a = 0; a < N; ++a) for (z b = 0; b < N; ++b) if (p(a, b)) m(a, b) = T(0); };
  switch (kind % SQ_KINDS)
  {
    case 0: break;
    case 1: { int p = (int)r.range(20, 80); zero_if([&](z, z) { return r.chance(p); }); break; }
    case 2: m = smallm(r, N, N, 0, 1); break;
    case 3: m = smallm(r, N, N, -1, 1); break;
    case 4: // (scaled) permutation
    {
      std::vector<z> p(N);
      for (z a = 0; a < N; ++a) p[a] = a;
      for (z a = N; a > 1; --a) std::swap(p[a - 1], p[r.below(a)]);
      zero_if([&](z a, z b) { return p[a] != b; });
      for (z a = 0; a < N; ++a) if (m(a, p[a]) == T(0)) m(a, p[a]) = nz();
      break;
    }
    case 5: // equal or proportional rows
      if (N > 1) { z a = r.below(N), b = r.below(N); T f = r.chance(50) ? T(1) : small<T>(r, -3, 3); if (a != b) for (z c = 0; c < N; ++c) m(a, c) = m(b, c) * f; }
      break;
    case 6: { z c = r.below(N); zero_if([&](z, z b) { return b == c; }); break; }     // zero column
    case 7: { z c = r.below(N); zero_if([&](z a, z) { return a == c; }); break; }     // zero row
    case 8: zero_if([&](z a, z b) { return a < b || (a == b && r.chance(20)); }); break;
    case 9: zero_if([&](z a, z b) { return a > b || (a == b && r.chance(20)); }); break;
    case 10: zero_if([&](z a, z b) { return a == b; }); break;
    case 11: // low rank
    {
      z k = N > 1 ? r.below(N) : 0;
      Mat x = smallm(r, N, k, -2, 2), y = smallm(r, k, N, -2, 2);
      for (z a = 0; a < N; ++a) for (z b = 0; b < N; ++b)
      { m(a, b) = T(0); for (z c = 0; c < k; ++c) m(a, b) += x(a, c) * y(c, b); }
      break;
    }
    case 12: // a leading block is singular, the whole usually is not
    {
      z k = r.below(N) + 1;
      for (z b = 0; b < k; ++b) m(k - 1, b) = k > 1 ? m(0, b) : T(0);
      break;
    }
    case 13: // symmetric
      for (z a = 0; a < N; ++a) for (z b = 0; b < a; ++b) m(a, b) = m(b, a);
      break;
  }
  return m;
}

// ------------------------------------------------------------------ calling the library
template<std::size_t R, std::size_t C> const Mx<T, R, C>& in(const Mat& m)
{
  return *reinterpret_cast<const Mx<T, R, C>*>(m.v.data());
}
template<std::size_t R, std::size_t C> Mx<T, R, C>& inout(Mat& m)
{
  return *reinterpret_cast<Mx<T, R, C>*>(m.v.data());
}
static Mat flat(const T* p, std::size_t r, std::size_t c)
{
  Mat m(r, c);
  for (std::size_t a = 0; a < r * c; ++a) m.v[a] = p[a];
  return m;
}
template<std::size_t R, std::size_t C> Mat out(const std::array<std::array<T, C>, R>& m) { return flat(&m[0][0], R, C); }

// ------------------------------------------------------------------ comparisons
template<class X> bool same(const X& a, const X& b) { return a == b; }
template<class X> bool samef(X a, X b)
{
  return a == b || (a != a && b != b);
}
inline bool same(const double& a, const double& b) { return samef(a, b); }
inline bool same(const float& a, const float& b) { return samef(a, b); }
inline bool same(const long double& a, const long double& b) { return samef(a, b); }
inline bool same(const cplx& a, const cplx& b) { return samef(a.real(), b.real()) && samef(a.imag(), b.imag()); }
static bool same(const Mat& a, const Mat& b)
{
  if (a.r != b.r || a.c != b.c) return false;
  for (std::size_t x = 0; x < a.v.size(); ++x) if (!same(a.v[x], b.v[x])) return false;
  return true;
}
static void expect(const Mat& m, const Mat& w, const char* what = "result")
{
  ++n_checks;
  if (w.r != m.r || w.c != m.c) fail(std::string(what) + " is " + std::to_string(m.r) + "x" + std::to_string(m.c) + ", expected " + std::to_string(w.r) + "x" + std::to_string(w.c));
  for (std::size_t a = 0; a < m.r; ++a) for (std::size_t b = 0; b < m.c; ++b)
    if (!same(m(a, b), w(a, b))) fail(std::string(what) + " entry (" + std::to_string(a) + "," + std::to_string(b) + ") is " + str(m(a, b)) + ", expected " + str(w(a, b)));
}
static void unchanged(const Mat& now, const Mat& before, const char* which)
{
  ++n_checks;
  if (!same(now, before)) fail(std::string("operand ") + which + " was changed: it was " + str(before));
}
static Mat prod(const Mat& a, const Mat& b)
{
  return make(a.r, b.c, [&](std::size_t x, std::size_t y) { T s = T(0); for (std::size_t k = 0; k < a.c; ++k) s += a(x, k) * b(k, y); return s; });
}
static Mat transp(const Mat& a) { return make(a.c, a.r, [&](std::size_t x, std::size_t y) { return a(y, x); }); }
static Mat ident(std::size_t n) { return make(n, n, [&](std::size_t x, std::size_t y) { return x == y ? T(1) : T(0); }); }

// ------------------------------------------------------------------ field oracles
template<class X> using V2 = std::vector<std::vector<X>>;
static V2<T> vec(const Mat& m)
{
  V2<T> v(m.r, std::vector<T>(m.c));
  for (std::size_t a = 0; a < m.r; ++a) for (std::size_t b = 0; b < m.c; ++b) v[a][b] = m(a, b);
  return v;
}
static T det_laplace(const V2<T>& m)
{
  std::size_t n = m.size();
  if (n == 0) return T(1);
  if (n == 1) return m[0][0];
  T s(0);
  for (std::size_t c = 0; c < n; ++c)
  {
    V2<T> q;
    for (std::size_t a = 1; a < n; ++a) { std::vector<T> w; for (std::size_t b = 0; b < n; ++b) if (b != c) w.push_back(m[a][b]); q.push_back(w); }
    T t = m[0][c] * det_laplace(q);
    if (c % 2) s -= t; else s += t;
  }
  return s;
}
// elimination with free choice of pivot (last non-zero row), exact fields only
static T det_field(V2<T> m)
{
  std::size_t n = m.size();
  if (n <= 4) return det_laplace(m);
  T d(1);
  for (std::size_t c = 0; c < n; ++c)
  {
    std::size_t p = n;
    for (std::size_t a = n; a-- > c;) if (!(m[a][c] == T(0))) { p = a; break; }
    if (p == n) return T(0);
    if (p != c) { std::swap(m[p], m[c]); d = T(0) - d; }
    d = d * m[c][c];
    T iv = T(1) / m[c][c];
    for (std::size_t a = c + 1; a < n; ++a)
    {
      T f = m[a][c] * iv;
      if (f == T(0)) continue;
      for (std::size_t b = c; b < n; ++b) m[a][b] -= f * m[c][b];
    }
  }
  return d;
}
static V2<T> leading(const V2<T>& m, std::size_t k)
{
  V2<T> q(k, std::vector<T>(k));
  for (std::size_t a = 0; a < k; ++a) for (std::size_t b = 0; b < k; ++b) q[a][b] = m[a][b];
  return q;
}
// integer determinant (Bareiss) of small integer matrices held in another type
inline long double det_int(V2<__int128> m)
{
  std::size_t n = m.size();
  __int128 prev = 1;
  int sgn = 1;
  for (std::size_t k = 0; k + 1 < n; ++k)
  {
    if (m[k][k] == 0)
    {
      std::size_t p = k + 1;
      while (p < n && m[p][k] == 0) ++p;
      if (p == n) return 0;
      std::swap(m[p], m[k]);
      sgn = -sgn;
    }
    for (std::size_t a = k + 1; a < n; ++a) for (std::size_t b = k + 1; b < n; ++b)
      m[a][b] = (m[a][b] * m[k][k] - m[a][k] * m[k][b]) / prev;
    prev = m[k][k];
  }
  return (long double)m[n - 1][n - 1] * sgn;
}
template<class X> __int128 toi(const X& x) { return (__int128)static_cast<long long>(x); }
inline __int128 toi(const GF&) { return 0; }
inline __int128 toi(const cplx&) { return 0; }
#ifdef USE_Q
inline __int128 toi(const Q&) { return 0; }
#endif
static V2<__int128> ivec(const Mat& m)
{
  V2<__int128> v(m.r, std::vector<__int128>(m.c));
  for (std::size_t a = 0; a < m.r; ++a) for (std::size_t b = 0; b < m.c; ++b) v[a][b] = toi(m(a, b));
  return v;
}

// ------------------------------------------------------------------ shapes
// X1: numbers mined from the source, as extra dimensions
#ifndef XDIMS
#define XDIMS
#endif
template<std::size_t... I> struct Dims {};
typedef Dims<XDIMS> Extra;

static std::uint64_t seed_ = 1;
static int reps_ = 1;

// F<R,C>::go() on many shapes
template<template<std::size_t, std::size_t> class F, std::size_t R, std::size_t... C> void shape_row(Dims<C...>)
{
  int d[] = {0, (F<R, C>::go(), 0)...};
  (void)d;
}
template<template<std::size_t, std::size_t> class F, std::size_t... R, class CS> void shape_grid(Dims<R...>, CS cs)
{
  int d[] = {0, (shape_row<F, R>(cs), 0)...};
  (void)d;
}
template<template<std::size_t, std::size_t> class F, std::size_t... N> void shape_sq(Dims<N...>)
{
  int d[] = {0, (F<N, N>::go(), 0)...};
  (void)d;
}
template<template<std::size_t, std::size_t> class F> void all_shapes()
{
  shape_grid<F>(Dims<1, 2, 3, 4, 5, 6>(), Dims<1, 2, 3, 4, 5, 6>());
  shape_grid<F>(Dims<1, 2>(), Dims<7, 8, 9, 16, 17, 33, 65>());
  shape_grid<F>(Dims<7, 8, 9, 16, 17, 32, 65>(), Dims<1, 2>());
  F<3, 7>::go(); F<7, 3>::go(); F<8, 9>::go(); F<9, 8>::go(); F<3, 12>::go(); F<12, 3>::go(); F<10, 7>::go();
  shape_sq<F>(Dims<7, 8, 9, 10, 12, 16, 17, 33>());
  // beyond the range of narrow index types
  F<130, 1>::go(); F<1, 130>::go(); F<258, 1>::go(); F<1, 258>::go(); F<2, 259>::go(); F<259, 2>::go();
  shape_sq<F>(Extra());
  shape_grid<F>(Extra(), Dims<1, 2>());
  shape_grid<F>(Dims<1, 2>(), Extra());
  if (reps_ >= 4)               // a search after a failed obligation, or the thorough tier
  {
    const int k = reps_;
    reps_ = 1;
    F<65537, 1>::go(); F<1, 65537>::go();
    reps_ = k;
  }
}
// F<N>::go()
template<template<std::size_t> class F, std::size_t... N> void sizes(Dims<N...>)
{
  int d[] = {0, (F<N>::go(), 0)...};
  (void)d;
}

void run();
#ifndef NO_MAIN
int main(int argc, char** argv)
{
  if (argc > 1) seed_ = strtoull(argv[1], nullptr, 10);
  if (argc > 2) reps_ = atoi(argv[2]);
  report_fd = dup(1);
  setup_handlers();
  arm();
  run();
  char b[96];
  int k = snprintf(b, sizeof b, "OK cases=%lu checks=%lu\n", n_cases, n_checks);
  ssize_t w = write(report_fd, b, k);
  (void)w;
  _exit(0);
}
#endif
