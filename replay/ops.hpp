#pragma once
// every operation of the library behind one signature, per shape; used where a property ranges over all operations
#ifndef ON
#define ON
#define OFF
#endif
typedef std::size_t z;
struct Res
{
  std::vector<T> v;
  std::vector<long long> n;
  bool threw = false;
  void add(const T& t) { v.push_back(t); }
  void add(bool b) { n.push_back(b); }
  template<z R, z C> void addm(const std::array<std::array<T, C>, R>& m) { const T* p = &m[0][0]; v.insert(v.end(), p, p + R * C); n.push_back(R); n.push_back(C); }
  template<z R, z C> void addu(const std::array<std::array<unsigned, C>, R>& m) { const unsigned* p = &m[0][0]; n.insert(n.end(), p, p + R * C); }
  void addh(const std::map<T, z>& m) { for (auto& p : m) { v.push_back(p.first); n.push_back(p.second); } }
  bool operator==(const Res& o) const
  {
    if (threw != o.threw || n != o.n || v.size() != o.v.size()) return false;
    for (z k = 0; k < v.size(); ++k) if (!same(v[k], o.v[k])) return false;
    return true;
  }
};
struct In { Mat A, B; T s; z p, q; int e; };     // B has one row and one column more than A
struct Op { const char* name; void (*f)(In&, Res&); bool square; bool inplace; bool heap; };
#define A_ (in<R, C>(x.A))
#define B_ (in<R, C>(x.B))
#define BT_ (in<C, R>(x.B))
#define BV_ (in<R + 1, C>(x.B))
#define BH_ (in<R, C + 1>(x.B))
#define K_ (in<3, 3>(x.B))
#define OPM(nm, ex) static void nm(In& x, Res& r) { ON auto y = ex; OFF r.addm(y); }
#define OPS(nm, ex) static void nm(In& x, Res& r) { ON auto y = ex; OFF r.add(y); }
#define OPH(nm, ex) static void nm(In& x, Res& r) { ON auto y = ex; OFF r.addh(y); }
#define OP2(nm, ex) static void nm(In& x, Res& r) { ON auto y = ex; OFF r.addm(y.first); r.addm(y.second); }
#define OPV(nm, ex) static void nm(In& x, Res& r) { ON ex; OFF r.v = x.A.v; }

using mlib::operator+; using mlib::operator-; using mlib::operator*; using mlib::operator/;
using mlib::operator++; using mlib::operator--;

template<z R, z C, bool = (R >= 3 && C >= 3)> struct OValid { OPM(valid, mlib::conv2_valid(A_, K3(x))) static const Mx<T, 3, 3>& K3(In& x) { return in<3, 3>(x.B); }
  static void put(std::vector<Op>& o) { o.push_back({"conv2_valid(A,K)", valid, false, false, false}); } };
template<z R, z C> struct OValid<R, C, false> { static void put(std::vector<Op>&) {} };
template<z R, z C, bool = (R == C)> struct OSq { static void put(std::vector<Op>&) {} };
template<z R, z C, bool = (R == C && R >= 2)> struct OMin { static void put(std::vector<Op>&) {} };
template<z R, z C> struct OMin<R, C, true>
{
  OPM(mi, mlib::getminor(A_, x.p % R, x.q % R))
  static void put(std::vector<Op>& o) { o.push_back({"getminor(A,p,q)", mi, true, false, false}); }
};
template<z R, z C, bool = (R == 2 && C == 2)> struct OStr { static void put(std::vector<Op>&) {} };
template<z R, z C> struct OStr<R, C, true> { OPM(st, mlib::strassen(A_, B_)) static void put(std::vector<Op>& o) { o.push_back({"strassen(A,B)", st, true, false, false}); } };
#ifndef SLOW_N
#define SLOW_N 10
#endif
template<z R, z C, bool = (R == C && R <= (std::is_integral<T>::value ? 3 : SLOW_N) && !std::is_unsigned<T>::value)> struct OInv { static void put(std::vector<Op>&) {} };
template<z R, z C> struct OInv<R, C, true>
{
  OPM(iv, mlib::inv(A_)) OPM(pw, mlib::pow(A_, x.e)) OPM(pw2, mlib::pow(A_, (unsigned long long)(x.e < 0 ? -x.e : x.e)))
  static void put(std::vector<Op>& o) { o.push_back({"inv(A)", iv, true, false, false}); o.push_back({"pow(A,p)", pw, true, false, false}); o.push_back({"pow(A,unsigned long long p)", pw2, true, false, false}); }
};
template<z R, z C> struct OSq<R, C, true>
{
  OPM(ey, (mlib::eye<T, R>(x.s))) OPM(ey1, (mlib::eye<T, R>()))
  OPS(de, mlib::det(A_)) OP2(lu_, mlib::lu(A_)) OPM(ch, mlib::chol(A_))
  OPS(id, mlib::isIdentity(A_)) OPS(sy, mlib::isSymetric(A_))
  OP2(cp, mlib::concatenate(A_, B_)) OPM(cv, mlib::concatenateV(A_, B_)) OPM(chh, mlib::concatenateH(A_, B_))
  static void put(std::vector<Op>& o)
  {
    o.push_back({"eye(v)", ey, true, false, false}); o.push_back({"eye()", ey1, true, false, false});
    // integers: from 4x4 on the elimination leaves the range of the element type, which no property speaks about
    if (!std::is_integral<T>::value || R <= 3) { o.push_back({"det(A)", de, true, false, false}); o.push_back({"lu(A)", lu_, true, false, false}); }
    if (std::is_floating_point<T>::value || is_gf<T>::value) o.push_back({"chol(A)", ch, true, false, false});
    o.push_back({"isIdentity(A)", id, true, false, false}); o.push_back({"isSymetric(A)", sy, true, false, false});
    o.push_back({"concatenate(A,B) (pair)", cp, true, false, false}); o.push_back({"concatenateV(A,B)", cv, true, false, false}); o.push_back({"concatenateH(A,B)", chh, true, false, false});
  }
};
template<z R, z C, bool = std::is_unsigned<T>::value> struct OSig
{
  OPM(ab, mlib::abs(A_))
  static void put(std::vector<Op>& o) { o.push_back({"abs(A)", ab, false, false, false}); cmp<T>(o); }
  template<class X> static void cm(In& x, Res& r) { ON bool y = mlib::compare(A_, B_, 1.0f); OFF r.add(y); }
  template<class X> static typename std::enable_if<std::is_arithmetic<X>::value>::type cmp(std::vector<Op>& o) { o.push_back({"compare(A,B,1)", cm<X>, false, false, false}); }
  template<class X> static typename std::enable_if<!std::is_arithmetic<X>::value>::type cmp(std::vector<Op>&) {}
};
template<z R, z C> struct OSig<R, C, true> { static void put(std::vector<Op>&) {} };
template<z R, z C> struct OAll
{
  OPM(f1, mlib::sum(A_, B_)) OPM(f2, A_ + B_) OPM(f3, mlib::sub(A_, B_)) OPM(f4, A_ - B_)
  OPM(f5, mlib::sum(A_, x.s)) OPM(f6, A_ + x.s) OPM(f7, x.s + A_) OPM(f8, mlib::sub(A_, x.s)) OPM(f9, A_ - x.s)
  OPM(f10, mlib::mult(A_, x.s)) OPM(f11, A_ * x.s) OPM(f12, x.s * A_) OPM(f13, mlib::div(A_, x.s)) OPM(f14, A_ / x.s)
  OPM(f15, A_++) OPM(f16, A_--) OPM(f17, mlib::trans(A_)) OPM(f18, mlib::mult(A_, BT_)) OPM(f19, A_ * BT_)
  OPM(f20, (mlib::fill<T, R, C>(x.s))) OPM(f21, (mlib::zeros<T, R, C>())) OPM(f22, (mlib::ones<T, R, C>()))
  static void f23(In& x, Res& r) { ON auto y = mlib::ones<R, C>(); OFF r.addu(y); }
  OPM(f24, mlib::concatenate(A_, BV_)) OPM(f25, mlib::concatenate(A_, BH_))
  OPM(f26, mlib::conv2(A_, in<3, 3>(x.B))) OPM(f27, mlib::conv2_full(A_, in<3, 3>(x.B)))
  OPS(f28, mlib::mean(A_)) OPS(f29, mlib::var(A_)) OPS(f30, mlib::median(A_))
  static void f31(In& x, Res& r) { ON T y = mlib::stddev(A_); OFF r.add(y); }
  OPH(f32, mlib::histogram(A_)) OPH(f33, mlib::cumulative_histogram(A_))
  OPV(f34, mlib::swap_rows((inout<R, C>(x.A)), x.p % R, x.q % R)) OPV(f35, mlib::swap_cols((inout<R, C>(x.A)), x.p % C, x.q % C))
  static std::vector<Op> get()
  {
    std::vector<Op> o = {{"sum(A,B)", f1}, {"A+B", f2}, {"sub(A,B)", f3}, {"A-B", f4}, {"sum(A,s)", f5}, {"A+s", f6}, {"s+A", f7}, {"sub(A,s)", f8},
      {"A-s", f9}, {"mult(A,s)", f10}, {"A*s", f11}, {"s*A", f12}, {"div(A,s)", f13}, {"A/s", f14}, {"A++", f15}, {"A--", f16}, {"trans(A)", f17},
      {"mult(A,B)", f18}, {"A*B", f19}, {"fill(s)", f20}, {"zeros()", f21}, {"ones<T,i,j>()", f22}, {"ones<i,j>()", f23}, {"concatenate (vertical)", f24},
      {"concatenate (horizontal)", f25}, {"conv2(A,K)", f26}, {"conv2_full(A,K)", f27}, {"mean(A)", f28}, {"var(A)", f29},
      {"median(A)", f30}, {"stddev(A)", f31}, {"histogram(A)", f32}, {"cumulative_histogram(A)", f33}, {"swap_rows(A,p,q)", f34}, {"swap_cols(A,p,q)", f35}};
    for (auto& e : o) { e.square = false; e.inplace = !strncmp(e.name, "swap", 4); e.heap = strstr(e.name, "histogram") != nullptr; }
    OValid<R, C>::put(o); OSq<R, C>::put(o); OMin<R, C>::put(o); OStr<R, C>::put(o); OInv<R, C>::put(o); OSig<R, C>::put(o);
    return o;
  }
};
static In gen_in(Rng& r, z R, z C, int k)
{
  In x;
  auto one = [&](z a, z b) -> Mat { return (std::is_floating_point<T>::value || is_gf<T>::value) && k % 3 == 2 ? anym(r, a, b) : smallm(r, a, b, -4, 4); };
  x.A = R == C ? (k % 4 == 3 ? square(r, R, (int)r.below(SQ_KINDS)) : one(R, C)) : one(R, C);
  if (R == C && std::is_floating_point<T>::value && k % 4 == 1)
  {
    // symmetric positive definite
    Mat L = make(R, R, [&](z a, z b) { return b > a ? T(0) : a == b ? T(int(r.range(1, 4))) : small<T>(r, -2, 2); });
    x.A = prod(L, transp(L));
  }
  z br = R + 1 < 3 ? 3 : R + 1, bc = C + 1 < 3 ? 3 : C + 1;
  x.B = one(br, bc);
  x.s = k % 5 == 4 ? T(0) : small<T>(r, 1, 7);
  x.p = r.next() >> 3; x.q = r.next() >> 3;
  x.e = (int)r.range(-4, 5);
  return x;
}
// now and then a not-a-number or infinite entry; ordering such entries is outside what std::sort and std::map accept
static void spice(Rng& r, const Op& o, In& x)
{
  if (!std::is_floating_point<T>::value || strstr(o.name, "median") || strstr(o.name, "histogram") || !r.chance(15)) return;
  T v = r.chance(50) ? T(std::numeric_limits<double>::quiet_NaN()) : T((r.chance(50) ? 1 : -1) * std::numeric_limits<double>::infinity());
  Mat& M = r.chance(70) ? x.A : x.B;
  M.v[r.below(M.v.size())] = v;
  if (r.chance(20)) x.s = v;
}
