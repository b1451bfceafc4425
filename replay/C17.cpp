// compiled with the address sanitizer, bounds checks and library assertions: any access outside an operand stops the
// process; the per-case limit on processor time catches calls that do not finish. Results are not judged here.
#define CASE_SECONDS_ 40
#include "common.hpp"
#include "ops.hpp"
#include <ctime>
// processor time of a large power: an implementation that multiplies p times is as right as any other, but cannot reach
// the largest exponents
static clock_t steps(const Op& o, In x)
{
  if (!std::is_floating_point<T>::value) return 0;
  x.e = 1 << 20;
  clock_t best = -1;
  for (int k = 0; k < 2; ++k)
  {
    Res res;
    op(o.name, {x.A, num("power", x.e)});
    clock_t c0 = clock();
    try { o.f(x, res); } catch (...) {}
    clock_t c = clock() - c0;
    if (best < 0 || c < best) best = c;
  }
  return best;
}
static void drive(const std::vector<Op>& ops, z R, z C)
{
  Rng r(seed_ * 1009 + R * 131 + C);
  int reps = (R * C <= 36 ? 10 : 4) * reps_;
  std::vector<std::pair<z, z>> ix;
  z m = R > C ? R : C;
  for (z a = 0; a < m; ++a) for (z b = 0; b < m; ++b) if (m <= 6 || a == 0 || b == 0 || a + 1 == m || b + 1 == m || a == b || r.chance(5)) ix.push_back({a, b});
  for (auto& o : ops)
  {
    int slow = 0;
    bool idx = strstr(o.name, "p,q") != nullptr;
    for (int k = 0; k < (idx ? (int)ix.size() : reps); ++k)
    {
      In x = gen_in(r, R, C, k);
      // exactly as much storage as the operands need, so that a step outside is seen
      spice(r, o, x);
      if (idx) { x.p = ix[k].first; x.q = ix[k].second; }
      if (!strcmp(o.name, "pow(A,p)") || !strcmp(o.name, "pow(A,unsigned long long p)")) 
      {
        if (!slow) slow = steps(o, x) > 3000 + 200 * (clock_t)(R * R * R) ? 1 : -1;
        x.e = !std::is_floating_point<T>::value ? k % 8 - 3 : slow > 0 ? (k % 2 ? -900 : 900) + k : (k % 2 ? INT_MIN : INT_MAX) + (k % 2 ? k : -k);
      }
      Res res;
      op(o.name, {x.A, x.B, x.s, num("p", x.p), num("q", x.q), num("power", x.e)});
      try { o.f(x, res); } catch (...) {}
    }
  }
}
template<z R, z C> struct Sh { static void go() { drive(OAll<R, C>::get(), R, C); } };
void run()
{
  // non-generic shapes first, then the shapes mined from the source
  shape_grid<Sh>(Dims<1, 2, 3, 4>(), Dims<1, 2, 3, 4>());
  Sh<5, 5>::go(); Sh<6, 6>::go(); Sh<1, 9>::go(); Sh<9, 1>::go(); Sh<5, 7>::go(); Sh<7, 4>::go(); Sh<8, 8>::go(); Sh<17, 2>::go(); Sh<2, 17>::go(); Sh<12, 12>::go(); Sh<33, 33>::go();
  shape_sq<Sh>(Extra());
  shape_grid<Sh>(Extra(), Dims<1>());
  shape_grid<Sh>(Dims<2>(), Extra());
}
