#include "common.hpp"
#include "ops.hpp"
#include <thread>
#include <atomic>
#include <alloca.h>
// leave a pattern where the next call's locals will be
static void __attribute__((noinline)) dirty(unsigned char c, z n)
{
  volatile unsigned char* p = (volatile unsigned char*)alloca(n);
  for (z k = 0; k < n; ++k) p[k] = c;
}
static Res call(const Op& o, const In& x0, bool judge)
{
  In x = x0;
  Res r;
  try { o.f(x, r); } catch (...) { r.threw = true; }
  if (judge && !o.inplace) { unchanged(x.A, x0.A, "A"); unchanged(x.B, x0.B, "B"); CHECK(same(x.s, x0.s), "the scalar operand was changed"); }
  return r;
}
static void drive(const std::vector<Op>& ops, z R, z C)
{
  Rng r(seed_ * 1009 + R * 131 + C);
  z n = R * C;
  const int K = 5;
  std::vector<std::vector<In>> x(ops.size());
  std::vector<std::vector<Res>> e(ops.size());
  auto name = [&](z a, int k) { op(ops[a].name, {x[a][k].A, x[a][k].B, x[a][k].s, num("p", x[a][k].p), num("q", x[a][k].q), num("power", x[a][k].e)}); };
  for (z a = 0; a < ops.size(); ++a)
  {
    for (int k = 0; k < K; ++k) { x[a].push_back(gen_in(r, R, C, k)); if (x[a][k].e < -3) x[a][k].e = 3; if (k > 1) spice(r, ops[a], x[a][k]); }
    for (int k = 0; k < K; ++k) { name(a, k); e[a].push_back(call(ops[a], x[a][k], true)); }
  }
  z st = 64 * 1024;
  int steps = (n <= 16 ? 40 : n <= 100 ? 8 : 1) * (int)ops.size() * reps_;
  for (int t = 0; t < steps; ++t)
  {
    z a = r.below(ops.size());
    int k = (int)r.below(K);
    int again = r.chance(5) ? 20 : 1;
    for (int g = 0; g < again; ++g)
    {
      if (t % 3 == 0) dirty((unsigned char)(t % 2 ? 0xff : r.next()), st);
      name(a, k);
      CHECK(call(ops[a], x[a][k], true) == e[a][k], "a repeated call with equal arguments gave a different result (history of " + std::to_string(t) + " other calls)");
    }
  }
  // every operation many times in a row, alternating arguments
  if (R == C && R == 3) for (z a = 0; a < ops.size(); ++a) for (int t = 0; t < 1500; ++t)
  {
    int k = t % K;
    if (t % 16 == 0) name(a, k);
    if (!(call(ops[a], x[a][k], false) == e[a][k])) { name(a, k); fail("call number " + std::to_string(t) + " with equal arguments gave a different result"); }
  }
  if (n <= 40)
  {
    // several threads at once
    std::atomic<int> bad(-1);
    std::atomic<z> badop(0);
    std::vector<std::thread> th;
    for (int w = 0; w < 4; ++w) th.emplace_back([&, w]
    {
      Rng q(seed_ * 31 + w * 7 + R * 3 + C);
      for (int t = 0; t < 25 * (int)ops.size() && bad < 0; ++t)
      {
        z a = (t / 25 + (w & 1) * 0) % ops.size();
        int k = (int)q.below(K);
        if (!(call(ops[a], x[a][k], false) == e[a][k])) { badop = a; bad = k; }
      }
    });
    for (auto& t : th) t.join();
    if (bad >= 0) { name(badop, bad); fail("a call made while other threads call the library gave a different result"); }
  }
}
template<z R, z C> struct Sh { static void go() { drive(OAll<R, C>::get(), R, C); } };
void run()
{
  shape_grid<Sh>(Dims<1, 2, 3, 4>(), Dims<1, 2, 3, 4>());
  Sh<5, 5>::go(); Sh<6, 6>::go(); Sh<1, 9>::go(); Sh<9, 1>::go(); Sh<5, 7>::go(); Sh<7, 4>::go(); Sh<8, 8>::go(); Sh<12, 12>::go();
  shape_sq<Sh>(Extra());
}
