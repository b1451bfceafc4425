// dynamic memory: every allocation made while a library call runs is counted
#include <cstdlib>
#include <new>
static bool counting = false;
static unsigned long allocs = 0;
#define ON counting = true;
#define OFF counting = false;
extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" void* malloc(size_t n) { if (counting) ++allocs; return __libc_malloc(n); }
extern "C" void* calloc(size_t a, size_t b) { if (counting) ++allocs; return __libc_calloc(a, b); }
extern "C" void* realloc(void* p, size_t n) { if (counting) ++allocs; return __libc_realloc(p, n); }
extern "C" void* memalign(size_t a, size_t n) { if (counting) ++allocs; return __libc_memalign(a, n); }
extern "C" void* aligned_alloc(size_t a, size_t n) { if (counting) ++allocs; return __libc_memalign(a, n); }
extern "C" int posix_memalign(void** p, size_t a, size_t n) { if (counting) ++allocs; *p = __libc_memalign(a, n); return *p ? 0 : 12; }
void* operator new(std::size_t n) { if (counting) ++allocs; return __libc_malloc(n ? n : 1); }
void* operator new[](std::size_t n) { if (counting) ++allocs; return __libc_malloc(n ? n : 1); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { if (counting) ++allocs; return __libc_malloc(n ? n : 1); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { if (counting) ++allocs; return __libc_malloc(n ? n : 1); }
extern "C" void free(void*);
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
void operator delete[](void* p, std::size_t) noexcept { free(p); }
#include "common.hpp"
#include "ops.hpp"
static void drive(const std::vector<Op>& ops, z R, z C)
{
  Rng r(seed_ * 1009 + R * 131 + C);
  int K = (R * C <= 36 ? 12 : 3) * reps_;
  for (auto& o : ops)
  {
    if (o.heap) continue;
    for (int k = 0; k < K; ++k)
    {
      In x = gen_in(r, R, C, k);
      x.p %= (R > C ? R : C) + 1; x.q %= (R > C ? R : C) + 1;
      Res res;
      op(o.name, {x.A, x.B, x.s, num("p", x.p), num("q", x.q), num("power", x.e)});
      allocs = 0;
      bool threw = false;
      try { o.f(x, res); } catch (...) { threw = true; }
      counting = false;
      if (!threw) CHECK(allocs == 0, std::to_string(allocs) + " allocation(s) of dynamic memory during a successful call");
    }
  }
}
template<z R, z C> struct Pr { static void go()
{
  Rng r(seed_);
  Mat A = smallm(r, R, C, -3, 3);
  op("print(A)", {A});
  allocs = 0;
  counting = true;
  mlib::print(in<R, C>(A));
  counting = false;
  CHECK(allocs == 0, std::to_string(allocs) + " allocation(s) of dynamic memory during a successful call");
} };
template<z R, z C> struct Sh { static void go() { drive(OAll<R, C>::get(), R, C); } };
void run()
{
  int null = dup(1);
  if (freopen("/dev/null", "w", stdout)) {}
  std::cout << 1.5 << " " << 1 << std::endl;
  Pr<1, 1>::go(); Pr<2, 3>::go(); Pr<4, 4>::go(); Pr<17, 2>::go(); Pr<1, 33>::go();
  (void)null;
  shape_grid<Sh>(Dims<1, 2, 3, 4>(), Dims<1, 2, 3, 4>());
  Sh<5, 5>::go(); Sh<6, 6>::go(); Sh<1, 9>::go(); Sh<9, 1>::go(); Sh<5, 7>::go(); Sh<8, 8>::go(); Sh<9, 9>::go(); Sh<10, 10>::go(); Sh<12, 12>::go(); Sh<17, 17>::go(); Sh<1, 33>::go(); Sh<33, 33>::go(); Sh<65, 65>::go();
  shape_sq<Sh>(Extra());
  shape_grid<Sh>(Extra(), Dims<1>());
}
