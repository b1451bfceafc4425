#include "common.hpp"
#include <fcntl.h>
typedef std::size_t z;
typedef void (*F)(const Mat&);
static int cap = -1;
static std::string slurp()
{
  std::string s;
  char b[4096];
  lseek(cap, 0, SEEK_SET);
  ssize_t n;
  while ((n = read(cap, b, sizeof b)) > 0) s.append(b, n);
  return s;
}
static void one(F f, const Mat& A, const char* how)
{
  Mat A1 = A;
  std::ostringstream w;
  w.copyfmt(std::cout);
  w.exceptions(std::ios::goodbit);
  for (z a = 0; a < A.r; ++a) { for (z b = 0; b < A.c; ++b) w << A(a, b) << " "; w << "\n"; }
  auto fl = std::cout.flags();
  auto pr = std::cout.precision();
  auto fi = std::cout.fill();
  auto wi = std::cout.width();
  std::string nm = std::string("print(A)") + how;
  op(nm.c_str(), {A});
  if (ftruncate(cap, 0)) {}
  lseek(cap, 0, SEEK_SET);
  f(A1);
  std::cout.flush();
  fflush(stdout);
  std::string got = slurp();
  CHECK(got == w.str(), "written: \"" + got + "\", expected: \"" + w.str() + "\"");
  unchanged(A1, A, "A");
  CHECK(std::cout.flags() == fl && std::cout.precision() == pr && std::cout.fill() == fi && std::cout.width() == wi && std::cout.good(), "the stream's state was changed");
}
static void drive(F f, z R, z C)
{
  Rng r(seed_ * 1009 + R * 131 + C);
  for (int k = 0; k < 6 * reps_; ++k)
  {
    Mat A = k % 3 == 0 ? smallm(r, R, C, -9, 9) : anym(r, R, C);
    if (k % 3 == 2 && std::is_floating_point<T>::value) for (auto& x : A.v) if (r.chance(20)) x = special<T>(r);
    one(f, A, "");
    if (k == 1 && std::is_floating_point<T>::value)
    {
      std::cout.precision(12);
      one(f, A, " with precision 12");
      std::cout << std::scientific;
      one(f, A, " with precision 12, scientific");
      std::cout.unsetf(std::ios::floatfield);
      std::cout.precision(6);
    }
    if (k == 1 && std::is_integral<T>::value)
    {
      std::cout << std::hex << std::showpos;
      one(f, A, " with hex, showpos");
      std::cout << std::dec << std::noshowpos;
    }
  }
}
template<z R, z C> struct Sh { static void f(const Mat& a) { mlib::print(in<R, C>(a)); } static void go() { drive(f, R, C); } };
void run()
{
  char t[] = "/tmp/mlv_print_XXXXXX";
  cap = mkstemp(t);
  unlink(t);
  dup2(cap, 1);
  all_shapes<Sh>();
}
