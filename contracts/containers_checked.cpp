// Contracts of memory checked arrays (C06): the guards notice what lies next to the elements, and element access is as without them.
// VC-STD: c++14
// VC-FLAGS: -DECL_MEM_CHECK_ARRAYS
// VC-ASSUME: the guards are the 4 bytes directly before and behind the elements
#define P(n) C06_##n
#include "containers_arrays.inc"

template<class A> static void guards(A &a, long n) {
  VC_ENSURES("a new array is not overrun", !a.bufferOverRun() && !a.bufferUnderRun() && !a.bufferOverFlow());
  if (n > 0) {
    long i = vc::any_in("i", 0, (int)LIM); VC_REQUIRES(i < n);
    a[i] = vc::any_int("element");
    *(a.begin() + i) = vc::any_int("second element");
    VC_ENSURES("writing elements is no overrun", !a.bufferOverRun() && !a.bufferUnderRun() && !a.bufferOverFlow());
  }
  unsigned char *lo = (unsigned char *)a.begin() - 4, *hi = (unsigned char *)a.end();
  unsigned char was[8], now[8]; bool low = false, high = false;
  for (int k = 0; k < 4; ++k) { was[k] = lo[k]; was[k + 4] = hi[k]; }
  vc::fill("guard below", now, 8);
  for (int k = 0; k < 4; ++k) { lo[k] = now[k]; hi[k] = now[k + 4]; low |= now[k] != was[k]; high |= now[k + 4] != was[k + 4]; }
  VC_COVER("overrun", high && !low); VC_COVER("underrun", low && !high); VC_COVER("nothing", !low && !high);
  VC_ENSURES("an overrun is reported exactly when a byte behind the elements changed", a.bufferOverRun() == high);
  VC_ENSURES("an underrun is reported exactly when a byte before the elements changed", a.bufferUnderRun() == low);
  VC_ENSURES("an overflow is reported exactly when a guard byte changed", a.bufferOverFlow() == (low || high));
}
VC_PROOF(C06_guards_dynamic, "ecl::Array<int, 0ul>::bufferOverRun; ecl::Array<int, 0ul>::bufferUnderRun; ecl::Array<int, 0ul>::bufferOverFlow; ecl::Array<int, 0ul>::initialiseMagicSections") {
  unsigned n = vc::any_uint("n"), m = vc::any_uint("m"); VC_REQUIRES(n <= LIM && m <= LIM);
  int how = vc::choose("how", 0, 3);
  if (how == 0) { Dyn a(n); guards(a, n); }
  else if (how == 1) { Dyn a; VC_ENSURES("an empty array is not overrun", !a.bufferOverFlow()); a.resize(n); guards(a, n); }
  else if (how == 2) { Dyn a(m); a.resize(n); guards(a, n); a.resize(m); VC_ENSURES("a resized array has new guards", !a.bufferOverFlow()); }
  else { Dyn a(m); a.clear(); VC_ENSURES("an empty array is not overrun", !a.bufferOverFlow()); }
}
VC_BOUNDED(C06_guards_copy, "arrays of up to 3 elements")
VC_PROOF(C06_guards_copy, "ecl::Array<int, 0ul>::Array(ecl::Array<int, 0ul> const&); ecl::Array<int, 0ul>::operator=(ecl::Array<int, 0ul> const&)") {
  unsigned n = vc::choose("n", 1, 3), how = vc::choose("how", 0, 2); int v = vc::any_int("v");
  Dyn a(n); set(a, n);
  if (how == 0) { Dyn b(a); guards(b, n); }
  else if (how == 1) { Dyn b(2); b = a; guards(b, n); }
  else { Dyn b = Dyn::Constant(n, v); guards(b, n); }
  VC_ENSURES("the original is not overrun", !a.bufferOverFlow());
}
template<unsigned N> static void fixed_guards() {
  if (vc::choose("constant", 0, 1)) { Array<int, N> b = Array<int, N>::Constant(4); guards(b, N); }
  else { Array<int, N> a; guards(a, N); }
}
VC_PROOF(C06_guards_fixed, "ecl::Array<int, 4ul>::bufferOverRun; ecl::Array<int, 4ul>::bufferUnderRun; ecl::Array<int, 4ul>::bufferOverFlow; ecl::Array<int, 4ul>::initialiseMagicSections") {
  switch (vc::choose("size", 0, 2)) { case 0: fixed_guards<1>(); break; case 1: fixed_guards<4>(); break; case 2: fixed_guards<33>(); break; }
}
VC_BOUNDED(C06_guards_fill, "arrays of up to 3 elements filled to the brim")
VC_PROOF(C06_guards_fill, "ecl::Array<int, 3ul>::bufferOverFlow; ecl::containers::BoundedListInitialiser<int, int*, 3ul>::operator,; ecl::containers::BoundedListInitialiser<int, int*, 0ul>::operator,") {
  int v[4]; for (int i = 0; i < 4; ++i) v[i] = vc::any_int("value");
  Array<int, 3> f; Dyn a(3); int k = vc::choose("values", 1, 4);
  auto fill = [&](auto init) { for (int i = 1; i < k; ++i) init, v[i]; };
  bool t1 = throws([&] { fill(f << v[0]); }), t2 = throws([&] { fill(a << v[0]); });
  VC_ENSURES("too many values throw and do not overrun", t1 == (k > 3) && t2 == (k > 3) && !f.bufferOverFlow() && !a.bufferOverFlow());
}
