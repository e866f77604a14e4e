// Array contracts, shared by the plain and the memory checked variant (P() gives the proofs their names).
#include <string>
#include "vc.h"
#include <ecl/containers/array.hpp>
#include <ecl/containers/stencil.hpp>
#include <ecl/containers/initialiser.hpp>
#include <ecl_exceptions/src/lib/standard_exception.cpp>
using namespace ecl;
typedef Array<int> Dyn;
template<class F> static bool throws(F f) { try { f(); } catch (const StandardException &) { return true; } return false; }
static const unsigned LIM = 1u << 28;
static void set(Dyn &a, unsigned n) { for (unsigned i = 0; i < n; ++i) a[i] = vc::any_int("element"); }

// ---------------------------------------------------------------- dynamic arrays of any size
VC_PROOF(P(dynamic_access), "ecl::Array<int, 0ul>::Array(unsigned int); ecl::Array<int, 0ul>::operator[](unsigned long); ecl::Array<int, 0ul>::at(unsigned long); ecl::Array<int, 0ul>::size; ecl::Array<int, 0ul>::begin(); ecl::Array<int, 0ul>::end(); ecl::Array<int, 0ul>::front(); ecl::Array<int, 0ul>::back()") {
  unsigned n = vc::any_uint("n"); VC_REQUIRES(n <= LIM);
  __vc_heap_mark();
  {
  Dyn a(n); const Dyn &c = a;
  unsigned long i = vc::any_ulong("i"), j = vc::any_ulong("j");
  VC_ENSURES("size as asked", a.size() == n);
  VC_COVER("in range", i < n && j < n && i != j); VC_COVER("out of range", i >= n);
  if (n > 0) VC_ENSURES("iterators span the array", a.end() - a.begin() == (long)n && c.end() - c.begin() == (long)n && a.begin() == c.begin());
  if (i < n && j < n) {
    int v = vc::any_int("v"), w = vc::any_int("w");
    a[j] = w; a.at(i) = v;
    VC_ENSURES("an element written is read back", a[i] == v && c[i] == v && c.at(i) == v && a.at(i) == v && *(a.begin() + i) == v && *(c.begin() + i) == v);
    if (j != i) VC_ENSURES("other elements are left alone", a[j] == w && c.at(j) == w);
    VC_ENSURES("first and last", &a.front() == &a[0] && &c.front() == &c[0] && &a.back() == &a[n - 1] && &c.back() == &c[n - 1]);
    VC_ENSURES("reversed iterators", &*a.rbegin() == &a.back() && &*c.rbegin() == &c.back() && &*(a.rend() - 1) == &a.front() && &*(c.rend() - 1) == &c.front());
  }
  VC_ENSURES("checked access throws exactly when out of range", throws([&] { a.at(i); }) == (i >= n) && throws([&] { c.at(i); }) == (i >= n));
  VC_ENSURES("unchecked access throws in debug mode", throws([&] { a[i]; }) == (i >= n) && throws([&] { c[i]; }) == (i >= n));
  }
  VC_ENSURES("memory is given back", __vc_no_leak());
}
VC_PROOF(P(dynamic_resize), "ecl::Array<int, 0ul>::resize; ecl::Array<int, 0ul>::clear; ecl::Array<int, 0ul>::~Array; ecl::Array<int, 0ul>::Array()") {
  unsigned n = vc::any_uint("n"), m = vc::any_uint("m"); VC_REQUIRES(n <= LIM && m <= LIM);
  int k = vc::choose("start", 0, 2);
  __vc_heap_mark();
  {
    Dyn e, f(n); if (k == 2) f.clear();
    Dyn &a = k ? f : e;
    a.resize(m);
    VC_ENSURES("size as asked", a.size() == m);
    unsigned i = vc::any_uint("i"), j = vc::any_uint("j");
    if (i < m && j < m && i != j) {
      int v = vc::any_int("v"), w = vc::any_int("w");
      a[i] = v; a[j] = w;
      VC_ENSURES("every element is usable", a[i] == v && a.at(j) == w);
    }
    VC_ENSURES("checked access throws exactly when out of range", throws([&] { a.at(i); }) == (i >= m));
    a.clear();
    VC_ENSURES("cleared arrays are empty", a.size() == 0 && throws([&] { a.at(i); }) && throws([&] { a.begin(); }));
    a.clear();
    a.resize(1); a[0] = 3; VC_ENSURES("usable again", a.size() == 1 && a[0] == 3);
  }
  VC_ENSURES("memory is given back", __vc_no_leak());
}
VC_BOUNDED(P(dynamic_copy), "arrays of up to 3 elements")
VC_PROOF(P(dynamic_copy), "ecl::Array<int, 0ul>::Array(ecl::Array<int, 0ul> const&); ecl::Array<int, 0ul>::operator=(ecl::Array<int, 0ul> const&)") {
  unsigned n = vc::choose("n", 0, 3), m = vc::choose("m", 0, 3);
  __vc_heap_mark();
  {
    Dyn a(n); set(a, n);
    Dyn b(m); set(b, m);
    int av[3], bv[3]; for (unsigned i = 0; i < n; ++i) av[i] = a[i]; for (unsigned i = 0; i < m; ++i) bv[i] = b[i];
    Dyn c(b);
    VC_ENSURES("a copy has the size of its original", c.size() == m);
    for (unsigned i = 0; i < m; ++i) VC_ENSURES("a copy has the elements of its original", c[i] == bv[i] && &c[i] != &b[i]);
    a = b;
    VC_ENSURES("an assigned array has the size of its source", a.size() == m);
    for (unsigned i = 0; i < m; ++i) VC_ENSURES("an assigned array has the elements of its source", a[i] == bv[i] && &a[i] != &b[i]);
    for (unsigned i = 0; i < m; ++i) { a[i] = 0; VC_ENSURES("copies do not share elements", c[i] == bv[i] && b[i] == bv[i]); }
    Dyn &same = b; b = same;
    VC_ENSURES("assignment to itself keeps the size", b.size() == m);
    for (unsigned i = 0; i < m; ++i) VC_ENSURES("assignment to itself keeps the elements", b[i] == bv[i]);
  }
  VC_ENSURES("memory is given back", __vc_no_leak());
}
VC_BOUNDED(P(constant), "arrays of up to 4 elements")
VC_PROOF(P(constant), "ecl::blueprints::ConstantDynamicArray<int>::apply; ecl::blueprints::ConstantDynamicArray<int>::instantiate; ecl::blueprints::ConstantArray<int, 4ul>::apply; ecl::blueprints::ConstantArray<int, 4ul>::instantiate") {
  unsigned n = vc::choose("n", 1, 4); int v = vc::any_int("v");
  Dyn a = Dyn::Constant(n, v), b(2); b = Dyn::Constant(n, v);
  Dyn c = Dyn::Constant(n, v).instantiate();
  VC_ENSURES("size as asked", a.size() == n && b.size() == n && c.size() == n);
  for (unsigned i = 0; i < n; ++i) VC_ENSURES("every element has the value", a[i] == v && b[i] == v && c[i] == v);
  Array<int, 4> f = Array<int, 4>::Constant(v), g = Array<int, 4>::Constant(v).instantiate();
  for (unsigned i = 0; i < 4; ++i) VC_ENSURES("every element of a fixed array has the value", f[i] == v && g[i] == v);
}
// ---------------------------------------------------------------- fixed arrays
template<unsigned N> static void fixed_access() {
  Array<int, N> a; const Array<int, N> &c = a;
  unsigned long i = vc::any_ulong("i"), j = vc::any_ulong("j");
  int v = vc::any_int("v"), w = vc::any_int("w");
  VC_ENSURES("size as declared", a.size() == N && a.end() - a.begin() == N && c.end() - c.begin() == N && c.begin() == a.begin());
  if (i < N && j < N) {
    a[j] = w; a.at(i) = v;
    VC_ENSURES("an element written is read back", a[i] == v && c[i] == v && c.at(i) == v && *(a.begin() + i) == v && *(c.begin() + i) == v);
    if (j != i) VC_ENSURES("other elements are left alone", a[j] == w && c.at(j) == w);
    Array<int, N> b(a), d; d = a;
    VC_ENSURES("copies have the elements of the original", b[i] == v && d[i] == v && (i == j || (b[j] == w && d[j] == w)));
    b[i] = 0; d[i] = 1; VC_ENSURES("copies do not share elements", a[i] == v);
  }
  VC_ENSURES("first and last", &a.front() == &a[0] && &c.front() == &c[0] && &a.back() == &a[N - 1] && &c.back() == &c[N - 1]);
  VC_ENSURES("reversed iterators", &*a.rbegin() == &a.back() && &*c.rbegin() == &c.back() && &*(a.rend() - 1) == &a.front() && &*(c.rend() - 1) == &c.front());
  VC_ENSURES("checked access throws exactly when out of range", throws([&] { a.at(i); }) == (i >= N) && throws([&] { c.at(i); }) == (i >= N));
  VC_ENSURES("unchecked access throws in debug mode", throws([&] { a[i]; }) == (i >= N) && throws([&] { c[i]; }) == (i >= N));
}
VC_PROOF(P(fixed_access), "ecl::Array<int, 4ul>::operator[](unsigned long); ecl::Array<int, 4ul>::at(unsigned long); ecl::Array<int, 1ul>::at(unsigned long); ecl::Array<int, 300ul>::at(unsigned long)") {
  switch (vc::choose("size", 0, 2)) { case 0: fixed_access<1>(); break; case 1: fixed_access<4>(); break; case 2: fixed_access<300>(); break; }
}
// ---------------------------------------------------------------- comma initialisers
VC_BOUNDED(P(comma), "arrays of up to 4 elements, up to 5 values")
VC_PROOF(P(comma), "ecl::containers::BoundedListInitialiser<int, int*, 0ul>::operator,; ecl::containers::BoundedListInitialiser<int, int*, 3ul>::operator,") {
  int v[5]; for (int i = 0; i < 5; ++i) v[i] = vc::any_int("value");
  int kind = vc::choose("kind", 0, 2); unsigned n = kind == 1 ? 3 : vc::choose("n", 0, 4), k = vc::choose("values", 1, 5);
  Dyn a(n), w(n + 2); Array<int, 3> f;
  for (unsigned i = 0; i < n; ++i) a[i] = f.begin()[i < 3 ? i : 0] = 77;
  for (unsigned i = 0; i < n + 2; ++i) w[i] = 77;
  bool thrown = false;
  auto fill = [&](auto init) { for (unsigned i = 1; i < k; ++i) init, v[i]; };
  try {
    if (kind == 0) fill(a << v[0]);
    else if (kind == 1) fill(f << v[0]);
    else { Stencil<Dyn> s(w, w.begin() + 1, w.begin() + 1 + n); fill(s << v[0]); }
  } catch (const StandardException &) { thrown = true; }
  VC_ENSURES("too many values throw", thrown == (k > n));
  for (unsigned i = 0; i < n; ++i) { int x = kind == 0 ? a[i] : kind == 1 ? f[i] : w[i + 1]; VC_ENSURES("the named elements are set in order, the others are not", x == (i < k ? v[i] : 77)); }
  if (kind == 2) VC_ENSURES("nothing outside the window is touched", w[0] == 77 && w[n + 1] == 77);
}
// ---------------------------------------------------------------- windows
VC_PROOF(P(window), "ecl::Array<int, 0ul>::stencil; ecl::Stencil<ecl::Array<int, 0ul> >::Stencil; ecl::Stencil<ecl::Array<int, 0ul> >::at(unsigned long); ecl::Stencil<ecl::Array<int, 0ul> >::operator[](unsigned long); ecl::Stencil<ecl::Array<int, 0ul> >::size") {
  unsigned n = vc::any_uint("n"), s = vc::any_uint("start"), m = vc::any_uint("length"); VC_REQUIRES(n >= 1 && n <= LIM);
  Dyn a(n);
  bool fits = (unsigned long)s + m <= n;
  VC_COVER("fits", fits && s > 0 && m > 1); VC_COVER("too long", !fits); VC_COVER("wraps", s + m < s);
  try {
    Stencil<Dyn> w = a.stencil(s, m); const Stencil<Dyn> &c = w;
    VC_ENSURES("a window that does not fit throws", fits);
    VC_ENSURES("window size", w.size() == m && w.end() - w.begin() == (long)m && c.end() - c.begin() == (long)m && w.begin() == a.begin() + s && c.begin() == w.begin());
    unsigned long i = vc::any_ulong("i");
    VC_ENSURES("checked access throws exactly when out of range", throws([&] { w.at(i); }) == (i >= m) && throws([&] { c.at(i); }) == (i >= m));
    VC_ENSURES("unchecked access throws in debug mode", throws([&] { w[i]; }) == (i >= m) && throws([&] { c[i]; }) == (i >= m));
    if (i < m) {
      VC_ENSURES("an element of the window is the element of the array", &w[i] == &a[s + i] && &w.at(i) == &a[s + i] && &c[i] == &a[s + i] && &c.at(i) == &a[s + i]);
      VC_ENSURES("first and last", &w.front() == &a[s] && &w.back() == &a[s + m - 1] && &c.front() == &a[s] && &c.back() == &a[s + m - 1]);
      VC_ENSURES("reversed iterators", &*w.rbegin() == &w.back() && &*c.rbegin() == &c.back() && &*(w.rend() - 1) == &w.front() && &*(c.rend() - 1) == &c.front());
    }
  } catch (const StandardException &) { VC_ENSURES("a window that fits is given", !fits || s == n); }
  try {
    Stencil<Dyn> x(a, s, m);
    VC_ENSURES("a window by index that does not fit throws", fits);
    VC_ENSURES("a window by index", x.size() == m && x.begin() == a.begin() + s);
  } catch (const StandardException &) { VC_ENSURES("a window by index that fits is given", !fits); }
}
VC_PROOF(P(window_of_window), "ecl::Stencil<ecl::Array<int, 0ul> >::stencil; ecl::Stencil<ecl::Array<int, 0ul> >::resettle; ecl::Stencil<ecl::Array<int, 0ul> >::operator=") {
  unsigned n = vc::any_uint("n"), s = vc::any_uint("start"), m = vc::any_uint("length"), t = vc::any_uint("second start"), l = vc::any_uint("second length"); VC_REQUIRES(n >= 1 && n <= LIM && s <= n && m <= n - s);
  Dyn a(n); Stencil<Dyn> w(a, s, m), o(a, 0, 1);
  unsigned i = vc::any_uint("i");
  VC_ENSURES("a window by index", w.size() == m && w.begin() == a.begin() + s);
  bool in_window = (unsigned long)t + l <= m, in_array = (unsigned long)s + t + l <= n;
  try {
    Stencil<Dyn> v = w.stencil(t, l);
    VC_ENSURES("a window that does not fit inside the array throws", in_array);
    VC_ENSURES("window of a window", v.size() == l && v.begin() == a.begin() + s + t);
    if (i < l) VC_ENSURES("window of a window: elements", &v[i] == &a[s + t + i]);
    o = v;
    VC_ENSURES("assignment moves a window of the same array", o.size() == l && o.begin() == v.begin());
  } catch (const StandardException &) { VC_ENSURES("a window that fits is given", !in_window || s + t == n); }
  try {
    w.resettle(t, l);
    VC_ENSURES("resettling outside the array throws", (unsigned long)t + l <= n);
    VC_ENSURES("resettled window", w.size() == l && w.begin() == a.begin() + t);
    if (i < l) VC_ENSURES("resettled window: elements", &w.at(i) == &a[t + i]);
  } catch (const StandardException &) { VC_ENSURES("resettling inside the array is accepted", (unsigned long)t + l > n); }
  try {
    Stencil<Dyn> x(a, a.begin() + t, a.begin() + t + l);
    VC_ENSURES("a window between iterators outside the array throws", (unsigned long)t + l <= n);
  } catch (const StandardException &) { VC_ENSURES("a window between iterators inside the array is given", (unsigned long)t + l > n); }
}
VC_BOUNDED(P(window_copy), "windows of up to 3 elements")
VC_PROOF(P(window_copy), "ecl::Stencil<ecl::Array<int, 0ul> >::operator=") {
  unsigned n = vc::choose("n", 0, 3), m = vc::choose("m", 0, 3);
  Dyn a(n + 2), b(m + 2); set(a, n + 2); set(b, m + 2);
  int av[5], bv[5]; for (unsigned i = 0; i < n + 2; ++i) av[i] = a[i]; for (unsigned i = 0; i < m + 2; ++i) bv[i] = b[i];
  Stencil<Dyn> x = a.stencil(1, n), y = b.stencil(1, m);
  bool thrown = throws([&] { x = y; });
  VC_ENSURES("a larger window is not copied", thrown == (m > n));
  for (unsigned i = 0; i < n + 2; ++i) VC_ENSURES("exactly the elements of the window are copied", a[i] == (!thrown && i >= 1 && i <= m ? bv[i] : av[i]));
  for (unsigned i = 0; i < m + 2; ++i) VC_ENSURES("the source stays", b[i] == bv[i]);
}
VC_PROOF(P(fixed_window), "ecl::Array<int, 6ul>::stencil; ecl::Stencil<ecl::Array<int, 6ul> >::at(unsigned long); ecl::Stencil<ecl::Array<int, 6ul> >::stencil; ecl::Stencil<ecl::Array<int, 6ul> >::resettle") {
  unsigned s = vc::any_uint("start"), m = vc::any_uint("length"), i = vc::any_uint("i");
  Array<int, 6> a; bool fits = (unsigned long)s + m <= 6;
  try {
    Stencil<Array<int, 6> > w = a.stencil(s, m);
    VC_ENSURES("a window that does not fit throws", fits);
    VC_ENSURES("window", w.size() == m && w.begin() == a.begin() + s);
    VC_ENSURES("checked access throws exactly when out of range", throws([&] { w.at(i); }) == (i >= m));
    if (i < m) VC_ENSURES("an element of the window is the element of the array", &w[i] == &a[s + i] && &w.at(i) == &a[s + i]);
    unsigned t = vc::any_uint("second start"), l = vc::any_uint("second length");
    bool ok = !throws([&] { w.stencil(t, l); });
    VC_ENSURES("a second window", !ok || (unsigned long)s + t + l <= 6);
    VC_ENSURES("resettling", throws([&] { w.resettle(t, l); }) == ((unsigned long)t + l > 6));
  } catch (const StandardException &) { VC_ENSURES("a window that fits is given", !fits || s == 6); }
}
VC_PROOF(P(raw_window), "ecl::Stencil<unsigned char*>::at(unsigned long); ecl::Stencil<unsigned char*>::operator[](unsigned long); ecl::Stencil<unsigned char const*>::at(unsigned long); ecl::Stencil<unsigned char*>::stencil; ecl::Stencil<unsigned char*>::resettle") {
  unsigned n = vc::any_uint("n"), s = vc::any_uint("start"), m = vc::any_uint("length"), i = vc::any_uint("i"), t = vc::any_uint("second start"), l = vc::any_uint("second length"); VC_REQUIRES(n >= 1 && n <= LIM);
  unsigned char *p = vc::fresh<unsigned char>("bytes", n); const unsigned char *q = p;
  bool fits = (unsigned long)s + m <= n;
  try {
    Stencil<unsigned char *> w(p, n, p + s, p + s + m);
    VC_ENSURES("a window that does not fit throws", fits);
    VC_ENSURES("checked access throws exactly when out of range", throws([&] { w.at(i); }) == (i >= m) && throws([&] { w[i]; }) == (i >= m) && w.size() == m);
    if (i < m) VC_ENSURES("elements", &w[i] == p + s + i && &w.at(i) == p + s + i);
    VC_ENSURES("a second window", throws([&] { w.stencil(t, l); }) == ((unsigned long)s + t + l > n));
    VC_ENSURES("resettling", throws([&] { w.resettle(t, l); }) == ((unsigned long)t + l > n));
  } catch (const StandardException &) { VC_ENSURES("a window that fits is given", !fits); }
  try {
    Stencil<const unsigned char *> w(q, n, q + s, q + s + m);
    VC_ENSURES("a constant window that does not fit throws", fits);
    VC_ENSURES("checked access of constants throws exactly when out of range", throws([&] { w.at(i); }) == (i >= m) && throws([&] { w[i]; }) == (i >= m) && w.size() == m);
    if (i < m) VC_ENSURES("constant elements", &w[i] == p + s + i && &w.at(i) == p + s + i);
    VC_ENSURES("a second constant window", throws([&] { w.stencil(t, l); }) == ((unsigned long)s + t + l > n));
  } catch (const StandardException &) { VC_ENSURES("a constant window that fits is given", !fits); }
}
