// Contracts of the ring buffer (C03) and the push and pop queue (C04).
// Every state of a buffer of a given length is reached: the cursor by pushes, the elements by assignment to the elements.
#include <string>
#include "vc.h"
#include <ecl/containers/array.hpp>
#include <ecl/containers/fifo.hpp>
#include <ecl/containers/push_and_pop.hpp>
#include <ecl_exceptions/src/lib/standard_exception.cpp>
using namespace ecl;
template<class F> static bool throws(F f) { try { f(); } catch (const StandardException &) { return true; } return false; }
static const int LENGTHS = 6;
static unsigned length() { static const unsigned l[LENGTHS] = { 1, 2, 3, 4, 5, 300 }; return l[vc::choose("length", 0, LENGTHS - 1)]; }

// ---------------------------------------------------------------- ring buffer
// any state: the number of pushes decides the cursor, the elements are arbitrary
template<class T> struct AnyFifo {
  FiFo<T> f; unsigned n; T v[8];
  AnyFifo(unsigned n) : f(n), n(n) {
    unsigned k = vc::choose("pushes", 0, n <= 5 ? n : 2);
    if (n > 5 && k == 2) k = n - 1;
    for (unsigned i = 0; i < k; ++i) f.push_back((T)i);
    for (unsigned i = 0; i < n && i < 8; ++i) { v[i] = (T)vc::any_int("element"); f[i] = v[i]; }
  }
};
VC_BOUNDED(C03_push, "lengths 1 to 5 and 300, every cursor position of lengths up to 5")
VC_PROOF(C03_push, "ecl::FiFo<int>::push_back; ecl::FiFo<int>::operator[](int); ecl::FiFo<int>::FiFo(unsigned int)") {
  AnyFifo<int> a(length()); FiFo<int> &f = a.f; const FiFo<int> &c = f; unsigned n = a.n;
  for (unsigned i = 0; i < n && i < 8; ++i) VC_ENSURES("an element assigned is read back", f[i] == a.v[i] && c[i] == a.v[i]);
  if (n > 8) { int w = vc::any_int("last"); f[n - 1] = w; f[n - 2] = a.v[7]; VC_ENSURES("an element assigned is read back", f[n - 1] == w && f[n - 2] == a.v[7] && f[0] == a.v[0]); f[8] = 8; f[n - 1] = a.v[0]; }
  int x = vc::any_int("x");
  f.push_back(x);
  VC_ENSURES("the newest element is last", f[n - 1] == x && c[n - 1] == x);
  for (unsigned i = 0; i + 1 < n && i < 7; ++i) VC_ENSURES("a push shifts every other element by one", f[i] == a.v[i + 1] && c[i] == a.v[i + 1]);
  if (n > 8) VC_ENSURES("a push shifts every other element by one (long)", f[7] == 8 && f[n - 2] == a.v[0] && f[n - 3] == a.v[7]);
  int y = vc::any_int("y");
  f.push_back(y);
  VC_ENSURES("two pushes", f[n - 1] == y && (n < 2 || f[n - 2] == x));
  for (unsigned i = 0; i + 2 < n && i < 6; ++i) VC_ENSURES("two pushes shift by two", f[i] == a.v[i + 2]);
  VC_ENSURES("the cursor stays inside", f.get_idx() < n);
}
VC_BOUNDED(C03_fill, "lengths 1 to 5 and 300")
VC_PROOF(C03_fill, "ecl::FiFo<int>::fill; ecl::FiFo<int>::FiFo(unsigned int, int const&)") {
  AnyFifo<int> a(length()); int x = vc::any_int("x"), y = vc::any_int("y");
  a.f.fill(x);
  for (unsigned i = 0; i < a.n; ++i) VC_ENSURES("filling makes every element the value", a.f[i] == x);
  a.f.push_back(y);
  for (unsigned i = 0; i + 1 < a.n; ++i) VC_ENSURES("a push after filling", a.f[i] == x);
  VC_ENSURES("the newest element is last", a.f[a.n - 1] == y);
  FiFo<int> b(a.n, x);
  for (unsigned i = 0; i < a.n; ++i) VC_ENSURES("a buffer constructed with a value has it everywhere", b[i] == x);
  b.push_back(y);
  VC_ENSURES("the newest element is last (constructed with a value)", b[a.n - 1] == y && (a.n < 2 || b[0] == x));
}
VC_BOUNDED(C03_resize, "lengths 0 to 5")
VC_PROOF(C03_resize, "ecl::FiFo<int>::resize") {
  unsigned n = vc::choose("first length", 0, 5), m = vc::choose("second length", 0, 5), k = vc::choose("pushes", 0, 5);
  FiFo<int> f(n); if (n == 0) k = 0;
  for (unsigned i = 0; i < k; ++i) f.push_back(vc::any_int("old"));
  bool t = throws([&] { f.resize(m); });
  VC_ENSURES("only an empty length is refused", t == (m == 0));
  if (m == 0) m = n;
  if (m == 0) return;
  int v[12]; unsigned p = vc::choose("later pushes", 0, 2) ? m + 1 : m;
  if (t) VC_ENSURES("a refused length leaves the buffer usable", f.get_idx() < m);
  for (unsigned i = 0; i < p; ++i) { v[i] = vc::any_int("new"); f.push_back(v[i]); }
  for (unsigned i = 0; i < m; ++i) VC_ENSURES("after a change of length the last elements are there, oldest first", f[i] == v[p - m + i]);
}
VC_BOUNDED(C03_other_types, "length 3")
VC_PROOF(C03_other_types, "ecl::FiFo<double>::push_back; ecl::FiFo<unsigned char>::push_back") {
  FiFo<double> d(3); FiFo<unsigned char> u(3, 7);
  double x[4]; unsigned char y[4]; for (int i = 0; i < 4; ++i) { x[i] = vc::any_double("x"); y[i] = vc::any_uchar("y"); }
  VC_ENSURES("constructed with a value", u[0] == 7 && u[2] == 7);
  for (int i = 0; i < 4; ++i) { d.push_back(x[i]); u.push_back(y[i]); }
  for (int i = 0; i < 3; ++i) VC_ENSURES("the last elements, oldest first", d[i] == x[i + 1] && u[i] == y[i + 1]);
}
// ---------------------------------------------------------------- push and pop queue
// any state of a queue of capacity c: k elements displaced or popped before, n elements inside
template<class Q> static void run_to(Q &q, unsigned shift, unsigned n, int *v) {
  for (unsigned i = 0; i < shift; ++i) { q.push_back(i); q.pop_front(); }
  for (unsigned i = 0; i < n; ++i) { v[i] = vc::any_int("element"); q.push_back(v[i]); }
}
template<class Q> static void queue_ops(Q &q, Q &other, unsigned c) {
  int v[16]; unsigned shift = c ? vc::choose("shift", 0, c + 1) : 0, n = vc::choose("elements", 0, c);
  run_to(q, shift, n, v);
  const Q &k = q;
  VC_ENSURES("size is the number of elements inside", q.size() == n);
  for (unsigned i = 0; i < n; ++i) VC_ENSURES("indexing counts from the oldest", q[i] == v[i] && k[i] == v[i]);
  int x = vc::any_int("x");
  switch (vc::choose("operation", 0, 6)) {
  case 0: {
    q.push_back(x);
    unsigned lost = n == c; 
    VC_ENSURES("a push grows the queue unless it is full", q.size() == n + 1 - lost);
    for (unsigned i = 0; i + lost < n; ++i) VC_ENSURES("a push displaces only the oldest element of a full queue", q[i] == v[i + lost]);
    VC_ENSURES("the element pushed is the newest", c == 0 || q[n - lost] == x);
    for (unsigned i = lost; i < n; ++i) VC_ENSURES("pops after a push deliver in order", q.pop_front() == v[i]);
    if (c) VC_ENSURES("the last pop delivers the element pushed", q.pop_front() == x);
    VC_ENSURES("all popped", q.size() == 0);
    break; }
  case 1: {
    int got = 0; bool t = throws([&] { got = q.pop_front(); });
    VC_ENSURES("only an empty queue refuses to pop", t == (n == 0));
    if (n) VC_ENSURES("a pop delivers the oldest element", got == v[0] && q.size() == n - 1);
    for (unsigned i = 1; i < n; ++i) VC_ENSURES("a pop leaves the others", q[i - 1] == v[i]);
    if (!n && c) { VC_ENSURES("a refused pop leaves an empty queue", q.size() == 0); q.push_back(x); VC_ENSURES("usable after a refused pop", q.size() == 1 && q[0] == x && q.pop_front() == x && q.size() == 0); }
    break; }
  case 2:
    q.clear();
    VC_ENSURES("a cleared queue is empty", q.size() == 0 && throws([&] { q.pop_front(); }));
    if (c) { q.push_back(x); VC_ENSURES("a cleared queue can be used", q.size() == 1 && q[0] == x && q.pop_front() == x); }
    break;
  case 3:
    q.fill(x);
    VC_ENSURES("filling keeps the size", q.size() == n);
    for (unsigned i = 0; i < n; ++i) VC_ENSURES("filling makes every element the value", q[i] == x);
    if (n) VC_ENSURES("the value is popped", q.pop_front() == x && q.size() == n - 1);
    break;
  case 4: {
    Q o(q);
    VC_ENSURES("a copy has the same size", o.size() == n);
    for (unsigned i = 0; i < n; ++i) VC_ENSURES("a copy delivers the same elements", o.pop_front() == v[i]);
    VC_ENSURES("popping a copy leaves the original", q.size() == n && (n == 0 || q[0] == v[0]));
    break; }
  case 6: {
    for (unsigned i = 0; i < c; ++i) { other.push_back(i); if (i == 1) other.pop_front(); }
    other(q);
    VC_ENSURES("a queue copied into another of the same capacity has the same size", other.size() == n);
    for (unsigned i = 0; i < n; ++i) VC_ENSURES("a queue copied into another delivers the same elements", other.pop_front() == v[i]);
    VC_ENSURES("popping a copy leaves the original", q.size() == n && (n == 0 || q[0] == v[0]));
    break; }
  case 5:
    for (unsigned i = 0; i < n; ++i) if (vc::choose("assign", 0, 1)) { q[i] = x; v[i] = x; break; }
    for (unsigned i = 0; i < n; ++i) VC_ENSURES("assigning an element changes that element only", q.pop_front() == v[i]);
    break;
  }
}
VC_CASES(C04_dynamic, 7)
VC_BOUNDED(C04_dynamic, "capacities 0 to 6, every position of the cursors")
VC_PROOF(C04_dynamic, "ecl::PushAndPop<int, 0ul>::push_back; ecl::PushAndPop<int, 0ul>::pop_front; ecl::PushAndPop<int, 0ul>::size; ecl::PushAndPop<int, 0ul>::operator[](int); ecl::PushAndPop<int, 0ul>::clear; ecl::PushAndPop<int, 0ul>::fill") {
  unsigned c = __vc_case(); PushAndPop<int> q(c), o(c); queue_ops(q, o, c);
}
VC_CASES(C04_fixed, 2)
VC_BOUNDED(C04_fixed, "capacities 1 and 4, every position of the cursors")
VC_PROOF(C04_fixed, "ecl::PushAndPop<int, 1ul>::push_back; ecl::PushAndPop<int, 4ul>::push_back; ecl::PushAndPop<int, 4ul>::pop_front; ecl::PushAndPop<int, 4ul>::size; ecl::PushAndPop<int, 4ul>::operator[](int); ecl::PushAndPop<int, 4ul>::clear; ecl::PushAndPop<int, 4ul>::fill") {
  if (__vc_case()) { PushAndPop<int, 4> q, o; queue_ops(q, o, 4); } else { PushAndPop<int, 1> q, o; queue_ops(q, o, 1); }
}
VC_BOUNDED(C04_long, "capacity 300")
VC_PROOF(C04_long, "ecl::PushAndPop<int, 0ul>::push_back; ecl::PushAndPop<int, 300ul>::push_back") {
  PushAndPop<int> q(300); PushAndPop<int, 300> p; int x[3];
  for (int i = 0; i < 3; ++i) x[i] = vc::any_int("x");
  int shift = vc::choose("shift", 0, 1) * 298;
  for (int i = 0; i < shift; ++i) { q.push_back(i); p.push_back(i); q.pop_front(); p.pop_front(); }
  for (int i = 0; i < 301; ++i) { q.push_back(i < 3 ? x[i] : i); p.push_back(i < 3 ? x[i] : i); }
  VC_ENSURES("full", q.size() == 300 && p.size() == 300);
  VC_ENSURES("the oldest was displaced", q[0] == x[1] && p[0] == x[1] && q[1] == x[2] && p[1] == x[2] && q[2] == 3 && q[299] == 300 && p[299] == 300);
  VC_ENSURES("popped in order", q.pop_front() == x[1] && p.pop_front() == x[1] && q.pop_front() == x[2] && p.pop_front() == x[2] && q.size() == 298 && p.size() == 298);
  for (int i = 3; i <= 300; ++i) VC_ENSURES("popped in order (long)", q.pop_front() == i && p.pop_front() == i);
  VC_ENSURES("empty at last", q.size() == 0 && p.size() == 0);
}
VC_BOUNDED(C04_value_constructors, "capacity 3")
VC_PROOF(C04_value_constructors, "ecl::PushAndPop<int, 0ul>::PushAndPop(unsigned int, int const&); ecl::PushAndPop<int, 3ul>::PushAndPop(int const&)") {
  int x = vc::any_int("x"), y = vc::any_int("y");
  PushAndPop<int> q(3, x); PushAndPop<int, 3> p(x);
  VC_ENSURES("a new queue is empty", q.size() == 0 && p.size() == 0);
  q.push_back(y); p.push_back(y);
  VC_ENSURES("one element", q.size() == 1 && p.size() == 1 && q[0] == y && p[0] == y && q.pop_front() == y && p.pop_front() == y);
}
VC_BOUNDED(C04_resize, "capacities 0 to 4")
VC_PROOF(C04_resize, "ecl::PushAndPop<int, 0ul>::resize; ecl::PushAndPop<int, 0ul>::PushAndPop()") {
  int v[8], w[8]; unsigned c = vc::choose("capacity", 0, 4), shift = vc::choose("shift", 0, 3), n = vc::choose("elements", 0, 4), m = vc::choose("new capacity", 1, 4);
  PushAndPop<int> q(c), e; PushAndPop<int> &r = vc::choose("default constructed", 0, 1) ? e : q;
  if (&r == &q) { if (n > c || (c == 0 && shift)) return; run_to(q, shift, n, v); } else if (n || shift || c) return;
  r.resize(m);
  unsigned left = r.size();
  VC_ENSURES("a resized queue holds no more than was inside and fits", left <= n && left <= m);
  for (unsigned i = 0; i < left; ++i) VC_ENSURES("what remains after a resize is not corrupted", r[i] == v[n - left + i] || r[i] == v[i]);
  while (r.size()) r.pop_front();
  unsigned k = vc::choose("pushes", 0, 5); unsigned lost = k > m ? k - m : 0;
  for (unsigned i = 0; i < k; ++i) { w[i] = vc::any_int("new"); r.push_back(w[i]); }
  VC_ENSURES("size after a resize", r.size() == k - lost);
  for (unsigned i = lost; i < k; ++i) VC_ENSURES("the new capacity is used, elements come in order", r.pop_front() == w[i]);
}
