// Contracts of the function objects of ecl_utilities (C25).
#include "vc.h"
#include <ecl/utilities/references.hpp>
#include <ecl/utilities/function_objects.hpp>
using namespace ecl;

// every call is recorded: which function, on which object, with which arguments; results are arbitrary
static int calls; static const void *who; static int fn, arg1, arg2; static int result;
static int record(int f, const void *o, int a = 0, int b = 0) { ++calls; fn = f; who = o; arg1 = a; arg2 = b; return result; }
static int f0() { return record(1, 0); }
static void v0() { record(2, 0); }
static int f1(int a) { return record(3, 0, a); }
static void v1(int a) { record(4, 0, a); }
static int fr(const int &a) { return record(5, &a, a); }
static void vr(int &a) { record(6, &a, a); a = result; }
struct C {
  int pad, id; virtual ~C() {}
  int m0() { return record(11, this); }
  void w0() { record(12, this); }
  int m1(int a) { return record(13, this, a); }
  void w1(int a) { record(14, this, a); }
  int m2(int a, int b) { return record(15, this, a, b); }
  virtual int virt(int a) { return record(16, this, a); }
};
struct D : C { int virt(int a) { return record(17, this, a); } };
struct N { typedef int result_type; int k; int operator()() { return record(21, 0, k) + k++; } };
struct NV { typedef void result_type; int k; void operator()() { record(22, this, k); } };
struct U { typedef int result_type; typedef int argument_type; int k; int operator()(int a) { return record(23, this, a, k); } };
struct UV { typedef void result_type; typedef int argument_type; int k; void operator()(int a) { record(24, this, a, k); } };
static void once(int f, const void *o, int a = 0, int b = 0) {
  VC_ENSURES("the target is called exactly once", calls == 1);
  VC_ENSURES("the wrapped function is the one called", fn == f);
  VC_ENSURES("it is called on the bound object", who == o);
  VC_ENSURES("it receives the arguments in order", arg1 == a && arg2 == b);
  calls = 0;
}
#define RESULT(e) VC_ENSURES("the result is the target's", (e) == result)
#define SETUP int a = vc::any_int("a"), b = vc::any_int("b"); result = vc::any_int("result"); calls = 0; (void)a; (void)b

VC_PROOF(C25_free, "ecl::NullaryFreeFunction<int>::operator(); ecl::NullaryFreeFunction<void>::operator(); ecl::UnaryFreeFunction<int, int>::operator(); ecl::UnaryFreeFunction<int, void>::operator(); ecl::generateFunctionObject<int>; ecl::generateFunctionObject<int, int>") {
  SETUP;
  NullaryFreeFunction<int> n(f0), n2(n); RESULT(n()); once(1, 0); RESULT(n2()); once(1, 0);
  NullaryFreeFunction<void> v(v0); v(); once(2, 0);
  UnaryFreeFunction<int, int> u(f1), u2(u); RESULT(u(a)); once(3, 0, a); RESULT(u2(b)); once(3, 0, b);
  UnaryFreeFunction<int, void> uv(v1); uv(a); once(4, 0, a);
  NullaryFunction<int> &base = n; RESULT(base()); once(1, 0);
  UnaryFunction<int, int> &ubase = u; RESULT(ubase(b)); once(3, 0, b);
  RESULT(generateFunctionObject(f0)()); once(1, 0);
  generateFunctionObject(v0)(); once(2, 0);
  RESULT(generateFunctionObject(f1)(b)); once(3, 0, b);
  UnaryFreeFunction<const int &, int> r(fr); RESULT(r(a)); once(5, &a, a);
  int c = a; generateFunctionObject(vr)(c); once(6, &c, a); VC_ENSURES("a reference argument reaches the target itself", c == result);
}
VC_PROOF(C25_bound_free, "ecl::BoundUnaryFreeFunction<int, int>::operator(); ecl::BoundUnaryFreeFunction<int, void>::operator(); ecl::generateFunctionObject<int, int, int>") {
  SETUP; int c = a;
  BoundUnaryFreeFunction<int, int> u(f1, c), u2(u); c = b;
  RESULT(u()); once(3, 0, a); RESULT(u()); once(3, 0, a); RESULT(u2()); once(3, 0, a);
  BoundUnaryFreeFunction<int, void> v(v1, a); v(); once(4, 0, a);
  RESULT(generateFunctionObject(f1, a)()); once(3, 0, a);
  RESULT(generateFunctionObject(f1, (const int &)a)()); once(3, 0, a);
  generateFunctionObject(v1, b)(); once(4, 0, b);
  NullaryFunction<int> &base = u; RESULT(base()); once(3, 0, a);
}
VC_PROOF(C25_member, "ecl::NullaryMemberFunction<C, int>::operator(); ecl::NullaryMemberFunction<C, void>::operator(); ecl::UnaryMemberFunction<C, int, int>::operator(); ecl::UnaryMemberFunction<C, int, void>::operator()") {
  SETUP; C x, y; D d;
  NullaryMemberFunction<C, int> n(&C::m0), n2(n); RESULT(n(x)); once(11, &x); RESULT(n2(y)); once(11, &y);
  NullaryMemberFunction<C, void> v(&C::w0); v(y); once(12, &y);
  UnaryMemberFunction<C, int, int> u(&C::m1), u2(u); RESULT(u(x, a)); once(13, &x, a); RESULT(u2(y, b)); once(13, &y, b);
  UnaryMemberFunction<C, int, void> w(&C::w1); w(x, a); once(14, &x, a);
  RESULT(generateFunctionObject(&C::m0)(x)); once(11, &x);
  generateFunctionObject(&C::w1)(y, a); once(14, &y, a);
  RESULT(generateFunctionObject(&C::virt)(d, a)); once(17, &d, a);
  RESULT(generateFunctionObject(&C::virt)(x, a)); once(16, &x, a);
}
VC_PROOF(C25_bound_member, "ecl::BoundNullaryMemberFunction<C, int>::operator(); ecl::BoundNullaryMemberFunction<C, void>::operator(); ecl::PartiallyBoundUnaryMemberFunction<C, int, int>::operator(); ecl::BoundUnaryMemberFunction<C, int, int>::operator(); ecl::PartiallyBoundBinaryMemberFunction<C, int, int, int>::operator()") {
  SETUP; C x, y; D d;
  BoundNullaryMemberFunction<C, int> n(&C::m0, x), n2(n); RESULT(n()); once(11, &x); RESULT(n2()); once(11, &x);
  BoundNullaryMemberFunction<C, void> v(&C::w0, y); v(); once(12, &y);
  PartiallyBoundUnaryMemberFunction<C, int, int> p(&C::m1, x), p2(p); RESULT(p(a)); once(13, &x, a); RESULT(p2(b)); once(13, &x, b);
  PartiallyBoundUnaryMemberFunction<C, int, void> pv(&C::w1, y); pv(a); once(14, &y, a);
  int c = a;
  BoundUnaryMemberFunction<C, int, int> u(&C::m1, y, c), u2(u); c = b; RESULT(u()); once(13, &y, a); RESULT(u2()); once(13, &y, a);
  BoundUnaryMemberFunction<C, int, void> uv(&C::w1, x, b); uv(); once(14, &x, b);
  PartiallyBoundBinaryMemberFunction<C, int, int, int> q(&C::m2, x); RESULT(q(a, b)); once(15, &x, a, b);
  RESULT(generateFunctionObject(&C::m0, x)()); once(11, &x);
  RESULT(generateFunctionObject(&C::m1, y)(a)); once(13, &y, a);
  RESULT(generateFunctionObject(&C::m1, y, b)()); once(13, &y, b);
  RESULT(generateFunctionObject(&C::virt, (C &)d, (const int &)a)()); once(17, &d, a);
}
VC_PROOF(C25_copies, "ecl::NullaryFunctionReference<N, int>::operator(); ecl::NullaryFunctionCopy<N, int>::operator(); ecl::UnaryFunctionCopy<U, int, int>::operator(); ecl::UnaryFunctionReference<U, int, int>::operator()") {
  SETUP; VC_REQUIRES(a > -1000 && a < 1000 && result > -1000 && result < 1000);
  N n = { a };
  NullaryFunctionCopy<N, int> c(n); NullaryFunctionReference<N, int> r(ref(n));
  VC_ENSURES("a copy calls its own object", c() == result + a); once(21, 0, a);
  VC_ENSURES("a copy keeps its own state", c() == result + a + 1 && n.k == a); once(21, 0, a + 1);
  VC_ENSURES("a reference calls the original", r() == result + a && n.k == a + 1); once(21, 0, a);
  NV v = { a }; NullaryFunctionCopy<NV, void> vc_(v); v.k = b; vc_(); VC_ENSURES("a copy is not the original", calls == 1 && fn == 22 && who != &v && arg1 == a); calls = 0;
  NullaryFunctionReference<NV, void> vr_(ref(v)); vr_(); once(22, &v, b);
  U u = { a }; UnaryFunctionCopy<U, int, int> uc(u); u.k = a + 1; RESULT(uc(b)); VC_ENSURES("a copy is called with the argument", calls == 1 && fn == 23 && who != &u && arg1 == b && arg2 == a); calls = 0;
  UnaryFunctionReference<U, int, int> ur(ref(u)); RESULT(ur(b)); once(23, &u, b, a + 1);
  UV w = { a }; UnaryFunctionCopy<UV, int, void> wc(w); wc(b); VC_ENSURES("a void copy is called with the argument", calls == 1 && fn == 24 && arg1 == b && arg2 == a); calls = 0;
  UnaryFunctionReference<ReferenceWrapper<UV>, int, void> wr(ref(w)); wr(b); once(24, &w, b, a);
}
