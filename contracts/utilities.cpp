// Contracts of ecl_utilities: flags, parameters, reference wrappers (C24).
// VC-ASSUME: enumerations used with Flags have a fixed underlying type, so that every int is a valid enumerator value
#include "vc.h"
#include <ecl/utilities/flags.hpp>
#include <ecl/utilities/parameter.hpp>
#include <ecl/utilities/references.hpp>
#include <ecl/utilities/singleton.hpp>

enum E : int { Zero = 0 };
typedef ecl::Flags<E> F;
static E anyE(const char *n) { return (E)vc::any_int(n); }

VC_PROOF(C24_flags_construct, "ecl::Flags<E>::Flags(E); ecl::Flags<E>::operator int; ecl::Flags<E>::Flags(ecl::Flags<E> const&); ecl::Flags<E>::operator=; ecl::Flags<E>::clear") {
  E a = anyE("a"), b = anyE("b");
  F f(a), g; 
  VC_ENSURES("default constructed set is empty", (int)g == 0);
  VC_ENSURES("a set built from a flag is that flag", (int)f == (int)a);
  F h(f);
  VC_ENSURES("copy construction yields an equal set", (int)h == (int)a && (int)f == (int)a);
  F &r = (g = f);
  VC_ENSURES("assignment copies the set and returns the target", (int)g == (int)a && &r == &g && (int)f == (int)a);
  F &q = (g = b);
  VC_ENSURES("assigning a flag replaces the set", (int)g == (int)b && &q == &g);
  g = *&g;
  VC_ENSURES("self assignment keeps the set", (int)g == (int)b);
  h.clear();
  VC_ENSURES("clear empties exactly this set", (int)h == 0 && (int)f == (int)a && (int)g == (int)b);
}
VC_PROOF(C24_flags_binary, "ecl::Flags<E>::operator&(int); ecl::Flags<E>::operator&(E); ecl::Flags<E>::operator|(ecl::Flags<E>); ecl::Flags<E>::operator|(E); ecl::Flags<E>::operator^(ecl::Flags<E>); ecl::Flags<E>::operator^(E); ecl::Flags<E>::operator~") {
  E a = anyE("a"), b = anyE("b"); int m = vc::any_int("mask");
  const F f(a), g(b);
  VC_ENSURES("set | set is the union", (int)(f | g) == ((int)a | (int)b));
  VC_ENSURES("set | flag is the union", (int)(f | b) == ((int)a | (int)b));
  VC_ENSURES("flag | set is the union", (int)(b | f) == ((int)a | (int)b));
  VC_ENSURES("set & flag is the intersection", (int)(f & b) == ((int)a & (int)b));
  VC_ENSURES("set & mask is the intersection", (int)(f & m) == ((int)a & m));
  VC_ENSURES("set ^ set is the symmetric difference", (int)(f ^ g) == ((int)a ^ (int)b));
  VC_ENSURES("set ^ flag is the symmetric difference", (int)(f ^ b) == ((int)a ^ (int)b));
  VC_ENSURES("~set is the complement", (int)(~f) == ~(int)a);
  VC_ENSURES("operands are not changed", (int)f == (int)a && (int)g == (int)b);
}
VC_PROOF(C24_flags_assign_forms, "ecl::Flags<E>::operator&=; ecl::Flags<E>::operator|=(ecl::Flags<E>); ecl::Flags<E>::operator|=(E); ecl::Flags<E>::operator^=(ecl::Flags<E>); ecl::Flags<E>::operator^=(E)") {
  E a = anyE("a"), b = anyE("b"); int m = vc::any_int("mask");
  F f(a), g(b), f1(a), f2(a), f3(a), f4(a), f5(a);
  F &r1 = (f1 &= m), &r2 = (f2 |= g), &r3 = (f3 |= b), &r4 = (f4 ^= g), &r5 = (f5 ^= b);
  VC_ENSURES("&= keeps exactly the masked flags", (int)f1 == ((int)a & m));
  VC_ENSURES("|= set adds the set", (int)f2 == ((int)a | (int)b));
  VC_ENSURES("|= flag adds the flag", (int)f3 == ((int)a | (int)b));
  VC_ENSURES("^= set toggles the set", (int)f4 == ((int)a ^ (int)b));
  VC_ENSURES("^= flag toggles the flag", (int)f5 == ((int)a ^ (int)b));
  VC_ENSURES("assignment forms return the target", &r1 == &f1 && &r2 == &f2 && &r3 == &f3 && &r4 == &f4 && &r5 == &f5);
  VC_ENSURES("the other operand is not changed", (int)g == (int)b && (int)f == (int)a);
  f |= f;
  VC_ENSURES("union with itself keeps the set", (int)f == (int)a);
  f ^= f;
  VC_ENSURES("symmetric difference with itself is empty", (int)f == 0);
}
VC_PROOF(C24_flags_test, "ecl::Flags<E>::testFlag") {
  E a = anyE("a"), b = anyE("b");
  const F f(a);
  bool t = f.testFlag(b);
  VC_COVER("set", t); VC_COVER("unset", !t);
  VC_ENSURES("a non empty flag tests as set iff it shares a bit with the set", (int)b == 0 || t == (((int)a & (int)b) != 0));
  VC_ENSURES("the empty flag tests as set iff the set is empty", (int)b != 0 || t == ((int)a == 0));
  bool t2 = (F(a) | b).testFlag(b);
  VC_ENSURES("a non empty flag added to a set tests as set", (int)b == 0 || t2);
  VC_ENSURES("a single bit removed from a set tests as unset", (int)b == 0 || !(F(a) & (int)~(int)b).testFlag(b));
  VC_ENSURES("testing does not change the set", (int)f == (int)a);
}

struct Rec { int x; double y; };
VC_PROOF(C24_parameter, "ecl::Parameter<int>::operator(); ecl::Parameter<int>::operator=; ecl::Parameter<double>::operator()") {
  int a = vc::any_int("a"), b = vc::any_int("b"), c = vc::any_int("c"); double d = vc::any_double("d"), e = vc::any_double("e");
  ecl::Parameter<int> p(a), q(b); ecl::Parameter<double> r(d); ecl::Parameter<int> z;
  const ecl::Parameter<int> &cp = p;
  VC_ENSURES("constructor stores the value", cp() == a && (const int &)cp == a && q() == b && r() == d);
  VC_ENSURES("default parameter is value initialised", z() == 0);
  p(b);
  VC_ENSURES("call setter stores the value", p() == b && q() == b);
  p = c;
  VC_ENSURES("assignment stores the value", p() == c && (const int &)p == c);
  VC_ENSURES("setting a parameter leaves others alone", q() == b && r() == d);
  r = e;
  VC_ENSURES("last value wins", r() == e);
  r(d); VC_ENSURES("last value wins (call)", r() == d);
  Rec x; x.x = a; x.y = d;
  ecl::Parameter<Rec> s(x); x.x = b;
  VC_ENSURES("parameter holds its own copy", s().x == a && s().y == d);
  ecl::Parameter<int> t(p); p = a;
  VC_ENSURES("a copied parameter is independent", t() == c && p() == a);
}
struct Amp { int v; Amp *operator&() { return 0; } };
VC_PROOF(C24_references, "ecl::ReferenceWrapper<int>::reference; ecl::ReferenceWrapper<int>::operator int&; ecl::ref; ecl::cref; ecl::addressOf; ecl::ReferenceWrapper<int>::pointer") {
  int a = vc::any_int("a"), b = vc::any_int("b"); int x = a, y = b;
  ecl::ReferenceWrapper<int> w(x);
  VC_ENSURES("a wrapper designates the wrapped object", &w.reference() == &x && &(int &)w == &x && w.pointer() == &x);
  ecl::ReferenceWrapper<int> v = ecl::ref(y), u(w);
  VC_ENSURES("ref designates its argument", &v.reference() == &y);
  VC_ENSURES("a copied wrapper designates the same object", &u.reference() == &x);
  w.reference() = b;
  VC_ENSURES("writing through a wrapper writes the object", x == b && y == b && (int &)u == b);
  (int &)w = a;
  VC_ENSURES("writing through the conversion writes the object", x == a && y == b);
  x = b;
  VC_ENSURES("the wrapper sees later writes to the object", w.reference() == b && (int &)u == b);
  ecl::ReferenceWrapper<int const> k = ecl::cref(y);
  VC_ENSURES("cref designates its argument", &k.reference() == &y && k.reference() == y);
  w = v;
  VC_ENSURES("assigning a wrapper rebinds it and leaves the objects alone", &w.reference() == &y && x == b && y == b);
  Amp am; am.v = a;
  ecl::ReferenceWrapper<Amp> aw(am);
  aw.reference().v = b;
  VC_ENSURES("an overloaded address operator does not mislead the wrapper", am.v == b);
}
struct One : public ecl::Singleton<One> { int v; One() : v(0) {} };
VC_PROOF(C24_singleton, "ecl::Singleton<One>::instance") {
  int a = vc::any_int("a");
  One &x = One::instance(); x.v = a; One &y = One::instance();
  VC_ENSURES("every call yields the one instance", &x == &y && y.v == a);
}
