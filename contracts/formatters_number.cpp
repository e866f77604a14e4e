// Contracts of the integer formatters (C09).
#include "vc.h"
#include "cout_stub.h"
#include <ecl_exceptions/src/lib/standard_exception.cpp>
#include "cmdline_stub.h"
#include <type_traits>
#include <ecl/formatters/common.hpp>
#include <ecl/formatters/number.hpp>
using namespace ecl;
struct Sink { char c[700]; int n; Sink() : n(0) {} void put(char x) { if (n < 700) c[n] = x; ++n; } };
static Sink &operator<<(Sink &s, char c) { s.put(c); return s; }
static Sink &operator<<(Sink &s, const char *t) { while (*t) s.put(*t++); return s; }
static Sink &operator<<(Sink &s, char *t) { return s << (const char *)t; }
template <class U> static int digits(U v, char *out) { int n = 0; do { out[n++] = (char)('0' + v % 10); v = (U)(v / 10); } while (v != 0); return n; }
// any value of T and its digits in a base
template <class T> struct Text { int n; char d[70]; T x; typedef typename std::make_unsigned<T>::type U;
  Text(IntegralBase b) {
    U m; vc::fill("magnitude", &m, 1); n = 0;
    if (b == Dec) {
      bool minus = std::is_signed<T>::value && vc::choose("minus", 0, 1);
      if (std::is_signed<T>::value) VC_REQUIRES(minus ? (m != 0) & (m <= (U)1 << (8 * sizeof(T) - 1)) : m < (U)1 << (8 * sizeof(T) - 1));
      x = (T)(minus ? (U)((U)0 - m) : m);
      char low[24]; int k = digits(m, low); if (minus) d[n++] = '-'; while (k) d[n++] = low[--k];
    } else {
      x = (T)m; d[n++] = '0'; d[n++] = b == Hex ? 'x' : 'b';
      if (b == Hex) for (int i = 2 * sizeof(T) - 1; i >= 0; --i) { int h = (int)((m >> 4 * i) & 15); d[n++] = (char)(h + (h < 10 ? '0' : 'a' - 10)); }
      else for (int i = 8 * sizeof(T) - 1; i >= 0; --i) d[n++] = (char)('0' + ((m >> i) & 1));
    }
  } };
// what is printed is the text, padded with blanks to the width
template <class X> static void printed(const Sink &s, const X &t, int w, Alignment a) {
  int total = w > t.n && a != NoAlign ? w : t.n, before = a == RightAlign ? total - t.n : a == CentreAlign ? total - t.n - (total - t.n) / 2 : 0;
  VC_ENSURES("exactly the width, and the whole text when it is wider", s.n == total);
  bool same = true;
  for (int i = 0; i < total; ++i) same &= s.c[i] == (i >= before && i < before + t.n ? t.d[i - before] : ' ');
  VC_ENSURES("the digits, padded with blanks on the named side", same);
}
template <class T> static void one(int k) {
  IntegralBase b = k == 0 ? Dec : k == 1 ? Hex : Bin;
  bool big = !VC_TIER && b == Dec && sizeof(T) >= 4;
  int how = vc::choose("how", big && sizeof(T) == 8 ? 2 : 0, 2);
  Text<T> t(b); Alignment a = (Alignment)vc::choose("align", LeftAlign, CentreAlign);
  int w = vc::any_in("w", -1000, 300); VC_REQUIRES((w <= t.n + (big ? 2 : 3)) | (!big & ((w == 90) | (w == 300))));
  if (big && sizeof(T) == 8) VC_REQUIRES(w >= t.n);
  w = w <= t.n ? w : (int)__vc_concretize(w, 0, 300);
  Sink s;
  if (how == 0) { Format<T> f(w, a, b); s << f(t.x); }
  else if (how == 1) { Format<T> f; f.base(b); f.width(w); f.align(a); s << f(t.x); }
  else { Format<T> f; s << f(t.x, w, a, b); }
  printed(s, t, w, a);
}
#define TYPE(k, T) case 3 * k: case 3 * k + 1: case 3 * k + 2: one<T>(__vc_case() % 3); break;
VC_CASES(C09_print, 27)
VC_BOUNDED(C09_print, "widths up to 3 more than the text, 90 and 300 (values unbounded)")
VC_PROOF(C09_print, "ecl::interfaces::FormatNumber") {
  switch (__vc_case()) { TYPE(0, int) TYPE(1, short) TYPE(2, long) TYPE(3, char) TYPE(4, signed char) TYPE(5, unsigned short) TYPE(6, unsigned int) TYPE(7, unsigned long) TYPE(8, unsigned char) }
}
// the settings of a formatter, as a history of settings leaves them
VC_CASES(C09_settings, 3)
VC_BOUNDED(C09_settings, "widths up to 12; histories of a one-off format between two values (thorough: 2)")
VC_PROOF(C09_settings, "ecl::interfaces::FormatNumber") {
  int k = __vc_case(); IntegralBase b = k == 0 ? Dec : k == 1 ? Hex : Bin;
  int w = vc::choose("w", 9, 10); Alignment a = (Alignment)vc::choose("align", LeftAlign, CentreAlign);
  Format<short> f(w, a, b);
  for (int i = vc::choose("one-offs", 0, 1 + VC_TIER); i > 0; --i) {
    Sink o; int w2 = 8; IntegralBase b2 = vc::choose("b2", 0, 1) ? Dec : Hex; Alignment a2 = (Alignment)vc::choose("a2", LeftAlign, RightAlign);
    struct { int n; char d[6]; } t; t.n = b2 == Dec ? 1 : 6;
    if (b2 == Dec) t.d[0] = '7'; else { t.d[0] = t.d[2] = t.d[3] = t.d[4] = '0'; t.d[1] = 'x'; t.d[5] = '7'; }
    if (vc::choose("with alignment", 0, 1)) { o << f(7, w2, a2, b2); printed(o, t, w2, a2); }
    else { o << f(7, w2, b2); printed(o, t, w2, a); }
  }
  Sink s; Text<short> t(b); VC_REQUIRES(t.n == (k == 0 ? 3 : k == 1 ? 6 : 18)); s << f(t.x); printed(s, t, w, a);
  Sink r; bool threw = false;
  try { r << f; } catch (const StandardException &e) { threw = e.flag() == UsageError; }
  VC_ENSURES("a value is printed once", threw && r.n == 0);
  Sink s2; s2 << f(t.x); printed(s2, t, w, a);
}
VC_PROOF(C09_no_value, "ecl::interfaces::FormatNumber") {
  Format<int> f(vc::any_int("w"), (Alignment)vc::any_in("a", NoAlign, CentreAlign), (IntegralBase)vc::any_in("b", Bin, Dec));
  Sink s; bool threw = false;
  try { s << f; } catch (const StandardException &e) { threw = e.flag() == UsageError; }
  VC_ENSURES("without a value nothing is printed", threw && s.n == 0);
  f(3, 4, LeftAlign, Dec); s << f; VC_ENSURES("with a value it is", s.n == 4);
  threw = false; Sink s2;
  try { s2 << f; } catch (const StandardException &e) { threw = e.flag() == UsageError; }
  VC_ENSURES("a value is printed once", threw && s2.n == 0);
}
VC_PROOF(C09_default_alignment, "ecl::interfaces::FormatNumber<int>::width; ecl::interfaces::FormatNumber<int>::align") {
  struct { int n; char d[1]; } t = {1, {'5'}};
  Sink a, b, c; Format<int> f; a << f(5); printed(a, t, 0, NoAlign);
  f.width(6); b << f(5); printed(b, t, 6, RightAlign);
  f.align(NoAlign); c << f(5); printed(c, t, 0, NoAlign);
}
