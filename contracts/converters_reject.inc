// What the byte array converters reject, shared by the build with exceptions and the one without (P() gives the proofs their names).
#include "vc.h"
#include <vector>
#include "cout_stub.h"
#include <ecl_exceptions/src/lib/standard_exception.cpp>
#include <ecl/converters.hpp>
using namespace ecl;
template <class V> static unsigned char at(const V &v, int i) { return (unsigned char)v[i]; }
static size_t length(const char *what) { size_t n = vc::any_ulong(what); VC_REQUIRES(n <= 1ul << 30); return n; }
template <class I, class B> static void wrong_size() {
  size_t len = length("len"), i = vc::any_ulong("i"); VC_REQUIRES(len != sizeof(I));
  B fill = (B)vc::any_uchar("fill"), other = (B)vc::any_uchar("other");
  std::vector<B> b(len, fill); if (i < len) b[i] = other;
  I x; vc::fill("x", &x, 1);
  Converter<std::vector<B>, I> to; bool threw = false;
  try { to(b, x); } catch (const StandardException &e) { threw = e.flag() == ConversionError; }
  VC_COVER("too short", len < sizeof(I)); VC_COVER("too long", len > sizeof(I));
  VC_ENSURES("an array of the wrong size is rejected", threw || to.error().flag() == ConversionError);
  VC_ENSURES("and left alone", b.size() == len);
  size_t j = vc::any_ulong("j"); if (j < len) VC_ENSURES("and left alone", b[j] == (j == i ? other : fill));
}
template <class I, class B> static void too_long() {
  size_t len = length("len"); VC_REQUIRES(len > sizeof(I));
  std::vector<B> b(len, (B)vc::any_uchar("fill"));
  Converter<I, std::vector<B> > from; bool threw = false;
  try { from(b); } catch (const StandardException &e) { threw = e.flag() == ConversionError; }
  VC_ENSURES("an array too long for the type is rejected", threw || from.error().flag() == ConversionError);
}
#define THREE(k, F, I) case 3 * k: F<I, char>(); break; case 3 * k + 1: F<I, unsigned char>(); break; case 3 * k + 2: F<I, signed char>(); break;
#define EACH(F) THREE(0, F, int) THREE(1, F, unsigned int) THREE(2, F, long) THREE(3, F, unsigned long) THREE(4, F, long long)
#define EACH2(F) THREE(5, F, short) THREE(6, F, unsigned short) THREE(7, F, unsigned long long) THREE(8, F, char) THREE(9, F, unsigned char)
VC_CASES(P(wrong_size), 15)
VC_PROOF(P(wrong_size), "ecl::converters::IntegralToByteArray") { switch (__vc_case()) { EACH(wrong_size) } }
VC_CASES(P(too_long), 30)
VC_PROOF(P(too_long), "ecl::converters::FromByteArray") { switch (__vc_case()) { EACH(too_long) EACH2(too_long) } }
static int hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
// anything else is rejected
VC_CASES(P(hex_text), VC_TIER ? 6 : 5)
VC_BOUNDED(P(hex_text), "every text of up to 5 characters (thorough: 6)")
VC_PROOF(P(hex_text), "ecl::Converter<std::vector<char, std::allocator<char> >, char*>::operator()(char const*)") {
  int n = __vc_case() + 1; char s[8]; 
  for (int i = 0; i < n; ++i) { s[i] = vc::any_char("c"); VC_REQUIRES(s[i] != 0); }
  s[n] = 0;
  int st = 0; bool ok = true; size_t bytes = 0;      // blanks or 0xHH
  for (int i = 0; i < n && ok; ++i) {
    if (st == 0) { if (s[i] == '0') st = 1; else ok = s[i] == ' '; }
    else if (st == 1) { ok = s[i] == 'x'; st = 2; }
    else { ok = hex(s[i]) >= 0; st = st == 2 ? 3 : 0; if (st == 0) ++bytes; }
  }
  ok = ok && st == 0;
  Converter<std::vector<char>, char*> c; bool threw = false; std::vector<char> b;
  try { b = c(s); } catch (const StandardException &e) { threw = e.flag() == ConversionError; }
  bool rejected = threw || c.error().flag() == ConversionError;
  VC_ENSURES("a text is rejected iff it is not a list of bytes", rejected == !ok);
  if (ok) VC_ENSURES("one byte per token", b.size() == bytes); else VC_ENSURES("nothing is delivered from a bad text", b.empty());
}
