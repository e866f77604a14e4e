// Contracts of the integer to text converters (C08).
#include "vc.h"
#include <string>
#include "cout_stub.h"
#include <ecl_exceptions/src/lib/standard_exception.cpp>
#include "cmdline_stub.h"
#include <ecl/converters.hpp>
#include <type_traits>
using namespace ecl;
// the decimal digits of v, lowest first: the last digit of v, then those of v / 10
template <class U> static int digits(U v, char *out) { int n = 0; do { out[n++] = (char)('0' + v % 10); v = (U)(v / 10); } while (v != 0); return n; }
// any value of T (x), by sign and magnitude, and its decimal text
template <class T> struct Wide { bool minus; int n; char d[24]; T x; typedef typename std::make_unsigned<T>::type U;
  Wide() {
    U m; vc::fill("magnitude", &m, 1); minus = std::is_signed<T>::value && vc::choose("minus", 0, 1);
    if (std::is_signed<T>::value) VC_REQUIRES(minus ? (m != 0) & (m <= (U)1 << (8 * sizeof(T) - 1)) : m < (U)1 << (8 * sizeof(T) - 1));
    x = (T)(minus ? (U)((U)0 - m) : m); n = digits(m, d);
  }
  int length() const { return n + minus; }
  char at(int i) const { return minus && i == 0 ? '-' : d[n - 1 - (i - minus)]; } };
template <class T, class C> static void text() {
  Wide<T> w; T x = w.x;
  long size = vc::any_in("size", 1, 1 << 30);        // including the terminator
  char *b = vc::fresh<char>("b", size); 
  long k = vc::any_in("k", 0, 1 << 30); VC_REQUIRES(k < size); char before = b[k];
  C c(b, b + size - 1);
  char *s = c(x);
  bool fits = w.length() <= size - 1;
  VC_COVER("fits", fits); VC_COVER("too small", !fits);
  VC_ENSURES("a text that does not fit is reported, any other is delivered", (s == 0) == !fits);
  if (fits) {
    VC_ENSURES("inside the buffer", s >= b && s + w.length() < b + size);
    for (int i = 0; i < w.length(); ++i) VC_ENSURES("the decimal text", s[i] == w.at(i));
    VC_ENSURES("terminated", s[w.length()] == '\0');
    if (k < s - b || k > s - b + w.length()) VC_ENSURES("the rest of the buffer is left alone", b[k] == before);
  }
}
#define EACH(F) case 0: F(char) break; case 1: F(unsigned char) break; case 2: F(short) break; case 3: F(unsigned short) break; case 4: F(int) break; case 5: F(unsigned int) break; \
  case 6: F(long) break; case 7: F(unsigned long) break; case 8: F(long long) break; case 9: F(unsigned long long) break;
#define TEXT(T) text<T, Converter<char *, T> >();
#define VTEXT(T) text<T, Converter<char *, void> >();
VC_CASES(C08_text, 10)
VC_PROOF(C08_text, "ecl::converters::convertUnsignedIntegral; ecl::converters::convertSignedIntegral; ecl::converters::CharStringBuffer::CharStringBuffer(char*, char*)") { switch (__vc_case()) { EACH(TEXT) } }
VC_CASES(C08_text_any, VC_TIER ? 10 : 6)
VC_PROOF(C08_text_any, "ecl::converters::convertUnsignedIntegral; ecl::converters::convertSignedIntegral; ecl::Converter<char*, void>::Converter(char*, char*)") { switch (__vc_case()) { EACH(VTEXT) } }
// a converter with a buffer of its own
template <class T, class C> static void own() {
  Wide<T> w; T x = w.x; int size = vc::any_in("size", 1, 1 << 30);
  __vc_heap_mark();
  {
    C c(size); char *s = c(x);
    bool fits = w.length() <= size - 1;
    VC_ENSURES("a text that does not fit is reported, any other is delivered", (s == 0) == !fits);
    if (fits) {
      for (int i = 0; i < w.length(); ++i) VC_ENSURES("the decimal text", s[i] == w.at(i));
      VC_ENSURES("terminated", s[w.length()] == '\0');
    }
    C d; s = d(x);
    VC_ENSURES("the buffer a converter has by default is big enough for any number", s != 0);
    for (int i = 0; i < w.length(); ++i) VC_ENSURES("the decimal text", s[i] == w.at(i));
    VC_ENSURES("terminated", s[w.length()] == '\0');
  }
  VC_ENSURES("the buffer is released", __vc_no_leak());
}
#define OWN(T) own<T, Converter<char *, T> >();
VC_CASES(C08_own_buffer, VC_TIER ? 10 : 6)
VC_PROOF(C08_own_buffer, "ecl::converters::CharStringBuffer::CharStringBuffer(int); ecl::converters::CharStringBuffer::~CharStringBuffer") { switch (__vc_case()) { EACH(OWN) } }
VC_PROOF(C08_string, "ecl::Converter<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >, int>::operator()(int const&)") {
  Wide<int> w; int x = w.x;
  Converter<std::string> c; std::string s = c(x);
  VC_ENSURES("as long as the decimal text", s.size() == (size_t)w.length());
  for (int i = 0; i < w.length(); ++i) VC_ENSURES("the decimal text", s[i] == w.at(i));
}
VC_PROOF(C08_bool, "ecl::Converter<char*, bool>::operator()(bool const&)") {
  bool x = vc::any_bool("x"); const char *want = x ? "true" : "false";
  Converter<char *, bool> a; const char *s = a(x); int n = x ? 4 : 5;
  for (int i = 0; i <= n; ++i) VC_ENSURES("true or false", s[i] == want[i]);
  s = a(!x); want = x ? "false" : "true"; n = x ? 5 : 4;
  for (int i = 0; i <= n; ++i) VC_ENSURES("true or false", s[i] == want[i]);
  Converter<char *, void> v; s = v(x); want = x ? "true" : "false"; n = x ? 4 : 5;
  for (int i = 0; i <= n; ++i) VC_ENSURES("true or false", s[i] == want[i]);
}
VC_CASES(C08_digit, 3)
VC_PROOF(C08_digit, "ecl::Converter<char, int>::operator()(int const&); ecl::Converter<char, unsigned int>::operator()(unsigned int const&); ecl::Converter<int, char>::operator()(char)") {
  bool threw = false;
  if (__vc_case() == 0) {
    int i = vc::any_int("i"); Converter<char> c; char d = 0; bool ok = i >= 0 && i <= 9; Converter<char, int> e;
    try { d = c(i); } catch (const StandardException &) { threw = true; }
    VC_ENSURES("what is not a digit is rejected", threw == !ok);
    if (ok) VC_ENSURES("the digit of the value", d == '0' + i);
    if (ok) { Converter<int, char> back; VC_ENSURES("the digit converts back", back(d) == i); }
  } else if (__vc_case() == 1) {
    unsigned i = vc::any_uint("i"); Converter<char> c; char d = 0; bool ok = i <= 9;
    try { d = c(i); } catch (const StandardException &) { threw = true; }
    VC_ENSURES("what is not a digit is rejected", threw == !ok);
    if (ok) VC_ENSURES("the digit of the value", d == (char)('0' + i));
  } else {
    char d = vc::any_char("d"); bool ok = d >= '0' && d <= '9'; Converter<int> c; int i = -1;
    try { i = c(d); } catch (const StandardException &) { threw = true; }
    VC_ENSURES("what is not a digit is rejected", threw == !ok);
    if (ok) VC_ENSURES("the value of the digit", i == d - '0');
  }
}
// and back from text
VC_CASES(C08_from_text, VC_TIER ? 5 : 4)
VC_BOUNDED(C08_from_text, "every text of up to 3 characters (thorough: 4)")
VC_PROOF(C08_from_text, "ecl::Converter<int, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > >::operator()") {
  int n = __vc_case(); std::string s;
  for (int i = 0; i < n; ++i) s += vc::any_char("c");
  int k = 0; while (k < n && (s[k] == ' ' || (s[k] >= 9 && s[k] <= 13))) ++k;
  bool minus = k < n && s[k] == '-'; if (k < n && (s[k] == '-' || s[k] == '+')) ++k;
  bool ok = k < n; int want = 0;
  for (; k < n; ++k) { if (s[k] < '0' || s[k] > '9') ok = false; else want = want * 10 + (s[k] - '0'); }
  if (minus) want = -want;
  Converter<int> c; int got = 0; bool threw = false;
  try { got = c(s); } catch (const StandardException &e) { threw = e.flag() == ConversionError; }
  VC_COVER("a number", ok); VC_COVER("no number", !ok);
  VC_ENSURES("what is not a number is rejected", threw == !ok);
  if (ok) VC_ENSURES("the value of the decimal text", got == want);
}
