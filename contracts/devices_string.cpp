// Contracts of the string device (C02).
// VC-ASSUME: texts written do not overlap the device; texts are shorter than 2^30 characters
#include "vc.h"
#include <ecl_devices/src/lib/string.cpp>
using namespace ecl;
static const unsigned long LIM = 1ul << 30;
static const char *start(int k) { return k == 0 ? "" : k == 1 ? "a" : "xyz"; }
// any state: an initial text, two blocks of any length (the second makes the spare room behind the text arbitrary), some of it read
struct Any {
  String d; unsigned long n0, n, m, r; char *a, *b; const char *t0; 
  Any(int k) : d(start(k)), t0(start(k)) {
    n0 = k == 0 ? 0 : k == 1 ? 1 : 3;
    n = vc::any_ulong("first block"); m = vc::any_ulong("second block"); r = vc::any_ulong("read");
    VC_REQUIRES(n <= LIM && m <= LIM && r <= n0 + n + m);
    a = vc::fresh<char>("a", n); b = vc::fresh<char>("b", m);
    long x = d.write(a, n), y = d.write(b, m);
    VC_ENSURES("a block is written completely", x == (long)n && y == (long)m);
    char *s = vc::fresh<char>("scrap", r);
    long z = d.read(s, r);
    VC_ENSURES("a block that is there is read completely", z == (long)r);
    unsigned long i = vc::any_ulong("ri"); if (i < r) VC_ENSURES("a block is read in the order written", s[i] == at(i));
  }
  unsigned long total() { return n0 + n + m; }
  char at(unsigned long i) { return i < n0 ? t0[i] : i < n0 + n ? a[i - n0] : b[i - n0 - n]; }
  void contents(unsigned long len, const char *what) {  // the text of the device is the text written
    unsigned long i = vc::any_ulong("ti"); const char *p = d.c_str();
    VC_ENSURES("the text is terminated", p[len] == '\0');
    if (i < total()) VC_ENSURES("the text is the text written", p[i] == at(i));
  }
};
VC_CASES(C02_read_char, 2)
VC_PROOF(C02_read_char, "ecl::String::read(char&); ecl::String::remaining; ecl::String::size; ecl::String::String(char const*)") {
  Any s(__vc_case()); char c = 'c';
  VC_ENSURES("size is what was written", s.d.size() == s.total());
  VC_ENSURES("remaining is what was written and not read", s.d.remaining() == s.total() - s.r);
  bool more = s.r < s.total();
  VC_COVER("something to read", more); VC_COVER("nothing to read", !more);
  long got = s.d.read(c);
  VC_ENSURES("a character is delivered iff one remains", got == (more ? 1 : 0));
  if (more) VC_ENSURES("the next character is delivered", c == s.at(s.r));
  else VC_ENSURES("without a character the result is left alone", c == 'c');
  VC_ENSURES("one less remains", s.d.remaining() == s.total() - s.r - (more ? 1 : 0) && s.d.size() == s.total());
  s.contents(s.total(), "");
}
VC_CASES(C02_read_block, VC_TIER ? 2 : 1)
VC_PROOF(C02_read_block, "ecl::String::read(char*, unsigned long)") {
  Any s(__vc_case()); unsigned long k = vc::any_ulong("k"); VC_REQUIRES(k <= 4 * LIM);
  unsigned long rest = s.total() - s.r, want = k < rest ? k : rest;
  char *t = vc::fresh<char>("t", k); unsigned long i = vc::any_ulong("i"); VC_REQUIRES(i < k);
  char before = t[i];
  long got = s.d.read(t, k);
  VC_COVER("all", k == want && k > 0); VC_COVER("short", want > 0 && want < k);
  VC_ENSURES("as much as remains is delivered, at most what was asked for", got == (long)want);
  if (i < want) VC_ENSURES("delivered in the order written", t[i] == s.at(s.r + i));
  else VC_ENSURES("nothing is stored behind what was delivered", t[i] == before);
  VC_ENSURES("delivered once", s.d.remaining() == rest - want);
  s.contents(s.total(), "");
}
VC_CASES(C02_write_char, VC_TIER ? 2 : 1)
VC_PROOF(C02_write_char, "ecl::String::write(char); ecl::String::grow; ecl::String::c_str") {
  Any s(__vc_case()); char c = vc::any_char("c"), x = vc::any_char("x");
  long got = s.d.write(c), g2 = s.d.write(x);
  unsigned long t = s.total();
  VC_ENSURES("a character is always written", got == 1 && g2 == 1);
  VC_ENSURES("two more characters", s.d.size() == t + 2 && s.d.remaining() == t + 2 - s.r);
  s.contents(t + 2, "");
  VC_ENSURES("the characters are last", s.d.c_str()[t] == c && s.d.c_str()[t + 1] == x);
  char o = 0; s.d.read(o);
  VC_ENSURES("reading continues where it was", o == (s.r < t ? s.at(s.r) : c));
}
VC_CASES(C02_write_block, VC_TIER ? 2 : 1)
VC_PROOF(C02_write_block, "ecl::String::write(char const*, unsigned long); ecl::String::grow") {
  Any s(__vc_case()); unsigned long k = vc::any_ulong("k"); VC_REQUIRES(k <= LIM);
  char *t = vc::fresh<char>("t", k); unsigned long i = vc::any_ulong("i"), n = s.total();
  long got = s.d.write(t, k);
  VC_ENSURES("a block is always written", got == (long)k && s.d.size() == n + k && s.d.remaining() == n + k - s.r);
  s.contents(n + k, "");
  if (i < k) VC_ENSURES("the block follows", s.d.c_str()[n + i] == t[i]);
  char o = 0; s.d.read(o);
  if (s.r < n) VC_ENSURES("reading continues where it was", o == s.at(s.r));
  else if (k) VC_ENSURES("reading continues with the block", o == t[0]);
}
VC_CASES(C02_clear, VC_TIER ? 2 : 1)
VC_PROOF(C02_clear, "ecl::String::clear") {
  __vc_heap_mark();
  {
    Any s(__vc_case()); char c = vc::any_char("c"), x = vc::any_char("x"), o;
    s.d.clear();
    VC_ENSURES("a cleared device is empty", s.d.size() == 0 && s.d.remaining() == 0 && s.d.read(o) == 0 && s.d.c_str()[0] == 0);
    VC_ENSURES("written after clearing", s.d.write(c) == 1 && s.d.write(x) == 1 && s.d.size() == 2);
    VC_ENSURES("the text starts afresh", s.d.c_str()[0] == c && s.d.c_str()[1] == x && s.d.c_str()[2] == 0);
    VC_ENSURES("reading starts afresh", s.d.read(o) == 1 && o == c && s.d.remaining() == 1);
    s.d.clear(); unsigned long k = vc::any_ulong("k"), i = vc::any_ulong("i"); VC_REQUIRES(k <= LIM);
    char *t = vc::fresh<char>("t", k);
    VC_ENSURES("a block written after clearing", s.d.write(t, k) == (long)k && s.d.size() == k && s.d.c_str()[k] == 0);
    if (i < k) VC_ENSURES("the block is the text", s.d.c_str()[i] == t[i]);
  }
  VC_ENSURES("memory is given back", __vc_no_leak());
}
VC_BOUNDED(C02_text, "texts of up to 4 characters, growth by single characters up to 600")
VC_PROOF(C02_text, "ecl::String::str; ecl::String::String(char const*); ecl::String::write(char)") {
  char t[5]; int n = vc::choose("n", 0, 4); for (int i = 0; i < n; ++i) { t[i] = vc::any_char("t"); VC_REQUIRES(t[i] != 0); } t[n] = 0;
  String d(t); char c = vc::any_char("c");
  VC_ENSURES("initial text", d.size() == (unsigned long)n && d.remaining() == (unsigned long)n && d.isOpen());
  int k = vc::choose("written", 0, 2) * 300;
  for (int i = 0; i < k; ++i) d.write('0' + i % 10);
  d.write(c); d.flush();
  std::string s = d.str();
  VC_ENSURES("text size", s.size() == (unsigned long)n + k + 1 && s[n + k] == c);
  for (int i = 0; i < n; ++i) VC_ENSURES("initial text first", s[i] == t[i]);
  for (int i = 0; i < k; ++i) VC_ENSURES("then what was written", s[n + i] == '0' + i % 10);
  char o; VC_ENSURES("read from the start", d.read(o) == 1 && o == (n ? t[0] : k ? '0' : c));
}
