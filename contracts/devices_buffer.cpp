// Contracts of the character buffers of ecl_devices (C01).
// VC-ASSUME: the text given to append does not overlap the buffer itself
#include "vc.h"
#include <ecl_devices/src/lib/detail/character_buffer.cpp>
using namespace ecl::devices;

// every state of a buffer: any text appended after an earlier text was cleared away, so also the bytes behind the fill point are arbitrary
template<class B> struct Any {
  B b; unsigned long n; char *text;
  Any(const char *what) {
    unsigned long n0 = vc::any_ulong("earlier length"); n = vc::any_ulong("stored length");
    VC_REQUIRES(n0 <= B::buffer_size && n <= B::buffer_size);
    char *t0 = vc::fresh<char>("earlier", n0); text = vc::fresh<char>("stored", n);
    b.append(t0, n0); b.clear();
    long r = b.append(text, n);
    VC_ENSURES("text that fits is stored completely", r == (long)n);
  }
};
static const unsigned long CAP = CharBuffer::buffer_size, SCAP = CharStringBuffer::buffer_size;

VC_PROOF(C01_buffer_init, "ecl::devices::CharBuffer::CharBuffer; ecl::devices::CharStringBuffer::CharStringBuffer; ecl::devices::CharStringBuffer::c_str") {
  CharBuffer b; CharStringBuffer s;
  VC_ENSURES("a new buffer is empty", b.size() == 0 && b.remaining() == CAP && !b.full());
  VC_ENSURES("a new string buffer is empty", s.remaining() == SCAP && !s.full());
  VC_ENSURES("a new string buffer yields the empty text", s.c_str()[0] == '\0');
}
VC_PROOF(C01_buffer_observers, "ecl::devices::CharBuffer::full; ecl::devices::CharBuffer::remaining; ecl::devices::CharBuffer::size; ecl::devices::CharBuffer::clear") {
  Any<CharBuffer> a("b");
  unsigned long i = vc::any_ulong("i"); VC_REQUIRES(i < a.n);
  VC_ENSURES("stored text is readable in order", a.b.c_ptr()[i] == a.text[i]);
  VC_ENSURES("size and remaining space add up to the capacity", a.b.size() == a.n && a.b.remaining() == CAP - a.n);
  VC_ENSURES("full exactly when no space remains", a.b.full() == (a.n == CAP));
  a.b.clear();
  VC_ENSURES("clearing empties the buffer", a.b.size() == 0 && a.b.remaining() == CAP && !a.b.full());
}
VC_PROOF(C01_buffer_append_char, "ecl::devices::CharBuffer::append(char const&)") {
  Any<CharBuffer> a("b"); char c = vc::any_char("c");
  long r = a.b.append(c);
  VC_COVER("stored", r == 1); VC_COVER("rejected", r == 0);
  VC_ENSURES("a character is stored iff there is space", r == (a.n < CAP ? 1 : 0));
  VC_ENSURES("the size grows by the number stored", a.b.size() == a.n + r && a.b.remaining() == CAP - a.n - r);
  if (r) VC_ENSURES("the character is stored last", a.b.c_ptr()[a.n] == c);
  unsigned long i = vc::any_ulong("i"); 
  if (i < a.n) VC_ENSURES("earlier characters are kept", a.b.c_ptr()[i] == a.text[i]);
  VC_ENSURES("full exactly when no space remains", a.b.full() == (a.n + r == CAP));
}
VC_PROOF(C01_buffer_append_text, "ecl::devices::CharBuffer::append(char const*, unsigned long)") {
  Any<CharBuffer> a("b"); unsigned long m = vc::any_ulong("m"); VC_REQUIRES(m <= (1ul << 34));
  char *s = vc::fresh<char>("s", m);
  long r = a.b.append(s, m);
  unsigned long room = CAP - a.n, want = m < room ? m : room;
  VC_COVER("all", (unsigned long)r == m && m > 0); VC_COVER("part", r > 0 && (unsigned long)r < m); VC_COVER("none", r == 0 && m > 0);
  VC_ENSURES("the longest prefix that fits is stored and its length returned", r == (long)want);
  VC_ENSURES("the size grows by the number stored", a.b.size() == a.n + want && a.b.remaining() == room - want);
  unsigned long i = vc::any_ulong("i"), j = vc::any_ulong("j");
  if (i < a.n) VC_ENSURES("earlier characters are kept", a.b.c_ptr()[i] == a.text[i]);
  if (j < want) VC_ENSURES("the stored prefix is the text's", a.b.c_ptr()[a.n + j] == s[j]);
  VC_ENSURES("full exactly when no space remains", a.b.full() == (a.n + want == CAP));
}
VC_PROOF(C01_string_append_char, "ecl::devices::CharStringBuffer::append(char const&); ecl::devices::CharStringBuffer::full; ecl::devices::CharStringBuffer::c_str") {
  Any<CharStringBuffer> a("b"); char c = vc::any_char("c");
  VC_ENSURES("full exactly when no space remains (before)", a.b.full() == (a.n == SCAP) && a.b.remaining() == SCAP - a.n);
  long r = a.b.append(c);
  VC_COVER("stored", r == 1); VC_COVER("rejected", r == 0);
  VC_ENSURES("a character is stored iff there is space", r == (a.n < SCAP ? 1 : 0));
  VC_ENSURES("the remaining space shrinks by the number stored", a.b.remaining() == SCAP - a.n - r);
  VC_ENSURES("full exactly when no space remains", a.b.full() == (a.n + r == SCAP));
  const char *t = a.b.c_str();
  VC_ENSURES("the text is terminated right after the stored characters", t[a.n + r] == '\0');
  if (r) VC_ENSURES("the character is stored last", t[a.n] == c);
  unsigned long i = vc::any_ulong("i");
  if (i < a.n) VC_ENSURES("earlier characters are kept", t[i] == a.text[i]);
}
VC_PROOF(C01_string_append_text, "ecl::devices::CharStringBuffer::append(char const*, unsigned long); ecl::devices::CharStringBuffer::remaining; ecl::devices::CharStringBuffer::c_str") {
  Any<CharStringBuffer> a("b"); unsigned long m = vc::any_ulong("m"); VC_REQUIRES(m <= (1ul << 34));
  char *s = vc::fresh<char>("s", m);
  long r = a.b.append(s, m);
  unsigned long room = SCAP - a.n, want = m < room ? m : room;
  VC_COVER("all", (unsigned long)r == m && m > 0); VC_COVER("part", r > 0 && (unsigned long)r < m); VC_COVER("none", r == 0 && m > 0);
  VC_ENSURES("the longest prefix that fits is stored and its length returned", r == (long)want);
  VC_ENSURES("the remaining space shrinks by the number stored", a.b.remaining() == room - want && a.b.full() == (room == want));
  unsigned long i = vc::any_ulong("i"), j = vc::any_ulong("j");
  const char *t = a.b.c_str();
  VC_ENSURES("the text is terminated right after the stored characters", t[a.n + want] == '\0');
  if (i < a.n) VC_ENSURES("earlier characters are kept", t[i] == a.text[i]);
  if (j < want) VC_ENSURES("the stored prefix is the text's", t[a.n + j] == s[j]);
}
VC_PROOF(C01_string_clear, "ecl::devices::CharStringBuffer::clear; ecl::devices::CharStringBuffer::c_str") {
  Any<CharStringBuffer> a("b"); char c = vc::any_char("c");
  a.b.c_str();
  a.b.clear();
  VC_ENSURES("clearing empties the buffer", a.b.remaining() == SCAP && !a.b.full());
  VC_ENSURES("a cleared buffer yields the empty text", a.b.c_str()[0] == '\0');
  a.b.append(c);
  VC_ENSURES("text after clearing starts afresh", a.b.c_str()[0] == c && a.b.c_str()[1] == '\0' && a.b.remaining() == SCAP - 1);
}
VC_PROOF(C01_string_append_after_text, "ecl::devices::CharStringBuffer::c_str; ecl::devices::CharStringBuffer::append") {
  Any<CharStringBuffer> a("b"); unsigned long m = vc::any_ulong("m"); VC_REQUIRES(m <= SCAP);
  char *s = vc::fresh<char>("s", m);
  const char *t = a.b.c_str();
  long r = a.b.append(s, m);
  unsigned long i = vc::any_ulong("i"), j = vc::any_ulong("j");
  t = a.b.c_str();
  VC_ENSURES("reading the text does not disturb later appends: terminator", t[a.n + r] == '\0');
  if (i < a.n) VC_ENSURES("reading the text keeps earlier characters", t[i] == a.text[i]);
  if (j < (unsigned long)r) VC_ENSURES("later text follows directly", t[a.n + j] == s[j]);
}
