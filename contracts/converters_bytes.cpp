// Contracts of the byte array converters (C07).
// VC-ASSUME: the memory a std::vector asks for is available
#define P(n) C07_##n
#include "converters_reject.inc"
// every integral type with every byte type
template <class I, class B> static void round_trip() {
  const int n = sizeof(I);
  I x; vc::fill("x", &x, 1);
  std::vector<B> b(n, (B)0x5a);
  Converter<std::vector<B>, I> to;
  bool threw = false;
  try { to(b, x); } catch (const StandardException &) { threw = true; }
  VC_ENSURES("an array of the right size is accepted", !threw && to.error().flag() == NoError && b.size() == (size_t)n);
  for (int i = 0; i < n; ++i) VC_ENSURES("byte i is bits 8i to 8i+7 of the value", at(b, i) == (unsigned char)((unsigned long)x >> 8 * i));
}
template <class I, class B> static void back() {
  const int n = sizeof(I);
  int len = vc::choose("len", 0, n);
  std::vector<B> b(len);
  unsigned long want = 0;
  for (int i = 0; i < len; ++i) { b[i] = (B)vc::any_uchar("byte"); want |= (unsigned long)at(b, i) << 8 * i; }
  Converter<I, std::vector<B> > from; I got = 0; bool threw = false;
  try { got = from(b); } catch (const StandardException &) { threw = true; }
  VC_ENSURES("an array that fits is accepted", !threw && from.error().flag() == NoError);
  VC_ENSURES("the value is the sum of the bytes, lowest first", got == (I)want);
}
VC_CASES(C07_to_bytes, 15)
VC_PROOF(C07_to_bytes, "ecl::converters::IntegralToByteArray") { switch (__vc_case()) { EACH(round_trip) } }
VC_CASES(C07_from_bytes, 30)
VC_PROOF(C07_from_bytes, "ecl::converters::FromByteArray") { switch (__vc_case()) { EACH(back) EACH2(back) } }
// the value survives the way there and back
template <class I> static void both() {
  I x; vc::fill("x", &x, 1);
  std::vector<char> b(sizeof(I)); Converter<std::vector<char>, void> to; Converter<I, std::vector<char> > from;
  to(b, x);
  VC_ENSURES("the value comes back", from(b) == x);
}
VC_CASES(C07_there_and_back, 4)
VC_PROOF(C07_there_and_back, "ecl::converters::IntegralToByteArray; ecl::converters::FromByteArray") {
  switch (__vc_case()) { case 0: both<int>(); break; case 1: both<unsigned>(); break; case 2: both<long>(); break; case 3: both<unsigned long>(); }
}
// hex texts: tokens 0xHH separated by any blanks
VC_CASES(C07_hex_bytes, VC_TIER ? 4 : 3)
VC_BOUNDED(C07_hex_bytes, "up to 3 bytes, up to 2 blanks between them")
VC_PROOF(C07_hex_bytes, "ecl::Converter<std::vector<char, std::allocator<char> >, char*>::operator()(char const*)") {
  char s[40]; unsigned char v[3]; int k = 0, n = __vc_case() % 4;
  for (int i = 0; i < n; ++i) {
    int gap = vc::choose("gap", i ? 1 : 0, 2); while (gap--) s[k++] = ' ';
    char h = vc::any_char("high"), l = vc::any_char("low"); VC_REQUIRES((hex(h) >= 0) & (hex(l) >= 0));
    s[k++] = '0'; s[k++] = 'x'; s[k++] = h; s[k++] = l; v[i] = (unsigned char)(hex(h) * 16 + hex(l));
  }
  int gap = vc::choose("gap", 0, 1); while (gap--) s[k++] = ' ';
  s[k] = 0;
  Converter<std::vector<char>, char*> c; bool threw = false; std::vector<char> b;
  try { b = c(s); } catch (const StandardException &) { threw = true; }
  VC_ENSURES("a hex text is accepted", !threw && c.error().flag() == NoError);
  VC_ENSURES("one byte each", b.size() == (size_t)n);
  for (int i = 0; i < n; ++i) VC_ENSURES("exactly those bytes", (unsigned char)b[i] == v[i]);
}
