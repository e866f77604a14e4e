#ifndef CMDLINE_STUB_H_
#define CMDLINE_STUB_H_
// Under the verifier, std::istringstream is replaced by this stand-in with the documented contract of number extraction;
// natively (replay) the real stream is used.
#ifdef VC_SYMBOLIC
namespace std {
class vc_istringstream {
  string s; size_t p; bool f, e;
public:
  explicit vc_istringstream(const string &t) : s(t), p(0), f(false), e(false) {}
  bool good() const { return !f && !e; }
  bool fail() const { return f; }
  bool operator!() const { return f; }
  explicit operator bool() const { return !f; }
  vc_istringstream &get(char &c) { if (!good()) f = true; else if (p == s.size()) e = f = true; else c = s[p++]; return *this; }
  int peek() { if (!good()) return EOF; if (p == s.size()) { e = true; return EOF; } return (unsigned char)s[p]; }
  static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
  vc_istringstream &operator>>(int &v) {
    if (!good()) { f = true; return *this; }
    while (p < s.size() && blank(s[p])) ++p;
    if (p == s.size()) { e = f = true; return *this; }
    size_t q = p; bool neg = false;
    if (s[q] == '-' || s[q] == '+') { neg = s[q] == '-'; ++q; }
    size_t d = q; long r = 0;
    while (q < s.size() && s[q] >= '0' && s[q] <= '9') { r = r * 10 + (s[q] - '0'); if (r > 2147483648L) r = 2147483649L; ++q; }
    p = q; if (p == s.size()) e = true;
    if (q == d) { f = true; v = 0; return *this; }
    if (neg) r = -r;
    if (r > 2147483647L) { f = true; v = 2147483647; } else if (r < -2147483648L) { f = true; v = -2147483647 - 1; } else v = (int)r;
    return *this;
  }
};
}
#define istringstream vc_istringstream
#endif
#endif
