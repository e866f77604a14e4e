// Contracts of the argument classes of ecl_command_line (C21).
// VC-NATIVE: fork
// VC-ASSUME: extraction of a number from a std::istringstream follows its documented contract (stand-in stream: skip blanks, read the longest decimal integer, fail when there is none)
#include <string>
#include <vector>
#include <list>
#include <map>
#include <iostream>
#include <sstream>
#include <iomanip>
#include <algorithm>
#include "vc.h"
#include "cmdline_stub.h"
#define HAVE_SSTREAM
#include <ecl/command_line.hpp>
using namespace ecl;
using std::string; using std::vector;

static const char BLANK = Arg::blankChar();
// a text of n arbitrary characters (never 0, never the place holder)
static string text(const char *what, int n) {
  string s(n, 'x');
  for (int i = 0; i < n; ++i) { char c = vc::any_char(what); VC_REQUIRES(c != 0 && c != BLANK); s[i] = c; }
  return s;
}
static string flagText(const char *what) { return text(what, vc::choose("flag length", 0, 1)); }
struct Counter : Visitor { int n; Counter() : n(0) {} void visit() { ++n; } };
static bool legalFlag(const string &f) { return f.empty() || (f[0] != '-' && f[0] != ' '); }
static bool legalName(const string &n) { for (char c : n) if (c == '-' || c == ' ') return false; return !n.empty(); }

VC_PROOF(C21_switch, "ecl::SwitchArg::processArg; ecl::SwitchArg::combinedSwitchesMatch; ecl::Arg::argMatches") {
  string flag = flagText("flag"), name = text("name", vc::choose("name length", 1, 2));
  VC_REQUIRES(legalFlag(flag) && legalName(name));
  int n = vc::choose("token length", 0, VC_TIER ? 5 : 4);
  string tok = text("token", n), tok0 = tok;
  bool init = vc::any_bool("default"), pre = vc::any_bool("set before"), ign = vc::any_bool("rest ignored");
  Counter v;
  SwitchArg a(flag, name, "d", init, &v);
  vector<string> args; int i = 0;
  if (pre) { args.push_back("--" + name); a.processArg(&i, args); args.clear(); }
  if (ign) Arg::beginIgnoring();
  args.push_back(tok);
  bool exact = (!flag.empty() && tok == "-" + flag) || tok == "--" + name;
  int k = 0;
  if (!exact && n > 0 && tok[0] == '-' && !(n > 1 && tok[1] == '-')) for (int j = 1; j < n; ++j) if (!flag.empty() && tok[j] == flag[0]) ++k;
  bool hit = !ign && (exact || k > 0), refuse = hit && (pre || (!exact && k > 1));
  bool r = false, threw = false; i = 0;
  try { r = a.processArg(&i, args); } catch (CmdLineParseException &e) { threw = true; }
  VC_ENSURES("a switch given twice is refused", threw == refuse);
  VC_ENSURES("a switch is recognised by exactly its flag, its name or a group of flags", threw || a.isSet() == (pre || hit));
  VC_ENSURES("a recognised switch toggles its value once", threw || a.getValue() == (init != (pre != hit)));
  VC_ENSURES("the visitor runs once per recognition", threw || v.n == (int)pre + (int)hit);
  VC_ENSURES("a token is used up by an exact match only", threw || r == (hit && exact));
  VC_ENSURES("the position stays", i == 0 && args.size() == 1);
  VC_ENSURES("tokens keep their length", args[0].size() == (unsigned)n);
  for (int j = 0; j < n; ++j) {
    bool used = hit && !exact && j > 0 && tok0[j] == flag[0];
    VC_ENSURES("only the used up switch is taken from a group", threw || args[0][j] == (used ? BLANK : tok0[j]));
  }
  VC_COVER("exact", r); VC_COVER("grouped", hit && !exact && !threw); VC_COVER("refused", threw); VC_COVER("other", !hit);
}
VC_BOUNDED(C21_switch, "tokens up to 4 characters (5 in the thorough tier), names up to 2")
VC_PROOF(C21_multi_switch, "ecl::MultiSwitchArg::processArg; ecl::SwitchArg::combinedSwitchesMatch; ecl::Arg::argMatches; ecl::MultiSwitchArg::getValue") {
  string flag = flagText("flag"), name = text("name", vc::choose("name length", 1, 2));
  VC_REQUIRES(legalFlag(flag) && legalName(name));
  int n = vc::choose("token length", 0, VC_TIER ? 5 : 4);
  string tok = text("token", n), tok0 = tok;
  int init = vc::any_int("default"); VC_REQUIRES(init < 0x7fffff00);
  bool pre = vc::any_bool("set before"), ign = vc::any_bool("rest ignored");
  Counter v;
  MultiSwitchArg a(flag, name, "d", init, &v);
  vector<string> args; int i = 0;
  if (pre) { args.push_back("--" + name); a.processArg(&i, args); args.clear(); }
  if (ign) Arg::beginIgnoring();
  args.push_back(tok);
  bool exact = (!flag.empty() && tok == "-" + flag) || tok == "--" + name;
  int k = 0;
  if (!exact && n > 0 && tok[0] == '-' && !(n > 1 && tok[1] == '-')) for (int j = 1; j < n; ++j) if (!flag.empty() && tok[j] == flag[0]) ++k;
  bool hit = !ign && (exact || k > 0);
  i = 0;
  bool r = a.processArg(&i, args);
  VC_ENSURES("every occurrence of a multi switch counts", a.getValue() == init + (int)pre + (ign ? 0 : exact ? 1 : k));
  VC_ENSURES("recognised exactly by flag, name or group", a.isSet() == (pre || hit));
  VC_ENSURES("a token is used up by an exact match only", r == (hit && exact));
  VC_ENSURES("the visitor runs once per token", v.n == (int)pre + (int)hit);
  VC_ENSURES("the position stays", i == 0 && args.size() == 1 && args[0].size() == (unsigned)n);
  for (int j = 0; j < n; ++j) {
    bool used = hit && !exact && j > 0 && tok0[j] == flag[0];
    VC_ENSURES("only the used up switches are taken from a group", args[0][j] == (used ? BLANK : tok0[j]));
  }
  VC_COVER("exact", r); VC_COVER("grouped", hit && !exact); VC_COVER("twice in a group", hit && k == 2); VC_COVER("other", !hit);
}
VC_BOUNDED(C21_multi_switch, "tokens up to 4 characters (5 in the thorough tier), names up to 2")

struct Even : Constraint<int> { bool check(const int &v) const { return (v & 1) == 0; } string description() const { return "even"; } string shortID() const { return "even"; } };
struct NoZ : Constraint<string> { bool check(const string &v) const { return v.find('z') == string::npos; } string description() const { return "no z"; } string shortID() const { return "noz"; } };

// what a token means to a labelled argument that takes a value
struct Split { bool match, inl; string value; };
static Split split(const string &tok, const string &flag, const string &name, char delim) {
  Split s; s.match = s.inl = false;
  size_t d = tok.find(delim);
  string head = tok;
  if (d != string::npos && d > 1) { head = tok.substr(0, d); s.value = tok.substr(d + 1); s.inl = !s.value.empty(); }
  s.match = (!flag.empty() && head == "-" + flag) || head == "--" + name;
  return s;
}
// the integer a text stands for; 0 none, 1 exactly one, 2 more
static int integerText(const string &s, int &v) {
  size_t p = 0; int found = 0; v = 0;
  while (true) {
    while (p < s.size() && (s[p] == ' ' || (s[p] >= 9 && s[p] <= 13))) ++p;
    if (p == s.size()) { size_t l = s.size(); if (l && (s[l-1] == ' ' || (s[l-1] >= 9 && s[l-1] <= 13))) return 0; break; }
    bool neg = s[p] == '-'; if (neg || s[p] == '+') ++p;
    size_t q = p; int r = 0;
    while (q < s.size() && s[q] >= '0' && s[q] <= '9') r = r * 10 + (s[q++] - '0');
    if (q == p) return 0;
    if (++found == 1) v = neg ? -r : r;
    p = q;
  }
  return found > 1 ? 2 : found;
}
enum { OK, CMD, ARG, OTHER };
template<class A> static int attempt(A &a, int &i, vector<string> &args, bool &r) {
  try { r = a.processArg(&i, args); return OK; }
  catch (CmdLineParseException &) { return CMD; }
  catch (ArgParseException &) { return ARG; }
}
static void sameTokens(const vector<string> &args, const vector<string> &old) {
  VC_ENSURES("a value argument leaves the tokens alone", args.size() == old.size() && args[0] == old[0] && (old.size() < 2 || args[1] == old[1]));
}
VC_PROOF(C21_value_text, "ecl::ValueArg<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > >::processArg; ecl::Arg::trimFlag; ecl::Arg::argMatches") {
  string flag = flagText("flag"), name = text("name", vc::choose("name length", 1, 2));
  char delim = vc::any_char("delimiter"); VC_REQUIRES(delim > 32 && delim != '-' && delim != BLANK || delim == ' ');
  VC_REQUIRES(legalFlag(flag) && legalName(name) && (flag.empty() || flag[0] != delim) && name.find(delim) == string::npos);
  int n = vc::choose("token length", 1, VC_TIER ? 5 : 4);
  vector<string> args; args.push_back(text("token", n));
  bool two = vc::choose("second token", 0, 1);
  if (two) args.push_back(text("next", vc::choose("next length", 0, 2)));
  vector<string> old = args;
  bool pre = vc::any_bool("set before"), ign = vc::any_bool("rest ignored");
  Counter v; NoZ noz;
  bool con = vc::choose("constraint", 0, 1);
  Arg::setDelimiter(delim);
  ValueArg<string> plain(flag, name, "d", false, "def", "text", &v), strict(flag, name, "d", false, "def", &noz, &v);
  ValueArg<string> &a = con ? strict : plain;
  int i = 0;
  if (pre) a.xorSet();
  if (ign) Arg::beginIgnoring();
  Split s = split(old[0], flag, name, delim);
  string value = s.inl ? s.value : two ? old[1] : "";
  bool hit = s.match && !ign, r = false;
  int expect = !hit ? OK : pre ? CMD : !s.inl && delim != ' ' ? ARG : !s.inl && !two ? ARG : con && value.find('z') != string::npos ? CMD : OK;
  int got = attempt(a, i, args, r);
  VC_ENSURES("a value argument reports exactly the documented errors", got == expect);
  if (got == OK) {
    VC_ENSURES("a value argument is recognised by exactly its flag or name", r == hit);
    VC_ENSURES("the value is the text behind the delimiter, else the next token", a.getValue() == (hit ? value : string("def")));
    VC_ENSURES("a following value is used up, nothing else", i == (hit && !s.inl ? 1 : 0));
    VC_ENSURES("recognition sets the argument and runs the visitor once", a.isSet() == hit && v.n == (int)hit);
  }
  sameTokens(args, old);
  VC_COVER("inline", hit && s.inl && got == OK); VC_COVER("next", hit && !s.inl && got == OK); VC_COVER("error", got != OK); VC_COVER("no match", !hit);
}
VC_BOUNDED(C21_value_text, "tokens up to 4 characters (5 in the thorough tier) and a following one up to 2, names up to 2")

VC_PROOF(C21_value_int, "ecl::ValueArg<int>::processArg; ecl::ValueArg<int>::_extractValue") {
  bool con = vc::choose("constraint", 0, 1), sep = vc::choose("separate", 0, 1), pre = vc::any_bool("set before");
  string val = text("value", vc::choose("value length", 0, 3));
  int def = vc::any_int("default");
  Counter v; Even even;
  ValueArg<int> plain("f", "name", "d", false, def, "int", &v), strict("f", "name", "d", false, def, &even, &v);
  ValueArg<int> &a = con ? strict : plain;
  vector<string> args; int i = 0, got; bool r = false;
  Arg::setDelimiter(sep ? ' ' : '=');
  if (pre) a.xorSet();
  if (sep) { args.push_back("-f"); args.push_back(val); } else args.push_back("-f=" + val);
  int x, k = integerText(val, x);
  int expect = pre ? CMD : k != 1 ? ARG : con && (x & 1) ? CMD : OK;
  got = attempt(a, i, args, r);
  VC_ENSURES("exactly texts that are one integer (and meet the constraint) are accepted", got == expect);
  if (got == OK) VC_ENSURES("the value is the integer the text stands for", r && a.getValue() == x && a.isSet() && v.n == 1 && i == (sep ? 1 : 0));
  else VC_ENSURES("a refused value runs no visitor", v.n == 0);
  VC_COVER("accepted", got == OK); VC_COVER("refused", got == ARG); VC_COVER("constraint", con && got == CMD && !pre);
}
VC_BOUNDED(C21_value_int, "value texts up to 3 characters")

VC_PROOF(C21_multi_text, "ecl::MultiArg<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > >::processArg; ecl::Arg::trimFlag") {
  string flag = flagText("flag"), name = text("name", vc::choose("name length", 1, 2));
  char delim = vc::any_char("delimiter"); VC_REQUIRES(delim > 32 && delim != '-' && delim != BLANK || delim == ' ');
  VC_REQUIRES(legalFlag(flag) && legalName(name) && (flag.empty() || flag[0] != delim) && name.find(delim) == string::npos);
  int n = vc::choose("token length", 1, 4);
  vector<string> args; args.push_back(text("token", n));
  bool two = vc::choose("second token", 0, 1);
  if (two) args.push_back(text("next", vc::choose("next length", 0, 2)));
  vector<string> old = args;
  int pre = vc::choose("earlier values", 0, 1); bool ign = vc::any_bool("rest ignored"), con = vc::choose("constraint", 0, 1);
  Counter v; NoZ noz;
  Arg::setDelimiter(' ');
  MultiArg<string> plain(flag, name, "d", false, "text", &v), strict(flag, name, "d", false, &noz, &v);
  MultiArg<string> &a = con ? strict : plain;
  string early = "e"; bool r = false; int i = 0;
  if (pre) { vector<string> t; t.push_back("--" + name); t.push_back(early); a.processArg(&i, t); }
  Arg::setDelimiter(delim);
  if (ign) Arg::beginIgnoring();
  Split s = split(old[0], flag, name, delim);
  string value = s.inl ? s.value : two ? old[1] : "";
  bool hit = s.match && !ign;
  int expect = !hit ? OK : !s.inl && delim != ' ' ? ARG : !s.inl && !two ? ARG : con && value.find('z') != string::npos ? CMD : OK;
  i = 0;
  int got = attempt(a, i, args, r);
  VC_ENSURES("a multi argument reports exactly the documented errors", got == expect);
  if (got == OK) {
    VC_ENSURES("a multi argument is recognised by exactly its flag or name", r == hit);
    VC_ENSURES("values accumulate", a.getValue().size() == (unsigned)(pre + (int)hit));
    if (pre) VC_ENSURES("earlier values are kept in order", a.getValue()[0] == early);
    if (hit) VC_ENSURES("the new value comes last", a.getValue().back() == value);
    VC_ENSURES("a following value is used up, nothing else", i == (hit && !s.inl ? 1 : 0));
    VC_ENSURES("recognition sets the argument and runs the visitor once", a.isSet() == (hit || pre) && v.n == pre + (int)hit);
  }
  sameTokens(args, old);
  VC_COVER("inline", hit && s.inl && got == OK); VC_COVER("next", hit && !s.inl && got == OK); VC_COVER("error", got != OK); VC_COVER("no match", !hit);
}
VC_BOUNDED(C21_multi_text, "tokens up to 4 characters and a following one up to 2, names up to 2, one earlier value")

VC_PROOF(C21_multi_int, "ecl::MultiArg<int>::processArg; ecl::MultiArg<int>::_extractValue") {
  bool con = vc::choose("constraint", 0, 1), sep = vc::choose("separate", 0, 1);
  string val = text("value", vc::choose("value length", 0, 3));
  int pre = vc::choose("earlier values", 0, 1);
  Counter v; Even even;
  MultiArg<int> plain("f", "name", "d", false, "int", &v), strict("f", "name", "d", false, &even, &v);
  MultiArg<int> &a = con ? strict : plain;
  vector<string> args; int i = 0, got; bool r = false;
  Arg::setDelimiter('=');
  if (pre) { args.push_back("-f=8"); a.processArg(&i, args); args.clear(); }
  Arg::setDelimiter(sep ? ' ' : '=');
  if (sep) { args.push_back("-f"); args.push_back(val); } else args.push_back("-f=" + val);
  int x, k = integerText(val, x);
  int expect = k != 1 ? ARG : con && (x & 1) ? CMD : OK;
  got = attempt(a, i, args, r);
  VC_ENSURES("exactly texts that are one integer (and meet the constraint) are accepted", got == expect);
  if (got == OK) VC_ENSURES("the integer is appended", r && a.getValue().size() == (unsigned)pre + 1 && a.getValue().back() == x && a.isSet() && i == (sep ? 1 : 0));
  if (got == ARG) VC_ENSURES("an unreadable text adds no value", a.getValue().size() == (unsigned)pre);
  if (pre) VC_ENSURES("earlier values are kept", a.getValue()[0] == 8);
  VC_COVER("accepted", got == OK); VC_COVER("refused", got == ARG); VC_COVER("constraint", con && got == CMD);
}
VC_BOUNDED(C21_multi_int, "value texts up to 3 characters, one earlier value")

VC_PROOF(C21_unlabeled_value, "ecl::UnlabeledValueArg<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > >::processArg; ecl::UnlabeledValueArg<int>::processArg") {
  string tok = text("token", vc::choose("token length", 0, 3));
  bool blank = tok.size() > 1 && vc::choose("used up group", 0, 1), pre = vc::any_bool("set before"), ign = vc::any_bool("rest ignored");
  if (blank) tok[1] = BLANK;
  int def = vc::any_int("default");
  UnlabeledValueArg<string> a("name", "d", true, "def", "text");
  UnlabeledValueArg<int> b("number", "e", true, def, "int");
  vector<string> args(1, tok); int i = 0, got; bool r = false;
  if (pre) { a.xorSet(); b.xorSet(); }
  if (ign) Arg::beginIgnoring();
  bool take = !pre && !blank;
  got = attempt(a, i, args, r);
  VC_ENSURES("an unlabelled argument takes any token once", got == OK && r == take && a.getValue() == (take ? tok : string("def")) && a.isSet() == take);
  int x, k = integerText(tok, x); bool q = false;
  got = attempt(b, i, args, q);
  VC_ENSURES("an unlabelled number accepts exactly texts that are one integer", got == (take && k != 1 ? ARG : OK));
  if (got == OK) VC_ENSURES("the number is the text's", q == take && b.getValue() == (take ? x : def) && b.isSet() == take);
  VC_ENSURES("tokens and position stay", i == 0 && args.size() == 1 && args[0] == tok);
  VC_COVER("taken", r); VC_COVER("refused", got == ARG); VC_COVER("number", q);
}
VC_BOUNDED(C21_unlabeled_value, "tokens up to 3 characters")
VC_PROOF(C21_unlabeled_multi, "ecl::UnlabeledMultiArg<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > >::processArg") {
  string tok = text("token", vc::choose("token length", 0, 3));
  bool blank = tok.size() > 1 && vc::choose("used up group", 0, 1), ign = vc::any_bool("rest ignored");
  int pre = vc::choose("earlier values", 0, 1);
  if (blank) tok[1] = BLANK;
  UnlabeledMultiArg<string> a("name", "d", false, "text");
  vector<string> args(1, tok), e(1, "e"); int i = 0; bool r = false;
  if (pre) a.processArg(&i, e);
  if (ign) Arg::beginIgnoring();
  int got = attempt(a, i, args, r);
  VC_ENSURES("an unlabelled multi argument takes every token", got == OK && r == !blank && a.getValue().size() == (unsigned)(pre + (int)r) && a.isSet() == (pre || r));
  if (pre) VC_ENSURES("earlier values are kept", a.getValue()[0] == e[0]);
  if (r) VC_ENSURES("the new value comes last", a.getValue().back() == tok);
  VC_ENSURES("tokens and position stay", i == 0 && args.size() == 1 && args[0] == tok);
}
VC_BOUNDED(C21_unlabeled_multi, "tokens up to 3 characters, one earlier value")
