// Contracts of CmdLine::parse and its parts: whole command lines (C21), required and exclusive arguments (C22),
// refused specifications (C23).
// VC-NATIVE: fork
// VC-ASSUME: exit() is observed through a stand-in (macro) that throws; the output object is the contract's own
#include <string>
#include <vector>
#include <list>
#include <map>
#include <iostream>
#include <sstream>
#include <iomanip>
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include "vc.h"
#include "cmdline_stub.h"
struct Exited { int code; };
static void vc_exit(int code) { Exited e = { code }; throw e; }
#define exit(c) vc_exit(c)
#define HAVE_SSTREAM
#include <ecl/command_line.hpp>
using namespace ecl;
using std::string; using std::vector;

static const char BLANK = Arg::blankChar();
struct Out : CmdLineOutput {
  int usages, versions, failures;
  Out() : usages(0), versions(0), failures(0) {}
  void usage(CmdLineInterface &) { ++usages; }
  void version(CmdLineInterface &) { ++versions; }
  void failure(CmdLineInterface &, ArgException &) { ++failures; }
};
struct Line {  // an argv of own storage
  vector<string> tok; char store[8][16]; char *argv[9];
  int argc() { return (int)tok.size() + 1; }
  char **get() {
    strcpy(store[0], "prog"); argv[0] = store[0];
    for (size_t i = 0; i < tok.size(); ++i) { argv[i + 1] = store[i + 1]; for (size_t j = 0; j <= tok[i].size(); ++j) store[i + 1][j] = tok[i].c_str()[j]; }
    argv[tok.size() + 1] = 0;
    return argv;
  }
};
enum { OK = -1 };
// OK or the exit code
static int run(CmdLine &c, Line &l) { try { c.parse(l.argc(), l.get()); return OK; } catch (Exited &e) { return e.code; } }
static string text(const char *what, int n) {
  string s(n, 'x');
  for (int i = 0; i < n; ++i) { char c = vc::any_char(what); VC_REQUIRES(c != 0 && c != BLANK); s[i] = c; }
  return s;
}
static bool has(const string &s, char c) { return s.find(c) != string::npos; }

// ---------------------------------------------------------------- whole command lines
// a: switch, m: counted switch, v: text value, rest: unlabelled texts.  Reference reading of a command line, token by token.
struct Reading { bool ok, a, ign; int m; bool vset; string v; vector<string> rest; };
static Reading reading(const vector<string> &t, bool unlabelled) {
  Reading r; r.ok = true; r.a = r.ign = r.vset = false; r.m = 0; r.v = "def";
  for (size_t i = 0; i < t.size() && r.ok; ++i) {
    string s = t[i];
    if (!r.ign) {
      if (s == "-v" || s == "--vv") { if (r.vset || i + 1 == t.size()) r.ok = false; else { r.vset = true; r.v = t[++i]; } continue; }
      { // inline value
        size_t d = s.find(' '); 
        if (d != string::npos && d > 1 && (s.substr(0, d) == "-v" || s.substr(0, d) == "--vv")) {
          if (r.vset) { r.ok = false; continue; }
          string val = s.substr(d + 1);
          if (val.empty()) { if (i + 1 == t.size()) { r.ok = false; continue; } val = t[++i]; }
          r.vset = true; r.v = val; continue;
        }
      }
      if (s == "-m" || s == "--mm") { ++r.m; continue; }
      if (s == "-a" || s == "--aa") { if (r.a) r.ok = false; r.a = true; continue; }
      if (s == "--" || s == "--ignore_rest") { r.ign = true; continue; }
      if (s.size() && s[0] == '-' && !(s.size() > 1 && s[1] == '-')) {  // a group of switches
        bool some = false, all = true, twice = false;
        for (size_t j = 1; j < s.size(); ++j) {
          if (s[j] == 'a') { if (r.a) twice = true; r.a = true; some = true; }
          else if (s[j] == 'm') { ++r.m; some = true; }
          else if (s[j] == '-') { if (r.ign) twice = true; r.ign = true; some = true; }
          else all = false;
        }
        if (twice) { r.ok = false; continue; }
        if (some) { if (!all && !r.ign) r.ok = false; continue; }
      }
    }
    if (unlabelled) r.rest.push_back(s);
    else if (s == "-" || r.ign) ;
    else r.ok = false;
  }
  return r;
}
VC_CASES(C21_parse, 8)
VC_PROOF(C21_parse, "ecl::CmdLine::parse; ecl::CmdLine::_emptyCombined; ecl::CmdLine::add; ecl::CmdLine::CmdLine") {
  int c = __vc_case(); bool unlabelled = c & 1;
  static const int len[4][3] = { {4,-1,-1}, {2,2,-1}, {3,1,-1}, {2,1,1} };
  Line l;
  for (int k = 0; k < 3 && len[c >> 1][k] >= 0; ++k) l.tok.push_back(text("token", vc::choose("token length", 0, len[c >> 1][k])));
  for (size_t k = 0; k < l.tok.size(); ++k) VC_REQUIRES(!has(l.tok[k], ' '));
  CmdLine cmd("message", ' ', "1.0", false); Out out; delete cmd.getOutput(); cmd.setOutput(&out);
  SwitchArg a("a", "aa", "d1", false);
  MultiSwitchArg m("m", "mm", "d2");
  ValueArg<string> v("v", "vv", "d3", false, "def", "text");
  UnlabeledMultiArg<string> u("rest", "d4", false, "text");
  cmd.add(a); cmd.add(v);
  if (unlabelled) cmd.add(u);
  cmd.add(m);
  int got = run(cmd, l);
  Reading r = reading(l.tok, unlabelled);
  VC_ENSURES("a command line is accepted exactly when every token has a meaning", (got == OK) == r.ok);
  VC_ENSURES("a refused command line is reported once and ends the program with 1", got == OK ? out.failures == 0 : got == 1 && out.failures == 1);
  if (got == OK) {
    VC_ENSURES("switch as written", a.getValue() == r.a && a.isSet() == r.a);
    VC_ENSURES("counted switch as written", m.getValue() == r.m && m.isSet() == (r.m > 0));
    VC_ENSURES("value as written", v.getValue() == r.v && v.isSet() == r.vset);
    VC_ENSURES("unlabelled texts as written", u.getValue().size() == r.rest.size());
    for (size_t k = 0; k < r.rest.size(); ++k) VC_ENSURES("unlabelled texts in order", u.getValue()[k] == r.rest[k]);
    VC_ENSURES("the rest is ignored exactly when asked", Arg::ignoreRest() == r.ign);
    VC_ENSURES("program name is the first word", cmd.getProgramName() == "prog");
  }
  VC_COVER("accepted", got == OK); VC_COVER("refused", got != OK);
}
VC_BOUNDED(C21_parse, "command lines of up to 3 tokens of up to 2 characters (one token up to 4), one argument of each kind")

VC_PROOF(C21_help, "ecl::CmdLine::parse; ecl::HelpVisitor::visit; ecl::VersionVisitor::visit") {
  Line l; int k = vc::choose("which", 0, 3);
  l.tok.push_back(k == 0 ? "-h" : k == 1 ? "--help" : k == 2 ? "--version" : "--");
  CmdLine cmd("message", ' ', "1.0"); Out out; delete cmd.getOutput(); cmd.setOutput(&out);
  ValueArg<string> v("v", "vv", "d3", k != 3, "def", "text", cmd);
  int got = run(cmd, l);
  VC_ENSURES("help and version win over missing arguments and end the program with 0", got == (k == 3 ? OK : 0));
  VC_ENSURES("help shows the usage once", out.usages == (k < 2) && out.versions == (k == 2) && out.failures == 0);
}
// ---------------------------------------------------------------- required arguments
VC_CASES(C22_required, VC_TIER ? 6 : 5)
VC_BOUNDED(C22_required, "command lines of up to 4 tokens (5 in the thorough tier) over a fixed alphabet of tokens, seven arguments")
VC_PROOF(C22_required, "ecl::CmdLine::parse; ecl::CmdLine::add; ecl::XorHandler::check; ecl::MultiArg<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > >::isRequired; ecl::Arg::isRequired") {
  static const char *const alpha[] = { "-a", "--bb", "-m", "-s", "x", "--" };
  int n = __vc_case(); Line l;
  bool ra = vc::any_bool("a required"), rb = vc::any_bool("b required"), rm = vc::any_bool("m required"), ru = vc::any_bool("u required");
  bool withu = vc::choose("with unlabelled", 0, 1);
  CmdLine cmd("message", ' ', "1.0", false); Out out; delete cmd.getOutput(); cmd.setOutput(&out);
  ValueArg<string> a("a", "aa", "d1", ra, "def", "text", cmd);
  ValueArg<string> b("b", "bb", "d2", rb, "def", "text", cmd);
  MultiArg<string> m("m", "mm", "d3", rm, "text", cmd);
  SwitchArg s("s", "ss", "d4", false); cmd.add(s);
  UnlabeledValueArg<string> u("u", "d5", ru, "def", "text");
  if (withu) cmd.add(u);
  bool ok = true, ha = false, hb = false, hm = false, hs = false, hu = false, ign = false;
  for (int k = 0; k < n; ++k) {  // a line is only continued while it is well formed: what follows an error is never read
    if (!ok) return;
    l.tok.push_back(alpha[vc::choose("token", 0, 5)]);
    const string t = l.tok[k]; bool last = k + 1 == n;
    if (!last && !ign && (t == "-a" || t == "--bb" || t == "-m")) l.tok.push_back(alpha[vc::choose("value", 3, 4)]);
    if (ign) { if (withu && !hu) hu = true; }
    else if (t == "--") ign = true;
    else if (t == "-a") { if (ha || last) ok = false; ha = true; ++k; }
    else if (t == "--bb") { if (hb || last) ok = false; hb = true; ++k; }
    else if (t == "-m") { if (last) ok = false; hm = true; ++k; }
    else if (t == "-s") { if (hs) ok = false; hs = true; }
    else if (withu && !hu) hu = true;
    else ok = false;
  }
  int got = run(cmd, l);
  bool complete = (!ra || ha) && (!rb || hb) && (!rm || hm) && (!withu || !ru || hu);
  VC_ENSURES("accepted exactly when well formed and every required argument is given", (got == OK) == (ok && complete));
  VC_ENSURES("a refused command line is reported once and ends the program with 1", got == OK ? out.failures == 0 : got == 1 && out.failures == 1);
  if (got == OK) VC_ENSURES("set exactly what was given", a.isSet() == ha && b.isSet() == hb && m.isSet() == hm && s.isSet() == hs && (!withu || u.isSet() == hu));
  VC_COVER("accepted", n > 2 || got == OK); VC_COVER("refused", got != OK);
}
// ---------------------------------------------------------------- exclusive arguments
VC_CASES(C22_exclusive, VC_TIER ? 6 : 5)
VC_BOUNDED(C22_exclusive, "command lines of up to 4 tokens (5 in the thorough tier) over a fixed alphabet of tokens, a group of 4 and one of 2")
VC_PROOF(C22_exclusive, "ecl::CmdLine::xorAdd; ecl::XorHandler::check; ecl::XorHandler::add; ecl::Arg::xorSet; ecl::Arg::forceRequired; ecl::MultiArg<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > >::allowMore; ecl::MultiSwitchArg::allowMore; ecl::XorHandler::contains") {
  static const char *const alpha[] = { "-a", "-m", "-s", "--kk", "-r", "-p" };
  int n = __vc_case(); Line l;
  bool rr = vc::any_bool("r required");
  CmdLine cmd("message", ' ', "1.0", false); Out out; delete cmd.getOutput(); cmd.setOutput(&out);
  ValueArg<string> a("a", "aa", "d1", false, "def", "text");
  MultiArg<string> m("m", "mm", "d3", false, "text");
  SwitchArg s("s", "ss", "d4", false);
  MultiSwitchArg c("k", "kk", "d5");
  ValueArg<string> r("r", "rr", "d6", rr, "def", "text", cmd);
  SwitchArg p("p", "pp", "d7", false), q("q", "qq", "d8", false);
  vector<Arg *> g; g.push_back(&a); g.push_back(&m); g.push_back(&s); g.push_back(&c);
  cmd.xorAdd(g);
  bool second = vc::choose("second group", 0, 1);
  if (second) cmd.xorAdd(p, q); else { cmd.add(p); cmd.add(q); }
  VC_ENSURES("the group knows its members", cmd.getXorHandler().contains(&a) && cmd.getXorHandler().contains(&c) && !cmd.getXorHandler().contains(&r) && cmd.getXorHandler().contains(&q) == second);
  bool ok = true, ha = false, hm = false, hs = false, hr = false, hp = false; int hc = 0;
  for (int k = 0; k < n; ++k) {  // a line is only continued while it is well formed: what follows an error is never read
    if (!ok) return;
    l.tok.push_back(alpha[vc::choose("token", 0, 5)]);
    const string t = l.tok[k]; bool last = k + 1 == n;
    if (!last && (t == "-a" || t == "-m" || t == "-r")) l.tok.push_back(alpha[vc::choose("value", 4, 5)]);
    if (t == "-a") { if (ha || last) ok = false; ha = true; ++k; }
    else if (t == "-m") { if (last) ok = false; hm = true; ++k; }
    else if (t == "-s") { if (hs) ok = false; hs = true; }
    else if (t == "--kk") ++hc;
    else if (t == "-r") { if (hr || last) ok = false; hr = true; ++k; }
    else { if (hp) ok = false; hp = true; }
  }
  int got = run(cmd, l);
  bool one = (int)ha + (int)hm + (int)hs + (int)(hc > 0) == 1;
  bool expect = ok && one && (!rr || hr) && (!second || hp);
  VC_ENSURES("accepted exactly when well formed, exactly one member of each exclusive group and every required argument is given", (got == OK) == expect);
  VC_ENSURES("a refused command line is reported once and ends the program with 1", got == OK ? out.failures == 0 : got == 1 && out.failures == 1);
  if (got == OK) VC_ENSURES("set exactly what was given", a.isSet() == ha && m.isSet() == hm && s.isSet() == hs && c.isSet() == (hc > 0) && c.getValue() == hc && r.isSet() == hr && p.isSet() == hp);
  VC_COVER("accepted", n < 2 || got == OK); VC_COVER("refused", got != OK);
}
// groups next to required arguments: a second alternative must not make up for a missing required argument
VC_CASES(C22_group_and_required, 5)
VC_BOUNDED(C22_group_and_required, "command lines of up to 4 tokens over a fixed alphabet of tokens, a group of 2 or 3 and up to 3 required arguments")
VC_PROOF(C22_group_and_required, "ecl::CmdLine::parse; ecl::CmdLine::xorAdd; ecl::XorHandler::check; ecl::Arg::xorSet") {
  static const char *const alpha[] = { "-p", "-q", "-w", "-r", "--" };
  int n = __vc_case(); Line l;
  bool r1 = vc::any_bool("r required"), r2 = vc::any_bool("r2 required"), r3 = vc::any_bool("r3 required");
  bool three = vc::choose("group of three", 0, 1), late = vc::choose("group added last", 0, 1);
  CmdLine cmd("message", ' ', "1.0", false); Out out; delete cmd.getOutput(); cmd.setOutput(&out);
  SwitchArg p("p", "pp", "d1", false); ValueArg<string> q("q", "qq", "d2", false, "def", "text"); SwitchArg w("w", "ww", "d3", false);
  ValueArg<string> r("r", "rr", "d4", r1, "def", "text"), s("s", "ss", "d5", r2, "def", "text"), t("t", "tt", "d6", r3, "def", "text");
  vector<Arg *> g; g.push_back(&p); g.push_back(&q); if (three) g.push_back(&w);
  if (!late) cmd.xorAdd(g);
  cmd.add(r); cmd.add(s); cmd.add(t); if (!three) cmd.add(w);
  if (late) cmd.xorAdd(g);
  bool ok = true, hp = false, hq = false, hw = false, hr = false, ign = false;
  for (int k = 0; k < n; ++k) {
    if (!ok) return;
    l.tok.push_back(alpha[vc::choose("token", 0, 4)]);
    const string x = l.tok[k]; bool last = k + 1 == n;
    if (!last && !ign && (x == "-q" || x == "-r")) l.tok.push_back(alpha[vc::choose("value", 0, 1)]);
    if (ign) ;
    else if (x == "--") ign = true;
    else if (x == "-p") { if (hp) ok = false; hp = true; }
    else if (x == "-w") { if (hw) ok = false; hw = true; }
    else if (x == "-q") { if (hq || last) ok = false; hq = true; ++k; }
    else { if (hr || last) ok = false; hr = true; ++k; }
  }
  int got = run(cmd, l);
  bool one = (int)hp + (int)hq + (int)(three && hw) == 1;
  bool expect = ok && one && (!r1 || hr) && !r2 && !r3;
  VC_ENSURES("accepted exactly when well formed, exactly one member of the group and every required argument is given", (got == OK) == expect);
  VC_ENSURES("a refused command line is reported once and ends the program with 1", got == OK ? out.failures == 0 : got == 1 && out.failures == 1);
  VC_COVER("accepted", n < 1 || got == OK); VC_COVER("refused", got != OK);
}
// ---------------------------------------------------------------- refused specifications
VC_BOUNDED(C23_arg_spec, "flags up to 2 characters, names up to 3 characters or the reserved name")
VC_PROOF(C23_arg_spec, "ecl::Arg::Arg") {
  string flag = text("flag", vc::choose("flag length", 0, 2)), name;
  bool reserved = vc::choose("reserved name", 0, 1);
  if (reserved) name = "x" + Arg::ignoreNameString().substr(1); else name = text("name", vc::choose("name length", 1, 3));
  bool bad = flag.size() > 1 || flag == "-" || flag == " " || has(name, '-') || has(name, ' ');
  int kind = vc::choose("kind", 0, 3); bool threw = false;
  bool req = vc::any_bool("required");
  try {
    if (kind == 0) { SwitchArg a(flag, name, "d", false); VC_ENSURES("a switch is named as asked", a.getFlag() == flag && a.getName() == name && !a.isRequired() && !a.isValueRequired() && !a.isSet()); }
    if (kind == 1) { ValueArg<string> a(flag, name, "d", req, "v", "text"); VC_ENSURES("a value is named as asked", a.getFlag() == flag && a.getName() == name && a.isRequired() == req && a.isValueRequired() && !a.isSet() && a.getValue() == "v"); }
    if (kind == 2) { MultiArg<int> a(flag, name, "d", req, "int"); VC_ENSURES("a multi value is named as asked", a.getFlag() == flag && a.getName() == name && a.isRequired() == req && !a.isSet() && a.getValue().empty()); }
    if (kind == 3) { MultiSwitchArg a(flag, name, "d", 4); VC_ENSURES("a multi switch is named as asked", a.getFlag() == flag && a.getName() == name && !a.isSet() && a.getValue() == 4); }
  } catch (SpecificationException &e) { threw = true; }
  VC_ENSURES("an argument is refused exactly for a bad flag or name", threw == bad);
  VC_COVER("refused", threw); VC_COVER("accepted", !threw);
}
VC_BOUNDED(C23_clash, "names up to 2 characters, two earlier arguments")
VC_PROOF(C23_clash, "ecl::CmdLine::add; ecl::Arg::operator==") {
  CmdLine cmd("message", ' ', "1.0", false); Out out; delete cmd.getOutput(); cmd.setOutput(&out);
  string f[3], n[3];
  for (int k = 0; k < 3; ++k) {
    f[k] = text("flag", vc::choose("flag length", 0, 1)); n[k] = text("name", vc::choose("name length", 1, 2));
    VC_REQUIRES(!has(f[k], '-') && !has(f[k], ' ') && !has(n[k], '-') && !has(n[k], ' '));
  }
  SwitchArg a(f[0], n[0], "d0", false); ValueArg<string> b(f[1], n[1], "d1", false, "v", "text"); MultiSwitchArg c(f[2], n[2], "d2");
  bool t[3] = { false, false, false };
  try { cmd.add(a); } catch (SpecificationException &) { t[0] = true; }
  try { cmd.add(b); } catch (SpecificationException &) { t[1] = true; }
  bool bin = !t[1];
  try { cmd.add(c); } catch (SpecificationException &) { t[2] = true; }
  bool ab = (!f[0].empty() && f[0] == f[1]) || n[0] == n[1], ac = (!f[0].empty() && f[0] == f[2]) || n[0] == n[2], bc = (!f[1].empty() && f[1] == f[2]) || n[1] == n[2];
  VC_ENSURES("a first argument is accepted", !t[0]);
  VC_ENSURES("a second argument is refused exactly when its flag or name is taken", t[1] == ab);
  VC_ENSURES("a third argument is refused exactly when its flag or name is taken", t[2] == (ac || (bin && bc)));
  VC_ENSURES("refused arguments are not part of the command line", cmd.getArgList().size() == 2u + (unsigned)!t[1] + (unsigned)!t[2]);
  VC_COVER("second refused", t[1]); VC_COVER("third refused", t[2] && !t[1]); VC_COVER("all accepted", !t[1] && !t[2]);
}
VC_PROOF(C23_reserved, "ecl::CmdLine::CmdLine; ecl::CmdLine::add; ecl::CmdLine::xorAdd") {
  bool help = vc::any_bool("help"), viaXor = vc::any_bool("via xor"), threw = false; int k = vc::choose("which", 0, 5);
  CmdLine cmd("message", ' ', "1.0", help); Out out; delete cmd.getOutput(); cmd.setOutput(&out);
  SwitchArg a(k == 0 ? "h" : k == 1 ? "H" : "", k == 2 ? "help" : k == 3 ? "version" : k == 4 ? "ignore_rest" : "other", "d", false), b("q", "qqq", "d2", false);
  try { if (viaXor) cmd.xorAdd(b, a); else cmd.add(a); } catch (SpecificationException &) { threw = true; }
  VC_ENSURES("the predefined flags and names cannot be taken", threw == (k == 4 || (help && (k == 0 || k == 2 || k == 3))));
}
VC_BOUNDED(C23_unlabelled, "up to three unlabelled arguments")
VC_PROOF(C23_unlabelled, "ecl::OptionalUnlabeledTracker::check; ecl::UnlabeledValueArg<int>::UnlabeledValueArg; ecl::UnlabeledMultiArg<int>::UnlabeledMultiArg") {
  bool r1 = vc::any_bool("first required"), r2 = vc::any_bool("second required"), t1 = false, t2 = false, t3 = false;
  try { UnlabeledValueArg<int> a("a", "d1", r1, 0, "int"); } catch (SpecificationException &) { t1 = true; }
  try { UnlabeledValueArg<int> b("b", "d2", r2, 0, "int"); } catch (SpecificationException &) { t2 = true; }
  try { UnlabeledMultiArg<int> c("c", "d3", vc::any_bool("third required"), "int"); } catch (SpecificationException &) { t3 = true; }
  VC_ENSURES("a first unlabelled argument is accepted", !t1);
  VC_ENSURES("nothing unlabelled may follow an optional unlabelled argument", t2 == !r1 && t3 == (!r1 || !r2));
}
