// SOURCES Tools/src/
// ENTRY u01_lookup shards=4 bound="every list of 0-3 arguments of 0-3 arbitrary characters each, every option of 0-3 characters" covers=found,absent,follows,last
// ENTRY u01_repeat bound="lists of 4 one-character arguments with an arbitrary option character" covers=end
// ENTRY u01_ext bound="file names of 0-6 arbitrary characters (NUL excluded)" covers=dot,nodot
// ENTRY u01_deep tier=thorough shards=8 timeout=800 bound="every list of 4 arguments of 0-2 characters" covers=found,absent
// ASSUME arguments are NUL-terminated texts, so they contain no NUL character
#include <sx.h>
#include <string>
#include <vector>
#include <Tools/include/InputParser.h>
using haptics::tools::InputParser;
static std::string text(const char *nm, int len) {
  std::string s;
  for (int i = 0; i < len; i++) {
    char c = (char)sx_u(nm, 8);
    sx_assume(c != 0);
    s += c;
  }
  return s;
}
static bool same(const std::string &a, const std::string &b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
  return r;
}
static void lookup(int nargs, int maxlen) {
  std::vector<std::string> args;
  for (int i = 0; i < nargs; i++) args.push_back(text("a", sx_choice("len", maxlen + 1)));
  std::vector<const char *> av;
  for (auto &a : args) av.push_back(a.c_str());
  InputParser p(av);
  std::string opt = text("o", sx_choice("olen", maxlen + 1));
  int first = -1;
  for (int i = nargs - 1; i >= 0; i--) if (same(args[i], opt)) first = i;
  bool e = p.cmdOptionExists(opt);
  std::string v = p.getCmdOption(opt);
  std::string v2 = p.getCmdOption(opt);
  sx_assert(e == (first >= 0), "an option exists exactly when an argument equals it");
  if (first >= 0) sx_cover("found"); else sx_cover("absent");
  if (first >= 0 && first + 1 < nargs) {
    sx_cover("follows");
    sx_assert(same(v, args[first + 1]), "the option value is the next argument");
  } else {
    if (first >= 0) sx_cover("last");
    sx_assert(v.empty(), "no value is the empty text");
  }
  sx_assert(same(v, v2), "lookup does not change the arguments");
  sx_observe_u("n", v.size());
  for (char c : v) sx_observe_u("v", (uint8_t)c);
}
ENTRY(u01_lookup) { lookup(sx_choice("nargs", 4), 3); }
ENTRY(u01_deep) { lookup(4, 2); }
ENTRY(u01_repeat) {
  std::vector<std::string> args;
  for (int i = 0; i < 4; i++) args.push_back(text("a", 1));
  std::vector<const char *> av;
  for (auto &a : args) av.push_back(a.c_str());
  InputParser p(av);
  std::string opt = text("o", 1);
  std::string v = p.getCmdOption(opt);
  bool ok = false, none = true;
  for (int i = 0; i < 4; i++) {
    bool hit = none & (args[i][0] == opt[0]);
    if (i < 3) ok |= hit & same(v, args[i + 1]); else ok |= hit & v.empty();
    none &= args[i][0] != opt[0];
  }
  sx_assert(ok | (none & v.empty()), "the argument after the first occurrence is returned");
  sx_assert(p.cmdOptionExists(opt) == !none, "exists");
  sx_cover("end");
}
ENTRY(u01_ext) {
  int len = sx_choice("len", 7);
  std::string s = text("c", len);
  std::string in = s;
  std::string e = InputParser::getFileExt(in);
  int dot = -1;
  for (int i = 0; i < len; i++) if (s[i] == '.') dot = i;
  if (dot < 0) {
    sx_cover("nodot");
    sx_assert(e.empty(), "a name without a dot has no extension");
  } else {
    sx_cover("dot");
    sx_assert(e.size() == (size_t)(len - dot - 1), "the extension is what follows the last dot");
    for (int i = dot + 1; i < len; i++) sx_assert(e[i - dot - 1] == s[i], "extension characters");
  }
  sx_assert(same(in, s), "the name is not changed");
  sx_observe_u("n", e.size());
}
