// SOURCES TYPES
// ENTRY c01_codes shards=2 args="--policy no_merge 1 --policy fork_select 1" bound="every code of 16 bits for each of the nine code tables" covers=known,unknown
// ENTRY c01_names shards=6 args="--policy no_merge 1 --policy fork_select 1" bound="every text of 0-6 bytes for each of the nine name tables" covers=known,unknown
// ENTRY c01_near shards=8 args="--policy no_merge 1 --policy fork_select 1" bound="every documented name with its first or last character (thorough: any character) replaced by any byte, or cut short, or extended by any byte" covers=known,unknown
// ENTRY c01_long tier=thorough shards=8 timeout=800 args="--policy no_merge 1 --policy fork_select 1" bound="every text of 7-12 bytes" covers=known,unknown
// ENTRY c01_aliases bound="the documented aliases of modalities" covers=end
// ASSUME the codes and names of the format are those in harness/ref_tables.h (fixed when the check was written)
#include <sx.h>
#include <limits>
#include <Types/include/Avatar.h>
#include <Types/include/Band.h>
#include <Types/include/BodyPartTarget.h>
#include <Types/include/EffectSemantic.h>
#include <Types/include/Perception.h>
#include <Types/include/ReferenceDevice.h>
#include "ref_tables.h"
using namespace haptics::types;
static const RefEntry aliases[] = {{(int)PerceptionModality::VibrotactileTexture, "Texture"}, {(int)PerceptionModality::Vibrotactile, "Vibration"}, {(int)PerceptionModality::Force, "Kinesthetic"}};
template <class E, class M> static void code(const RefEntry *ref, int n, const M &toStr) {
  int c = sx_range("code", 0, 65535);
  sx_assume(c <= (int)std::numeric_limits<std::underlying_type_t<E>>::max());
  int want = -1;
  for (int i = 0; i < n; i++) want = c == ref[i].code ? i : want;
  auto it = toStr.find((E)c);
  sx_assert((it != toStr.end()) == (want >= 0), "a code has a name exactly when the format defines it");
  if (it == toStr.end()) { sx_cover("unknown"); return; }
  bool ok = false;
  for (int i = 0; i < n; i++)
    if (it->second == ref[i].name) ok |= want == i;
  sx_assert(ok, "a code has the name the format gives it");
  sx_cover("known");
}
static bool same(const std::string &s, const char *t) {
  if (s.size() != strlen(t)) return false;
  unsigned d = 0;
  for (size_t i = 0; i < s.size(); i++) d |= (unsigned char)s[i] ^ (unsigned char)t[i];
  return d == 0;
}
template <class M> static void name(const std::string &s, const RefEntry *ref, int n, const M &fromStr, bool mod) {
  int want = -1;
  for (int i = 0; i < n; i++) want = same(s, ref[i].name) ? ref[i].code : want;
  if (mod) for (auto &a : aliases) want = same(s, a.name) ? a.code : want;
  auto it = fromStr.find(s);
  sx_assert((it != fromStr.end()) == (want >= 0), "a name is known exactly when the format defines it");
  if (it == fromStr.end()) { sx_cover("unknown"); return; }
  sx_assert((int)it->second == want, "a name stands for the code the format gives it");
  sx_cover("known");
}
static void names(const std::string &s, int t) {
  switch (t) {
  case 0: name(s, refBaseSignal, sizeof refBaseSignal / sizeof(RefEntry), stringToBaseSignal, false); break;
  case 1: name(s, refEffectType, sizeof refEffectType / sizeof(RefEntry), stringToEffectType, false); break;
  case 2: name(s, refActuatorType, sizeof refActuatorType / sizeof(RefEntry), stringToActuatorType, false); break;
  case 3: name(s, refPerceptionModality, sizeof refPerceptionModality / sizeof(RefEntry), stringToPerceptionModality, true); break;
  case 4: name(s, refAvatarType, sizeof refAvatarType / sizeof(RefEntry), stringToAvatarType, false); break;
  case 5: name(s, refEffectSemantic, sizeof refEffectSemantic / sizeof(RefEntry), stringToEffectSemantic, false); break;
  case 6: name(s, refBodyPartTarget, sizeof refBodyPartTarget / sizeof(RefEntry), stringToBodyPartTarget, false); break;
  case 7: name(s, refBandType, sizeof refBandType / sizeof(RefEntry), stringToBandType, false); break;
  case 8: name(s, refCurveType, sizeof refCurveType / sizeof(RefEntry), stringToCurveType, false); break;
  }
}
ENTRY(c01_codes) {
  switch (sx_choice("table", 9)) {
  case 0: code<BaseSignal>(refBaseSignal, sizeof refBaseSignal / sizeof(RefEntry), baseSignalToString); break;
  case 1: code<EffectType>(refEffectType, sizeof refEffectType / sizeof(RefEntry), effectTypeToString); break;
  case 2: code<ActuatorType>(refActuatorType, sizeof refActuatorType / sizeof(RefEntry), actuatorTypeToString); break;
  case 3: code<PerceptionModality>(refPerceptionModality, sizeof refPerceptionModality / sizeof(RefEntry), perceptionModalityToString); break;
  case 4: code<AvatarType>(refAvatarType, sizeof refAvatarType / sizeof(RefEntry), avatarTypeToString); break;
  case 5: code<EffectSemantic>(refEffectSemantic, sizeof refEffectSemantic / sizeof(RefEntry), effectSemanticToString); break;
  case 6: code<BodyPartTarget>(refBodyPartTarget, sizeof refBodyPartTarget / sizeof(RefEntry), bodyPartTargetToString); break;
  case 7: code<BandType>(refBandType, sizeof refBandType / sizeof(RefEntry), bandTypeToString); break;
  case 8: code<CurveType>(refCurveType, sizeof refCurveType / sizeof(RefEntry), curveTypeToString); break;
  }
}
static void texts(int lo, int hi) {
  int t = sx_choice("table", 9);
  int n = lo + sx_choice("len", hi - lo + 1);
  std::string s;
  for (int i = 0; i < n; i++) s.push_back((char)sx_u("c", 8));
  names(s, t);
}
ENTRY(c01_names) { texts(0, 6); }
ENTRY(c01_long) { texts(7, 12); }
ENTRY(c01_near) {
  static const struct { const RefEntry *r; int n; } R[9] = {{refBaseSignal, (int)(sizeof refBaseSignal / sizeof(RefEntry))}, {refEffectType, (int)(sizeof refEffectType / sizeof(RefEntry))}, {refActuatorType, (int)(sizeof refActuatorType / sizeof(RefEntry))}, {refPerceptionModality, (int)(sizeof refPerceptionModality / sizeof(RefEntry))}, {refAvatarType, (int)(sizeof refAvatarType / sizeof(RefEntry))}, {refEffectSemantic, (int)(sizeof refEffectSemantic / sizeof(RefEntry))}, {refBodyPartTarget, (int)(sizeof refBodyPartTarget / sizeof(RefEntry))}, {refBandType, (int)(sizeof refBandType / sizeof(RefEntry))}, {refCurveType, (int)(sizeof refCurveType / sizeof(RefEntry))}};
  int t = sx_choice("table", 9);
  int k = sx_choice("entry", R[t].n);
  std::string s = R[t].r[k].name;
  int op = sx_choice("op", 3);
  if (op == 0) {
#ifdef SX_THOROUGH
    int at = sx_choice("at", (int)s.size());
#else
    int at = sx_choice("at", 2) ? (int)s.size() - 1 : 0;
#endif
    s[at] = (char)sx_u("c", 8);
  } else if (op == 1)
    s.pop_back();
  else
    s.push_back((char)sx_u("c", 8));
  names(s, t);
}
ENTRY(c01_aliases) {
  for (auto &a : aliases) {
    auto it = stringToPerceptionModality.find(a.name);
    sx_assert(it != stringToPerceptionModality.end() && (int)it->second == a.code, "an alias of a modality is understood");
  }
  sx_cover("end");
}
