// SOURCES TYPES
// ENTRY t01_seq tier=quick shards=4 bound="every sequence of 3 additions (amplitude with and without override, frequency, appended keyframe at or after the last position) with arbitrary positions and values" covers=end,merged,inserted
// ENTRY t01_seq4 tier=thorough shards=8 timeout=800 bound="every sequence of 4 additions" covers=end
// ENTRY t01_step bound="one addition of any kind to an effect already holding 7 keyframes at any ordered positions" covers=end,merged,inserted
// ENTRY t01_edit bound="replacing and removing at every index in a list of 3 keyframes" covers=end
#include <sx.h>
#include <Types/include/Effect.h>
using namespace haptics::types;
struct KF { int p; bool hp, ha, hf; uint32_t a; int f; };
static uint32_t bits(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static KF snap(const Keyframe &k) {
  KF r{};
  auto p = k.getRelativePosition(); auto a = k.getAmplitudeModulation(); auto f = k.getFrequencyModulation();
  r.hp = p.has_value(); r.ha = a.has_value(); r.hf = f.has_value();
  r.p = r.hp ? *p : 0; r.a = r.ha ? bits(*a) : 0; r.f = r.hf ? *f : 0;
  return r;
}
static bool eq(const KF &x, const KF &y) { return (x.p == y.p) & (x.hp == y.hp) & (x.ha == y.ha) & (x.hf == y.hf) & (x.a == y.a) & (x.f == y.f); }
static std::vector<KF> all(Effect &e) {
  std::vector<KF> r;
  for (int i = 0; i < (int)e.getKeyframesSize(); i++) r.push_back(snap(e.getKeyframeAt(i)));
  return r;
}
// n is o with one element inserted that satisfies ins
template <class P> static bool insertedOne(const std::vector<KF> &o, const std::vector<KF> &n, P ins) {
  if (n.size() != o.size() + 1) return false;
  bool any = false;
  for (size_t i = 0; i < n.size(); i++) {
    bool ok = ins(n[i]);
    for (size_t j = 0; j < o.size(); j++) ok &= eq(o[j], n[j < i ? j : j + 1]);
    any |= ok;
  }
  return any;
}
// n is o with the one element at position p (the first) changed to what chg says
template <class P> static bool changedOne(const std::vector<KF> &o, const std::vector<KF> &n, int p, P chg) {
  if (n.size() != o.size()) return false;
  bool any = false;
  for (size_t i = 0; i < n.size(); i++) {
    bool ok = (o[i].p == p) & chg(o[i], n[i]);
    for (size_t j = 0; j < o.size(); j++) if (j != i) ok &= eq(o[j], n[j]);
    any |= ok;
  }
  return any;
}
static void seq(int n, int pre = 0) {
  Effect e;
  int prev = INT32_MIN;
  for (int i = 0; i < pre; i++) {
    int p = sx_int("q");
    sx_assume(p >= prev);
    prev = p;
    std::optional<double> a;
    std::optional<int> f;
    if (i != 2 && i != 3) a = 0.25 * i;
    if (i & 1) f = 100 * i;
    e.addKeyframe(p, a, f);
  }
  for (int k = 0; k < n; k++) {
    std::vector<KF> o = all(e);
    int op = sx_choice("op", 4);
    int p = sx_int("p");
    bool has = sx_bool("has");
    bool there = false;
    for (auto &x : o) there |= x.p == p;
    if (op == 0 || op == 1) {
      float a = sx_f32("a", -1e30f, 1e30f);
      std::optional<float> oa;
      if (has) oa = a;
      bool r = op == 0 ? e.addAmplitudeAt(oa, p) : e.addAmplitudeAt(oa, p, false);
      sx_assert(r, "adding an amplitude succeeds");
      std::vector<KF> nw = all(e);
      KF want{p, true, has, false, has ? bits(a) : 0, 0};
      bool ins = insertedOne(o, nw, [&](const KF &x) { return eq(x, want); });
      if (op == 0) {
        bool chg = changedOne(o, nw, p, [&](const KF &x, const KF &y) { return (y.p == x.p) & y.hp & (y.ha == has) & (!has | (y.a == bits(a))) & (y.hf == x.hf) & (y.f == x.f); });
        sx_assert(there ? chg : ins, "an amplitude replaces the one at its position or is inserted, and nothing else changes");
      } else
        sx_assert(ins, "an amplitude that must not override is inserted, and nothing else changes");
    } else if (op == 2) {
      int f = sx_int("f");
      std::optional<int> of;
      if (has) of = f;
      bool r = e.addFrequencyAt(of, p);
      sx_assert(r, "adding a frequency succeeds");
      std::vector<KF> nw = all(e);
      KF want{p, true, false, has, 0, has ? f : 0};
      bool ins = insertedOne(o, nw, [&](const KF &x) { return eq(x, want); });
      bool chg = changedOne(o, nw, p, [&](const KF &x, const KF &y) { return (y.p == x.p) & y.hp & (y.hf == has) & (!has | (y.f == f)) & (y.ha == x.ha) & (y.a == x.a); });
      sx_assert(there ? chg : ins, "a frequency replaces the one at its position or is inserted, and nothing else changes");
    } else {
      if (!o.empty()) sx_assume(p >= o.back().p);
      int f = sx_int("f");
      float a = sx_f32("a", -1e30f, 1e30f);
      bool hf = sx_bool("hf");
      std::optional<double> oa;
      if (has) oa = a;
      std::optional<int> of;
      if (hf) of = f;
      e.addKeyframe(p, oa, of);
      std::vector<KF> nw = all(e);
      KF want{p, true, has, hf, has ? bits(a) : 0, hf ? f : 0};
      bool ok = nw.size() == o.size() + 1;
      for (size_t j = 0; j < o.size(); j++) ok &= j < nw.size() && eq(o[j], nw[j]);
      sx_assert(ok && eq(nw.back(), want), "a keyframe is appended with its values");
    }
    std::vector<KF> nw = all(e);
    bool sorted = true;
    for (size_t i = 1; i < nw.size(); i++) sorted &= nw[i - 1].p <= nw[i].p;
    sx_assert(sorted, "keyframes stay sorted by position");
    if (nw.size() == o.size()) sx_cover("merged"); else sx_cover("inserted");
  }
  sx_observe_u("count", e.getKeyframesSize());
  for (int i = 0; i < (int)e.getKeyframesSize(); i++) sx_observe_u("pos", (uint32_t)snap(e.getKeyframeAt(i)).p);
  sx_cover("end");
}
ENTRY(t01_seq) { seq(3); }
ENTRY(t01_step) { seq(1, 7); }
ENTRY(t01_seq4) { seq(4); }
ENTRY(t01_edit) {
  Effect e;
  for (int i = 0; i < 3; i++) e.addKeyframe(i * 10, (double)sx_f32("a", -1, 1), sx_int("f"));
  std::vector<KF> o = all(e);
  int idx = sx_range("idx", -3, 5);
  if (sx_choice("op", 2)) {
    Keyframe k(sx_int("np"), (double)sx_f32("na", -1, 1), sx_int("nf"));
    KF nk = snap(k);
    bool r = e.replaceKeyframeAt(idx, k);
    std::vector<KF> n = all(e);
    sx_assert(r == (idx >= 0 && idx < 3), "replacing reports whether the index exists");
    sx_assert(n.size() == 3, "replacing keeps the count");
    for (int i = 0; i < 3; i++) sx_assert(eq(n[i], i == idx ? nk : o[i]), "replacing changes exactly the indexed keyframe");
  } else {
    bool r = e.removeKeyframeAt(idx);
    std::vector<KF> n = all(e);
    sx_assert(r == (idx >= 0 && idx < 3), "removing reports whether the index exists");
    if (r) {
      sx_assert(n.size() == 2, "removing removes one");
      for (int i = 0; i < 2; i++) sx_assert(eq(n[i], i < idx ? o[i] : o[i + 1]), "removing keeps the others");
    } else {
      sx_assert(n.size() == 3, "a missing index removes nothing");
      for (int i = 0; i < 3; i++) sx_assert(eq(n[i], o[i]), "a missing index changes nothing");
    }
  }
  sx_cover("end");
}
