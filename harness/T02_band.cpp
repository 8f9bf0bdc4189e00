// SOURCES TYPES
// ENTRY t02_order shards=4 bound="every sequence of 4 insertions with arbitrary positions" covers=end
// ENTRY t02_insert bound="one insertion anywhere into a band already holding 8 effects at any ordered positions" covers=end
// ENTRY t02_edit bound="replacing and removing at every index (in and out of range) of a band of 3 effects" covers=end
// ENTRY t02_overlap shards=4 bound="every band type; effects of 0-2 keyframes with arbitrary positions (absent or -2^24..2^24) against every span" covers=end,yes,no
// ENTRY t02_find shards=6 bound="channels of 0-2 bands of any two types, holding up to 2 effects (1 each when there are two bands), every span" covers=found,none
// ENTRY t02_order6 tier=thorough shards=8 timeout=800 bound="every sequence of 6 insertions with arbitrary positions" covers=end
// ASSUME keyframes of one effect are ordered in time (property T01); positions and lengths stay below 2^24 so that sums do not overflow
#include <sx.h>
#include <Types/include/Channel.h>
using namespace haptics::types;
struct S { int pos, id; };
static std::vector<S> snap(Band &b) {
  std::vector<S> r;
  for (int i = 0; i < (int)b.getEffectsSize(); i++) r.push_back({b.getEffectAt(i).getPosition(), b.getEffectAt(i).getId()});
  return r;
}
static bool same(const S &a, const S &b) { return (a.pos == b.pos) & (a.id == b.id); }
static void order(int n) {
  Band b(BandType::VectorialWave, 0, 1000);
  for (int k = 0; k < n; k++) {
    std::vector<S> o = snap(b);
    int p = sx_int("p"), id = sx_int("id");
    Effect e;
    e.setPosition(p);
    e.setId(id);
    b.addEffect(e);
    std::vector<S> w = snap(b);
    sx_assert(w.size() == o.size() + 1, "one effect more");
    bool any = false, sorted = true;
    for (size_t i = 0; i < w.size(); i++) {
      bool ok = (w[i].pos == p) & (w[i].id == id);
      for (size_t j = 0; j < o.size(); j++) ok &= same(o[j], w[j < i ? j : j + 1]);
      any |= ok;
      if (i) sorted &= w[i - 1].pos <= w[i].pos;
    }
    sx_assert(any, "the effect is inserted among the others, which keep their order");
    sx_assert(sorted, "effects are sorted by position");
  }
  for (auto &x : snap(b)) sx_observe_u("pos", (uint32_t)x.pos);
  sx_cover("end");
}
ENTRY(t02_insert) {
  constexpr int N = 8;
  Band b(BandType::VectorialWave, 0, 1000);
  int prev = INT32_MIN;
  for (int k = 0; k < N; k++) {
    Effect e;
    e.setPosition(sx_range("q", INT32_MIN, INT32_MAX));
    sx_assume(e.getPosition() >= prev);
    prev = e.getPosition();
    e.setId(k);
    b.addEffect(e);
  }
  int p = sx_int("p");
  Effect e;
  e.setPosition(p);
  e.setId(N);
  b.addEffect(e);
  std::vector<S> w = snap(b);
  sx_assert(w.size() == N + 1, "one effect more");
  int seen = 0;
  for (int i = 0; i <= N; i++) {
    if (i) sx_assert(w[i - 1].pos <= w[i].pos, "effects are sorted by position");
    int want = seen == i ? i : i - 1; // ids in order, the new one anywhere
    bool isNew = w[i].id == N;
    sx_assert(isNew | (w[i].id == want), "the other effects keep their order");
    if (isNew) sx_assert(w[i].pos == p, "the new effect keeps its position");
    seen += isNew ? 0 : 1;
  }
  sx_assert(seen == N, "no effect is lost");
  sx_cover("end");
}
ENTRY(t02_order) { order(4); }
ENTRY(t02_order6) { order(6); }
ENTRY(t02_edit) {
  Band b(BandType::Curve, 0, 1000);
  for (int k = 0; k < 3; k++) { Effect e; e.setPosition(k * 7); e.setId(sx_int("id")); b.addEffect(e); }
  std::vector<S> o = snap(b);
  int idx = sx_range("idx", -2, 5);
  bool in = (idx >= 0) & (idx < 3);
  if (sx_choice("op", 2)) {
    Effect e;
    e.setPosition(sx_int("np"));
    e.setId(sx_int("nid"));
    bool r = b.replaceEffectAt(idx, e);
    sx_assert(r == in, "replacing reports whether the index exists");
    std::vector<S> w = snap(b);
    sx_assert(w.size() == 3, "replacing keeps the count");
    for (int i = 0; i < 3; i++) sx_assert(same(w[i], i == idx ? S{e.getPosition(), e.getId()} : o[i]), "only the indexed effect is replaced");
  } else {
    bool r = b.removeEffectAt(idx);
    sx_assert(r == in, "removing reports whether the index exists");
    std::vector<S> w = snap(b);
    if (r) {
      sx_assert(w.size() == 2, "removing removes one");
      for (int i = 0; i < 2; i++) sx_assert(same(w[i], i < idx ? o[i] : o[i + 1]), "the other effects stay");
    } else {
      sx_assert(w.size() == 3, "nothing removed");
      for (int i = 0; i < 3; i++) sx_assert(same(w[i], o[i]), "nothing changed");
    }
  }
  sx_cover("end");
}
constexpr int M = 1 << 24;
static const BandType BT[4] = {BandType::Curve, BandType::WaveletWave, BandType::VectorialWave, BandType::Transient};
// effect with nk keyframes; end: where its content ends, for a band of type t
static Effect effect(int nk, BandType t, int64_t &start, int64_t &end) {
  Effect e;
  e.setPosition(sx_range("pos", -M, M));
  int last = 0, prev = -M;
  bool any = false;
  for (int i = 0; i < nk; i++) {
    bool has = sx_bool("has");
    std::optional<int> rp;
    int v = sx_range("kp", -M, M);
    if (has) {
      rp = v;
      sx_assume(v >= prev);
      prev = v;
    }
    last = has ? v : last;
    any |= has;
    e.addKeyframe(rp, 0.5, std::nullopt);
  }
  start = e.getPosition();
  int len = !any ? 0 : t == BandType::Transient ? last + 22 : t == BandType::WaveletWave ? 0 : last;
  end = start + len;
  return e;
}
ENTRY(t02_overlap) {
  BandType t = BT[sx_choice("type", 4)];
  int nk = sx_choice("nk", 3);
  int64_t s, en;
  Effect e = effect(nk, t, s, en);
  sx_assume(en >= s);
  Band b(t, 0, 1000);
  int a = sx_range("start", -M, M), z = sx_range("stop", -M, M);
  sx_assume(a <= z);
  bool r = b.isOverlapping(e, a, z);
  bool want = (s <= z) & (en >= a);
  sx_assert(r == want, "an effect overlaps a span exactly when they have a time in common");
  if (r) sx_cover("yes"); else sx_cover("no");
  sx_observe_u("r", r);
  sx_cover("end");
}
ENTRY(t02_find) {
  Channel c;
  int nb = sx_choice("nb", 3);
  std::vector<bool> ok;
  BandType want = sx_choice("want", 2) ? BandType::Transient : BandType::VectorialWave;
  int a = sx_range("start", -M, M), d = sx_range("duration", 0, M);
  std::vector<char> fr;
  for (int i = 0; i < nb; i++) {
    BandType t = sx_choice("type", 2) ? BandType::Transient : BandType::VectorialWave;
    Band b(t, i, 1000);
    bool f = t == want;
    int ne = sx_choice("ne", nb == 2 ? 2 : 3);
    for (int k = 0; k < ne; k++) {
      int64_t s, en;
      Effect e = effect(1, t, s, en);
      sx_assume(en >= s);
      b.addEffect(e);
      f &= !((s <= (int64_t)a + d) & (en >= a));
    }
    c.addBand(b);
    fr.push_back(f);
  }
  Band *r = c.findBandAvailable(a, d, want);
  sx_assert((int)c.getBandsSize() == nb, "looking for a band does not add one");
  int got = -1;
  for (int i = 0; i < nb; i++) if (r == &c.getBandAt(i)) got = i;
  sx_assert((r == nullptr) == (got < 0), "the band is one of the channel");
  if (r) {
    sx_assert(fr[got], "the offered band has the type and is free during the span");
    sx_cover("found");
  } else {
    for (int i = 0; i < nb; i++) sx_assert(!fr[i], "no band offered means none is free");
    sx_cover("none");
  }
}
