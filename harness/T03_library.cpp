// SOURCES TYPES
// ENTRY t03_refactor shards=8 bound="1-2 channels of 1-2 bands with 2-4 effects in all, keyframes, phase, signal and semantic equal or not between any of them, and a library of 0-1 effects of any id below 4" covers=end,shared
// ENTRY t03_kinds shards=16 bound="bands of different types holding basis, reference, composite, empty and wavelet effects next to each other; a library of two effects of several ids" covers=end
// ENTRY t03_expand shards=8 bound="libraries of 0-3 effects with any distinct ids below 8, basis or composite of references; references with any id, nested up to two levels" covers=end
// ENTRY t03_experience shards=4 bound="two perceptions with libraries of their own, factored and expanded through the experience, any keyframe values" covers=end
// ENTRY t03_many tier=thorough shards=16 timeout=850 bound="as t03_refactor with 3-5 effects" covers=end,shared
// ASSUME positions and keyframe times are below 2^20, keyframe values are drawn from two per field; references that resolve to nothing stay as they are
#include "meta.h"
#include <sx.h>
using namespace haptics::types;
static bool sameContent(Effect &a, Effect &b, bool timeline = true) {
  bool ok = a.getEffectType() == b.getEffectType();
  ok &= a.getPhase().has_value() == b.getPhase().has_value();
  ok &= a.getPhase().value_or(0) == b.getPhase().value_or(0);
  ok &= a.getBaseSignal() == b.getBaseSignal();
  ok &= a.getSemantic() == b.getSemantic();
  if (a.getKeyframesSize() != b.getKeyframesSize() || a.getWaveletBitstream() != b.getWaveletBitstream() || a.getTimelineSize() != b.getTimelineSize()) return false;
  for (int i = 0; i < (int)a.getKeyframesSize(); i++) {
    Keyframe &x = a.getKeyframeAt(i), &y = b.getKeyframeAt(i);
    ok &= x.getRelativePosition() == y.getRelativePosition();
    ok &= x.getAmplitudeModulation() == y.getAmplitudeModulation();
    ok &= x.getFrequencyModulation() == y.getFrequencyModulation();
  }
  return ok;
}
static int lookups(Perception &p, int id, int &at) {
  int n = 0;
  for (int i = 0; i < (int)p.getEffectLibrarySize(); i++)
    if (p.getBasisEffectAt(i).getId() == id) {
      if (!n) at = i;
      n++;
    }
  return n;
}
// what an effect stands for: references replaced by the library effect at the place of the reference
static Effect expand(Perception &p, Effect &e, int depth = 8) {
  Effect r = e;
  int at = -1;
  if (r.getEffectType() == EffectType::Reference && depth && lookups(p, r.getId(), at)) {
    r = p.getBasisEffectAt(at);
    r.setPosition(e.getPosition());
    return expand(p, r, depth - 1);
  }
  for (int i = 0; i < (int)r.getTimelineSize() && depth; i++) {
    Effect t = expand(p, r.getTimelineEffectAt(i), depth - 1);
    r.getTimelineEffectAt(i) = t;
  }
  return r;
}
static bool sameEffect(Effect &a, Effect &b) {
  if (!sameContent(a, b)) return false;
  bool ok = a.getPosition() == b.getPosition();
  if (a.getEffectType() == EffectType::Reference) ok &= a.getId() == b.getId();
  for (int i = 0; i < (int)a.getTimelineSize(); i++)
    if (!sameEffect(a.getTimelineEffectAt(i), b.getTimelineEffectAt(i))) return false;
  return ok;
}
static void sameSignal(Perception &before, Perception &after) {
  sx_assert(before.getChannelsSize() == after.getChannelsSize(), "every channel is still there");
  for (int i = 0; i < (int)before.getChannelsSize(); i++) {
    Channel &c = before.getChannelAt(i), &d = after.getChannelAt(i);
    sx_assert(c.getBandsSize() == d.getBandsSize() && c.getId() == d.getId(), "every band is still there");
    for (int j = 0; j < (int)c.getBandsSize(); j++) {
      Band &a = c.getBandAt(j), &b = d.getBandAt(j);
      sx_assert(a.getEffectsSize() == b.getEffectsSize() && a.getBandType() == b.getBandType(), "every effect is still there");
      for (int k = 0; k < (int)a.getEffectsSize(); k++) {
        Effect x = expand(before, a.getEffectAt(k)), y = expand(after, b.getEffectAt(k));
        sx_assert(sameEffect(x, y), "an effect keeps its position and content");
      }
    }
  }
}
static void refs(Perception &p, Effect &e, bool expanded) {
  int at;
  if (e.getEffectType() == EffectType::Reference) {
    if (!expanded) sx_assert(lookups(p, e.getId(), at) == 1, "a reference resolves to exactly one library effect");
  }
  for (int i = 0; i < (int)e.getTimelineSize(); i++) refs(p, e.getTimelineEffectAt(i), expanded);
}
static void factored(Perception &before, Perception &after, bool resolve = true) {
  int at;
  for (int i = 0; i < (int)after.getEffectLibrarySize(); i++) sx_assert(lookups(after, after.getBasisEffectAt(i).getId(), at) == 1, "library ids are unique");
  sx_assert(after.getEffectLibrarySize() >= before.getEffectLibrarySize(), "library effects are kept");
  for (int i = 0; i < (int)before.getEffectLibrarySize() && i < (int)after.getEffectLibrarySize(); i++) {
    Effect &a = before.getBasisEffectAt(i), &b = after.getBasisEffectAt(i);
    sx_assert(sameEffect(a, b) && a.getId() == b.getId(), "a library effect is unchanged");
  }
  for (int i = 0; i < (int)after.getChannelsSize() && resolve; i++)
    for (int j = 0; j < (int)after.getChannelAt(i).getBandsSize(); j++) {
      Band &b = after.getChannelAt(i).getBandAt(j);
      for (int k = 0; k < (int)b.getEffectsSize(); k++) refs(after, b.getEffectAt(k), false);
    }
  sameSignal(before, after);
}
// repeated basis effects do not stay repeated
static void shared(Perception &after) {
  std::vector<Effect *> all;
  for (int i = 0; i < (int)after.getChannelsSize(); i++)
    for (int j = 0; j < (int)after.getChannelAt(i).getBandsSize(); j++) {
      Band &b = after.getChannelAt(i).getBandAt(j);
      for (int k = 0; k < (int)b.getEffectsSize(); k++)
        if (b.getEffectAt(k).getEffectType() == EffectType::Basis && b.getBandType() != BandType::WaveletWave) all.push_back(&b.getEffectAt(k));
    }
  for (size_t i = 0; i < all.size(); i++)
    for (size_t j = i + 1; j < all.size(); j++) sx_assert(!sameContent(*all[i], *all[j]), "repeated effects are moved to the library");
}
static void expanded(Perception &before, Perception &after) {
  sx_assert(after.getEffectLibrarySize() == 0, "an expanded library is empty");
  sameSignal(before, after);
}
static int position(const char *n) { return (int)sx_u(n, 20); }
static Effect basis(int id, int kind) {
  Effect e;
  e.setEffectType(EffectType::Basis);
  e.setId(id);
  e.setPosition(position("pos"));
  if (kind & 1) e.setPhase(sx_u("phase", 1) ? 1.5F : 0.25F);
  if (kind & 2) e.setBaseSignal((BaseSignal)sx_u("signal", 1));
  Keyframe k((int)sx_u("time", 1), sx_u("amp", 1) ? 0.5F : -1.0F, kind & 4 ? std::optional<int>((int)sx_u("freq", 1)) : std::nullopt);
  e.addKeyframe(k);
  return e;
}
static Effect plain(int id) {
  Effect e(0, EffectType::Basis);
  e.setId(id);
  Keyframe k(0, 0.5F, 5);
  e.addKeyframe(k);
  return e;
}
static Effect reference(int id) {
  Effect e(position("pos"), EffectType::Reference);
  e.setId(id);
  return e;
}
static Band band(BandType t) { return Band(t, CurveType::Cubic, 0, 1000); }
static void cycle(Perception &p, bool resolve = true) {
  Perception f = p;
  f.refactorEffects();
  factored(p, f, resolve);
  shared(f);
  if (f.getEffectLibrarySize() > p.getEffectLibrarySize()) sx_cover("shared");
  Perception l = f;
  l.linearizeLibrary();
  expanded(p, l);
  sx_cover("end");
}
static void refactor(int lo, int hi) {
  int n = lo + sx_choice("effects", hi - lo + 1), layout = sx_choice("layout", 3), lib = sx_choice("library", 2);
  Perception p(1, 0, "", PerceptionModality::Vibrotactile);
  if (lib) {
    Effect e = basis((int)sx_u("libid", 2), 3);
    e.setPosition(0);
    p.addBasisEffect(e);
  }
  Channel c, d;
  Band a = band(BandType::Curve), b = band(layout == 1 ? BandType::Transient : BandType::Curve);
  for (int i = 0; i < n; i++) {
    Effect e = basis(i == 1 ? -1 : i, layout == 2 ? 4 : 3);
    (i & 1 ? b : a).addEffect(e);
  }
  c.addBand(a);
  (layout ? c : d).addBand(b);
  p.addChannel(c);
  if (!layout) p.addChannel(d);
  cycle(p);
}
ENTRY(t03_refactor) { refactor(2, 3); }
ENTRY(t03_many) { refactor(3, 5); }
ENTRY(t03_kinds) {
  Perception p(1, 0, "", PerceptionModality::Vibrotactile);
  int id = (int)sx_u("libid", 2), id2 = sx_choice("id", 2) ? 0 : 7;
  sx_assume(id != id2);
  for (int i = 0; i < 2; i++) {
    Effect e = plain(i ? id2 : id);
    p.addBasisEffect(e);
  }
  Channel c;
  Band a = band(BandType::Curve), b = band(BandType::VectorialWave), w = band(BandType::WaveletWave);
  int kind = sx_choice("kind", 6);
  for (int i = 0; i < 2; i++) {
    Effect e;
    e.setEffectType(EffectType::Basis);
    e.setPosition(position("pos"));
    if (kind == 0) {
      e = reference(i || sx_choice("same", 2) ? id : id2);
    } else if (kind == 1) {
      Effect f = basis(3, 0);
      e.setEffectType(EffectType::Composite);
      e.addTimelineEffect(f);
      f = reference(id2);
      e.addTimelineEffect(f);
    } else if (kind == 2) {
      std::string s = effectSemanticToString.begin()->second;
      if (sx_choice("semantic", 2)) e.setSemantic(s);
      Keyframe k(0, 1, 5);
      e.addKeyframe(k);
    } else if (kind == 3) {
      e = basis(-1, sx_choice("fields", 4));
      Keyframe k(2, std::nullopt, 5);
      if (sx_choice("two", 2)) e.addKeyframe(k);
    } else if (kind == 4) {
      Keyframe k(sx_u("has", 1) ? std::optional<int>(4) : std::nullopt, sx_u("has", 1) ? std::optional<float>(0.5F) : std::nullopt, sx_u("has", 1) ? std::optional<int>(4) : std::nullopt);
      e.addKeyframe(k);
    }
    (i ? b : a).addEffect(e);
  }
  if (kind == 5 || kind == 2)
    for (int i = 0; i < 2; i++) {
      Effect e;
      e.setEffectType(EffectType::Basis);
      e.setPosition(i * 16);
      std::vector<unsigned char> bits = {(unsigned char)sx_u("byte", 8)};
      if (sx_choice("coded", 2)) e.setWaveletBitstream(bits);
      w.addEffect(e);
    }
  Effect e = basis(7, 0);
  a.addEffect(e);
  if (sx_choice("order", 2)) {
    c.addBand(w);
    c.addBand(a);
    c.addBand(b);
  } else {
    c.addBand(a);
    c.addBand(b);
    c.addBand(w);
  }
  p.addChannel(c);
  cycle(p);
}
ENTRY(t03_expand) {
  Perception p(1, 0, "", PerceptionModality::Vibrotactile);
  int n = sx_choice("library", 4), nested = n ? sx_choice("nested", 2) : 0, ids[3] = {0, 0, 0};
  for (int i = 0; i < n; i++) {
    ids[i] = (int)sx_u("libid", 3);
    for (int j = 0; j < i; j++) sx_assume(ids[i] != ids[j]);
    Effect e = basis(ids[i], 0);
    if (nested && i == 0) {
      e = Effect();
      e.setId(ids[0]);
      e.setEffectType(EffectType::Composite);
      Effect f = basis(5, 0);
      e.addTimelineEffect(f);
    }
    p.addBasisEffect(e);
  }
  if (nested && n > 1)
    for (int i = 1; i < n; i++) {
      Effect f = reference(ids[i]);
      p.getBasisEffectAt(0).addTimelineEffect(f);
    }
  Channel c, d;
  Band a = band(BandType::Curve), b = band(BandType::VectorialWave);
  int shape = sx_choice("shape", 4);
  Effect e = reference((int)sx_u("refid", 3)), f = basis(2, 3), g, h;
  g.setEffectType(EffectType::Composite);
  g.setId(9);
  g.setPosition(position("pos"));
  h = g;
  if (shape & 1) {
    Effect r = reference((int)sx_u("refid", 3));
    h.addTimelineEffect(f);
    h.addTimelineEffect(r);
    g.addTimelineEffect(h);
    g.addTimelineEffect(e);
    a.addEffect(g);
  }
  if (shape & 2) {
    b.addEffect(f);
    b.addEffect(e);
  }
  if (!shape) a.addEffect(e);
  c.addBand(a);
  d.addBand(b);
  p.addChannel(c);
  p.addChannel(d);
  Perception l = p;
  l.linearizeLibrary();
  expanded(p, l);
  sx_cover("end");
}
ENTRY(t03_experience) {
  Haptics h;
  for (int i = 0; i < 2; i++) {
    Perception p(i, 0, "", PerceptionModality::Vibrotactile);
    int n = sx_choice("library", 2);
    Channel c;
    Band a = band(BandType::Curve);
    if (n) {
      Effect e = basis(3 + i, 0), r = reference(3 + i);
      p.addBasisEffect(e);
      a.addEffect(r);
    }
    for (int j = 0; j < 2; j++) {
      Effect e = basis(j, 0);
      a.addEffect(e);
    }
    c.addBand(a);
    p.addChannel(c);
    h.addPerception(p);
  }
  Haptics g = h;
  g.refactor();
  for (int i = 0; i < 2; i++) {
    factored(h.getPerceptionAt(i), g.getPerceptionAt(i));
    shared(g.getPerceptionAt(i));
  }
  g.linearize();
  for (int i = 0; i < 2; i++) expanded(h.getPerceptionAt(i), g.getPerceptionAt(i));
  sx_cover("end");
}
