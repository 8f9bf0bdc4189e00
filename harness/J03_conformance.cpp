// SOURCES JSON
// ENTRY j03_version shards=4 bound="versions of 0-7 arbitrary characters" covers=good,bad
// ENTRY j03_date shards=2 bound="dates of 0-4 arbitrary characters and complete dates" covers=good,bad
// ENTRY j03_header bound="the two profiles and arbitrary other ones of 0-2 characters, every level, every timescale or none" covers=good,bad
// ENTRY j03_avatars shards=4 bound="0-3 avatars of every id, one of them without or with a mesh of 0-2 characters" covers=good,bad
// ENTRY j03_perceptions shards=2 bound="1-3 perceptions of every id and avatar, 0-2 avatars" covers=good,bad
// ENTRY j03_modality shards=2 bound="every modality under both profiles and levels 0-3; semantic schemes" covers=good,bad
// ENTRY j03_counts shards=4 bound="127-129 channels and 7, 8, 63, 64 bands at levels 1 and 2" covers=good,bad
// ENTRY j03_devices shards=2 bound="1-3 reference devices of every id; one with any of its three frequencies, of every value" covers=good,bad
// ENTRY j03_channels shards=2 bound="1-3 channels of every id, one with any reference device id, 0-2 reference devices of every id" covers=good,bad
// ENTRY j03_direction shards=8 bound="directions with two components out of 16 values and the third arbitrary, in each order" covers=good,bad
// ENTRY j03_targets shards=2 bound="every actuator resolution or none, with absent or 0-2 targets of every value" covers=good,bad
// ENTRY j03_bands shards=2 bound="every band type, curve type or none, block length (always there in wavelet bands) and frequency limits, under both profiles" covers=good,bad
// ENTRY j03_effects shards=4 bound="every effect type in every band type with 0-1 keyframes, references of every id to 0-2 library effects of every id, under both profiles" covers=good,bad
// ENTRY j03_semantics shards=4 bound="every known semantic and arbitrary texts of 0-3 characters, without a semantic scheme, with the standard one and with another one" covers=good,bad
// ENTRY j03_library bound="0-3 library effects of every id and type, under both profiles" covers=good,bad
// ENTRY j03_schemes shards=2 bound="semantic schemes of urn: or three arbitrary characters followed by 0-2 arbitrary characters" covers=good,bad
// ASSUME the conformance check is decided on experiences in memory; the JSON schema validation before it is done by the JSON library
#include <sx.h>
#include <IOHaptics/include/IOJson.h>
using namespace haptics::types;
using haptics::io::IOJson;
static std::string text(const char *n, int len) {
  std::string s;
  for (int i = 0; i < len; i++) s.push_back((char)sx_u(n, 8));
  return s;
}
static void setup(Haptics &h, const std::string &profile = "Main", int level = 2) {
  std::string v = "2023", p = profile, d = "2024-05-06", t = "t";
  h.setVersion(v);
  h.setProfile(p);
  h.setLevel((uint8_t)level);
  h.setDate(d);
  h.setDescription(t);
}
static void decide(Haptics &h, bool good, const char *what) {
  bool r = IOJson::semanticConformanceCheckExperience(h);
  sx_assert(r == good, what);
  if (good) sx_cover("good");
  else sx_cover("bad");
}
static bool digit(char c) { return (c >= '0') & (c <= '9'); }
static bool parametric(Haptics &h, int level = 2) {
  bool p = sx_choice("parametric", 2);
  setup(h, p ? "Simple Parametric" : "Main", level);
  return p;
}
ENTRY(j03_version) {
  Haptics h;
  setup(h);
  int n = sx_choice("len", 8);
  std::string v = text("version", n);
  h.setVersion(v);
  bool good = n == 4 || n == 6;
  if (good) {
    bool digits = digit(v[0]) & digit(v[1]) & digit(v[2]) & digit(v[3]);
    int year = (v[0] - '0') * 1000 + (v[1] - '0') * 100 + (v[2] - '0') * 10 + (v[3] - '0');
    good = digits & (year >= 2023);
    if (n == 6) good = good & (v[4] == '-') & (v[5] >= '1') & (v[5] <= '9');
  }
  decide(h, good, "a version is a year from 2023 on, or such a year and an amendment number from 1 on");
}
ENTRY(j03_date) {
  Haptics h;
  setup(h);
  static const char *FULL[] = {"2024", "-2024-10", "2024-01-31", "2024-01-31T10:20:30+01:00", "2024-01-31T10:20:30.55-01:00Z"};
  int k = sx_choice("len", 10);
  std::string d = k < 5 ? text("date", k) : FULL[k - 5];
  h.setDate(d);
  bool good = k >= 4;
  if (k == 4) good = digit(d[0]) & digit(d[1]) & digit(d[2]) & digit(d[3]);
  decide(h, good, "a date holds a year of four digits");
}
ENTRY(j03_header) {
  Haptics h;
  int p = sx_choice("profile", 5), level = (int)sx_u("level", 8);
  std::string name = p == 0 ? "Main" : p == 1 ? "Simple Parametric" : text("profile", p - 2);
  setup(h, name, level);
  bool good = (p < 2) & ((level == 1) | (level == 2));
  if (sx_choice("timescale", 2)) {
    uint32_t t = (uint32_t)sx_u("ticks", 32);
    h.setTimescale(t);
    good = good & (p == 1 ? t == 1000 : p == 0 ? t <= 48000 : true);
  }
  decide(h, good, "profile, level and timescale follow the rules");
}
ENTRY(j03_avatars) {
  Haptics h;
  setup(h);
  int n = sx_choice("avatars", 4);
  bool good = true;
  std::vector<int> ids;
  for (int i = 0; i < n; i++) {
    int id = sx_int("id");
    good = good & (id != 0);
    for (int o : ids) good = good & (o != id);
    ids.push_back(id);
    Avatar a(id, 1, AvatarType::Custom);
    if (i + 1 == n && sx_choice("mesh", 2)) {
      int len = sx_choice("len", 3);
      a.setMesh(text("uri", len));
      good = good & (len > 0);
    }
    h.addAvatar(a);
  }
  decide(h, good, "avatars have unique ids other than 0 and their meshes are URIs");
}
static Perception perception(int id = 1, int avatar = 0, PerceptionModality m = PerceptionModality::Vibrotactile) { return Perception(id, avatar, "p", m); }
ENTRY(j03_perceptions) {
  Haptics h;
  setup(h);
  bool good = true;
  std::vector<int> ids, avatars;
  int a = sx_choice("avatars", 3), n = 1 + sx_choice("perceptions", 3);
  for (int i = 0; i < a; i++) {
    int id = sx_int("avatar");
    good = good & (id != 0);
    for (int o : avatars) good = good & (o != id);
    avatars.push_back(id);
    Avatar v(id, 1, AvatarType::Vibration);
    h.addAvatar(v);
  }
  for (int i = 0; i < n; i++) {
    int id = sx_int("id"), av = i + 1 < n ? 0 : sx_int("of");
    for (int o : ids) good = good & (o != id);
    ids.push_back(id);
    bool found = av == 0;
    for (int o : avatars) found = found | (o == av);
    good = good & found;
    Perception p = perception(id, av);
    h.addPerception(p);
  }
  decide(h, good, "perceptions have unique ids and their avatars exist");
}
ENTRY(j03_modality) {
  Haptics h;
  int level = sx_choice("level", 4);
  bool par = parametric(h, level);
  auto m = (PerceptionModality)sx_choice("modality", (int)perceptionModalityToString.size());
  bool allowed = m == PerceptionModality::Force || m == PerceptionModality::Vibrotactile || m == PerceptionModality::Stiffness || m == PerceptionModality::VibrotactileTexture;
  Perception p = perception(1, 0, m);
  h.addPerception(p);
  decide(h, (level == 1 || level == 2) && (!par || level != 1 || allowed), "the modality is allowed at the level of the profile");
}
ENTRY(j03_schemes) {
  Haptics h;
  setup(h);
  Perception p = perception();
  std::string s = sx_choice("urn", 2) ? "urn:" : text("prefix", 3);
  bool good = s.size() == 4;
  s += text("scheme", sx_choice("len", 3));
  if (!good && s.size() >= 4) good = (s[0] == 'u') & (s[1] == 'r') & (s[2] == 'n') & (s[3] == ':');
  p.setEffectSemanticScheme(s);
  h.addPerception(p);
  decide(h, good, "a semantic scheme is a URN");
}
ENTRY(j03_counts) {
  Haptics h;
  int level = 1 + sx_choice("level", 2), k = sx_choice("counts", 7);
  static const int C[] = {127, 128, 129, 1, 1, 1, 1}, B[] = {0, 0, 0, 7, 8, 63, 64};
  setup(h, "Main", level);
  Perception p = perception();
  for (int i = 0; i < C[k]; i++) {
    Channel c(i, "c", 1.F, 1.F, 0);
    for (int j = 0; j < B[k]; j++) {
      Band b(BandType::Curve, 0, 100);
      c.addBand(b);
    }
    p.addChannel(c);
  }
  h.addPerception(p);
  decide(h, level == 1 ? C[k] <= 127 && B[k] <= 7 : B[k] <= 63, "channels and bands are within the limits of the level");
}
static float real(const char *n) {
  float f = sx_raw_f32(n);
  sx_assume(f >= -3e38f && f <= 3e38f);
  return f;
}
ENTRY(j03_devices) {
  Haptics h;
  setup(h);
  Perception p = perception();
  bool good = true;
  std::vector<int> ids;
  int n = 1 + sx_choice("devices", 3);
  for (int i = 0; i < n; i++) {
    int id = sx_int("id");
    for (int o : ids) good = good & (o != id);
    ids.push_back(id);
    ReferenceDevice d(id, "d");
    if (i == 0) {
      int m = sx_choice("fields", 8);
      float lo = 0, hi = 0, res = 0;
      if (m & 1) d.setMinimumFrequency(lo = real("min"));
      if (m & 2) d.setMaximumFrequency(hi = real("max"));
      if (m & 4) d.setResonanceFrequency(res = real("res"));
      if ((m & 3) == 3) good = good & (lo <= hi);
      if ((m & 5) == 5) good = good & (lo <= res);
      if ((m & 6) == 6) good = good & (res <= hi);
    }
    p.addReferenceDevice(d);
  }
  h.addPerception(p);
  decide(h, good, "reference devices have unique ids and ordered frequencies");
}
ENTRY(j03_channels) {
  Haptics h;
  setup(h);
  Perception p = perception();
  bool good = true;
  std::vector<int> ids, devices;
  int nd = sx_choice("devices", 3), n = 1 + sx_choice("channels", 3);
  for (int i = 0; i < nd; i++) {
    int id = sx_int("device");
    for (int o : devices) good = good & (o != id);
    devices.push_back(id);
    ReferenceDevice d(id, "d");
    p.addReferenceDevice(d);
  }
  for (int i = 0; i < n; i++) {
    int id = sx_int("id");
    for (int o : ids) good = good & (o != id);
    ids.push_back(id);
    Channel c(id, "c", 1.F, 1.F, 0);
    if (i + 1 == n && sx_choice("refers", 2)) {
      int r = sx_int("to");
      c.setReferenceDeviceId(r);
      bool found = false;
      for (int o : devices) found = found | (o == r);
      good = good & found;
    }
    p.addChannel(c);
  }
  h.addPerception(p);
  decide(h, good, "channels have unique ids and their reference devices exist");
}
static void channel(Haptics &h, Channel &c, bool good, const char *what) {
  Perception p = perception();
  p.addChannel(c);
  h.addPerception(p);
  decide(h, good, what);
}
ENTRY(j03_direction) {
  Haptics h;
  setup(h);
  static const int8_t K[] = {0, 73, -73, 90, 127, -128, 12, 1, -126, 110, 63, -64, 20, 100, -40, 32};
  int order = sx_choice("order", 3);
  int8_t a = K[sx_choice("first", 16)], b = K[sx_choice("second", 16)], z = 0;
  for (int i = 0; i < 8; i++) z = (int8_t)(z | (int)sx_u("bit", 1) << i);
  Vector v = order == 0 ? Vector(a, b, z) : order == 1 ? Vector(a, z, b) : Vector(z, a, b);
  int sq = a * a + b * b + z * z;     // squared length in units of 1/127: 0.99^2 and 1.01^2 times 127^2 are 15808.03 and 16453.19
  Channel c(1, "c", 1.F, 1.F, 0);
  c.setDirection(v);
  channel(h, c, (sq >= 15809) & (sq <= 16453), "a direction is a unit vector up to one percent");
}
ENTRY(j03_targets) {
  Haptics h;
  setup(h);
  Channel c(1, "c", 1.F, 1.F, 0);
  bool good = true;
  Vector r(0, 0, 0);
  bool has = sx_choice("resolution", 2);
  if (has) {
    r = Vector((int8_t)sx_u("x", 8), (int8_t)sx_u("y", 8), (int8_t)sx_u("z", 8));
    c.setActuatorResolution(r);
    good = (r.X >= 0) & (r.Y >= 0) & (r.Z >= 0);
  }
  int n = sx_choice("targets", 4) - 1;
  if (n >= 0) {
    std::vector<Vector> t;
    for (int i = 0; i < n; i++) {
      Vector v((int8_t)sx_u("tx", 8), (int8_t)sx_u("ty", 8), (int8_t)sx_u("tz", 8));
      good = good & (v.X >= 0) & (v.Y >= 0) & (v.Z >= 0) & (v.X <= r.X) & (v.Y <= r.Y) & (v.Z <= r.Z);
      t.push_back(v);
    }
    c.setActuatorTarget(t);
    good = good & has;
  }
  channel(h, c, good, "actuator targets need a resolution and lie inside it");
}
ENTRY(j03_bands) {
  Haptics h;
  bool par = parametric(h);
  Channel c(1, "c", 1.F, 1.F, 0);
  BandType t = (BandType)sx_choice("type", 4);
  int lo = sx_int("lower"), hi = sx_int("upper");
  Band b(t, lo, hi);
  bool good = lo <= hi;
  if (sx_choice("curve", 2)) {
    b.setCurveType(CurveType::Akima);
    good = good & (t == BandType::Curve);
  }
  if (t == BandType::WaveletWave || sx_choice("block", 2)) {
    int n = sx_int("length");
    b.setBlockLength(n);
    bool two = false;
    for (int i = 0; i < 31; i++) two = two | (n == 1 << i);
    if (t == BandType::WaveletWave) good = good & two;
  }
  if (t == BandType::WaveletWave) good = good & !par;
  c.addBand(b);
  channel(h, c, good, "bands follow the rules of their type and the profile");
}
ENTRY(j03_effects) {
  Haptics h;
  bool par = parametric(h);
  Perception p = perception();
  bool good = true;
  std::vector<int> ids;
  EffectType k = (EffectType)sx_choice("kind", 3);
  BandType t = (BandType)sx_choice("type", 4);
  int n = k == EffectType::Reference ? sx_choice("library", 3) : 0;
  for (int i = 0; i < n; i++) {
    Effect e(0, EffectType::Basis);
    int id = sx_int("libid");
    e.setId(id);
    for (int o : ids) good = good & (o != id);
    ids.push_back(id);
    p.addBasisEffect(e);
  }
  Effect e(0, k);
  int id = sx_int("id"), keys = sx_choice("keyframes", 2);
  e.setId(id);
  if (keys) {
    Keyframe f(0, 0.5F, 100);
    e.addKeyframe(f);
  }
  if (k == EffectType::Reference) {
    bool found = false;
    for (int o : ids) found = found | (o == id);
    good = good & found;
  }
  if (k == EffectType::Composite) good = good & !par;
  if (t == BandType::WaveletWave) good = good & !par & !keys;
  Channel c(1, "c", 1.F, 1.F, 0);
  Band b(t, 0, 1000);
  b.setBlockLength(256);
  b.addEffect(e);
  c.addBand(b);
  p.addChannel(c);
  h.addPerception(p);
  decide(h, good, "effects follow the rules of band and profile and references resolve");
}
ENTRY(j03_semantics) {
  Haptics h;
  setup(h);
  Perception p = perception();
  int scheme = sx_choice("scheme", 3), known = (int)stringToEffectSemantic.size(), k = sx_choice("which", known + 4);
  if (scheme == 1) p.setEffectSemanticScheme("urn:mpeg:mpegi:haptics:effectsemantic:2023");
  if (scheme == 2) p.setEffectSemanticScheme("urn:x:y");
  std::string s;
  if (k < known) {
    auto it = stringToEffectSemantic.begin();
    for (int i = 0; i < k; i++) ++it;
    s = it->first;
  } else
    s = text("semantic", k - known);
  Effect e(0, EffectType::Basis);
  e.setSemantic(s);
  Channel c(1, "c", 1.F, 1.F, 0);
  Band b(BandType::Transient, 0, 1000);
  b.addEffect(e);
  c.addBand(b);
  p.addChannel(c);
  h.addPerception(p);
  decide(h, k < known || scheme == 2, "semantics are keywords of the standard unless another scheme is declared");
}
ENTRY(j03_library) {
  Haptics h;
  bool par = parametric(h), good = true;
  Perception p = perception();
  std::vector<int> ids;
  int n = sx_choice("effects", 4);
  for (int i = 0; i < n; i++) {
    Effect e(0, (EffectType)sx_choice("kind", 3));
    int id = sx_int("id");
    e.setId(id);
    for (int o : ids) good = good & (o != id);
    ids.push_back(id);
    if (e.getEffectType() == EffectType::Composite) good = good & !par;
    p.addBasisEffect(e);
  }
  h.addPerception(p);
  decide(h, good, "library effects have unique ids and are of kinds the profile knows");
}
