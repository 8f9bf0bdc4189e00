#pragma once
// Builders and comparisons of metadata shared by the round-trip checks.
#include <sx.h>
#include <Types/include/Haptics.h>
#include <optional>
#include <string>
#include <vector>
namespace meta {
using namespace haptics::types;
// one of two values, different for every field (B05 decides the coding of single reals for every value)
static int realCount = 0;
static inline float real(const char *n) {
  static const float A[] = {0.5f, 17.25f, 9999.f, 250.f, 3.25f, 1234.5f, 0.f, 42.f, 7777.f, 61.5f, 5000.f, 12.f, 300.75f},
                     B[] = {-3.5f, 20000.f, 1.f, 8.f, 10000.f, -20000.f, 640.f, 0.25f, 99.f, 2048.f, -0.75f, 4321.f, 15.f};
  int k = realCount++ % 13;
  return sx_u(n, 1) ? A[k] : B[k];
}
static inline bool near(double r, double v, double lo, double hi, double step) {
  double k = v < lo ? lo : v > hi ? hi : v;
  return r - k <= step && k - r <= step && r >= lo - 1e-6 && r <= hi + 1e-6;
}
static const double STEP_POS = 0.003, STEP_SIGNED = 0.006;  // 32-bit fields: single-precision resolution of the range
static inline std::string text(const char *n, int len) {
  std::string s;
  for (int i = 0; i < len; i++) s.push_back((char)sx_u(n, 8));
  return s;
}
struct RealField {
  void (*set)(ReferenceDevice &, float);
  std::optional<float> (*get)(const ReferenceDevice &);
  double lo, hi, step;
  const char *absent, *value;
};
#define META_F(N, LO) \
  { [](ReferenceDevice &d, float v) { d.set##N(v); }, [](const ReferenceDevice &d) { return d.get##N(); }, LO, 10000, LO < 0 ? STEP_SIGNED : STEP_POS, "a reference device has its " #N " exactly when it had one", "the " #N " of a reference device comes back within one step" }
static const RealField REAL[] = {META_F(MaximumFrequency, 0), META_F(MinimumFrequency, 0), META_F(ResonanceFrequency, 0), META_F(MaximumAmplitude, 0), META_F(Impedance, 0), META_F(MaximumVoltage, 0), META_F(MaximumCurrent, 0), META_F(MaximumDisplacement, 0), META_F(Weight, 0), META_F(Size, 0), META_F(Custom, -10000)};
static const int NREAL = 11;
// mask: bits 0-10 real fields, bit 11 type, bit 12 body part mask
static inline ReferenceDevice device(int mask, int idBits, int nameLen) {
  std::string nm = text("devname", nameLen);
  ReferenceDevice d((int)sx_u("devid", idBits), nm);
  for (int i = 0; i < NREAL; i++)
    if (mask >> i & 1) REAL[i].set(d, real("devreal"));
  if (mask >> 11 & 1) d.setType((ActuatorType)sx_u("devtype", 4));
  if (mask >> 12 & 1) d.setBodyPartMask((uint32_t)sx_u("devbody", 32));
  return d;
}
static inline void sameDevice(const ReferenceDevice &a, const ReferenceDevice &b) {
  sx_assert(a.getId() == b.getId(), "a reference device keeps its id");
  sx_assert(a.getName() == b.getName(), "a reference device keeps its name");
  sx_assert(a.getBodyPartMask().value_or(0) == b.getBodyPartMask().value_or(0), "a reference device keeps its body part mask");
  for (auto &f : REAL) {
    auto x = f.get(a), y = f.get(b);
    sx_assert(x.has_value() == y.has_value(), f.absent);
    if (x.has_value() && y.has_value()) sx_assert(near(y.value(), x.value(), f.lo, f.hi, f.step), f.value);
  }
  sx_assert(a.getType() == b.getType(), "a reference device keeps its type, present or absent");
}
static inline Vector vec(const char *n) { return Vector((int8_t)sx_u(n, 8), (int8_t)sx_u(n, 8), (int8_t)sx_u(n, 8)); }
static inline void sameAvatar(Avatar &a, Avatar &b) {
  sx_assert(a.getId() == b.getId(), "an avatar keeps its id");
  sx_assert(a.getLod() == b.getLod(), "an avatar keeps its level of detail");
  sx_assert(a.getType() == b.getType(), "an avatar keeps its type");
  sx_assert((a.getType() == AvatarType::Custom ? a.getMesh().value_or("") : "") == b.getMesh().value_or(""), "a custom avatar keeps its mesh");
}
static inline void samePerception(Perception &a, Perception &b) {
  sx_assert(a.getId() == b.getId(), "a perception keeps its id");
  sx_assert(a.getAvatarId() == b.getAvatarId(), "a perception keeps its avatar");
  sx_assert(a.getDescription() == b.getDescription(), "a perception keeps its description");
  sx_assert(a.getPerceptionModality() == b.getPerceptionModality(), "a perception keeps its modality");
  sx_assert(a.getUnitExponentOrDefault() == b.getUnitExponentOrDefault() && a.getPerceptionUnitExponentOrDefault() == b.getPerceptionUnitExponentOrDefault(), "a perception keeps its exponents");
  sx_assert(a.getReferenceDevicesSize() == b.getReferenceDevicesSize(), "a perception keeps its number of reference devices");
  for (int i = 0; i < (int)a.getReferenceDevicesSize(); i++) sameDevice(a.getReferenceDeviceAt(i), b.getReferenceDeviceAt(i));
  sx_assert(a.getChannelsSize() == b.getChannelsSize(), "a perception keeps its number of channels");
  for (int i = 0; i < (int)a.getChannelsSize(); i++) {
    Channel &x = a.getChannelAt(i), &y = b.getChannelAt(i);
    sx_assert(x.getId() == y.getId(), "a channel keeps its id");
    sx_assert(x.getDescription() == y.getDescription(), "a channel keeps its description");
    sx_assert(x.getReferenceDeviceId() == y.getReferenceDeviceId(), "a channel keeps its reference device, present or absent");
    sx_assert(near(y.getGain(), x.getGain(), -10000, 10000, STEP_SIGNED), "a channel keeps its gain");
    sx_assert(near(y.getMixingWeight(), x.getMixingWeight(), 0, 10000, STEP_POS), "a channel keeps its mixing weight");
    sx_assert(x.getActuatorResolution() == y.getActuatorResolution(), "a channel keeps its resolution, present or absent");
    if (x.getActuatorResolution().has_value()) {
      sx_assert(x.getBodyPartTarget().value_or(std::vector<BodyPartTarget>{}) == y.getBodyPartTarget().value_or(std::vector<BodyPartTarget>{}), "a channel keeps its body part targets");
      sx_assert(x.getActuatorTarget().value_or(std::vector<Vector>{}) == y.getActuatorTarget().value_or(std::vector<Vector>{}), "a channel keeps its actuator targets");
    } else
      sx_assert(x.getBodyPartMask() == y.getBodyPartMask(), "a channel keeps its body part mask");
    sx_assert(x.getFrequencySampling().value_or(0) == y.getFrequencySampling().value_or(0), "a channel keeps its sampling frequency");
    if (x.getFrequencySampling().value_or(0) != 0) sx_assert(x.getSampleCount().value_or(0) == y.getSampleCount().value_or(0), "a channel keeps its sample count");
    sx_assert(x.getDirection() == y.getDirection(), "a channel keeps its direction, present or absent");
    sx_assert(x.getVerticesSize() == y.getVerticesSize(), "a channel keeps its number of vertices");
    for (int j = 0; j < (int)x.getVerticesSize(); j++) sx_assert(x.getVertexAt(j) == y.getVertexAt(j), "a channel keeps its vertices");
    sx_assert(x.getBandsSize() == y.getBandsSize(), "a channel keeps its number of bands");
  }
}
}  // namespace meta
