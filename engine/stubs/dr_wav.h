// Stand-in for the third-party WAV library (not available offline): one 16-bit PCM file in memory.
// Samples are read as value / 32768, as the library documents for 16-bit PCM.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
enum { drwav_container_riff = 0, DR_WAVE_FORMAT_PCM = 1 };
struct drwav_data_format { int container; uint32_t format, channels, sampleRate, bitsPerSample; };
namespace sxwav {
inline std::vector<int16_t> frames;
inline uint32_t channels = 0, rate = 0, bits = 0;
inline bool readable = true;
inline int opened = 0;
} // namespace sxwav
struct drwav { uint64_t totalPCMFrameCount; uint32_t channels, sampleRate; };
inline uint32_t drwav_init_file(drwav *w, const char *, const void *) {
  if (!sxwav::readable) return 0;
  sxwav::opened++;
  w->channels = sxwav::channels;
  w->sampleRate = sxwav::rate;
  w->totalPCMFrameCount = sxwav::channels ? sxwav::frames.size() / sxwav::channels : 0;
  return 1;
}
inline uint64_t drwav_read_pcm_frames_f32(drwav *w, uint64_t n, float *out) {
  for (uint64_t i = 0; i < n * w->channels; i++) out[i] = (float)sxwav::frames[i] / 32768.0f;
  return n;
}
inline uint32_t drwav_init_file_write(drwav *w, const char *, const drwav_data_format *f, const void *) {
  sxwav::opened++;
  sxwav::channels = w->channels = f->channels;
  sxwav::rate = w->sampleRate = f->sampleRate;
  sxwav::bits = f->bitsPerSample;
  sxwav::frames.clear();
  return 1;
}
inline uint64_t drwav_write_pcm_frames(drwav *w, uint64_t n, const void *data) {
  const int16_t *p = (const int16_t *)data;
  for (uint64_t i = 0; i < n * w->channels; i++) sxwav::frames.push_back(p[i]);
  return n;
}
inline int drwav_uninit(drwav *) { sxwav::opened--; return 0; }
