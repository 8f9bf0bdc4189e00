// Native side of the harness API: replays the values of a solver model.
//   replay FILE ENTRY   (FILE: lines "i name hex", "c name int")
// exit 0: harness ran to the end; 10: assertion failed; 11: assumption not satisfied;
// uncaught exceptions and sanitizer reports end the process abnormally.
#include "sx.h"
#include <sxfile.h>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <set>
static std::map<std::string, uint64_t> in;
static std::map<std::string, int> ch, cnt;
static std::set<std::string> kfs;
static int failed;
static std::string uniq(const char *n) {
  int k = cnt[n]++;
  return k ? std::string(n) + "#" + std::to_string(k) : n;
}
extern "C" {
uint64_t sx_raw(const char *name, int bits) {
  uint64_t v = in[uniq(name)];
  return bits < 64 ? v & ((1ull << bits) - 1) : v;
}
double sx_raw_f64(const char *name) { uint64_t v = in[uniq(name)]; double d; memcpy(&d, &v, 8); return d; }
float sx_raw_f32(const char *name) { uint32_t v = (uint32_t)in[uniq(name)]; float d; memcpy(&d, &v, 4); return d; }
int sx_choice(const char *name, int) { return ch[uniq(name)]; }
void sx_assume_(int c) { if (!c) { printf("ASSUME-FAILED\n"); fflush(stdout); _Exit(failed ? 10 : 11); } }
void sx_assert_(int c, const char *m) { if (!c) { printf("ASSERT-FAILED %s\n", m); fflush(stdout); failed = 1; } }
void sx_fail(const char *m) { sx_assert_(0, m); fflush(stdout); _Exit(10); }
void sx_cover(const char *) {}
void sx_observe_u(const char *n, uint64_t v) { printf("OBS %s %llx\n", n, (unsigned long long)v); }
void sx_observe_d(const char *n, double v) { uint64_t b; memcpy(&b, &v, 8); printf("OBS %s %llx\n", n, (unsigned long long)b); }
void sx_policy(const char *, int64_t) {}
void sx_kf_region_(const char *, int) {}
int sx_kf_listed(const char *id) { return kfs.count(id); }
uint64_t sx_concretize_(uint64_t v) { return v; }
int sx_symbolic(void) { return 0; }
void sx_print(const char *l, uint64_t v) { fprintf(stderr, "%s %llx\n", l, (unsigned long long)v); }
void sx_done(void) { fflush(stdout); _Exit(failed ? 10 : 0); }
}
int main(int argc, char **argv) {
  std::ifstream f(argv[1]);
  std::string line;
  while (std::getline(f, line)) {
    // kind, name (which may contain spaces), value
    std::string k = line.substr(0, line.find(' ')), n = k.size() < line.size() ? line.substr(k.size() + 1) : "", v;
    if (k != "k") {
      size_t at = n.rfind(' ');
      if (at == std::string::npos) continue;
      v = n.substr(at + 1);
      n.resize(at);
    }
    if (k == "i") in[n] = strtoull(v.c_str(), nullptr, 16);
    if (k == "c") ch[n] = atoi(v.c_str());
    if (k == "k") kfs.insert(n);
  }
  void *h = dlopen(nullptr, RTLD_LAZY);
  void (*e)() = (void (*)())dlsym(h, argv[2]);
  if (!e) { fprintf(stderr, "no entry %s\n", argv[2]); return 3; }
  e();
  printf("END\n");
  fflush(stdout);
  _Exit(failed ? 10 : 0);
}
extern "C" {
void sx_file_set(const char *name, const void *d, size_t n) { std::ofstream f(name, std::ios::binary); f.write((const char *)d, n); }
size_t sx_file_size(const char *name) { std::ifstream f(name, std::ios::binary | std::ios::ate); return f ? (size_t)f.tellg() : (size_t)-1; }
void sx_file_read(const char *name, void *d, size_t n) { std::ifstream f(name, std::ios::binary); f.read((char *)d, n); }
}
