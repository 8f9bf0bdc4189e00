#pragma once
#include <cstddef>
// in-memory files for the engine, real files (relative to the working directory) for the replay
extern "C" {
void sx_file_set(const char *name, const void *data, size_t n);
size_t sx_file_size(const char *name);
void sx_file_read(const char *name, void *d, size_t n);
}
