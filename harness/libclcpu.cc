// Presents the CPU device of the installed OpenCL platform as a GPU, so that the program takes it.
#include <dlfcn.h>
#include <cstdint>
extern "C" int clGetDeviceIDs(void * platform, uint64_t type, unsigned n, void ** devices, unsigned * num) {
  typedef int (*fn)(void *, uint64_t, unsigned, void **, unsigned *);
  static fn real = (fn)dlsym(RTLD_NEXT, "clGetDeviceIDs");
  const uint64_t CPU = 2, GPU = 4, ACC = 8;
  if (type == GPU) type = CPU;
  else if (type == ACC) { if (num) *num = 0; return -1; }
  return real(platform, type, n, devices, num);
}
