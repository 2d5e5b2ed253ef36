// Preloaded into programs under test: writes the heap in use, over all arenas, to VHEAP_LOG at every
// rename of a file (which completes a save), at every message sent by MPI, and at the end.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static long vh_inuse() { struct mallinfo2 m = mallinfo2(); return (long)(m.uordblks + m.hblkhd); }
static void note(const char * what) {
  const char * fn = getenv("VHEAP_LOG");
  if (!fn) return;
  char b[600]; snprintf(b, sizeof b, "%s.%d", fn, (int)getpid());
  int fd = open(b, O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd < 0) return;
  int n = snprintf(b, sizeof b, "%s %ld\n", what, vh_inuse());
  (void)!write(fd, b, n); close(fd);
}
extern "C" int rename(const char * a, const char * b) {
  static auto f = (int (*)(const char *, const char *))dlsym(RTLD_NEXT, "rename");
  int r = f(a, b);
  if (strstr(b, ".hycu_record")) note("save");
  return r;
}
static void sent() { static int n; if (++n < 20000) note("send"); }
extern "C" int MPI_Send(const void * a, int n, void * t, int d, int g, void * c) {
  static auto f = (int (*)(const void *, int, void *, int, int, void *))dlsym(RTLD_NEXT, "MPI_Send");
  int r = f(a, n, t, d, g, c); sent(); return r;
}
extern "C" int MPI_Isend(const void * a, int n, void * t, int d, int g, void * c, void * q) {
  static auto f = (int (*)(const void *, int, void *, int, int, void *, void *))dlsym(RTLD_NEXT, "MPI_Isend");
  int r = f(a, n, t, d, g, c, q); sent(); return r;
}
__attribute__((destructor)) static void at_end() { note("end"); }
