// Linked into the command-line tool and into the harness: counts the threads and
// device work-items a call uses, and lets the environment decide whether a GPU is there.
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <pthread.h>
#include <libsycl.hpp>
long probe_threads = 0;
extern "C" int pthread_create(pthread_t* o, const pthread_attr_t* a, void* (*f)(void*), void* g) {
  typedef int (*F)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); static F rf = (F)dlsym(RTLD_NEXT, "pthread_create");
  __atomic_fetch_add(&probe_threads, 1, __ATOMIC_SEQ_CST); return rf(o, a, f, g);
}
void probe_reset() { probe_threads = 0;
#ifdef VERIF_MOCK_SYCL
  sycl::mock::config().launches = sycl::mock::config().items = 0;
#endif
}
void probe_text(char* b, size_t n) {
#ifdef VERIF_MOCK_SYCL
  snprintf(b, n, "threads=%ld launches=%zu items=%zu", probe_threads, sycl::mock::config().launches, sycl::mock::config().items);
#else
  snprintf(b, n, "unknown");
#endif
}
namespace { struct Init {
  Init() {
#ifdef VERIF_MOCK_SYCL
    if (getenv("VERIF_MOCK_GPU")) sycl::mock::config().gpu_present = true;
#endif
  }
  ~Init() { if (const char* f = getenv("VERIF_REPORT")) { char b[200]; probe_text(b, sizeof b); if (FILE* o = fopen(f, "w")) { fputs(b, o); fclose(o); } } }
} init; }
