/* preloaded: counts the threads a call starts */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
long c16_threads;
int pthread_create(pthread_t* o, const pthread_attr_t* a, void* (*f)(void*), void* g) {
  static int (*rf)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  if (!rf) rf = dlsym(RTLD_NEXT, "pthread_create");
  __atomic_fetch_add(&c16_threads, 1, __ATOMIC_SEQ_CST);
  return rf(o, a, f, g);
}
