// Device model settings of one shared object (the module and the reference each have their own).
#include <libsycl.hpp>
extern "C" __attribute__((visibility("default"))) void dev_set(int present) {
#ifdef VERIF_MOCK_SYCL
  sycl::mock::config().gpu_present = present; sycl::mock::config().items = sycl::mock::config().launches = 0;
#endif
}
extern "C" __attribute__((visibility("default"))) long dev_items() {
#ifdef VERIF_MOCK_SYCL
  return (long)sycl::mock::config().items * 1000 + (long)sycl::mock::config().launches;
#else
  return -1;
#endif
}
