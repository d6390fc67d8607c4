// The library behind a C interface: what the Python module is compared with.
#include <cmath>
#include <string>
#include <votess.hpp>
#include "c16dev.cpp"
#define API extern "C" __attribute__((visibility("default")))
API int ref_run(const float* p, int n, const char* const* key, const double* val, int nk, int on_gpu, int gpu_present, int* offs, int* list, int cap) {
  std::vector<std::array<float, 3>> x(n); for (int i = 0; i < n; i++) x[i] = {p[3 * i], p[3 * i + 1], p[3 * i + 2]};
  votess::vtargs a;
  for (int i = 0; i < nk; i++) { if (val[i] == std::floor(val[i])) a[key[i]] = (long long)val[i]; else a[key[i]] = val[i]; }
  dev_set(gpu_present);
  try {
    auto d = votess::tesellate<int, float>(x, a, on_gpu ? votess::device::gpu : votess::device::cpu);
    if ((int)d.size() != n) return -2;
    int m = 0; offs[0] = 0;
    for (int i = 0; i < n; i++) { auto r = d[i]; for (size_t j = 0; j < r.size(); j++) { if (m == cap) return -3; list[m++] = r[j]; } offs[i + 1] = m; }
    return m;
  } catch (...) { return -1; }
}
API int ref_default(const char* key) { votess::vtargs a; try { return a[key].get<int>(); } catch (...) { return -12345; } }
