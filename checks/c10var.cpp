// The library compiled with another initial content of automatic variables, behind a C interface.
#include "catalog.hpp"
extern "C" __attribute__((visibility("default"))) uint64_t variant_run(const double* p, int n, const int* c, int type) {
  orc::Pts P; for (int i = 0; i < n; i++) P.push_back({p[3 * i], p[3 * i + 1], p[3 * i + 2]});
  vt::Cfg f; f.k = c[0]; f.gr = c[1]; f.nt = c[2]; f.chunk = c[3]; f.p = c[4]; f.t = c[5]; f.nd = c[6]; f.rec = c[7]; f.gpu = c[8]; f.chunk_on = c[9];
  try { return vt::hash_rows((type ? vt::run<int64_t, double>(P, f) : vt::run<int, float>(P, f)).raw); } catch (...) { return 1; }
}
