// Watching work-items: which elements an item touches and changes.
#ifndef VERIF_GPU_HPP
#define VERIF_GPU_HPP
#include "vt.hpp"
#include <unordered_map>
#ifdef VERIF_MOCK_SYCL
namespace gpu {
struct Ent { uint64_t kernel = 0; size_t item = 0; bool multi = false, mod = false; size_t writer = 0; };
struct Log { const void* p; size_t n; unsigned char old[16]; };
struct Watch {
  std::unordered_map<uintptr_t, Ent> tab; std::vector<Log> log; uint64_t kernel = 0; bool in = false; size_t item = 0; uint64_t touches = 0; std::string conflict;
};
inline Watch& W() { static Watch w; return w; }
inline void conflict(size_t a, size_t b) { if (W().conflict.empty()) W().conflict = ex::fmt("work-items %zu and %zu use the same memory element and one of them changes it", a, b); }
inline void touch(const void* p, size_t n) {
  auto& w = W(); if (!w.in) return; w.touches++;
  Ent& e = w.tab[(uintptr_t)p];
  if (e.kernel != w.kernel) { e = Ent(); e.kernel = w.kernel; e.item = w.item; }
  else if (e.item != w.item) { e.multi = true; if (e.mod) conflict(e.writer, w.item); e.item = w.item; }
  else return;
  Log l; l.p = p; l.n = std::min<size_t>(n, 16); std::memcpy(l.old, p, l.n); w.log.push_back(l);
}
inline void item_begin(size_t i) { auto& w = W(); w.in = true; w.item = i; w.log.clear(); }
inline void item_end(size_t i) {
  auto& w = W(); w.in = false;
  for (auto& l : w.log) if (std::memcmp(l.p, l.old, l.n)) { Ent& e = w.tab[(uintptr_t)l.p]; if (e.multi) conflict(i, e.item); e.mod = true; e.writer = i; }
}
inline void kernel_begin() { W().kernel++; W().tab.clear(); }
inline void on() { auto& c = sycl::mock::config(); W().conflict.clear(); c.touch = touch; c.item_begin = item_begin; c.item_end = item_end; c.kernel_begin = kernel_begin; }
inline void off() { auto& c = sycl::mock::config(); c.touch = nullptr; c.item_begin = nullptr; c.item_end = nullptr; c.kernel_begin = nullptr; W().in = false; }
}
#endif
#endif
