// C11: only the geometry matters: input order and cube symmetries are irrelevant.
#include "catalog.hpp"
using namespace vt;

using Rel = std::vector<std::vector<int>>;   // sorted rows by label
static Rel rel(const Out& o) { Rel r = o.rows; for (auto& v : r) std::sort(v.begin(), v.end()); return r; }

static bool judged(const orc::Row& r) { return r.generic && !r.tie && !r.order_tie; }

template <class Ti, class Tf> static Rel base(ex::Explorer& e, const Pts& P, const std::vector<orc::Row>& R, const Cfg& c, bool complete) {
  Out o = run<Ti, Tf>(P, c); e.transitions++;
  check_shape(o, c); check_complete(P, R, o, c); check_sound(P, R, o, c);
  Rel r = rel(o);
  if (complete) for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < i; j++) if (judged(R[i]) && judged(R[j])) {
    const bool a = std::binary_search(r[i].begin(), r[i].end(), (int)j), b = std::binary_search(r[j].begin(), r[j].end(), (int)i);
    EXPECT(a == b, "%s: %zu %s %zu, but %zu %s %zu", c.str().c_str(), i, a ? "lists" : "does not list", j, j, b ? "lists" : "does not list", i);
  }
  return r;
}

template <class Ti, class Tf> static void shuffled(ex::Explorer& e, const Pts& P, const std::vector<orc::Row>& R, const Cfg& c, const Rel& b, const std::vector<int>& perm) {
  Pts Q; for (int i : perm) Q.push_back(P[i]);
  Out o = run<Ti, Tf>(Q, c); e.transitions++; e.outcome(hash_rows(o.raw));
  check_shape(o, c);
  Out back; back.rows.resize(P.size());
  for (size_t i = 0; i < Q.size(); i++) for (int x : o.rows[i]) back.rows[perm[i]].push_back(perm[x]);
  check_complete(P, R, back, c);
  for (size_t i = 0; i < P.size(); i++) if (judged(R[i])) {
    auto v = back.rows[i]; std::sort(v.begin(), v.end()); e.traces++;
    EXPECT(v == b[i], "%s: with input order %s point %zu has neighbours %s, in the original order %s", c.str().c_str(), ids(perm).c_str(), i, ids(v).c_str(), ids(b[i]).c_str());
  }
}
template <class Ti, class Tf> static void symmetric(ex::Explorer& e, const Pts& P, const std::vector<orc::Row>& R, const Cfg& c, const Rel& b, int g) {
  static const int ax[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
  Pts Q; for (auto& p : P) { orc::P3 q; for (int k = 0; k < 3; k++) { double v = p[ax[g / 8][k]]; q[k] = (g >> k & 1) ? 1 - v : v; } Q.push_back(q); }
  Out o = run<Ti, Tf>(Q, c); e.transitions++; e.outcome(hash_rows(o.raw));
  check_shape(o, c);
  for (size_t i = 0; i < P.size(); i++) if (judged(R[i])) {
    auto v = o.rows[i]; std::sort(v.begin(), v.end()); e.traces++;
    EXPECT(v == b[i], "%s: under cube symmetry %d point %zu has neighbours %s, originally %s", c.str().c_str(), g, i, ids(v).c_str(), ids(b[i]).c_str());
  }
}
static Pts q16(Pts p) { for (auto& q : p) for (auto& x : q) x = std::min(65535.0, std::max(1.0, std::round(x * 65536))) / 65536; return p; }

static std::vector<std::vector<int>> orders(const Pts& P) {
  const int n = P.size(); std::vector<std::vector<int>> v; std::vector<int> id(n); std::iota(id.begin(), id.end(), 0);
  v.push_back({id.rbegin(), id.rend()});
  for (int a = 0; a < 3; a++) { auto w = id; std::stable_sort(w.begin(), w.end(), [&](int x, int y) { return P[x][a] < P[y][a]; }); v.push_back(w); v.push_back({w.rbegin(), w.rend()}); }
  for (int r : {1, n / 2, n - 1}) { auto w = id; std::rotate(w.begin(), w.begin() + r % std::max(1, n), w.end()); v.push_back(w); }
  { std::vector<int> w; for (int i = 0; i < n; i += 2) w.push_back(i); for (int i = 1; i < n; i += 2) w.push_back(i); v.push_back(w); }
  { sets::Lcg g(n); auto w = id; for (int i = n - 1; i > 0; i--) std::swap(w[i], w[g.next() % (i + 1)]); v.push_back(w); }
  return v;
}

static void explore(ex::Explorer& e) {
  const bool T = e.thorough();
  struct A { const char* n; Pts p; int m; };
  for (auto& a : std::vector<A>{{"generic", cat::alpha_generic(), T ? 6 : 5}, {"special", cat::alpha_special(), T ? 6 : 5}, {"cell", cat::alpha_cell(), T ? 6 : 5}}) {
    e.group = std::string("all orders of subset of ") + a.n;
    cat::subsets(a.p, a.m, [&](const std::vector<int>& c, const Pts& P) {
      e.run([&] { return ids(c); }, [&] {
        const int n = P.size(); e.state(hash_pts(P));
        for (int gr : {1, 3}) {
          Cfg f; f.k = std::max(1, n - 1); f.gr = gr; auto R = orc::rows(P, n, margin<float>());
          auto b = base<int, float>(e, P, R, f, true);
          std::vector<int> perm(n); std::iota(perm.begin(), perm.end(), 0);
          do shuffled<int, float>(e, P, R, f, b, perm); while (std::next_permutation(perm.begin(), perm.end()));
          if (n > 3) { f.k = 2; auto R2 = orc::rows(P, 2, margin<float>()); auto b2 = base<int, float>(e, P, R2, f, false);
            std::iota(perm.begin(), perm.end(), 0); do shuffled<int, float>(e, P, R2, f, b2, perm); while (std::next_permutation(perm.begin(), perm.end())); }
        }
      });
    });
    e.group = std::string("all symmetries of subset of ") + a.n;
    cat::subsets(q16(a.p), T ? 9 : 6, [&](const std::vector<int>& c, const Pts& P) {
      e.run([&] { return ids(c); }, [&] {
        const int n = P.size(); e.state(hash_pts(P)); auto R = orc::rows(P, n, margin<float>());
        for (int gr : {1, 2, 5}) { Cfg f; f.k = std::max(1, n - 1); f.gr = gr; auto b = base<int, float>(e, P, R, f, true); for (int g = 0; g < 48; g++) symmetric<int, float>(e, P, R, f, b, g); }
      });
    });
  }
  e.group = "set";
  for (auto& L : {cat::small_sets(T), cat::medium_sets(T), cat::degenerate_sets(T)}) for (auto& s : L) {
    if (s.p.empty()) continue;
    e.run([&] { return s.name + " orders"; }, [&] {
      const int n = s.p.size(); e.state(hash_pts(s.p));
      auto R = orc::rows(s.p, n, margin<float>());
      for (int gr : {1, 4, 7}) {
        Cfg f; f.k = std::max(1, n - 1); f.gr = n > 60 ? std::min(gr, 4) : gr; f.t = 300;
        auto b = base<int, float>(e, s.p, R, f, true);
        for (auto& o : orders(s.p)) shuffled<int, float>(e, s.p, R, f, b, o);
        f.nt = 3; f.chunk = n / 3 + 1; for (auto& o : orders(s.p)) shuffled<int, float>(e, s.p, R, f, b, o);
      }
    });
    e.run([&] { return s.name + " symmetries"; }, [&] {
      Pts P = q16(s.p); const int n = P.size(); e.state(hash_pts(P));
      auto R = orc::rows(P, n, margin<float>());
      for (int gr : {1, 5}) { Cfg f; f.k = n > 100 ? 90 : std::max(1, n - 1); f.gr = n > 60 ? std::min(gr, 3) : gr; f.t = 300;
        if (f.k < n - 1) { f.rec = true; }
        auto b = base<int, float>(e, P, R, f, true);
        for (int g = 0; g < 48; g++) if (n < 100 || g % 5 == 0 || T) symmetric<int, float>(e, P, R, f, b, g); }
    });
    // few candidates: the search itself must not prefer a side
    e.run([&] { return s.name + " symmetries, small k"; }, [&] {
      Pts P = q16(s.p); const int n = P.size();
      for (int k : n < 60 ? std::vector<int>{1, 2, 3, 4, 6, 9, 14} : std::vector<int>{2, 4, 8, 20}) { if (k >= n) continue;
        auto R = orc::rows(P, k, margin<float>()); e.state(ex::mix(hash_pts(P), k));
        for (int gr : n < 60 ? std::vector<int>{2, 3, 4, 5, 7, 8} : std::vector<int>{3, 5, 8}) { Cfg f; f.k = k; f.gr = gr; f.t = 300;
          auto b = base<int, float>(e, P, R, f, false);
          for (int g = 0; g < 48; g++) if (n < 60 ? g % 3 != 2 || T : g % 7 == 1 || T) symmetric<int, float>(e, P, R, f, b, g);
          int q = 0; for (auto& o : orders(P)) if (q++ % 3 == 0) shuffled<int, float>(e, P, R, f, b, o); } }
    });
  }
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C11", explore}}); }
