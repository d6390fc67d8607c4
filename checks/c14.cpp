// C14: the result container and its text output represent every row faithfully.
// Every jagged shape up to the bound x element value patterns.
#include <array>
#include <cmath>
#include <cstring>
#include <iostream>
#include <votess.hpp>
#include "explore.hpp"

template <class Ti> using Rows = std::vector<std::vector<Ti>>;
template <class Ti> static votess::dnn<Ti> build(const Rows<Ti>& R, bool moved) {
  std::vector<Ti> l, o{0}; for (auto& r : R) { l.insert(l.end(), r.begin(), r.end()); o.push_back(l.size()); }
  if (moved) return votess::dnn<Ti>(std::move(l), std::move(o));
  return votess::dnn<Ti>(l, o);
}
template <class Ti> static std::string show(const Rows<Ti>& R) { std::string s; for (auto& r : R) { s += "["; for (auto x : r) s += std::to_string(x) + " "; s += "]"; } return s; }

// all integers in a line, and nothing but separators around them
template <class Ti> static bool parse(const std::string& l, std::vector<Ti>& v) {
  v.clear(); size_t i = 0;
  while (i < l.size()) {
    if (isdigit(l[i]) || l[i] == '-') { char* e; v.push_back((Ti)strtoll(l.c_str() + i, &e, 10)); size_t j = e - l.c_str(); if (j == i) return false; i = j; }
    else if (strchr(" ,{}\t", l[i])) i++;
    else return false;
  }
  return true;
}
template <class Ti> static void access(ex::Explorer& e, votess::dnn<Ti>& d, const Rows<Ti>& R, const char* what) {
  EXPECT(d.size() == R.size(), "%s: size() is %zu for %zu rows", what, d.size(), R.size());
  for (size_t i = 0; i < R.size(); i++) {
    auto r = d[i];
    EXPECT(r.size() == R[i].size(), "%s: row %zu has size() %zu, stored %zu: %s", what, i, r.size(), R[i].size(), show(R).c_str());
    for (size_t j = 0; j < R[i].size(); j++) EXPECT(r[j] == R[i][j] && d[i][j] == R[i][j], "%s: element (%zu,%zu) is %lld, stored %lld", what, i, j, (long long)r[j], (long long)R[i][j]);
    e.traces++;
  }
}
template <class Ti> static void text(ex::Explorer& e, const votess::dnn<Ti>& d, const Rows<Ti>& R) {
  // printed
  std::ostringstream os; auto* old = std::cout.rdbuf(os.rdbuf()); d.print(); std::cout.rdbuf(old);
  std::vector<std::string> lines; { std::istringstream is(os.str()); std::string l; while (std::getline(is, l)) lines.push_back(l); }
  e.outcome(ex::hash_str(os.str())); e.transitions++;
  // rows are the lines that carry a complete {...}; an enclosing pair of lines may surround them
  if (!R.empty()) {
    EXPECT(lines.size() == R.size() + 2 && lines.front() == "{" && lines.back() == "}", "print() of %s gives %zu lines: %s", show(R).c_str(), lines.size(), os.str().c_str());
    for (size_t i = 0; i < R.size(); i++) {
      std::vector<Ti> v; const std::string& l = lines[i + 1];
      EXPECT(parse(l, v) && v == R[i] && std::count(l.begin(), l.end(), '{') == 1 && std::count(l.begin(), l.end(), '}') == 1, "print() of %s: line for row %zu is '%s'", show(R).c_str(), i, l.c_str());
    }
  } else for (auto& l : lines) { std::vector<Ti> v; EXPECT(parse(l, v) && v.empty(), "print() of an empty result gives '%s'", l.c_str()); }
  // saved
  const std::string f = ex::fmt("c14.%d.txt", (int)getpid());
  { std::ofstream junk(f); junk << "old content that must disappear\n1 2 3\n"; }
  d.savetxt(f);
  std::ifstream is(f); std::string l; size_t i = 0;
  for (; std::getline(is, l); i++) {
    EXPECT(i < R.size(), "savetxt() of %s: surplus line '%s'", show(R).c_str(), l.c_str());
    std::vector<Ti> v; EXPECT(parse(l, v) && v == R[i], "savetxt() of %s: line for row %zu is '%s'", show(R).c_str(), i, l.c_str());
  }
  EXPECT(i == R.size(), "savetxt() of %s writes %zu lines", show(R).c_str(), i);
  unlink(f.c_str()); e.transitions++; e.traces += 2 * R.size();
}
template <class Ti> static void check(ex::Explorer& e, const std::vector<int>& shape, int pattern) {
  Rows<Ti> R; Ti c = 0;
  for (int s : shape) { R.emplace_back(); for (int i = 0; i < s; i++) { c++; R.back().push_back(pattern == 0 ? c : pattern == 1 ? 0 : pattern == 2 ? (Ti)(1000000007LL * c % 2000000011LL) : pattern == 3 ? std::numeric_limits<Ti>::max() - c : (Ti)(c % 3)); } }
  uint64_t h = ex::mix(sizeof(Ti), pattern); for (int s : shape) h = ex::mix(h, s); e.state(h);
  auto d = build<Ti>(R, pattern % 2); access<Ti>(e, d, R, "dnn");
  text<Ti>(e, d, R);
  { // two results of the same vectors: neither takes them away from the caller nor follows later changes to them
    std::vector<Ti> l, o{0}; for (auto& r : R) { l.insert(l.end(), r.begin(), r.end()); o.push_back(l.size()); }
    const auto l0 = l, o0 = o; votess::dnn<Ti> a(l, o), b(l, o);
    EXPECT(l == l0 && o == o0, "constructing a result from vectors changes them: %s", show(R).c_str());
    access<Ti>(e, a, R, "first of two results"); access<Ti>(e, b, R, "second of two results");
    for (auto& x : l) x = -1; for (auto& x : o) x = 0; access<Ti>(e, a, R, "result after its source changed"); text<Ti>(e, b, R); e.transitions += 2; }
  auto copy = d; votess::dnn<Ti> asg; EXPECT(asg.size() == 0, "a default result has size %zu", asg.size()); asg = d;
  access<Ti>(e, copy, R, "copy"); access<Ti>(e, asg, R, "assigned");
  // every single write is visible, in this object and in no other
  Rows<Ti> M = R;
  for (size_t i = 0; i < R.size(); i++) for (size_t j = 0; j < R[i].size(); j++) { d[i][j] = -(Ti)(100 * i + j + 5); M[i][j] = -(Ti)(100 * i + j + 5); access<Ti>(e, d, M, "after a write"); e.transitions++; }
  access<Ti>(e, copy, R, "copy after a write"); text<Ti>(e, d, M); text<Ti>(e, copy, R);
  votess::dnn<Ti> mv = std::move(copy); access<Ti>(e, mv, R, "moved");
  asg = votess::dnn<Ti>(); EXPECT(asg.size() == 0, "a cleared result has size %zu", asg.size());
}
static void explore(ex::Explorer& e) {
  const bool T = e.thorough(); const int maxrows = T ? 8 : 6, maxlen = T ? 4 : 3;
  for (int n = 0; n <= maxrows; n++) {
    std::vector<int> s(n, 0);
    while (true) {
      e.run([&] { std::string d = "shape"; for (int x : s) d += " " + std::to_string(x); return d; }, [&] {
        check<int>(e, s, n % 2); if (n <= 4) { for (int p = 0; p < 5; p++) { check<int>(e, s, p); check<int64_t>(e, s, p); } check<short>(e, s, 4); }
      });
      int i = n - 1; while (i >= 0 && ++s[i] > maxlen) s[i--] = 0;
      if (i < 0) break;
    }
  }
  for (int big : {100, 1000, 5000, 40000, 70000}) e.run([&] { return ex::fmt("large %d", big); }, [&] {
    std::vector<int> s; for (int i = 0; i < big; i++) s.push_back((i * 7) % 5 == 0 ? 0 : (i * 13) % 17);
    Rows<int> R; int c = 0; for (int x : s) { R.emplace_back(); for (int i = 0; i < x; i++) R.back().push_back(c = (c * 31 + 7) % 99991); }
    auto d = build<int>(R, true); access<int>(e, d, R, "dnn"); text<int>(e, d, R); e.state(big);
  });
  for (int big : {127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 100000}) for (int at = 0; at < 3; at++) e.run([&] { return ex::fmt("one row of %d entries at %d", big, at); }, [&] {
    Rows<int> R(3); for (int i = 0; i < 3; i++) for (int j = 0; j < (i == at ? big : i); j++) R[i].push_back(1000 * i + j * 3);
    auto d = build<int>(R, at % 2); access<int>(e, d, R, "dnn"); text<int>(e, d, R); auto c = d; access<int>(e, c, R, "copy"); e.state(ex::mix(big, at));
    Rows<int64_t> Q(3); for (int i = 0; i < 3; i++) for (int j = 0; j < (i == at ? big : i); j++) Q[i].push_back(5000000000LL + 1000 * i + j * 3);
    auto q = build<int64_t>(Q, at % 2); access<int64_t>(e, q, Q, "dnn"); text<int64_t>(e, q, Q);
  });
  // results as tesellate returns them: rows through the proxy = rows in the text
  for (int n : {0, 1, 2, 3, 9, 40}) e.run([&] { return ex::fmt("tesellate n=%d", n); }, [&] {
    std::vector<std::array<float, 3>> x; for (int i = 0; i < n; i++) x.push_back({(float)std::fmod(.317 * i + .21, .97) + .01f, (float)std::fmod(.733 * i + .4, .97) + .01f, (float)std::fmod(.577 * i + .3, .97) + .01f});
    votess::vtargs a; a["knn_grid_resolution"] = 2; a["k"] = 3; a["cpu_nthreads"] = 1;
    auto d = votess::tesellate<int, float>(x, a, votess::device::cpu);
    Rows<int> R(d.size()); for (size_t i = 0; i < d.size(); i++) for (size_t j = 0; j < d[i].size(); j++) R[i].push_back(d[i][j]);
    EXPECT((int)R.size() == n, "%zu rows for %d points", R.size(), n); text<int>(e, d, R); access<int>(e, d, R, "result"); e.state(7000 + n);
  });
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C14", explore}}); }
