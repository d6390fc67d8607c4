// A small, deterministic, host-only model of the SYCL runtime.
//
// It exists so that the *device* code of votess (__gpu__tesellate and every
// accessor overload of heap/knn/boundary/cc) can be executed here at all: the
// sandbox has no device compiler, so with Intel's runtime every kernel launch
// throws.  What the model owns, and a check may vary:
//   - whether a GPU is present;
//   - the order in which work-groups and work-items run;
//   - the contents of memory nobody initialised (uninitialised buffers, no_init
//     accessors, local memory of a work-group): filled with a poison byte;
//   - out-of-range accessor indices: reported as mock::bounds_error.
// What follows the SYCL 2020 specification: a local size that does not divide
// the global size is an nd_range exception; no_init discards the old contents;
// a buffer built from a non-const host pointer writes back on destruction;
// local memory is private to one work-group and starts indeterminate.
#ifndef VERIF_MOCK_SYCL_HPP
#define VERIF_MOCK_SYCL_HPP

#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iterator>
#include <limits>
#include <memory>
#include <numeric>
#include <stdexcept>
#include <string>
#include <system_error>
#include <type_traits>
#include <utility>
#include <vector>

#define SYCL_LANGUAGE_VERSION 202001
#define VERIF_MOCK_SYCL 1

#if defined(__SANITIZE_THREAD__)
#define VMOCK_NT __attribute__((no_sanitize("thread")))
#else
#define VMOCK_NT
#endif

namespace sycl {

namespace mock {
constexpr size_t max_group = size_t(1) << 20;   // also what get_info reports

struct bounds_error : std::runtime_error {
  using std::runtime_error::runtime_error;
};
// a kernel that needs a buffer for which a host accessor is still alive waits forever
struct deadlock_error : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct unsupported : std::runtime_error {
  using std::runtime_error::runtime_error;
};

struct config_t {
  bool gpu_present = false;
  int order = 0;                     // 0 ascending 1 descending 2 rotate 3 perm
  std::vector<size_t> perm;          // order 3: permutation of work-groups
  unsigned char poison = 0xA5;       // fill of memory nobody initialised
  size_t launches = 0, items = 0;    // counters
  void (*item_begin)(size_t) = nullptr;
  void (*item_end)(size_t) = nullptr;
  void (*kernel_begin)() = nullptr;
  void (*kernel_end)() = nullptr;
  void (*touch)(const void*, size_t) = nullptr;   // element touched by the running work-item
};
VMOCK_NT inline config_t& config() { static config_t c; return c; }

[[noreturn]] VMOCK_NT inline void oob(const char* w, size_t i, size_t n) {
  throw bounds_error(std::string(w) + " index " + std::to_string((long long)i)
                     + " outside size " + std::to_string(n));
}

VMOCK_NT inline std::vector<size_t> make_order(size_t n) {
  std::vector<size_t> o(n);
  std::iota(o.begin(), o.end(), size_t(0));
  const auto& c = config();
  if (c.order == 1) std::reverse(o.begin(), o.end());
  else if (c.order == 2 && n > 1) std::rotate(o.begin(), o.begin() + n / 2, o.end());
  else if (c.order == 3 && c.perm.size() == n) o = c.perm;
  else if (c.order == 4) {
    std::stable_partition(o.begin(), o.end(), [](size_t x) { return x % 2; });
  }
  return o;
}

} // namespace mock

// ------------------------------------------------------------------ exceptions
enum class errc : unsigned {
  success = 0, runtime, kernel, accessor, nd_range, event, kernel_argument,
  build, invalid, memory_allocation, platform, profiling, feature_not_supported,
  kernel_not_supported, backend_mismatch
};
inline const std::error_category& sycl_category() noexcept {
  struct cat : std::error_category {
    const char* name() const noexcept override { return "sycl"; }
    std::string message(int) const override { return "sycl error"; }
  };
  static cat c;
  return c;
}
inline std::error_code make_error_code(errc e) noexcept {
  return {static_cast<int>(e), sycl_category()};
}
class exception : public virtual std::exception {
  std::string m; std::error_code c;
public:
  exception(std::error_code e, const std::string& s = "sycl exception") : m(s), c(e) {}
  exception(const std::string& s = "sycl exception") : m(s) {}
  const char* what() const noexcept override { return m.c_str(); }
  const std::error_code& code() const noexcept { return c; }
};
using runtime_error = exception;
using nd_range_error = exception;
using exception_list = std::vector<std::exception_ptr>;
using async_handler = std::function<void(exception_list)>;

// --------------------------------------------------------------- range, id ...
template <int D = 1> class range;
template <int D = 1> class id;

template <int D, class Self> struct vec_base {
  size_t v[D] = {};
  size_t get(int i) const { return v[i]; }
  size_t& operator[](int i) { return v[i]; }
  size_t operator[](int i) const { return v[i]; }
  friend bool operator==(const Self& a, const Self& b) {
    for (int i = 0; i < D; i++) if (a.v[i] != b.v[i]) return false;
    return true;
  }
  friend bool operator!=(const Self& a, const Self& b) { return !(a == b); }
};
template <int D> class range : public vec_base<D, range<D>> {
public:
  static constexpr int dimensions = D;
  range() = default;
  template <int N = D, class = std::enable_if_t<N == 1>> range(size_t a) { this->v[0] = a; }
  template <int N = D, class = std::enable_if_t<N == 2>> range(size_t a, size_t b) { this->v[0] = a; this->v[1] = b; }
  template <int N = D, class = std::enable_if_t<N == 3>> range(size_t a, size_t b, size_t c) { this->v[0] = a; this->v[1] = b; this->v[2] = c; }
  size_t size() const { size_t s = 1; for (int i = 0; i < D; i++) s *= this->v[i]; return s; }
};
range(size_t) -> range<1>;
range(size_t, size_t) -> range<2>;
range(size_t, size_t, size_t) -> range<3>;
template <int D> class id : public vec_base<D, id<D>> {
public:
  id() = default;
  template <int N = D, class = std::enable_if_t<N == 1>> id(size_t a) { this->v[0] = a; }
  template <int N = D, class = std::enable_if_t<N == 2>> id(size_t a, size_t b) { this->v[0] = a; this->v[1] = b; }
  template <int N = D, class = std::enable_if_t<N == 3>> id(size_t a, size_t b, size_t c) { this->v[0] = a; this->v[1] = b; this->v[2] = c; }
  template <int N = D, class = std::enable_if_t<N == 1>> operator size_t() const { return this->v[0]; }
};
id(size_t) -> id<1>;

template <int D = 1> class item {
  range<D> r; id<D> i;
public:
  item(range<D> r_, id<D> i_) : r(r_), i(i_) {}
  id<D> get_id() const { return i; }
  size_t get_id(int d) const { return i[d]; }
  size_t operator[](int d) const { return i[d]; }
  range<D> get_range() const { return r; }
  size_t get_range(int d) const { return r[d]; }
  size_t get_linear_id() const { size_t l = 0; for (int d = 0; d < D; d++) l = l * r[d] + i[d]; return l; }
  template <int N = D, class = std::enable_if_t<N == 1>> operator size_t() const { return i[0]; }
};

template <int D = 1> class nd_range {
  range<D> g, l;
public:
  nd_range(range<D> g_, range<D> l_) : g(g_), l(l_) {}
  range<D> get_global_range() const { return g; }
  range<D> get_local_range() const { return l; }
  range<D> get_group_range() const { range<D> r = g; for (int i = 0; i < D; i++) r[i] = l[i] ? g[i] / l[i] : 0; return r; }
};

namespace access {
enum class mode { read = 1024, write, read_write, discard_write, discard_read_write, atomic };
enum class target { device = 2014, global_buffer = 2014, constant_buffer, local, host_buffer, host_task };
enum class fence_space { local_space, global_space, global_and_local };
enum class address_space { global_space, local_space, private_space, generic_space, constant_space };
enum class decorated { no, yes, legacy };
enum class placeholder { false_t, true_t };
}
using access_mode = access::mode;
using target = access::target;
enum class memory_order { relaxed, acquire, release, acq_rel, seq_cst };
enum class memory_scope { work_item, sub_group, work_group, device, system };

template <int D = 1> class group {
  range<D> gr, lr; id<D> i;
public:
  group(range<D> g, range<D> l, id<D> x) : gr(g), lr(l), i(x) {}
  id<D> get_group_id() const { return i; }
  id<D> get_id() const { return i; }
  size_t get_group_id(int d) const { return i[d]; }
  size_t get_id(int d) const { return i[d]; }
  size_t operator[](int d) const { return i[d]; }
  range<D> get_local_range() const { return lr; }
  size_t get_local_range(int d) const { return lr[d]; }
  range<D> get_group_range() const { return gr; }
  size_t get_group_range(int d) const { return gr[d]; }
  size_t get_group_linear_id() const { size_t l = 0; for (int d = 0; d < D; d++) l = l * gr[d] + i[d]; return l; }
  size_t get_linear_id() const { return get_group_linear_id(); }
};

template <int D = 1> class nd_item {
  nd_range<D> r; id<D> g, l;
public:
  nd_item(nd_range<D> r_, id<D> g_, id<D> l_) : r(r_), g(g_), l(l_) {}
  id<D> get_global_id() const { return g; }
  size_t get_global_id(int d) const { return g[d]; }
  size_t get_global_linear_id() const { size_t s = 0; for (int d = 0; d < D; d++) s = s * r.get_global_range()[d] + g[d]; return s; }
  id<D> get_local_id() const { return l; }
  size_t get_local_id(int d) const { return l[d]; }
  size_t get_local_linear_id() const { size_t s = 0; for (int d = 0; d < D; d++) s = s * r.get_local_range()[d] + l[d]; return s; }
  range<D> get_global_range() const { return r.get_global_range(); }
  size_t get_global_range(int d) const { return r.get_global_range()[d]; }
  range<D> get_local_range() const { return r.get_local_range(); }
  size_t get_local_range(int d) const { return r.get_local_range()[d]; }
  range<D> get_group_range() const { return r.get_group_range(); }
  size_t get_group_range(int d) const { return r.get_group_range()[d]; }
  nd_range<D> get_nd_range() const { return r; }
  group<D> get_group() const {
    id<D> x; for (int d = 0; d < D; d++) x[d] = g[d] / r.get_local_range()[d];
    return group<D>(r.get_group_range(), r.get_local_range(), x);
  }
  size_t get_group(int d) const { return g[d] / r.get_local_range()[d]; }
  size_t get_group_linear_id() const { return get_group().get_group_linear_id(); }
  void barrier(access::fence_space = access::fence_space::global_and_local) const {
    if (r.get_local_range().size() > 1) throw mock::unsupported("barrier in a work-group of several items");
  }
  void mem_fence(access::fence_space = access::fence_space::global_and_local) const {}
};
template <int D> inline void group_barrier(const group<D>& g, memory_scope = memory_scope::work_group) {
  if (g.get_local_range().size() > 1) throw mock::unsupported("barrier in a work-group of several items");
}
inline void atomic_fence(memory_order, memory_scope) {}

// -------------------------------------------------------------------- property
namespace property {
struct no_init {};
namespace buffer { struct use_host_ptr {}; struct use_mutex {}; struct context_bound {}; }
namespace queue { struct in_order {}; struct enable_profiling {}; }
}
inline const property::no_init no_init{};
class property_list {
public:
  bool has_no_init = false;
  property_list() = default;
  template <class... P> property_list(const P&...) { has_no_init = (std::is_same_v<P, property::no_init> || ...); }
};

template <class T> class buffer_allocator {};

template <access::mode M> struct mode_tag_t { explicit mode_tag_t() = default; };
template <access::mode M, access::target TG> struct mode_target_tag_t { explicit mode_target_tag_t() = default; };
inline constexpr mode_tag_t<access::mode::read> read_only{};
inline constexpr mode_tag_t<access::mode::write> write_only{};
inline constexpr mode_tag_t<access::mode::read_write> read_write{};
inline constexpr mode_target_tag_t<access::mode::read, access::target::constant_buffer> read_constant{};

class handler;

// ---------------------------------------------------------------------- buffer
namespace mock {
template <class T> struct storage {
  std::unique_ptr<unsigned char[]> raw;
  T* p = nullptr; size_t n = 0;
  T* back = nullptr; bool write_back = true; int host_live = 0;
  VMOCK_NT void poison_all() { if (n) std::memset((void*)p, config().poison, n * sizeof(T)); }
  VMOCK_NT explicit storage(size_t n_) : raw(new unsigned char[n_ * sizeof(T) + 64]), n(n_) {
    auto u = reinterpret_cast<uintptr_t>(raw.get());
    p = reinterpret_cast<T*>((u + 63) & ~uintptr_t(63));
    poison_all();
  }
  VMOCK_NT ~storage() { if (back && write_back && n) std::memcpy((void*)back, (const void*)p, n * sizeof(T)); }
};
}

template <class T, int D, access::mode M, access::target TG, access::placeholder P> class accessor;
template <class T, int D, access::mode M> class host_accessor;

template <class T, int D = 1, class A = void> class buffer {
public:
  using value_type = T;
  std::shared_ptr<mock::storage<T>> s;
  range<D> r;
  buffer(const range<D>& r_, const property_list& = {}) : s(std::make_shared<mock::storage<T>>(r_.size())), r(r_) {}
  VMOCK_NT buffer(T* h, const range<D>& r_, const property_list& = {}) : s(std::make_shared<mock::storage<T>>(r_.size())), r(r_) {
    if (s->n) std::memcpy((void*)s->p, (const void*)h, s->n * sizeof(T));
    s->back = h;
  }
  VMOCK_NT buffer(const T* h, const range<D>& r_, const property_list& = {}) : s(std::make_shared<mock::storage<T>>(r_.size())), r(r_) {
    if (s->n) std::memcpy((void*)s->p, (const void*)h, s->n * sizeof(T));
  }
  template <class C, class = decltype(std::declval<C&>().data()), int N = D, class = std::enable_if_t<N == 1>>
  buffer(C& c, const property_list& pl = {}) : buffer(c.data(), range<1>(c.size()), pl) {}
  template <class It, int N = D, class = std::enable_if_t<N == 1 && !std::is_same_v<It, int>>,
            class = typename std::iterator_traits<It>::iterator_category>
  buffer(It b, It e, const property_list& = {}) : s(std::make_shared<mock::storage<T>>(std::distance(b, e))), r(std::distance(b, e)) {
    std::copy(b, e, s->p);
  }
  range<D> get_range() const { return r; }
  size_t size() const { return r.size(); }
  size_t get_count() const { return r.size(); }
  size_t byte_size() const { return r.size() * sizeof(T); }
  void set_write_back(bool f = true) { s->write_back = f; }
  void set_final_data(T* p) { s->back = p; }
  void set_final_data(std::nullptr_t) { s->back = nullptr; }
  template <access::mode M, access::target TG = access::target::device>
  accessor<T, D, M, TG, access::placeholder::false_t> get_access(handler&);
  template <access::mode M> host_accessor<T, D, M> get_access();
  host_accessor<T, D, access::mode::read_write> get_host_access();
  template <access::mode M> host_accessor<T, D, M> get_host_access(mode_tag_t<M>);
  template <access::mode M> host_accessor<T, D, M> get_host_access(mode_tag_t<M>, const property_list&);
};
template <class C> buffer(C&) -> buffer<typename C::value_type, 1>;
template <class T, int D> buffer(T*, const range<D>&) -> buffer<T, D>;
template <class T, int D> buffer(const T*, const range<D>&) -> buffer<T, D>;
template <class T> buffer(T*, const range<1>&) -> buffer<T, 1>;

// -------------------------------------------------------------------- accessor
namespace mock {
template <class T, int D, access::mode M> class acc_base {
protected:
  std::shared_ptr<storage<std::remove_const_t<T>>> s;
  range<D> r;
public:
  using value_type = T;
  using reference = std::conditional_t<M == access::mode::read, const T&, T&>;
  using pointer = std::conditional_t<M == access::mode::read, const T*, T*>;
  acc_base() = default;
  VMOCK_NT acc_base(std::shared_ptr<storage<std::remove_const_t<T>>> s_, range<D> r_) : s(std::move(s_)), r(r_) {}
  VMOCK_NT reference operator[](size_t i) const {
    if (i >= s->n) oob("accessor", i, s->n);
    if (config().touch) config().touch(&s->p[i], sizeof(T));
    return s->p[i];
  }
  VMOCK_NT reference operator[](const id<D>& i) const {
    size_t l = 0;
    for (int d = 0; d < D; d++) { if (i[d] >= r[d]) oob("accessor", i[d], r[d]); l = l * r[d] + i[d]; }
    if (config().touch) config().touch(&s->p[l], sizeof(T));
    return s->p[l];
  }
  VMOCK_NT reference operator[](const item<D>& i) const { return (*this)[i.get_id()]; }
  size_t size() const { return s ? s->n : 0; }
  size_t get_count() const { return size(); }
  size_t get_size() const { return size() * sizeof(T); }
  size_t byte_size() const { return size() * sizeof(T); }
  bool empty() const { return size() == 0; }
  range<D> get_range() const { return r; }
  pointer get_pointer() const { return s->p; }
  pointer data() const { return s->p; }
  pointer begin() const { return s->p; }
  pointer end() const { return s->p + s->n; }
};
}

template <class T, int D = 1, access::mode M = access::mode::read_write,
          access::target TG = access::target::device,
          access::placeholder P = access::placeholder::false_t>
class accessor : public mock::acc_base<T, D, M> {
  using B = mock::acc_base<T, D, M>;
public:
  accessor() = default;
  accessor(std::shared_ptr<mock::storage<std::remove_const_t<T>>> s, range<D> r) : B(s, r) {}
  template <class A> accessor(buffer<std::remove_const_t<T>, D, A>& b, handler&, const property_list& pl = {}) : B(b.s, b.r) {
    if (this->s->host_live) throw mock::deadlock_error("a kernel uses a buffer for which a host accessor is still alive");
    if (pl.has_no_init || M == access::mode::discard_write || M == access::mode::discard_read_write) this->s->poison_all();
  }
  template <class A> accessor(buffer<std::remove_const_t<T>, D, A>& b, handler&, mode_tag_t<M>, const property_list& pl = {}) : B(b.s, b.r) {
    if (this->s->host_live) throw mock::deadlock_error("a kernel uses a buffer for which a host accessor is still alive");
    if (pl.has_no_init) this->s->poison_all();
  }
  template <class A> accessor(buffer<std::remove_const_t<T>, D, A>& b, const property_list& = {}) : B(b.s, b.r) {}
  // read_write converts to read
  template <access::mode M2, class = std::enable_if_t<M == access::mode::read && M2 != M>>
  accessor(const accessor<T, D, M2, TG, P>& o) : B(o.share(), o.get_range()) {}
  auto share() const { return this->s; }
};
template <class T, int D, class A> accessor(buffer<T, D, A>&, handler&) -> accessor<T, D, access::mode::read_write>;
template <class T, int D, class A> accessor(buffer<T, D, A>&, handler&, const property_list&) -> accessor<T, D, access::mode::read_write>;
template <class T, int D, class A, access::mode M> accessor(buffer<T, D, A>&, handler&, mode_tag_t<M>) -> accessor<T, D, M>;
template <class T, int D, class A, access::mode M> accessor(buffer<T, D, A>&, handler&, mode_tag_t<M>, const property_list&) -> accessor<T, D, M>;
template <class T, int D, class A, access::mode M> accessor(buffer<T, D, A>&, handler&, mode_tag_t<M>, property::no_init) -> accessor<T, D, M>;

namespace mock {
template <class T> struct live {          // keeps count of the living host accessors of a buffer
  std::shared_ptr<storage<T>> s;
  live() = default;
  explicit live(std::shared_ptr<storage<T>> x) : s(std::move(x)) { if (s) s->host_live++; }
  live(const live& o) : s(o.s) { if (s) s->host_live++; }
  live& operator=(const live& o) { live t(o); std::swap(s, t.s); return *this; }
  ~live() { if (s) s->host_live--; }
};
}
template <class T, int D = 1, access::mode M = access::mode::read_write>
class host_accessor : public mock::acc_base<T, D, M> {
  using B = mock::acc_base<T, D, M>;
  mock::live<std::remove_const_t<T>> alive;
public:
  host_accessor() = default;
  host_accessor(std::shared_ptr<mock::storage<std::remove_const_t<T>>> s, range<D> r) : B(s, r), alive(this->s) {}
  template <class A> host_accessor(buffer<std::remove_const_t<T>, D, A>& b, const property_list& pl = {}) : B(b.s, b.r), alive(this->s) { if (pl.has_no_init) this->s->poison_all(); }
  template <class A> host_accessor(buffer<std::remove_const_t<T>, D, A>& b, mode_tag_t<M>, const property_list& pl = {}) : B(b.s, b.r), alive(this->s) { if (pl.has_no_init) this->s->poison_all(); }
};
template <class T, int D, class A> host_accessor(buffer<T, D, A>&) -> host_accessor<T, D, access::mode::read_write>;
template <class T, int D, class A, access::mode M> host_accessor(buffer<T, D, A>&, mode_tag_t<M>) -> host_accessor<T, D, M>;
template <class T, int D, class A, access::mode M> host_accessor(buffer<T, D, A>&, mode_tag_t<M>, const property_list&) -> host_accessor<T, D, M>;

template <class T, int D, class A> template <access::mode M, access::target TG>
accessor<T, D, M, TG, access::placeholder::false_t> buffer<T, D, A>::get_access(handler& h) { return accessor<T, D, M, TG>(*this, h); }
template <class T, int D, class A> template <access::mode M>
host_accessor<T, D, M> buffer<T, D, A>::get_access() { return host_accessor<T, D, M>(s, r); }
template <class T, int D, class A>
host_accessor<T, D, access::mode::read_write> buffer<T, D, A>::get_host_access() { return host_accessor<T, D, access::mode::read_write>(s, r); }
template <class T, int D, class A> template <access::mode M>
host_accessor<T, D, M> buffer<T, D, A>::get_host_access(mode_tag_t<M>) { return host_accessor<T, D, M>(s, r); }
template <class T, int D, class A> template <access::mode M>
host_accessor<T, D, M> buffer<T, D, A>::get_host_access(mode_tag_t<M>, const property_list&) { return host_accessor<T, D, M>(s, r); }

// --------------------------------------------------------------- local memory
namespace mock {
struct local_block {
  size_t bytes; std::unique_ptr<unsigned char[]> mem; unsigned char* p = nullptr;
  std::vector<std::unique_ptr<unsigned char[]>> retired;
  // A new work-group gets memory of its own: an address is never shared by two
  // groups, and its contents are indeterminate.
  VMOCK_NT void renew() {
    if (mem) retired.push_back(std::move(mem));
    mem.reset(new unsigned char[bytes + 64]);
    auto u = reinterpret_cast<uintptr_t>(mem.get());
    p = reinterpret_cast<unsigned char*>((u + 63) & ~uintptr_t(63));
    std::memset(p, config().poison, bytes);
  }
};
}

class handler {
public:
  std::vector<std::shared_ptr<mock::local_block>> locals;
  std::function<void()> task;

  void new_group() { for (auto& l : locals) l->renew(); }

  template <class F> static void run_item(size_t n, const F& f) {
    auto& c = mock::config();
    c.items++;
    if (c.item_begin) c.item_begin(n);
    try { f(); } catch (...) { if (c.item_end) c.item_end(n); throw; }
    if (c.item_end) c.item_end(n);
  }
  struct kernel_scope {
    kernel_scope() { mock::config().launches++; if (mock::config().kernel_begin) mock::config().kernel_begin(); }
    ~kernel_scope() { if (mock::config().kernel_end) mock::config().kernel_end(); }
  };

  template <int D> static id<D> unlinear(size_t l, range<D> r) {
    id<D> x;
    for (int d = D - 1; d >= 0; d--) { x[d] = l % r[d]; l /= r[d]; }
    return x;
  }

  template <class N = void, int D, class F> void parallel_for(range<D> r, const F& f) {
    task = [=, this_locals = locals]() {
      kernel_scope ks;
      for (size_t l : mock::make_order(r.size())) {
        for (auto& b : this_locals) b->renew();
        id<D> x = unlinear<D>(l, r);
        run_item(l, [&] {
          if constexpr (std::is_invocable_v<const F&, id<D>>) f(x);
          else f(item<D>(r, x));
        });
      }
    };
  }
  template <class N = void, class F> void parallel_for(size_t n, const F& f) { parallel_for<N, 1, F>(range<1>(n), f); }
  template <class N = void, int D, class F> void parallel_for(nd_range<D> r, const F& f) {
    auto g = r.get_global_range(), lr = r.get_local_range();
    if (lr.size() > mock::max_group) throw exception(make_error_code(errc::nd_range), "local size exceeds the device's maximum work-group size");
    for (int d = 0; d < D; d++) {
      if (lr[d] == 0) throw exception(make_error_code(errc::nd_range), "local size is zero");
      if (g[d] % lr[d]) throw exception(make_error_code(errc::nd_range), "Global work size is not divisible by the local size: non-uniform work-groups are not supported");
    }
    task = [=, this_locals = locals]() {
      kernel_scope ks;
      auto gr = r.get_group_range();
      for (size_t gl : mock::make_order(gr.size())) {
        for (auto& b : this_locals) b->renew();
        id<D> gi = unlinear<D>(gl, gr);
        for (size_t ll : mock::make_order(lr.size())) {
          id<D> li = unlinear<D>(ll, lr), x;
          for (int d = 0; d < D; d++) x[d] = gi[d] * lr[d] + li[d];
          nd_item<D> it(r, x, li);
          run_item(it.get_global_linear_id(), [&] { f(it); });
        }
      }
    };
  }
  template <class N = void, class F> void single_task(const F& f) {
    task = [=]() { kernel_scope ks; run_item(0, f); };
  }
  template <class F> void host_task(const F& f) { task = [=]() { f(); }; }
  template <class T, int D, access::mode M, access::target TG, access::placeholder P>
  void fill(accessor<T, D, M, TG, P> a, const T& v) { task = [=]() { kernel_scope ks; std::fill(a.begin(), a.end(), v); }; }
  template <class T, int D, access::mode M, access::target TG, access::placeholder P>
  void copy(accessor<T, D, M, TG, P> a, T* dst) { task = [=]() { std::copy(a.begin(), a.end(), dst); }; }
  template <class T, int D, access::mode M, access::target TG, access::placeholder P>
  void copy(const T* src, accessor<T, D, M, TG, P> a) { task = [=]() { std::copy(src, src + a.size(), a.begin()); }; }
  template <class A, class B> auto copy(A a, B b) -> decltype(a.begin(), b.begin(), void()) { task = [=]() { std::copy(a.begin(), a.end(), b.begin()); }; }
  void memcpy(void* d, const void* s, size_t n) { task = [=]() { std::memcpy(d, s, n); }; }
  void memset(void* d, int v, size_t n) { task = [=]() { std::memset(d, v, n); }; }
  template <class T> void fill(void* p, const T& v, size_t n) { task = [=]() { std::fill_n(static_cast<T*>(p), n, v); }; }
  template <class T> void depends_on(const T&) {}
  template <class A> void require(A&&) {}
};

template <class T, int D = 1> class local_accessor {
  std::shared_ptr<mock::local_block> b; range<D> r;
public:
  using value_type = T;
  using reference = T&;
  local_accessor() = default;
  local_accessor(range<D> r_, handler& h, const property_list& = {}) : b(std::make_shared<mock::local_block>()), r(r_) {
    b->bytes = r.size() * sizeof(T); b->renew(); h.locals.push_back(b);
  }
  VMOCK_NT T& operator[](size_t i) const { if (i >= r.size()) mock::oob("local_accessor", i, r.size()); if (mock::config().touch) mock::config().touch(b->p + i * sizeof(T), sizeof(T)); return reinterpret_cast<T*>(b->p)[i]; }
  VMOCK_NT T& operator[](const id<D>& i) const {
    size_t l = 0;
    for (int d = 0; d < D; d++) { if (i[d] >= r[d]) mock::oob("local_accessor", i[d], r[d]); l = l * r[d] + i[d]; }
    if (mock::config().touch) mock::config().touch(b->p + l * sizeof(T), sizeof(T));
    return reinterpret_cast<T*>(b->p)[l];
  }
  size_t size() const { return r.size(); }
  size_t get_count() const { return r.size(); }
  range<D> get_range() const { return r; }
  T* get_pointer() const { return reinterpret_cast<T*>(b->p); }
};

// --------------------------------------------------------------- device, queue
enum class aspect { cpu, gpu, accelerator, custom, emulated, host_debuggable, fp16, fp64, atomic64, usm_device_allocations, usm_host_allocations, usm_shared_allocations, queue_profiling, online_compiler, online_linker };
namespace info {
enum class device_type { cpu, gpu, accelerator, custom, automatic, host, all };
namespace device {
struct name { using return_type = std::string; };
struct vendor { using return_type = std::string; };
struct driver_version { using return_type = std::string; };
struct version { using return_type = std::string; };
struct max_work_group_size { using return_type = size_t; };
struct max_compute_units { using return_type = uint32_t; };
struct preferred_vector_width_double { using return_type = uint32_t; };
struct preferred_vector_width_float { using return_type = uint32_t; };
struct native_vector_width_float { using return_type = uint32_t; };
struct max_mem_alloc_size { using return_type = uint64_t; };
struct global_mem_size { using return_type = uint64_t; };
struct local_mem_size { using return_type = uint64_t; };
struct max_clock_frequency { using return_type = uint32_t; };
struct device_type { using return_type = info::device_type; };
}
namespace platform { struct name { using return_type = std::string; }; struct vendor { using return_type = std::string; }; }
namespace event_profiling { struct command_start { using return_type = uint64_t; }; struct command_end { using return_type = uint64_t; }; }
}
class platform;
class device {
  bool gpu_;
public:
  explicit device(bool g) : gpu_(g) {}
  device() : gpu_(mock::config().gpu_present) {}
  template <class S, class = std::enable_if_t<std::is_invocable_v<S, const device&>>> explicit device(const S&) : gpu_(mock::config().gpu_present) {}
  bool is_cpu() const { return !gpu_; }
  bool is_gpu() const { return gpu_; }
  bool is_accelerator() const { return false; }
  bool has(aspect a) const { return a == aspect::fp64 || a == (gpu_ ? aspect::gpu : aspect::cpu) || a == aspect::usm_shared_allocations || a == aspect::usm_device_allocations || a == aspect::usm_host_allocations; }
  platform get_platform() const;
  template <class I> typename I::return_type get_info() const {
    using R = typename I::return_type;
    if constexpr (std::is_same_v<R, std::string>) return "mock device";
    else if constexpr (std::is_same_v<R, info::device_type>) return gpu_ ? info::device_type::gpu : info::device_type::cpu;
    else return R(1) << 20;
  }
  static std::vector<device> get_devices(info::device_type t = info::device_type::all) {
    std::vector<device> r;
    if (t == info::device_type::all || t == info::device_type::cpu) r.emplace_back(false);
    if ((t == info::device_type::all || t == info::device_type::gpu) && mock::config().gpu_present) r.emplace_back(true);
    return r;
  }
  friend bool operator==(const device& a, const device& b) { return a.gpu_ == b.gpu_; }
};
class platform {
public:
  static std::vector<platform> get_platforms() { return {platform()}; }
  std::vector<device> get_devices(info::device_type t = info::device_type::all) const { return device::get_devices(t); }
  template <class I> typename I::return_type get_info() const { return "mock platform"; }
};
inline platform device::get_platform() const { return platform(); }
inline int default_selector_v(const device& d) { return d.is_gpu() ? 2 : 1; }
inline int gpu_selector_v(const device& d) { return d.is_gpu() ? 2 : -1; }
inline int cpu_selector_v(const device& d) { return d.is_cpu() ? 2 : -1; }
struct default_selector { int operator()(const device& d) const { return default_selector_v(d); } };
struct gpu_selector { int operator()(const device& d) const { return gpu_selector_v(d); } };
struct cpu_selector { int operator()(const device& d) const { return cpu_selector_v(d); } };

class context { public: context() = default; explicit context(const device&) {} };
class event {
public:
  void wait() const {} void wait_and_throw() const {}
  static void wait(const std::vector<event>&) {}
  template <class I> typename I::return_type get_profiling_info() const { return 0; }
};

class queue {
  device d;
public:
  queue(const property_list& = {}) : d(mock::config().gpu_present) {}
  explicit queue(const device& d_, const property_list& = {}) : d(d_) {}
  queue(const async_handler&, const property_list&) : d(mock::config().gpu_present) {}
  template <class S, class = std::enable_if_t<std::is_invocable_v<S, const device&>>>
  explicit queue(const S& s, const property_list& = {}) : d(pick(s)) {}
  template <class S> static device pick(const S& s) {
    int best = -1; device r(false);
    for (auto& x : device::get_devices()) { int v = s(x); if (v > best) { best = v; r = x; } }
    if (best < 0) throw exception(make_error_code(errc::runtime), "no device");
    return r;
  }
  device get_device() const { return d; }
  context get_context() const { return context(d); }
  template <class F> event submit(F&& f) { handler h; f(h); if (h.task) h.task(); return {}; }
  template <class N = void, class... A> event parallel_for(A&&... a) { return submit([&](handler& h) { h.template parallel_for<N>(std::forward<A>(a)...); }); }
  template <class N = void, class F> event single_task(F&& f) { return submit([&](handler& h) { h.template single_task<N>(f); }); }
  event memcpy(void* a, const void* b, size_t n) { std::memcpy(a, b, n); return {}; }
  event memset(void* a, int v, size_t n) { std::memset(a, v, n); return {}; }
  template <class T> event copy(const T* a, T* b, size_t n) { std::copy(a, a + n, b); return {}; }
  template <class T> event fill(void* p, const T& v, size_t n) { std::fill_n(static_cast<T*>(p), n, v); return {}; }
  void wait() {} void wait_and_throw() {} void throw_asynchronous() {}
  bool is_in_order() const { return true; }
};

namespace mock { VMOCK_NT inline void* usm(size_t b) { void* p = std::malloc(b ? b : 1); std::memset(p, config().poison, b); return p; } }
template <class T> T* malloc_shared(size_t n, const queue&) { return static_cast<T*>(mock::usm(n * sizeof(T))); }
template <class T> T* malloc_device(size_t n, const queue&) { return static_cast<T*>(mock::usm(n * sizeof(T))); }
template <class T> T* malloc_host(size_t n, const queue&) { return static_cast<T*>(mock::usm(n * sizeof(T))); }
inline void free(void* p, const queue&) { std::free(p); }
inline void free(void* p, const context&) { std::free(p); }

template <class T, memory_order O = memory_order::relaxed, memory_scope S = memory_scope::device,
          access::address_space AS = access::address_space::generic_space>
class atomic_ref {
  T* p;
public:
  explicit atomic_ref(T& r) : p(&r) {}
  T load(memory_order = O, memory_scope = S) const { return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
  void store(T v, memory_order = O, memory_scope = S) const { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
  T fetch_add(T v, memory_order = O, memory_scope = S) const { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
  T fetch_sub(T v, memory_order = O, memory_scope = S) const { return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }
  T operator++() const { return fetch_add(1) + 1; }
  T operator++(int) const { return fetch_add(1); }
  T operator+=(T v) const { return fetch_add(v) + v; }
  operator T() const { return load(); }
};

// ------------------------------------------------------------------------ math
#define VMOCK_F1(f) template <class T, class = std::enable_if_t<std::is_floating_point_v<T>>> inline T f(T x) { return std::f(x); }
VMOCK_F1(sqrt) VMOCK_F1(floor) VMOCK_F1(ceil) VMOCK_F1(trunc) VMOCK_F1(round) VMOCK_F1(fabs)
VMOCK_F1(exp) VMOCK_F1(log) VMOCK_F1(log2) VMOCK_F1(sin) VMOCK_F1(cos) VMOCK_F1(rint)
#undef VMOCK_F1
template <class A, class B> using vm_ft = std::common_type_t<A, B>;
template <class A, class B> inline vm_ft<A, B> fmod(A a, B b) { return std::fmod(vm_ft<A, B>(a), vm_ft<A, B>(b)); }
template <class A, class B> inline vm_ft<A, B> fmin(A a, B b) { return std::fmin(vm_ft<A, B>(a), vm_ft<A, B>(b)); }
template <class A, class B> inline vm_ft<A, B> fmax(A a, B b) { return std::fmax(vm_ft<A, B>(a), vm_ft<A, B>(b)); }
template <class A, class B> inline vm_ft<A, B> pow(A a, B b) { return std::pow(vm_ft<A, B>(a), vm_ft<A, B>(b)); }
template <class A, class B> inline vm_ft<A, B> min(A a, B b) { vm_ft<A, B> x = a, y = b; return y < x ? y : x; }
template <class A, class B> inline vm_ft<A, B> max(A a, B b) { vm_ft<A, B> x = a, y = b; return x < y ? y : x; }
template <class T> inline T clamp(T x, T a, T b) { return std::min(std::max(x, a), b); }
template <class T> inline T abs(T x) { return x < T(0) ? T(-x) : x; }
template <class T> inline T fma(T a, T b, T c) { return std::fma(a, b, c); }
template <class T> inline T mad(T a, T b, T c) { return a * b + c; }
template <class T> inline T rsqrt(T a) { return T(1) / std::sqrt(a); }
template <class T> inline T select(T a, T b, bool c) { return c ? b : a; }
template <class T> inline bool isnan(T a) { return std::isnan(a); }
template <class T> inline bool isinf(T a) { return std::isinf(a); }
template <class T> inline bool isfinite(T a) { return std::isfinite(a); }
template <class T> inline T popcount(T x) { return T(__builtin_popcountll((unsigned long long)(std::make_unsigned_t<T>)x)); }
namespace native {
template <class T> inline T sqrt(T x) { return std::sqrt(x); }
template <class T> inline T recip(T x) { return T(1) / x; }
template <class T> inline T divide(T x, T y) { return x / y; }
}

class stream { public: stream(size_t, size_t, handler&) {} template <class T> const stream& operator<<(const T&) const { return *this; } };
inline const char endl = '\n';

} // namespace sycl

namespace cl { namespace sycl { using namespace ::sycl; } }

#endif
