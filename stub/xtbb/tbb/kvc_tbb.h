// Extraction-only stand-in for oneTBB (see DESIGN.md, trusted contracts).  A parallel loop runs its body on
// chunks of the range chosen by the environment (kvc_chunk: any non-empty prefix of what is left); thread-local
// storage hands out one of two slots chosen by the environment (kvc_slot).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
#include <vector>
extern "C" std::uint64_t kvc_chunk(std::uint64_t, std::uint64_t) noexcept;
extern "C" std::uint64_t kvc_slot() noexcept;
extern "C" int kvc_concurrency() noexcept;
namespace oneapi { namespace tbb {} }
namespace tbb {
using namespace oneapi::tbb;
struct split {};
struct auto_partitioner {}; struct static_partitioner {}; struct simple_partitioner {}; struct affinity_partitioner {};
template <typename T> class blocked_range {
  T _b, _e; std::size_t _g = 1;
public:
  using const_iterator = T; using size_type = std::size_t;
  blocked_range(T b, T e, std::size_t g = 1) : _b(b), _e(e), _g(g) {}
  T begin() const { return _b; }
  T end() const { return _e; }
  std::size_t size() const { return static_cast<std::size_t>(_e - _b); }
  std::size_t grainsize() const { return _g; }
  bool empty() const { return !(_b < _e); }
};
template <typename T, typename B, typename... P> void parallel_for(const blocked_range<T> &r, const B &body, P &&...) {
  T b = r.begin(); const T e = r.end();
  while (b < e) { const T c = static_cast<T>(kvc_chunk(static_cast<std::uint64_t>(b), static_cast<std::uint64_t>(e))); blocked_range<T> part(b, c, r.grainsize()); body(part); b = c; }
}
template <typename I, typename F> void parallel_for(I first, I last, const F &f) { for (I i = first; i < last; ++i) f(i); }
template <typename I, typename F> void parallel_for(I first, I last, I step, const F &f) { for (I i = first; i < last; i += step) f(i); }
template <typename T, typename V, typename B, typename J> V parallel_reduce(const blocked_range<T> &r, const V &id, const B &body, const J &join) {
  V v = id; T b = r.begin(); const T e = r.end();
  while (b < e) { const T c = static_cast<T>(kvc_chunk(static_cast<std::uint64_t>(b), static_cast<std::uint64_t>(e))); v = join(v, body(blocked_range<T>(b, c), id)); b = c; }
  return v;
}
// imperative form: every chunk is taken either by the body that already accumulated the range before it, or by a body split off
template <typename T, typename B> void parallel_reduce(const blocked_range<T> &r, B &body) {
  T b = r.begin(); const T e = r.end();
  while (b < e) {
    const T c = static_cast<T>(kvc_chunk(static_cast<std::uint64_t>(b), static_cast<std::uint64_t>(e)));
    if (kvc_slot() & 1) { B right(body, split()); right(blocked_range<T>(b, c)); body.join(right); } else { body(blocked_range<T>(b, c)); }
    b = c;
  }
}
// every chunk gets a final scan with the sum of everything before it; it may be pre-scanned from the identity, and then the sums are joined
template <typename T, typename V, typename S, typename J> V parallel_scan(const blocked_range<T> &r, const V &id, const S &scan, const J &join) {
  V sum = id; T b = r.begin(); const T e = r.end();
  while (b < e) {
    const T c = static_cast<T>(kvc_chunk(static_cast<std::uint64_t>(b), static_cast<std::uint64_t>(e)));
    if (kvc_slot() & 1) { const V part = scan(blocked_range<T>(b, c), id, false); scan(blocked_range<T>(b, c), sum, true); sum = join(sum, part); } else { sum = scan(blocked_range<T>(b, c), sum, true); }
    b = c;
  }
  return sum;
}
template <typename... F> void parallel_invoke(F &&...f) { (f(), ...); }
template <typename T> class enumerable_thread_specific {
  T _slot[2];
public:
  using iterator = T *; using const_iterator = const T *; using range_type = blocked_range<T *>;
  enumerable_thread_specific() : _slot{} {}
  explicit enumerable_thread_specific(const T &v) : _slot{v, v} {}
  template <typename F> requires std::is_invocable_r_v<T, F> enumerable_thread_specific(F f) : _slot{f(), f()} {}
  template <typename A, typename B, typename... P> enumerable_thread_specific(const A &a, const B &b, const P &...p) : _slot{T(a, b, p...), T(a, b, p...)} {}
  T &local() { return _slot[kvc_slot() & 1]; }
  T &local(bool &e) { e = true; return local(); }
  T *begin() { return _slot; }
  T *end() { return _slot + 2; }
  const T *begin() const { return _slot; }
  const T *end() const { return _slot + 2; }
  range_type range(std::size_t g = 1) { return {begin(), end(), g}; }
  std::size_t size() const { return 2; }
  bool empty() const { return false; }
  void clear() { _slot[0] = T(); _slot[1] = T(); }
  template <typename F> T combine(F f) { return f(_slot[0], _slot[1]); }
  template <typename F> void combine_each(F f) { f(_slot[0]); f(_slot[1]); }
};
template <typename T> class combinable : public enumerable_thread_specific<T> { public: using enumerable_thread_specific<T>::enumerable_thread_specific; };
template <typename T> using concurrent_vector = std::vector<T>;
template <typename T> using scalable_allocator = std::allocator<T>;
template <typename T> using cache_aligned_allocator = std::allocator<T>;
struct spin_mutex { void lock() {} void unlock() {} bool try_lock() { return true; } struct scoped_lock { scoped_lock() {} scoped_lock(spin_mutex &) {} void acquire(spin_mutex &) {} void release() {} }; };
struct task_group { template <typename F> void run(F &&f) { f(); } void wait() {} template <typename F> void run_and_wait(F &&f) { f(); } };
struct task_arena { struct constraints {}; static constexpr int automatic = -1; task_arena(int = 0, unsigned = 0) {} void initialize() {} void initialize(int) {} template <typename F> auto execute(F &&f) { return f(); } int max_concurrency() const { return kvc_concurrency(); } };
namespace this_task_arena { inline int max_concurrency() { return kvc_concurrency(); } inline int current_thread_index() { return 0; } template <typename F> auto isolate(F &&f) { return f(); } }
struct global_control { enum parameter { max_allowed_parallelism, thread_stack_size, terminate_on_exception }; global_control(parameter, std::size_t) {} static std::size_t active_value(parameter) { return 1; } };
class task_scheduler_observer { public: task_scheduler_observer() {} task_scheduler_observer(task_arena &) {} void observe(bool = true) {} virtual void on_scheduler_entry(bool) {} virtual void on_scheduler_exit(bool) {} virtual ~task_scheduler_observer() {} };
} // namespace tbb
namespace oneapi { namespace tbb { } }
extern "C" { void *scalable_malloc(std::size_t) noexcept; void *scalable_calloc(std::size_t, std::size_t) noexcept; void *scalable_realloc(void *, std::size_t) noexcept; void scalable_free(void *) noexcept; void *scalable_aligned_malloc(std::size_t, std::size_t) noexcept; void scalable_aligned_free(void *) noexcept; int scalable_posix_memalign(void **, std::size_t, std::size_t) noexcept; }
