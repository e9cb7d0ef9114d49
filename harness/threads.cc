// The thread runtime under stress: parallel loops, thread pool, queue, tokens.
//
// Monitors use relaxed atomics only, so that they add no happens-before edge that could
// hide a race from ThreadSanitizer; the effects of the bodies are plain writes.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <memory>
#include <numeric>
#include <thread>

#include "ceres/concurrent_queue.h"
#include "ceres/context_impl.h"
#include "ceres/parallel_for.h"
#include "ceres/parallel_utils.h"
#include "ceres/partition_range_for_parallel_for.h"
#include "ceres/scoped_thread_token.h"
#include "ceres/thread_pool.h"
#include "ceres/thread_token_provider.h"
#include "vh.h"

namespace {
bool Spurious();
}

// A wait may return without having been notified: here about one in eight does. This
// definition takes the place of the one in the C++ library.
void std::condition_variable::wait(std::unique_lock<std::mutex>& lock) {
  if (Spurious()) {
    lock.unlock();
    std::this_thread::yield();
    lock.lock();
    return;
  }
  pthread_cond_wait(native_handle(), lock.mutex()->native_handle());
}

using namespace vh;
using namespace ceres::internal;

namespace {

constexpr auto R = std::memory_order_relaxed;
std::atomic<uint64_t> g_progress{0};

// No case makes progress in as long as this: a schedule that dies here has deadlocked.
constexpr int kStallSeconds = 60;

struct Watch {
  Case& c;
  const char* key;
  std::atomic<bool> stop{false};
  std::thread t;
  Watch(Case& c, const char* key) : c(c), key(key), t([this] { Loop(); }) {}
  void Loop() {
    uint64_t last = g_progress.load(R);
    int idle = 0;
    while (!stop.load(R)) {
      std::this_thread::sleep_for(std::chrono::milliseconds(2));
      const uint64_t now = g_progress.load(R);
      idle = now == last ? idle + 1 : 0;
      last = now;
      if (idle > kStallSeconds * 500) {
        c.fail(key, "no progress for %d s", kStallSeconds);
        _exit(2);
      }
    }
  }
  ~Watch() { stop.store(true, R); t.join(); }
};

thread_local uint64_t t_rng = 0;
std::atomic<uint64_t> g_spurious{0};
bool Spurious() {
  static thread_local uint64_t state = 0;
  if (state == 0) state = Mix(HashStr("w") ^ reinterpret_cast<uint64_t>(&state));
  state = Mix(state);
  if (state % 8 != 0) return false;
  g_spurious.fetch_add(1, R);
  return true;
}
void Jitter(int level, uint64_t salt) {
  g_progress.fetch_add(1, R);
  if (level == 0) return;
  if (t_rng == 0) t_rng = Mix(HashStr("j") ^ reinterpret_cast<uint64_t>(&t_rng));
  t_rng = Mix(t_rng ^ salt);
  const int k = t_rng % 64;
  if (level == 1) {
    if (k < 8) std::this_thread::yield();
    return;
  }
  if (k < 10) std::this_thread::yield();
  else if (k < 14) { volatile int x = 0; for (int i = 0; i < 2000; ++i) x = x + i; }
  else if (k < (level == 2 ? 15 : 18)) std::this_thread::sleep_for(std::chrono::microseconds(t_rng / 64 % 150));
}

// ---- parallel loops ----

enum Kind { kIndex, kIndexTid, kRange, kRangeTid };
enum Mode { kPlain, kPartitions, kCost };

struct Loop {
  int start, n, threads, min_block, level;
  Kind kind;
  Mode mode;
  std::vector<int> partitions, cumulative;
  std::string Str() const { return Fmt("[%d, +%d) threads %d block %d kind %d mode %d", start, n, threads, min_block, kind, mode); }
};

Loop RandomLoop(Rng& r, int depth) {
  Loop l;
  l.start = r.chance(0.5) ? 0 : r.range(-20, 20);
  l.n = r.chance(0.1) ? r.range(-3, 1) : r.chance(0.3) ? r.range(1, 12) : r.range(1, depth ? 40 : 300);
  l.threads = r.chance(0.1) ? 1 : r.range(2, r.chance(0.2) ? 17 : 8);
  l.min_block = r.chance(0.7) ? 1 : r.range(1, 40);
  l.level = r.range(0, 3);
  l.kind = static_cast<Kind>(r.range(0, 3));
  l.mode = r.chance(0.6) || l.n <= 0 ? kPlain : r.chance(0.5) ? kPartitions : kCost;
  if (l.mode == kCost) l.start = std::max(0, l.start);  // data are indexed from zero
  if (l.mode == kPartitions) {
    l.partitions.push_back(l.start);
    const double p = r.uni(0.02, 1);
    for (int i = 1; i < l.n; ++i) if (r.chance(p)) l.partitions.push_back(l.start + i);
    l.partitions.push_back(l.start + l.n);
  }
  if (l.mode == kCost) {
    int s = 0;
    const bool zeros = r.chance(0.3);
    for (int i = 0; i < l.start + l.n; ++i) l.cumulative.push_back(s += zeros && r.chance(0.5) ? 0 : r.range(1, r.chance(0.05) ? 500 : 9));
  }
  return l;
}

struct State {
  explicit State(const Loop& l)
      : n(std::max(0, l.n)), hits(n), data(n, 0), scratch(l.threads, 0), busy(l.threads) {
    for (auto& h : hits) h = 0;
    for (auto& b : busy) b = 0;
  }
  int n;
  std::vector<std::atomic<int>> hits;
  std::vector<int> data;        // plain: visibility
  std::vector<int> scratch;     // plain: per thread id
  std::vector<std::atomic<int>> busy;
  std::atomic<int> active{0}, peak{0}, closed{0}, late{0}, bad_id{0}, shared_id{0}, out{0}, empty{0}, foreign{0}, segments{0}, cuts{0};
  std::mutex mu;
  int locked = 0;
  std::atomic<uint64_t> order{0};
};

void RunLoop(ContextImpl* ctx, Case& c, uint64_t seed, int depth) {
  Rng r(seed);
  const Loop l = RandomLoop(r, depth);
  auto s = std::make_unique<State>(l);
  State* st = s.get();
  const auto caller = std::this_thread::get_id();
  const bool nest = depth < 2 && r.chance(depth == 0 ? 0.15 : 0.05);
  const bool lock = r.chance(0.4);
  const uint64_t nest_seed = r.u64();
  auto Body = [&, st](int tid, int from, int to) {
    if (st->closed.load(R)) st->late.fetch_add(1, R);
    if (l.threads == 1 && std::this_thread::get_id() != caller) st->foreign.fetch_add(1, R);
    const int a = st->active.fetch_add(1, R) + 1;
    if (a > l.threads) st->peak.fetch_add(1, R);
    if (tid >= 0) {
      if (tid >= l.threads) st->bad_id.fetch_add(1, R);
      else {
        if (st->busy[tid].exchange(1, R)) st->shared_id.fetch_add(1, R);
        st->scratch[tid]++;
      }
    }
    if (tid < -1) st->bad_id.fetch_add(1, R);
    if (from >= to) st->empty.fetch_add(1, R);
    if (l.mode == kPartitions && (l.kind == kRange || l.kind == kRangeTid) && l.threads > 1 && l.n > l.threads) {
      if (!std::binary_search(l.partitions.begin(), l.partitions.end(), from) || !std::binary_search(l.partitions.begin(), l.partitions.end(), to)) st->cuts.fetch_add(1, R);
    }
    st->segments.fetch_add(1, R);
    for (int i = from; i < to; ++i) {
      const int k = i - l.start;
      if (k < 0 || k >= st->n) { st->out.fetch_add(1, R); continue; }
      Jitter(l.level, i);
      st->hits[k].fetch_add(1, R);
      st->data[k] = 7 * i + 1;
      if (nest && (nest_seed ^ i) % 16 == 0) RunLoop(ctx, c, Combine(nest_seed, i), depth + 1);
      if (lock) {
        auto guard = MakeConditionalLock(l.threads, st->mu);
        st->locked++;
      }
    }
    const uint64_t o = st->order.load(R);
    st->order.store(Mix(o ^ (static_cast<uint64_t>(from) << 20) ^ tid), R);
    if (tid >= 0 && tid < l.threads) {
      st->scratch[tid]++;
      st->busy[tid].store(0, R);
    }
    st->active.fetch_sub(1, R);
  };
  auto Run = [&](auto&& f) {
    const int end = l.start + l.n;
    if (l.mode == kPartitions) ParallelFor(ctx, l.start, end, l.threads, f, l.partitions);
    else if (l.mode == kCost) ParallelFor(ctx, l.start, end, l.threads, f, l.cumulative.data(), [](const int x) { return x; });
    else if (l.min_block == 1) ParallelFor(ctx, l.start, end, l.threads, f);
    else ParallelFor(ctx, l.start, end, l.threads, f, l.min_block);
  };
  switch (l.kind) {
    case kIndex: Run([&](int i) { Body(-1, i, i + 1); }); break;
    case kIndexTid: Run([&](int t, int i) { Body(t, i, i + 1); }); break;
    case kRange: Run([&](std::tuple<int, int> g) { Body(-1, std::get<0>(g), std::get<1>(g)); }); break;
    case kRangeTid: Run([&](int t, std::tuple<int, int> g) { Body(t, std::get<0>(g), std::get<1>(g)); }); break;
  }
  // Everything is done and visible when the loop returns.
  const int active = st->active.load(R);
  st->closed.store(1, R);
  c.count("loops");
  c.count("spurious-wakes", g_spurious.exchange(0, R));
  c.count("segments", st->segments.load(R));
  if (depth) c.count("nested-loops");
  c.sig(st->order.load(R));
  const std::string d = l.Str();
  c.expect(active == 0, "loop:returned-early", "%d bodies active when the loop returned; %s", active, d.c_str());
  int twice = 0, missing = 0, stale = 0;
  for (int k = 0; k < st->n; ++k) {
    const int h = st->hits[k].load(R);
    twice += h > 1;
    missing += h < 1;
    stale += st->data[k] != 7 * (l.start + k) + 1;
  }
  c.expect(twice == 0, "loop:repeated", "%d indices ran more than once; %s", twice, d.c_str());
  c.expect(missing == 0, "loop:missing", "%d indices did not run; %s", missing, d.c_str());
  c.expect(stale == 0 || missing, "loop:effects-lost", "effects of %d indices are not visible; %s", stale, d.c_str());
  c.expect(st->out.load(R) == 0, "loop:out-of-range", "%s", d.c_str());
  c.expect(st->bad_id.load(R) == 0, "loop:thread-id", "id out of range; %s", d.c_str());
  c.expect(st->shared_id.load(R) == 0, "loop:thread-id-shared", "two bodies ran at once with one thread id; %s", d.c_str());
  c.expect(st->peak.load(R) == 0, "loop:too-many-threads", "%s", d.c_str());
  c.expect(st->empty.load(R) == 0, "loop:empty-segment", "%s", d.c_str());
  c.expect(st->cuts.load(R) == 0, "loop:partition-split", "a segment is not a union of partitions; %s", d.c_str());
  c.expect(st->foreign.load(R) == 0, "loop:single-thread", "a loop with one thread ran elsewhere; %s", d.c_str());
  if (lock) c.expect(st->locked == st->n || missing || twice, "loop:lock", "%d of %d increments under the lock survived; %s", st->locked, st->n, d.c_str());
  // A body started after the loop returned would touch freed memory now.
  if (st->late.load(R)) c.fail("loop:ran-late", "%s", d.c_str());
}

void Loops(Case& c) {
  Rng& r = c.rng;
  const int pool = r.range(0, 8), users = r.chance(0.5) ? 1 : r.range(2, 4), each = r.range(1, 8);
  const bool resize = r.chance(0.3);
  c.note("pool %d, %d users with %d loops, resize %d", pool, users, each, resize);
  Watch w(c, "loop:deadlock");
  auto ctx = std::make_unique<ContextImpl>();
  ctx->EnsureMinimumThreads(pool);
  std::vector<std::thread> ts;
  const uint64_t seed = r.u64();
  for (int u = 1; u < users; ++u)
    ts.emplace_back([&, u] { for (int k = 0; k < each; ++k) RunLoop(ctx.get(), c, Combine(seed, u * 1000 + k), 0); });
  if (resize)
    ts.emplace_back([&] { for (int k = 1; k <= 9; ++k) { Jitter(3, k); ctx->EnsureMinimumThreads(k); } });
  for (int k = 0; k < each; ++k) RunLoop(ctx.get(), c, Combine(seed, k), 0);
  for (auto& t : ts) t.join();
  ctx.reset();  // tasks may still be queued
}

// ---- the pool ----

struct Tasks {
  explicit Tasks(int cap) : runs(cap), plain(cap, 0) { for (auto& x : runs) x = 0; }
  std::vector<std::atomic<int>> runs;
  std::vector<int> plain;
  std::atomic<int> next{0}, active{0}, over{0}, on_caller{0}, order_bad{0}, last{-1}, done{0};
  std::atomic<int> limit{0};
};

void Pool(Case& c) {
  Rng& r = c.rng;
  const int hw = ThreadPool::MaxNumThreadsAvailable();
  const int first = r.range(0, 6), submitters = r.range(1, 3), each = r.range(0, 40), level = r.range(0, 3);
  const double respawn = r.chance(0.5) ? 0 : 0.3;
  const int biggest = r.chance(0.4) ? first : r.range(first, 20);
  const bool barrier = r.chance(0.5), wait = r.chance(0.4);
  c.note("pool %d..%d, %d submitters of %d tasks, respawn %g, barrier %d, wait %d", first, biggest, submitters, each, respawn, barrier, wait);
  Watch w(c, "pool:deadlock");
  const int cap = submitters * each * 4 + 64;
  auto t = std::make_unique<Tasks>(cap);
  Tasks* p = t.get();
  p->limit.store(std::min(hw, biggest), R);
  const auto me = std::this_thread::get_id();
  const bool fifo = biggest <= 1 && submitters == 1 && respawn == 0;
  int submitted = 0;
  std::atomic<int> from_tasks{0};
  {
    std::unique_ptr<ThreadPool> pool = r.chance(0.5) ? std::make_unique<ThreadPool>(first) : std::make_unique<ThreadPool>();
    pool->Resize(first);
    c.expect(pool->Size() == std::min(first, hw), "pool:size", "%d, expected %d", pool->Size(), std::min(first, hw));
    ThreadPool* pp = pool.get();
    std::function<void(int)> add = [&, pp, p](int depth) {
      const int id = p->next.fetch_add(1, R);
      if (id >= cap) return;
      p->plain[id] = 1;
      pp->AddTask([&, id, depth, p] {
        if (std::this_thread::get_id() == me) p->on_caller.fetch_add(1, R);
        if (p->active.fetch_add(1, R) + 1 > p->limit.load(R)) p->over.fetch_add(1, R);
        Jitter(level, id);
        p->runs[id].fetch_add(1, R);
        p->plain[id] = p->plain[id] * 2;  // written before it was submitted
        if (fifo) {
          if (p->last.load(R) >= id) p->order_bad.fetch_add(1, R);
          p->last.store(id, R);
        }
        if (depth < 2 && respawn > 0 && Mix(id * 7 + depth) % 100 < respawn * 100) { from_tasks.fetch_add(1, R); add(depth + 1); }
        p->active.fetch_sub(1, R);
        p->done.fetch_add(1, R);
      });
    };
    std::vector<std::thread> ts;
    for (int u = 1; u < submitters; ++u) ts.emplace_back([&] { for (int k = 0; k < each; ++k) { Jitter(level, k); add(0); } });
    const bool resize_early = r.chance(0.5);
    if (resize_early && biggest > first) ts.emplace_back([&] { for (int k = first; k <= biggest; ++k) { Jitter(3, k); pp->Resize(k); } });
    for (int k = 0; k < each; ++k) { Jitter(level, k); add(0); }
    for (auto& x : ts) x.join();
    if (first == 0 && biggest == first) c.expect(p->done.load(R) == 0, "pool:ran-without-threads", "%d tasks ran", p->done.load(R));
    pp->Resize(biggest);
    const int size = pp->Size();
    c.expect(size == std::min(biggest, hw), "pool:size", "%d, expected %d", size, std::min(biggest, hw));
    pp->Resize(r.range(0, biggest));
    c.expect(pp->Size() == size, "pool:shrunk", "%d, was %d", pp->Size(), size);
    submitted = p->next.load(R);
    // As many tasks as there are threads can run side by side.
    std::atomic<int> arrived{0};
    if (barrier && size > 0) {
      p->limit.store(size, R);
      for (int k = 0; k < size; ++k) pp->AddTask([&] {
        if (p->active.fetch_add(1, R) + 1 > p->limit.load(R)) p->over.fetch_add(1, R);
        arrived.fetch_add(1, R);
        while (arrived.load(R) < size) std::this_thread::yield();
        p->active.fetch_sub(1, R);
        g_progress.fetch_add(1, R);
      });
      c.count("barriers");
    }
    if (wait && size > 0) {
      while (p->done.load(R) < p->next.load(R)) std::this_thread::yield();
      c.count("waited");
    }
    if (r.chance(0.3)) Jitter(3, 1);
    pool.reset();
    if (barrier && size > 0) c.expect(arrived.load(R) == size, "pool:barrier-task-lost", "%d of %d ran", arrived.load(R), size);
    submitted = p->next.load(R);
    c.count("tasks", submitted);
    c.count("spurious-wakes", g_spurious.exchange(0, R));
    c.count("respawned", from_tasks.load(R));
    int lost = 0, twice = 0, torn = 0;
    for (int i = 0; i < submitted && i < cap; ++i) {
      const int n = p->runs[i].load(R);
      if (size == 0) { twice += n > 0; continue; }
      lost += n == 0;
      twice += n > 1;
      torn += n == 1 && p->plain[i] != 2;
    }
    c.expect(lost == 0, "pool:lost", "%d of %d tasks never ran", lost, submitted);
    c.expect(twice == 0, "pool:repeated", "%d of %d tasks ran too often", twice, submitted);
    c.expect(torn == 0, "pool:effects", "%d", torn);
    c.expect(p->active.load(R) == 0, "pool:still-running", "%d tasks run after the pool is gone", p->active.load(R));
    c.expect(p->on_caller.load(R) == 0, "pool:on-caller", "%d", p->on_caller.load(R));
    c.expect(p->over.load(R) == 0, "pool:too-many-threads", "%d", p->over.load(R));
    c.expect(p->order_bad.load(R) == 0, "pool:order", "a single thread ran tasks out of order");
    c.sig(Fmt("%d %d %d %d", size, submitters, each / 8, from_tasks.load(R)));
  }
}

// ---- the queue: a log of invocations and responses, checked for linearizability ----

struct Op {
  enum Type { kPush, kPop, kWait } type;
  int value;  // -1: nothing
  uint64_t begin, end;
};

void Queue(Case& c) {
  Rng& r = c.rng;
  const int producers = r.range(1, 4), consumers = r.range(1, 4), each = r.range(0, 60), level = r.range(0, 3);
  const bool stop_early = r.chance(0.4);
  const double pop = r.of({0.0, 0.3, 1.0});
  const int rounds = r.range(1, 3);
  c.note("%d producers of %d, %d consumers, pop %g, stop early %d, rounds %d", producers, each, consumers, pop, stop_early, rounds);
  Watch w(c, "queue:deadlock");
  std::atomic<uint64_t> clock{1};
  auto Now = [&] { g_progress.fetch_add(1, R); return clock.fetch_add(1, R); };
  ConcurrentQueue<int*> q;
  std::vector<std::vector<Op>> logs(producers + consumers + 1);
  uint64_t stop_began = 0, enabled_at = 0;
  for (int round = 0; round < rounds; ++round) {
    stop_began = 0;
    if (round) {
      q.EnableWaiters();
      enabled_at = Now();
    }
    for (auto& l : logs) l.clear();
    std::atomic<int> left{producers * each};
    std::vector<std::thread> ps, cs;
    const uint64_t seed = r.u64();
    for (int p = 0; p < producers; ++p)
      ps.emplace_back([&, p] {
        for (int k = 0; k < each; ++k) {
          Jitter(level, seed ^ k);
          Op o{Op::kPush, p * 1000 + k, 0, 0};
          int* v = new int(o.value);
          o.begin = Now();
          q.Push(v);
          o.end = Now();
          logs[p].push_back(o);
        }
      });
    for (int k = 0; k < consumers; ++k)
      cs.emplace_back([&, k] {
        uint64_t s = Combine(seed, k);
        for (;;) {
          s = Mix(s);
          Jitter(level, s);
          Op o{s % 1000 < pop * 1000 ? Op::kPop : Op::kWait, -1, 0, 0};
          int* v = nullptr;
          o.begin = Now();
          const bool ok = o.type == Op::kPop ? q.Pop(&v) : q.Wait(&v);
          o.end = Now();
          if (ok) {
            o.value = *v;
            delete v;
            left.fetch_sub(1, R);
          }
          logs[producers + k].push_back(o);
          if (!ok && o.type == Op::kWait) return;
          if (!ok) {
            if (left.load(R) == 0 && pop == 1) return;
            std::this_thread::yield();
          }
          if (logs[producers + k].size() > 20000) return;
        }
      });
    if (stop_early) {
      for (int k = r.range(0, 30); k > 0; --k) Jitter(3, k);
      stop_began = Now();
      q.StopWaiters();
    }
    for (auto& t : ps) t.join();
    if (!stop_early) {
      // nobody may be stuck while elements are left
      if (r.chance(0.5))
        while (left.load(R) > 0) std::this_thread::yield();
      stop_began = Now();
      q.StopWaiters();
    }
    for (auto& t : cs) t.join();
    // Whatever is left, in order.
    for (int* v; q.Pop(&v);) {
      Op o{Op::kPop, *v, Now(), 0};
      o.end = Now();
      delete v;
      logs.back().push_back(o);
    }
    {
      int* v = nullptr;
      c.expect(!q.Wait(&v), "queue:wait-after-stop", "got an element from an empty queue");
    }
    // The history.
    std::map<int, Op> pushed, popped;
    std::vector<Op> empty;
    uint64_t order = 0, ops = 0;
    bool ok = true;
    for (auto& l : logs)
      for (auto& o : l) {
        ++ops;
        if (o.type == Op::kPush) pushed[o.value] = o;
        else if (o.value < 0) {
          if (empty.size() < 300) empty.push_back(o);
          if (o.type == Op::kWait) ok &= c.expect(stop_began && o.end > stop_began, "queue:wait-gave-up", "Wait returned nothing before StopWaiters was called");
        } else {
          ok &= c.expect(popped.emplace(o.value, o).second, "queue:duplicate", "element %d was delivered twice", o.value);
          order = Mix(order ^ o.value);
        }
      }
    c.count("operations", ops);
    c.count("spurious-wakes", g_spurious.exchange(0, R));
    c.count("empty-results", empty.size());
    c.sig(order);
    int lost = 0;
    for (auto& [v, o] : pushed) {
      auto it = popped.find(v);
      if (it == popped.end()) { ++lost; continue; }
      ok &= c.expect(it->second.end > o.begin, "queue:before-push", "element %d was delivered before it was pushed", v);
    }
    c.expect(lost == 0 && popped.size() == pushed.size(), "queue:lost", "%d of %zu elements lost", lost, pushed.size());
    if (!ok || lost) return;
    // First in, first out: push(a) before push(b) forbids pop(b) before pop(a).
    std::vector<std::pair<Op, Op>> v;
    for (auto& [k, o] : pushed) v.push_back({o, popped[k]});
    std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first.begin < b.first.begin; });
    for (size_t a = 0; a < v.size(); ++a)
      for (size_t b = a + 1; b < v.size(); ++b)
        if (v[a].first.end < v[b].first.begin && v[b].second.end < v[a].second.begin) {
          c.fail("queue:order", "element %d was pushed before %d and delivered after it", v[a].first.value, v[b].first.value);
          return;
        }
    // Empty only when the queue can have been empty.
    for (auto& e : empty)
      for (auto& [in, out] : v)
        if (in.end < e.begin && out.begin > e.end) {
          c.fail("queue:false-empty", "reported empty while element %d was inside", in.value);
          return;
        }
  }
}

// ---- waiting for completion, tokens ----

void Block(Case& c) {
  Rng& r = c.rng;
  const int total = r.range(0, 60), threads = r.range(1, 6), level = r.range(0, 3);
  c.note("%d jobs, %d threads", total, threads);
  Watch w(c, "block:deadlock");
  for (int rep = 0; rep < 5; ++rep) {
    auto b = std::make_shared<BlockUntilFinished>(total);
    std::vector<std::vector<int>> parts(threads);
    for (int left = total; left > 0;) { const int k = r.range(1, std::min(left, 8)); parts[r.range(0, threads - 1)].push_back(k); left -= k; }
    for (auto& p : parts) { if (r.chance(0.3)) p.push_back(0); r.shuffle(p); }
    std::vector<int> plain(total + 1, 0);
    std::atomic<int> done{0}, slot{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t)
      ts.emplace_back([&, b, t] {
        for (int k : parts[t]) {
          Jitter(level, k);
          const int at = slot.fetch_add(k, R);
          for (int i = 0; i < k; ++i) plain[at + i] = 1;
          done.fetch_add(k, R);
          b->Finished(k);
        }
      });
    b->Block();
    const int seen = done.load(R);
    c.expect(seen == total, "block:early", "returned after %d of %d jobs", seen, total);
    int effects = 0;
    for (int x : plain) effects += x;
    c.expect(effects == seen, "block:effects", "%d of %d effects visible", effects, seen);
    for (auto& t : ts) t.join();
    c.count("blocks");
  }
  {
    const int n = r.range(1, 5), users = r.range(1, 8);
    ThreadTokenProvider provider(n);
    std::vector<std::atomic<int>> busy(n);
    for (auto& x : busy) x = 0;
    std::vector<int> plain(n, 0);
    std::atomic<int> bad{0}, shared{0};
    std::vector<std::thread> ts;
    for (int u = 0; u < users; ++u)
      ts.emplace_back([&] {
        for (int k = 0; k < 20; ++k) {
          ScopedThreadToken token(&provider);
          const int t = token.token();
          if (t < 0 || t >= n) { bad.fetch_add(1, R); continue; }
          if (busy[t].exchange(1, R)) shared.fetch_add(1, R);
          plain[t]++;
          Jitter(level, k);
          busy[t].store(0, R);
        }
      });
    for (auto& t : ts) t.join();
    c.expect(bad.load(R) == 0, "tokens:range", "%d", bad.load(R));
    c.expect(shared.load(R) == 0, "tokens:shared", "a token was held twice, %d times", shared.load(R));
    c.expect(std::accumulate(plain.begin(), plain.end(), 0) == 20 * users || bad.load(R), "tokens:effects", "lost updates");
    std::set<int> all;
    for (int i = 0; i < n; ++i) all.insert(provider.Acquire());
    c.expect(static_cast<int>(all.size()) == n, "tokens:lost", "%zu of %d tokens left", all.size(), n);
    c.count("tokens", 20 * users);
  }
  c.sig(Fmt("%d %d", total, threads));
}

// ---- partitions, triangles ----

void Partition(Case& c) {
  Rng& r = c.rng;
  const int start = r.chance(0.5) ? 0 : r.range(1, 10), n = r.range(1, 24), end = start + n, max = r.range(1, r.chance(0.2) ? 40 : 10);
  std::vector<int> cum;
  int s = r.chance(0.3) ? r.range(0, 50) : 0;
  const int kind = r.range(0, 4);
  for (int i = 0; i < end + 3; ++i) cum.push_back(s += kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? (r.chance(0.6) ? 0 : r.range(0, 30)) : r.range(0, 12) * (kind == 4 && r.chance(0.1) ? 1000 : 1));
  if (start == 0) {  // the cost of the first element is the first cumulative cost
  }
  c.note("start %d n %d max %d kind %d", start, n, max, kind);
  const auto p = PartitionRangeForParallelFor(start, end, max, cum.data(), [](const int& x) { return x; });
  c.count("partitions");
  c.sig(Fmt("%d %d %d", n, max, kind));
  if (!c.expect(p.size() >= 2 && p.front() == start && p.back() == end, "partition:ends", "%zu boundaries", p.size())) return;
  c.expect(static_cast<int>(p.size()) - 1 <= max, "partition:too-many", "%zu, limit %d", p.size() - 1, max);
  const int offset = start ? cum[start - 1] : 0;
  auto Cost = [&](int a, int b) { return (b > start ? cum[b - 1] : offset) - (a > start ? cum[a - 1] : offset); };
  int worst = 0;
  for (size_t i = 0; i + 1 < p.size(); ++i) {
    if (!c.expect(p[i] < p[i + 1], "partition:order", "boundary %zu", i)) return;
    worst = std::max(worst, Cost(p[i], p[i + 1]));
  }
  // The smallest largest cost, by dynamic programming.
  std::vector<std::vector<int>> best(max + 1, std::vector<int>(n + 1, 1 << 30));
  best[0][0] = 0;
  for (int k = 1; k <= max; ++k)
    for (int j = 1; j <= n; ++j)
      for (int i = 0; i < j; ++i)
        best[k][j] = std::min(best[k][j], std::max(best[k - 1][i], Cost(start + i, start + j)));
  int opt = 1 << 30;
  for (int k = 1; k <= max; ++k) opt = std::min(opt, best[k][n]);
  c.expect(worst == opt, "partition:not-optimal", "largest cost %d, possible %d", worst, opt);
  // Pairs (i, j), i <= j < n, each once.
  const int m = r.range(1, 40);
  std::set<std::pair<int, int>> seen;
  for (int k = 0; k < m * (m + 1) / 2; ++k) {
    int i = -1, j = -1;
    LinearIndexToUpperTriangularIndex(k, m, &i, &j);
    if (!c.expect(0 <= i && i <= j && j < m, "triangle:range", "%d of %d gives (%d, %d)", k, m, i, j)) return;
    if (!c.expect(seen.insert({i, j}).second, "triangle:repeated", "%d of %d gives (%d, %d)", k, m, i, j)) return;
  }
  c.count("pairs", seen.size());
  // and the same where all of them are too many: stretches of consecutive ones, and random ones
  const int big = r.chance(0.3) ? r.range(41, 400) : r.range(400, 46340);
  const int64_t total = static_cast<int64_t>(big) * (big + 1) / 2;
  std::map<std::pair<int, int>, int> at;
  for (int stretch = 0; stretch < 6; ++stretch) {
    const int64_t from = stretch == 0 ? 0 : stretch == 1 ? std::max<int64_t>(0, total - 40) : static_cast<int64_t>(r.uni(0, 1) * (total - 1));
    for (int64_t k = from; k < std::min(total, from + 40); ++k) {
      int i = -1, j = -1;
      LinearIndexToUpperTriangularIndex(static_cast<int>(k), big, &i, &j);
      if (!c.expect(0 <= i && i <= j && j < big, "triangle:range", "%d of %d gives (%d, %d)", static_cast<int>(k), big, i, j)) return;
      const int before = at.emplace(std::make_pair(i, j), static_cast<int>(k)).first->second;
      if (!c.expect(before == k, "triangle:repeated", "%d and %d of %d give (%d, %d)", before, static_cast<int>(k), big, i, j)) return;
    }
  }
  c.count("far-pairs", at.size());
}

}  // namespace

VH_MAIN({"loops", Loops, 60}, {"pool", Pool, 60}, {"queue", Queue, 60}, {"block", Block, 20}, {"partition", Partition, 300})
