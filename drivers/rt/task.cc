// Parallel loops (C15): several threads run loops, some of them nested, on one pool, wait for tasks of each other and for conditions. Every
// iteration has to be called once, and has to have returned when the loop returns. A wait that does not end is reported after a time.
#include <atomic>
#include <chrono>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

#include "drivers/rt/rt.h"
#include "slinky/base/thread_pool_impl.h"

namespace rt {
namespace {
constexpr int unlimited = std::numeric_limits<int>::max();

struct failed {
  std::mutex m;
  std::string why;
  void operator()(const std::string& w) {
    std::lock_guard<std::mutex> l(m);
    if (why.empty()) why = w;
  }
};

struct loop {
  std::size_t n;
  int max_workers;
  std::unique_ptr<std::atomic<int>[]> calls;
  std::atomic<int> running{0}, most{0};
  std::atomic<int> outside{0};

  loop(std::size_t n, int w) : n(n), max_workers(w), calls(new std::atomic<int>[n + 1]) {
    for (std::size_t i = 0; i <= n; ++i) calls[i] = 0;
  }
  void begin(std::size_t i) {
    int r = ++running;
    int m = most;
    while (m < r && !most.compare_exchange_weak(m, r)) {
    }
    if (i >= n) {
      outside++;
    } else {
      calls[i]++;
    }
  }
  void end() { --running; }
  void check(failed& f, const char* what) {
    std::ostringstream o;
    if (running != 0) {
      o << what << ": " << running << " calls have not returned";
    } else if (outside) {
      o << what << ": the body was called for an iteration that there is not";
    } else if (most > max_workers) {
      o << what << ": " << most << " workers, at most " << max_workers;
    } else {
      for (std::size_t i = 0; i < n; ++i) {
        if (calls[i] != 1) {
          o << what << ": iteration " << i << " of " << n << " was called " << calls[i] << " times";
          break;
        }
      }
    }
    if (!o.str().empty()) f(o.str());
  }
};

std::size_t size(rng& r) { return r.p(10) ? r.in(0, 2) : r.p(70) ? r.in(0, 40) : r.in(0, 600); }
int workers(rng& r) { return r.p(50) ? unlimited : r.in(1, 6); }

void busy(unsigned k) {
  volatile unsigned x = 0;
  for (unsigned i = 0; i < k; ++i) x += i;
  if (k % 7 == 0) std::this_thread::yield();
}

void run_loop(thread_pool& p, rng& r, failed& f, int depth) {
  std::size_t n = depth ? r.in(0, 12) : size(r);
  int w = workers(r);
  loop l(n, w);
  unsigned work = r.below(300);
  std::size_t nest = depth < 2 && r.p(30) ? r.below(n + 1) : n + 1;
  uint64_t seed = r.below(1 << 30);
  p.parallel_for(
      n,
      [&, work](std::size_t i) {
        l.begin(i);
        busy(work * (i % 5));
        if (i == nest) {
          rng inner(seed + i);
          run_loop(p, inner, f, depth + 1);
        }
        l.end();
      },
      w);
  l.check(f, "parallel_for");
}

void run_task(thread_pool& p, rng& r, failed& f) {
  std::size_t n = std::max<std::size_t>(1, size(r));
  int w = workers(r);
  auto l = std::make_shared<loop>(n, w);
  unsigned work = r.below(300);
  auto t = p.enqueue(
      n,
      [l, work](std::size_t i) {
        l->begin(i);
        busy(work * (i % 3));
        l->end();
      },
      w);
  if (r.p(40)) busy(r.below(2000));
  if (r.p(50)) {
    p.wait_for(&*t);
  } else {
    p.wait_for([&]() { return t->done(); });
  }
  l->check(f, "a task");
}

// A thread waits for a task that another thread that waits for it completes.
void run_both(thread_pool& p, rng& r, failed& f) {
  std::atomic<bool> begun{false};
  auto l = std::make_shared<loop>(1, unlimited);
  unsigned ms = r.in(5, 20);
  auto t = p.enqueue(1, [&begun, l, ms](std::size_t i) {
    l->begin(i);
    begun = true;
    std::this_thread::sleep_for(std::chrono::milliseconds(ms));
    l->end();
  });
  std::thread other([&]() {
    while (!begun) std::this_thread::yield();
    p.wait_for(&*t);
    l->check(f, "a task of another thread");
  });
  p.wait_for(&*t);
  l->check(f, "a task");
  other.join();
}

void run_condition(thread_pool& p, rng& r, failed& f) {
  int value = 0;
  int k = r.in(1, 4);
  auto t = p.enqueue(k, [&](std::size_t) {
    busy(100);
    p.atomic_call([&]() { ++value; });
  });
  p.wait_for([&]() { return value == k; });
  if (value != k) f("a wait for a condition ended before it was true");
  p.wait_for(&*t);
}

void client(thread_pool& p, uint64_t seed, failed& f) {
  rng r(seed);
  int k = r.in(1, 5);
  for (int i = 0; i < k; ++i) {
    int o = r.below(100);
    if (o < 60) {
      run_loop(p, r, f, 0);
    } else if (o < 85) {
      run_task(p, r, f);
    } else if (o < 97) {
      run_condition(p, r, f);
    } else {
      run_both(p, r, f);
    }
  }
}
}  // namespace

void case_task(rng& r) {
  int w = r.p(30) ? 0 : r.in(1, 4);
  int entered = r.p(20) ? r.in(1, 2) : 0;
  int clients = r.in(1, 3);
  std::vector<uint64_t> seeds;
  for (int i = 0; i < clients; ++i) seeds.push_back(r.below(1 << 30));
  std::ostringstream o;
  o << w << " workers, " << entered << " entered, " << clients << " clients";
  for (uint64_t s : seeds) o << " " << s;
  describe = o.str();
  failed f;
  {
    thread_pool_impl p(w);
    std::vector<std::thread> inside, threads;
    bool stop = false;
    for (int i = 0; i < entered; ++i) inside.emplace_back([&]() { p.run_worker([&]() { return stop; }); });
    for (uint64_t s : seeds) threads.emplace_back([&, s]() { client(p, s, f); });
    for (std::thread& t : threads) t.join();
    p.atomic_call([&]() { stop = true; });
    for (std::thread& t : inside) t.join();
    if (r.p(20)) {
      // what is left in the queue is done by whoever comes by
      auto l = std::make_shared<loop>(3, unlimited);
      auto t = p.enqueue(3, [l](std::size_t i) {
        l->begin(i);
        l->end();
      });
      while (!t->done()) p.work_until_idle();
      l->check(f, "a task that is left");
    }
  }
  if (!f.why.empty()) fail(f.why);
}
}  // namespace rt
