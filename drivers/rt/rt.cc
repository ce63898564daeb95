#include "drivers/rt/rt.h"

#include <csignal>
#include <fstream>
#include <unistd.h>

namespace rt {
std::string describe;
long distinct = 0;

static const kind kinds[] = {
    {"rteval", case_eval},
    {"stmt", case_stmt},
    {"each", case_each},
    {"copy", case_copy},
    {"valid", case_valid},
    {"alloc", case_alloc},
    {"view", case_view},
    {"ref", case_ref},
    {"symmap", case_symmap},
    {"deshadow", case_deshadow},
    {"learn", case_learn},
    {"task", case_task},
};

static char current[256];

// Returns false if it failed.
bool run_one(const std::string& k, uint64_t seed, uint64_t index, std::string& why, bool& dropped) {
  snprintf(current, sizeof(current), "(%s %llu %llu)", k.c_str(), (unsigned long long)seed, (unsigned long long)index);
  describe.clear();
  dropped = false;
  alarm(20);
  rng r(seed * 1000003ull + index * 7919ull + 17);
  for (const kind& i : kinds) {
    if (k != i.name) continue;
    try {
      i.fn(r);
    } catch (failure& f) {
      why = f.why;
      alarm(0);
      return false;
    } catch (discard&) {
      dropped = true;
    }
    alarm(0);
    return true;
  }
  std::cerr << "unknown kind " << k << "\n";
  exit(3);
}

static void say_crash(const char* what) {
  char b[512];
  int n = snprintf(b, sizeof(b), "\nCRASH case: %s\nCRASH why: %s\n", current, what);
  if (write(1, b, n) < 0) {
  }
}
static void crash(int s) {
  say_crash(s == SIGALRM ? "no result within 20 seconds" : s == SIGABRT ? "abort" : "crash");
  _exit(4);
}
}  // namespace rt

extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:exitcode=5:handle_abort=0"; }

int main(int argc, char** argv) {
  using namespace rt;
  if (__asan_set_death_callback) __asan_set_death_callback([]() { say_crash("address sanitizer error"); });
  signal(SIGABRT, crash);
  signal(SIGALRM, crash);
  signal(SIGFPE, crash);
  std::string mode = argc > 1 ? argv[1] : "";
  std::string why;
  bool dropped;
  std::cout << std::unitbuf;
  if (mode == "replay") {
    std::ifstream in(argv[2]);
    std::string line;
    while (std::getline(in, line)) {
      if (line.empty() || line[0] != '(') continue;
      char k[32];
      unsigned long long s, i;
      if (sscanf(line.c_str(), "(%31s %llu %llu)", k, &s, &i) != 3) return 3;
      if (!run_one(k, s, i, why, dropped)) {
        std::cout << "FAIL case: " << line << "\nFAIL why: " << why << "\n" << describe << "\n";
        return 1;
      }
      std::cout << "held\n" << (argc > 3 ? describe : "") << "\n";
    }
    return 0;
  }
  if (mode == "run") {
    uint64_t seed = strtoull(argv[3], nullptr, 10);
    long n = atol(argv[4]), ok = 0;
    int rc = 0;
    std::set<std::size_t> seen;
    for (long i = 0; i < n; ++i) {
      if (!run_one(argv[2], seed, i, why, dropped)) {
        std::cout << "FAIL case: (" << argv[2] << " " << seed << " " << i << ")\nFAIL why: " << why << "\n" << describe << "\n";
        rc = 1;
        break;
      }
      ok += !dropped;
      if (!dropped) seen.insert(std::hash<std::string>()(describe));
      if (i == n / 2) std::cout << "SAMPLE " << describe.substr(0, 300) << "\n";
    }
    std::cout << "STATS cases " << n << " effective " << ok << " distinct " << seen.size() << "\n";
    return rc;
  }
  return 3;
}
