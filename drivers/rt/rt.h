// Random tests of the runtime against references that are independent of it. A case is "(KIND SEED INDEX)"; everything about it is
// generated from these, so a replay regenerates it. Reading or writing outside of an object is reported by the address sanitizer.
#pragma once
#include <sstream>
#include <string>

#include "drivers/exprtool.h"
#include "slinky/runtime/buffer.h"
#include "slinky/runtime/stmt.h"

namespace rt {
using namespace slinky;
using et::big;
using et::fits;
using et::ll;
using et::rng;

struct failure {
  std::string why;
};
struct discard {};

template <typename... T>
[[noreturn]] void fail(const T&... t) {
  std::ostringstream o;
  (o << ... << t);
  throw failure{o.str()};
}
template <typename... T>
void require(bool c, const T&... t) {
  if (!c) fail(t...);
}

// What the case is, for messages.
extern std::string describe;
extern long distinct;

typedef void (*kind_fn)(rng& r);
struct kind {
  const char* name;
  kind_fn fn;
};

void case_eval(rng& r);
void case_stmt(rng& r);
void case_view(rng& r);
void case_alloc(rng& r);
void case_valid(rng& r);
void case_copy(rng& r);
void case_each(rng& r);
void case_ref(rng& r);
void case_symmap(rng& r);
void case_deshadow(rng& r);
void case_learn(rng& r);
void case_task(rng& r);

inline std::string dim_s(const dim& d) {
  std::ostringstream o;
  o << "[" << d.min() << "," << d.max() << "] stride " << d.stride() << " fold " << d.fold_factor();
  return o.str();
}
inline std::string buf_s(const raw_buffer& b) {
  std::ostringstream o;
  o << "rank " << b.rank << " elem_size " << b.elem_size << " {";
  for (std::size_t i = 0; i < b.rank; ++i) o << (i ? "; " : "") << dim_s(b.dims[i]);
  o << "}";
  return o.str();
}
}  // namespace rt
