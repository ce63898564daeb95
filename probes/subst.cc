// Uses the rewriter's constructors of binary operations, so that they are compiled.
#include "slinky/builder/rewrite.h"

using namespace slinky;
using namespace slinky::rewrite;

#define P(T) \
  expr p_##T(expr a, expr b, bool& o) { return substitute_binary(std::move(a), std::move(b), o, slinky::T()); }
P(add)
P(sub)
P(mul)
P(div)
P(mod)
P(logical_and)
P(logical_or)
