// Names the functions of symbol_map and its scopes (runtime/expr.h) under contract, for values that are integers.
#include <new>
#include "slinky/runtime/expr.h"
using namespace slinky;
typedef symbol_map<index_t> M;
typedef scoped_value_in_symbol_map<index_t> S;
typedef std::optional<index_t> O;
#define P extern "C" __attribute__((used))
P void m_lookup(O* out, const M* m, var v) { *out = m->lookup(v); }
P const index_t* m_lookup_or(const M* m, var v, const index_t* d) { return &m->lookup(v, *d); }
P void m_get(O* out, const M* m, var v) { *out = (*m)[v]; }
P O* m_ref(M* m, var v) { return &(*m)[v]; }
P bool m_contains(const M* m, var v) { return m->contains(v); }
P void m_erase(M* m, var v) { m->erase(v); }
P void m_reserve(M* m, std::size_t n) { m->reserve(n); }
P void m_new(M* out, std::size_t n) { new (out) M(n); }
P void s_enter(S* out, M* m, var v) { new (out) S(*m, v); }
P void s_enter_value(S* out, M* m, var v, index_t x) { new (out) S(*m, v, x); }
P void s_enter_optional(S* out, M* m, var v, const O* x) { new (out) S(*m, v, *x); }
P void s_set_value(S* out, M* m, var v, index_t x) { new (out) S(set_value_in_scope(*m, v, x)); }
P void s_set_optional(S* out, M* m, var v, const O* x) { new (out) S(set_value_in_scope(*m, v, *x)); }
P void s_set_none(S* out, M* m, var v) { new (out) S(set_value_in_scope(*m, v, std::nullopt)); }
P void s_move(S* out, S* o) { new (out) S(std::move(*o)); }
P void s_assign(S* a, S* b) { *a = std::move(*b); }
P void s_exit(S* a) { a->exit_scope(); }
P void s_dtor(S* a) { a->~S(); }
P void s_old(O* out, const S* a) { *out = a->old_value(); }
