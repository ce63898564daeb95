// Names the instances of ref_count under contract (base/ref_count.h, runtime/expr.h, runtime/stmt.h). What destroys a node is a function with a contract.
#include "slinky/base/ref_count.h"
#include "slinky/runtime/expr.h"
#include "slinky/runtime/stmt.h"
#include <new>
using namespace slinky;
struct node;
extern "C" void node_destroy(node*);
struct node : public ref_counted<node> {
  static void destroy(node* n) { node_destroy(n); }
};
typedef ref_count<node> R;
#define P extern "C" __attribute__((used))
P void p_add_ref(const node* n) { n->add_ref(); }
P void p_release(const node* n) { n->release(); }
P void p_ctor(R* out, node* v) { new (out) R(v); }
P void p_copy(R* out, const R* o) { new (out) R(*o); }
P void p_move(R* out, R* o) { new (out) R(std::move(*o)); }
P void p_dtor(R* a) { a->~R(); }
P void p_assign_ptr(R* a, node* v) { *a = v; }
P void p_assign(R* a, const R* b) { *a = *b; }
P void p_move_assign(R* a, R* b) { *a = std::move(*b); }
P void p_convert(ref_count<const node>* out, const R* a) { new (out) ref_count<const node>(*a); }
P node* p_take(R* a) { return a->take(); }
P void p_assume(R* out, node* v) { new (out) R(R::assume(v)); }
P node* p_get(R* a) { return *a; }

typedef expr E;
P void e_copy(E* out, const E* o) { new (out) E(*o); }
P void e_move(E* out, E* o) { new (out) E(std::move(*o)); }
P void e_dtor(E* a) { a->~E(); }
P void e_assign(E* a, const E* b) { *a = *b; }
P void e_move_assign(E* a, E* b) { *a = std::move(*b); }
P void e_ctor(E* out, const base_expr_node* n) { new (out) E(n); }
typedef stmt S;
P void s_copy(S* out, const S* o) { new (out) S(*o); }
P void s_move(S* out, S* o) { new (out) S(std::move(*o)); }
P void s_dtor(S* a) { a->~S(); }
P void s_assign(S* a, const S* b) { *a = *b; }
P void s_move_assign(S* a, S* b) { *a = std::move(*b); }
P void s_ctor(S* out, const base_stmt_node* n) { new (out) S(n); }
P void e_destroy(base_expr_node* n) { base_expr_node::destroy(n); }
P void s_destroy(base_stmt_node* n) { base_stmt_node::destroy(n); }
P void n_copy(node* out, const node* o) { new (out) node(*o); }
P void n_move(node* out, node* o) { new (out) node(std::move(*o)); }
P void n_assign(node* a, const node* b) { *a = *b; }
P void n_move_assign(node* a, node* b) { *a = std::move(*b); }
