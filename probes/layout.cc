// Prints the layout of the expression nodes and the values of the enumerators, from the real headers.
#include <cstddef>
#include <cstdio>
#include <cstring>

#include "slinky/base/thread_pool.h"
#include "slinky/builder/rewrite.h"
#include "slinky/runtime/evaluate.h"
#include "slinky/runtime/expr.h"
#include "slinky/runtime/stmt.h"
using namespace slinky;
#define OFF(T, f) printf("%s.%s %zu\n", #T, #f, offsetof(class T, f));
#define TYPE(T) printf("type.%s %d\n", #T, (int)expr_node_type::T);
#define INTR(T) printf("intrinsic.%s %d\n", #T, (int)intrinsic::T);
#define FLD(T) printf("field.%s %d\n", #T, (int)buffer_field::T);
#define BIN(X) X(add) X(sub) X(mul) X(div) X(mod) X(min) X(max) X(equal) X(not_equal) X(less) X(less_equal) X(logical_and) X(logical_or)
#define COMM(T) printf("commutative.%s %d\n", #T, (int)T::commutative);
#define BOFF(T) OFF(T, type); OFF(T, a); OFF(T, b);
int main() {
  BIN(TYPE)
  TYPE(none); TYPE(variable); TYPE(let); TYPE(logical_not); TYPE(select); TYPE(call); TYPE(constant);
  BIN(BOFF)
  BIN(COMM)
  OFF(variable, type); OFF(variable, sym); OFF(variable, field); OFF(variable, dim);
  OFF(constant, type); OFF(constant, value);
  OFF(logical_not, type); OFF(logical_not, a);
  OFF(select, type); OFF(select, condition); OFF(select, true_value); OFF(select, false_value);
  OFF(let, type); OFF(let, lets); OFF(let, body);
  OFF(call, type); OFF(call, intrinsic); OFF(call, target); OFF(call, args);
  INTR(none); INTR(negative_infinity); INTR(positive_infinity); INTR(indeterminate); INTR(abs); INTR(and_then); INTR(or_else);
  INTR(buffer_at); INTR(semaphore_init); INTR(semaphore_signal); INTR(semaphore_wait); INTR(wait_for); INTR(trace_begin); INTR(trace_end);
  INTR(free); INTR(validate_buffer);
  FLD(none); FLD(rank); FLD(elem_size); FLD(size_bytes); FLD(min); FLD(max); FLD(stride); FLD(fold_factor);
#define STY(T) printf("stmt.%s %d\n", #T, (int)stmt_node_type::T); OFF(T, type);
  STY(call_stmt); STY(copy_stmt); STY(let_stmt); STY(block); STY(loop); STY(async); STY(allocate); STY(make_buffer); STY(constant_buffer);
  STY(clone_buffer); STY(crop_buffer); STY(crop_dim); STY(slice_buffer); STY(slice_dim); STY(transpose); STY(check);
  OFF(call_stmt, target); OFF(let_stmt, lets); OFF(let_stmt, body); OFF(let_stmt, is_closure); OFF(block, stmts);
  OFF(loop, sym); OFF(loop, max_workers); OFF(loop, bounds); OFF(loop, step); OFF(loop, body);
  OFF(async, sym); OFF(async, task); OFF(async, body);
  OFF(allocate, sym); OFF(allocate, storage); OFF(allocate, elem_size); OFF(allocate, dims); OFF(allocate, body);
  OFF(make_buffer, sym); OFF(make_buffer, base); OFF(make_buffer, elem_size); OFF(make_buffer, dims); OFF(make_buffer, body);
  OFF(constant_buffer, sym); OFF(constant_buffer, value); OFF(constant_buffer, body);
  OFF(clone_buffer, sym); OFF(clone_buffer, src); OFF(clone_buffer, body);
  OFF(crop_buffer, sym); OFF(crop_buffer, src); OFF(crop_buffer, bounds); OFF(crop_buffer, body);
  OFF(crop_dim, sym); OFF(crop_dim, src); OFF(crop_dim, dim); OFF(crop_dim, bounds); OFF(crop_dim, body);
  OFF(slice_buffer, sym); OFF(slice_buffer, src); OFF(slice_buffer, at); OFF(slice_buffer, body);
  OFF(slice_dim, sym); OFF(slice_dim, src); OFF(slice_dim, dim); OFF(slice_dim, at); OFF(slice_dim, body);
  OFF(transpose, sym); OFF(transpose, src); OFF(transpose, dims); OFF(transpose, body);
  OFF(check, condition);
  printf("memory.stack %d\nmemory.heap %d\nmemory.automatic %d\n", (int)memory_type::stack, (int)memory_type::heap, (int)memory_type::automatic);
#define CFG(f) printf("config.%s %zu\n", #f, offsetof(eval_config, f));
  CFG(allocate); CFG(free); CFG(check_failed); CFG(call_failed); CFG(thread_pool); CFG(trace_begin); CFG(trace_end); CFG(base_alignment);
  CFG(stride_alignment); CFG(auto_stack_threshold);
  printf("sizeof.dim_expr %zu\ndim_expr.bounds %zu\ndim_expr.stride %zu\ndim_expr.fold_factor %zu\n", sizeof(dim_expr), offsetof(dim_expr, bounds), offsetof(dim_expr, stride), offsetof(dim_expr, fold_factor));
  printf("sizeof.interval_expr %zu\n", sizeof(interval_expr));
  printf("match_context.vars %zu\nmatch_context.constants %zu\n", offsetof(rewrite::match_context, vars), offsetof(rewrite::match_context, constants));
  // The place of a virtual function in the table (pointers to members, Itanium ABI).
  void (thread_pool::*wait)(thread_pool::task*) = &thread_pool::wait_for;
  std::size_t place;
  memcpy(&place, &wait, sizeof(place));
  printf("thread_pool.wait_for_task %zu\n", place - 1);
  return 0;
}
