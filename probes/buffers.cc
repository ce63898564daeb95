// Names the instances of the inline functions of buffer.h under contract. The verified text is the code of /repo they name.
#include "slinky/runtime/buffer.h"

using namespace slinky;
typedef slinky::dim D;
typedef raw_buffer B;

#define P extern "C" __attribute__((used))

// dim
P bool p_dim_contains(const D* d, index_t x) { return d->contains(x); }
P bool p_dim_contains2(const D* d, index_t a, index_t b) { return d->contains(a, b); }
P bool p_dim_contains_dim(const D* d, const D* o) { return d->contains(*o); }
P index_t p_dim_offset(const D* d, index_t x) { return d->flat_offset_bytes(x); }
P bool p_dim_is_folded(const D* d, index_t a, index_t b) { return d->is_folded(a, b); }
P bool p_dim_is_folded0(const D* d) { return d->is_folded(); }
P bool p_dim_empty(const D* d) { return d->empty(); }
P index_t p_dim_extent(const D* d) { return d->extent(); }
P bool p_dim_is_broadcast(const D* d) { return d->is_broadcast(); }
P bool p_dim_is_point(const D* d) { return d->is_point(); }
P bool p_dim_is_point_at(const D* d, index_t x) { return d->is_point(x); }
P void p_dim_translate(D* d, index_t x) { d->translate(x); }
P void p_dim_set_bounds(D* d, index_t a, index_t b) { d->set_bounds(a, b); }
P void p_dim_set_range(D* d, index_t a, index_t b) { d->set_range(a, b); }
P void p_dim_set_min_extent(D* d, index_t a, index_t b) { d->set_min_extent(a, b); }
P void p_dim_set_extent(D* d, index_t a) { d->set_extent(a); }
P void p_dim_set_point(D* d, index_t a) { d->set_point(a); }
P bool p_dim_eq(const D* a, const D* b) { return *a == *b; }
P bool p_dim_ne(const D* a, const D* b) { return *a != *b; }

// addressing
P void p_dim_of(const B* b, std::size_t i, D* out) { *out = b->dim(i); }
P void* p_at1(const B* b, index_t x) { return b->address_at(x); }
P void* p_at2(const B* b, index_t x, index_t y) { return b->address_at(x, y); }
P void* p_at3(const B* b, index_t x, index_t y, index_t z) { return b->address_at(x, y, z); }
P void* p_at_s1(const B* b, index_t y) { return b->address_at(slinky::slice, y); }
P void* p_at_1s(const B* b, index_t x) { return b->address_at(x, slinky::slice); }
P void* p_at_span(const B* b, const index_t* x, std::size_t n) { return b->address_at(span<const index_t>(x, n)); }
P bool p_contains1(const B* b, index_t x) { return b->contains(x); }
P bool p_contains2(const B* b, index_t x, index_t y) { return b->contains(x, y); }
P bool p_contains3(const B* b, index_t x, index_t y, index_t z) { return b->contains(x, y, z); }
P bool p_contains_span(const B* b, const index_t* x, std::size_t n) { return b->contains(span<const index_t>(x, n)); }

// views
P void p_crop(B* b, std::size_t d, index_t mn, index_t mx) { b->crop(d, mn, mx); }
P void p_slice(B* b, std::size_t d) { b->slice(d); }
P void p_slice_at(B* b, std::size_t d, index_t at) { b->slice(d, at); }
P void p_slice_in(B* b, std::size_t d, index_t at) { b->slice(d, in_bounds{at}); }
P void p_slice_span(B* b, const std::size_t* ds, std::size_t n) { b->slice(span<const std::size_t>(ds, n)); }
P void p_translate1(B* b, index_t x) { b->translate(x); }
P void p_translate2(B* b, index_t x, index_t y) { b->translate(x, y); }
P void p_translate_span(B* b, const index_t* x, std::size_t n) { b->translate(span<const index_t>(x, n)); }

// fusing
P bool p_can_fuse(const D* i, const D* o) { return can_fuse(*i, *o); }
P bool p_fuse(const D* i, const D* o, D* out) {
  if (!can_fuse(*i, *o)) return false;
  *out = fuse(*i, *o);
  return true;
}
P bool p_fuse_remove(index_t i, index_t o, B* b) {
  if (!can_fuse(b->dim(i), b->dim(o))) return false;
  fuse<fuse_type::remove>(i, o, *b);
  return true;
}
P bool p_fuse_keep(index_t i, index_t o, B* b) {
  if (!can_fuse(b->dim(i), b->dim(o))) return false;
  fuse<fuse_type::keep>(i, o, *b);
  return true;
}
P bool p_fuse_undef(index_t i, index_t o, B* b) {
  if (!can_fuse(b->dim(i), b->dim(o))) return false;
  fuse<fuse_type::undef>(i, o, *b);
  return true;
}
P bool p_same_bounds(const D* a, const D* b) { return slinky::internal::same_bounds(*a, *b); }
P void p_swap_dims(std::size_t i, std::size_t j, B* b) { slinky::internal::swap_dims(i, j, *b); }
