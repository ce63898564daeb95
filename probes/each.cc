// The callbacks of for_each_contiguous_slice and for_each_element (runtime/buffer.h), with functions of the user.
#include "slinky/runtime/buffer.h"
using namespace slinky;
extern "C" {
void user_e1(void*);
void user_e2(void*, void*);
void user_e3(void*, void*, void*);
void user_s1(index_t, void*);
void user_s2(index_t, void*, void*);
void user_s3(index_t, void*, void*, void*);
}
using B = raw_buffer;
extern "C" {
void p_e1(const B* a) { for_each_element([](void* x) { user_e1(x); }, *a); }
void p_e2(const B* a, const B* b) { for_each_element([](void* x, void* y) { user_e2(x, y); }, *a, *b); }
void p_e3(const B* a, const B* b, const B* c) { for_each_element([](void* x, void* y, void* z) { user_e3(x, y, z); }, *a, *b, *c); }
void p_s1(const B* a) { for_each_contiguous_slice(*a, [](index_t n, void* x) { user_s1(n, x); }); }
void p_s2(const B* a, const B* b) { for_each_contiguous_slice(*a, [](index_t n, void* x, void* y) { user_s2(n, x, y); }, *b); }
void p_s3(const B* a, const B* b, const B* c) { for_each_contiguous_slice(*a, [](index_t n, void* x, void* y, void* z) { user_s3(n, x, y, z); }, *b, *c); }
}
