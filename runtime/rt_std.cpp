// Bitcode-only: the out-of-line parts of libstdc++ that VRS uses, so that the solver executes them as code.
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <mutex>
#include <new>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unordered_map>
#include "../harness/vs.h"

template class std::basic_string<char>;

// ---------------------------------------------------------------- exceptions
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
static char* vsDup(const char* s) { size_t n = strlen(s); char* p = (char*)malloc(n + 1); memcpy(p, s, n + 1); return p; }
#define VS_EXC(T, B) \
  T::T(const string& s) : B(s) {} \
  T::T(const char* s) : B(s) {} \
  T::~T() noexcept {}
__cow_string::__cow_string() : _M_p(vsDup("")) {}
__cow_string::__cow_string(const std::string& s) : _M_p(vsDup(s.c_str())) {}
__cow_string::__cow_string(const char* s, size_t) : _M_p(vsDup(s)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(vsDup(o._M_p)) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = vsDup(o._M_p); return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(vsDup(o._M_p)) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = vsDup(o._M_p); return *this; }
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, 0) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, 0) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
VS_EXC(out_of_range, logic_error)
VS_EXC(invalid_argument, logic_error)
VS_EXC(length_error, logic_error)
VS_EXC(domain_error, logic_error)
VS_EXC(range_error, runtime_error)
VS_EXC(overflow_error, runtime_error)
VS_EXC(underflow_error, runtime_error)
thread::_State::~_State() {}
}
extern "C" {
void vsrt_throw_bad_alloc() { throw std::bad_alloc(); }
void vsrt_throw_length_error() { throw std::length_error("length_error"); }
void vsrt_throw_logic_error() { throw std::logic_error("logic_error"); }
void vsrt_throw_out_of_range() { throw std::out_of_range("out_of_range"); }
void vsrt_throw_invalid_argument() { throw std::invalid_argument("invalid_argument"); }
void vsrt_throw_bad_function_call() { throw std::bad_function_call(); }
void vsrt_throw_bad_cast() { throw std::bad_cast(); }
void vsrt_throw_system_error() { throw std::runtime_error("system_error"); }
__attribute__((used)) void* vsrt_keep[] = {
    (void*)vsrt_throw_bad_alloc, (void*)vsrt_throw_length_error, (void*)vsrt_throw_logic_error, (void*)vsrt_throw_out_of_range,
    (void*)vsrt_throw_invalid_argument, (void*)vsrt_throw_bad_function_call, (void*)vsrt_throw_bad_cast, (void*)vsrt_throw_system_error};
}
// ---------------------------------------------------------------- containers
namespace std {
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) noexcept {
  if (x->_M_right != nullptr) { x = x->_M_right; while (x->_M_left != nullptr) x = x->_M_left; }
  else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left != nullptr) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right != nullptr) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return dec(const_cast<_Rb_tree_node_base*>(x)); }
// Ordered but not rebalanced: same contents and iteration order as the balanced tree (its shape is not observable).
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
  h._M_color = _S_red; h._M_parent->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
  _Rb_tree_node_base*& root = h._M_parent;
  _Rb_tree_node_base*& leftmost = h._M_left;
  _Rb_tree_node_base*& rightmost = h._M_right;
  _Rb_tree_node_base* y = z;
  _Rb_tree_node_base* x = nullptr;
  if (y->_M_left == nullptr) x = y->_M_right;
  else if (y->_M_right == nullptr) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left != nullptr) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
    }
    if (root == z) root = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    y->_M_color = _S_red;
    y = z;
  } else {
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
    else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (z->_M_right == nullptr) leftmost = z->_M_parent; else { _Rb_tree_node_base* t = x; while (t->_M_left) t = t->_M_left; leftmost = t; } }
    if (rightmost == z) { if (z->_M_left == nullptr) rightmost = z->_M_parent; else { _Rb_tree_node_base* t = x; while (t->_M_right) t = t->_M_right; rightmost = t; } }
  }
  h._M_color = _S_red; if (root) root->_M_color = _S_black;
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base* const t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
  }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
static const size_t kPrimes[] = {2, 5, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (size_t p : kPrimes) if (p >= n) { _M_next_resize = p; return p; } _M_next_resize = n; return n; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nBkt, size_t nElt, size_t nIns) const {
  if (nElt + nIns > _M_next_resize) {
    size_t need = nElt + nIns; if (!_M_next_resize && need < 11) need = 11;
    if (need >= nBkt) { size_t g = need + 1 > nBkt * 2 ? need + 1 : nBkt * 2; return {true, _M_next_bkt(g)}; }
    _M_next_resize = nBkt; return {false, 0};
  }
  return {false, 0};
}
}
size_t _Hash_bytes(const void*, size_t len, size_t) { return len; } // any function of the bytes is a hash
_V2::error_category::~error_category() noexcept {}
}
// ---------------------------------------------------------------- threads, clocks
namespace std {
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
}
extern "C" uint64_t vs_clock_ns();
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((int64_t)vs_clock_ns())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration((int64_t)vs_clock_ns())); }
} } }
namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { static unsigned k = 77; return k++; }
}
extern "C" char __libc_single_threaded = 0;
