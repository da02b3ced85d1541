// Out-of-line parts of libstdc++ for the symbolic build.
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <string>
#include <cstring>
#include <functional>
#include <map>
#include <list>
#include <unordered_map>
#include <chrono>
#include <iostream>
#include <vector>
#include "sx.h"
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "bad_exception"; }
__cow_string::__cow_string() { _M_p = ""; }
__cow_string::__cow_string(const std::string& s) { _M_p = strdup(s.c_str()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = strndup(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
#define DEFEXC(T, B) \
    T::T(const string& s) : B(s) {} \
    T::T(const char* s) : B(s) {} \
    T::~T() noexcept {}
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
DEFEXC(domain_error, logic_error)
DEFEXC(invalid_argument, logic_error)
DEFEXC(length_error, logic_error)
DEFEXC(out_of_range, logic_error)
DEFEXC(range_error, runtime_error)
DEFEXC(overflow_error, runtime_error)
DEFEXC(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
// Binary search tree without rebalancing: same iteration order, same interface.
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base*& root = h._M_parent;
    _Rb_tree_node_base* nxt = _Rb_tree_increment(z);
    _Rb_tree_node_base* prv = z == h._M_left ? nullptr : _Rb_tree_decrement(z);
    if (h._M_left == z) h._M_left = nxt;
    if (h._M_right == z) h._M_right = prv ? prv : &h;
    auto replace = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) {
        if (root == a) root = b;
        else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
        else a->_M_parent->_M_right = b;
        if (b) b->_M_parent = a->_M_parent;
    };
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else {
        _Rb_tree_node_base* y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        replace(z, y);
        y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    if (!root) { h._M_left = &h; h._M_right = &h; }
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
    if (this != last) {
        last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
        _List_node_base* const t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
    }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
// one bucket, never rehash: any hash function and bucket count is allowed by the standard
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { return 1; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t a, std::size_t b, std::size_t c) const { return std::make_pair(false, (std::size_t)0); }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { return 7; }
}
extern const std::nothrow_t std::nothrow{};
template class std::basic_string<char>;

// a clock that never moves: times are not part of any property
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(1000000000)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(1000000000)); }
} } }

// the standard streams swallow what is written; named files live in a table ("/dev/full" refuses every byte)
namespace {
struct VfNull : std::basic_streambuf<char, std::char_traits<char>> { protected: std::streamsize put(const char*, std::streamsize n) { return n; } };
VfNull vf_null;
struct VfFile { std::string path, data; VfFile* next; };
VfFile* vf_files;
}
namespace std {
basic_ostream<char, char_traits<char>> cout(&vf_null), cerr(&vf_null), clog(&vf_null);
basic_istream<char, char_traits<char>> cin(&vf_null);
}
static VfFile* vf_file(const char* p) { for (VfFile* f = vf_files; f; f = f->next) if (f->path == p) return f; return nullptr; }
extern "C" int vf_stream_read(const char* path, std::string* out) { VfFile* f = vf_file(path); if (!f) return 0; *out = f->data; return 1; }
extern "C" int vf_stream_write(const char* path, const char* p, size_t n, int first) {
    if (!strcmp(path, "/dev/full")) return n == 0;
    if (!strncmp(path, "/nonexistent/", 13)) return 0;
    VfFile* f = vf_file(path);
    if (!f) { f = new VfFile; f->path = path; f->next = vf_files; vf_files = f; }
    if (first) f->data.clear();
    f->data.append(p, n);
    return 1;
}
