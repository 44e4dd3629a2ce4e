// Runtime support linked into every symbolic run: out-of-line libstdc++ pieces
// (std::string instantiation, tree/list/hash helpers, exception classes).
#include <string>
#include <list>
#include <map>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <exception>
#include <functional>
#include <unordered_map>
#include <vector>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdio>
template class std::basic_string<char>;
template std::string std::operator+ <char, std::char_traits<char>, std::allocator<char>>(const char *, const std::string &);
namespace std {
// ---- red-black tree base: plain (unbalanced) BST with libstdc++'s header conventions
typedef _Rb_tree_node_base N;
static N *inc(N *x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } N *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
static N *dec(N *x) {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { N *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } N *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
N *_Rb_tree_increment(N *x) throw() { return inc(x); }
const N *_Rb_tree_increment(const N *x) throw() { return inc(const_cast<N *>(x)); }
N *_Rb_tree_decrement(N *x) throw() { return dec(x); }
const N *_Rb_tree_decrement(const N *x) throw() { return dec(const_cast<N *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, N *x, N *p, N &h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  h._M_color = _S_red;
}
N *_Rb_tree_rebalance_for_erase(N *const z, N &h) throw() {
  N *&root = h._M_parent; N *nl = 0, *nr = 0;
  if (h._M_left == z) nl = inc(z); if (h._M_right == z) nr = (z == h._M_left && z->_M_left == 0 && z->_M_right == 0 && z == root) ? &h : dec(z);
  auto repl = [&](N *u, N *v) { if (u == root) root = v; else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v; if (v) v->_M_parent = u->_M_parent; };
  if (!z->_M_left) repl(z, z->_M_right); else if (!z->_M_right) repl(z, z->_M_left);
  else { N *y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  if (!root) { h._M_left = &h; h._M_right = &h; } else { if (nl) h._M_left = nl; if (nr) h._M_right = nr; }
  return z;
}
unsigned int _Rb_tree_black_count(const N *, const N *) throw() { return 0; }
// ---- list
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base *t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t p[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557}; for (size_t x : p) if (x >= n) { _M_next_resize = (size_t)(x * (double)_M_max_load_factor); return x; } return n | 1; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize) { size_t want = ne + ni; if (want < 11) want = 11; if (want >= nb) { size_t g = nb * 2; return {true, _M_next_bkt(want > g ? want : g)}; } _M_next_resize = nb; } return {false, 0}; }
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *b = (const unsigned char *)p; size_t h = seed ^ 14695981039346656037ull; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull; return h; }
size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
// ---- throw helpers
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
// ---- exception classes
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
type_info::~type_info() {}
__cow_string::__cow_string() { _M_p = 0; }
__cow_string::__cow_string(const std::string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); _M_p = p; }
__cow_string::__cow_string(const char *s, size_t n) { char *p = (char *)malloc(n + 1); memcpy(p, s, n); p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = o._M_p ? strdup(o._M_p) : 0; }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { char *p = o._M_p ? strdup(o._M_p) : 0; free((void *)_M_p); _M_p = p; return *this; }
__cow_string::~__cow_string() { free((void *)_M_p); }
logic_error::logic_error(const std::string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const std::string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define LE(X) X::X(const std::string &s) : logic_error(s) {} X::X(const char *s) : logic_error(s) {} X::~X() noexcept {}
#define RE(X) X::X(const std::string &s) : runtime_error(s) {} X::X(const char *s) : runtime_error(s) {} X::~X() noexcept {}
LE(domain_error) LE(invalid_argument) LE(length_error) LE(out_of_range)
RE(range_error) RE(overflow_error) RE(underflow_error)
}
// sorting helper (qsort is used via callback by some code)
extern "C" void qsort(void *b, size_t n, size_t w, int (*cmp)(const void *, const void *)) {
  char *p = (char *)b; char tmp[256]; if (w > 256) abort();
  for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(p + (j - 1) * w, p + j * w) > 0; j--) { memcpy(tmp, p + j * w, w); memcpy(p + j * w, p + (j - 1) * w, w); memcpy(p + (j - 1) * w, tmp, w); }
}
// complex arithmetic helpers (compiler-rt semantics without the NaN recovery path)
typedef struct { double r, i; } CD;
extern "C" double _Complex __muldc3(double a, double b, double c, double d) { double _Complex z; __real__ z = a * c - b * d; __imag__ z = a * d + b * c; return z; }
extern "C" double _Complex __divdc3(double a, double b, double c, double d) { double den = c * c + d * d; double _Complex z; __real__ z = (a * c + b * d) / den; __imag__ z = (b * c - a * d) / den; return z; }
extern "C" float _Complex __mulsc3(float a, float b, float c, float d) { float _Complex z; __real__ z = a * c - b * d; __imag__ z = a * d + b * c; return z; }
extern "C" float _Complex __divsc3(float a, float b, float c, float d) { float den = c * c + d * d; float _Complex z; __real__ z = (a * c + b * d) / den; __imag__ z = (b * c - a * d) / den; return z; }
// signal sets (glibc layout: one bit per signal, 1024 bits)
#include <signal.h>
extern "C" {
int sigemptyset(sigset_t *s) noexcept { memset(s, 0, sizeof *s); return 0; }
int sigfillset(sigset_t *s) noexcept { memset(s, 0xff, sizeof *s); return 0; }
int sigaddset(sigset_t *s, int n) noexcept { if (n < 1 || n > 64) return -1; *(unsigned long *)s |= 1UL << (n - 1); return 0; }
int sigdelset(sigset_t *s, int n) noexcept { if (n < 1 || n > 64) return -1; *(unsigned long *)s &= ~(1UL << (n - 1)); return 0; }
int sigismember(const sigset_t *s, int n) noexcept { if (n < 1 || n > 64) return -1; return (*(const unsigned long *)s >> (n - 1)) & 1; }
}
