// Runtime support compiled to IR and linked with the code under analysis: the pieces of libstdc++.so that the
// headers only declare.  Compiled with -fno-access-control.
#include <stdexcept>
#include <exception>
#include <new>
#include <typeinfo>
#include <string>
#include <cstring>
#include <cstdlib>
#include <functional>
#include <map>
#include <list>
#include <unordered_map>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <system_error>
#include <any>
#include <cerrno>
#include <variant>
#include <optional>
extern "C" {
uint64_t __sym_thread_create(void (*)(void*), void*); void __sym_thread_join(uint64_t); void __sym_cv_wait(void*, void*); void __sym_cv_notify_one(void*); void __sym_cv_notify_all(void*); void* __sym_current_exception(); void __sym_rethrow(void*);
}
namespace std {
    static const char* dup(const char* s) { size_t n = strlen(s); char* p = (char*)malloc(n + 1); memcpy(p, s, n + 1); return p; }
    static const char* dupn(const char* s, size_t n) { char* p = (char*)malloc(n + 1); if (n) memcpy(p, s, n); p[n] = 0; return p; }
    __cow_string::__cow_string() : _M_p(nullptr) {}
    __cow_string::__cow_string(const std::string& s) : _M_p(dupn(s.data(), s.size())) {}
    __cow_string::__cow_string(const char* s, size_t n) : _M_p(dupn(s, n)) {}
    __cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p ? dup(o._M_p) : nullptr) {}
    __cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { _M_p = o._M_p ? dup(o._M_p) : nullptr; } return *this; }
    __cow_string::~__cow_string() { free((void*)_M_p); }
    __cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = nullptr; }
    __cow_string& __cow_string::operator=(__cow_string&& o) noexcept { std::swap(_M_p, o._M_p); return *this; }
    exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
    bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
    bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
    bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
    bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
    bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
    bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
#define ERRB(T) T::T(const string& s) : _M_msg(s) {} T::T(const char* s) : _M_msg(s, strlen(s)) {} T::~T() noexcept {} const char* T::what() const noexcept { return _M_msg._M_p ? _M_msg._M_p : ""; } T::T(const T& o) noexcept : exception(o), _M_msg(o._M_msg) {} T& T::operator=(const T& o) noexcept { _M_msg = o._M_msg; return *this; } T::T(T&& o) noexcept : exception(o), _M_msg(o._M_msg) {} T& T::operator=(T&& o) noexcept { _M_msg = o._M_msg; return *this; }
    ERRB(logic_error) ERRB(runtime_error)
#define ERRD(T, B) T::T(const string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
    ERRD(domain_error, logic_error) ERRD(invalid_argument, logic_error) ERRD(length_error, logic_error) ERRD(out_of_range, logic_error) ERRD(range_error, runtime_error) ERRD(overflow_error, runtime_error) ERRD(underflow_error, runtime_error)
    void __throw_logic_error(const char* s) { throw logic_error(s); } void __throw_domain_error(const char* s) { throw domain_error(s); } void __throw_invalid_argument(const char* s) { throw invalid_argument(s); } void __throw_length_error(const char* s) { throw length_error(s); } void __throw_out_of_range(const char* s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); } void __throw_runtime_error(const char* s) { throw runtime_error(s); } void __throw_range_error(const char* s) { throw range_error(s); } void __throw_overflow_error(const char* s) { throw overflow_error(s); }
    void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_function_call() { throw bad_function_call(); } void __throw_system_error(int) { throw runtime_error("system_error"); }
    // ---- red-black tree
    static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
    static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
    _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return inc(x); } const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return inc(const_cast<_Rb_tree_node_base*>(x)); }
    _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return dec(x); } const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return dec(const_cast<_Rb_tree_node_base*>(x)); }
    static void rl(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) { _Rb_tree_node_base* const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
    static void rr(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) { _Rb_tree_node_base* const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
        _Rb_tree_node_base*& root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
        if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
        while (x != root && x->_M_parent->_M_color == _S_red) { _Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
            if (x->_M_parent == xpp->_M_left) { _Rb_tree_node_base* const y = xpp->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rr(xpp, root); } }
            else { _Rb_tree_node_base* const y = xpp->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rl(xpp, root); } } }
        root->_M_color = _S_black;
    }
    _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
        _Rb_tree_node_base *&root = h._M_parent, *&leftmost = h._M_left, *&rightmost = h._M_right, *y = z, *x = 0, *xp = 0;
        if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
        if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y; if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z; }
        else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x; if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { _Rb_tree_node_base* t = x; while (t->_M_left) t = t->_M_left; leftmost = t; } } if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { _Rb_tree_node_base* t = x; while (t->_M_right) t = t->_M_right; rightmost = t; } } }
        if (y->_M_color != _S_red) {
            while (x != root && (x == 0 || x->_M_color == _S_black))
                if (x == xp->_M_left) { _Rb_tree_node_base* w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rl(xp, root); w = xp->_M_right; } if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; } else { if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rr(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rl(xp, root); break; } }
                else { _Rb_tree_node_base* w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rr(xp, root); w = xp->_M_left; } if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; } else { if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rl(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rr(xp, root); break; } }
            if (x) x->_M_color = _S_black;
        }
        return y;
    }
    // ---- list
    namespace __detail {
        void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
        void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = this->_M_next; _List_node_base* const p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
        void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base* const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
        std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13}; if (n < 14) { if (n == 0) return 1; _M_next_resize = (size_t)(fast[n] * (double)_M_max_load_factor); return fast[n]; } size_t k = n | 1; for (;; k += 2) { bool p = true; for (size_t d = 3; d * d <= k; d += 2) if (k % d == 0) { p = false; break; } if (p) break; } _M_next_resize = (size_t)(k * (double)_M_max_load_factor); return k; }
        std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const { if (ne + ni > _M_next_resize) { double mb = std::max<std::size_t>(ne + ni, _M_next_resize ? 0 : 11) / (double)_M_max_load_factor; if (mb >= nb) return {true, _M_next_bkt(std::max<std::size_t>((size_t)mb + 1, nb * 2))}; _M_next_resize = (size_t)(nb * (double)_M_max_load_factor); return {false, 0}; } return {false, 0}; }
    }
    size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = 14695981039346656037ull ^ seed; const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; } return h; }
    // ---- threads
    thread::_State::~_State() {}
    static void tramp(void* p) { thread::_State* s = (thread::_State*)p; s->_M_run(); delete s; }
    void thread::_M_start_thread(_State_ptr st, void (*)()) { _State* p = st.release(); _M_id = id((__gthread_t)__sym_thread_create(tramp, p)); }
    void thread::join() { __sym_thread_join((uint64_t)_M_id._M_thread); _M_id = id(); }
    void thread::detach() { _M_id = id(); }
    unsigned thread::hardware_concurrency() noexcept { return 2; }
    condition_variable::condition_variable() noexcept {} condition_variable::~condition_variable() noexcept {}
    void condition_variable::wait(unique_lock<mutex>& lk) { __sym_cv_wait(this, lk.mutex()->native_handle()); }
    void condition_variable::notify_one() noexcept { __sym_cv_notify_one(this); } void condition_variable::notify_all() noexcept { __sym_cv_notify_all(this); }
    namespace __exception_ptr {
        exception_ptr::exception_ptr(void* p) noexcept : _M_exception_object(p) {}
        void exception_ptr::_M_addref() noexcept {} void exception_ptr::_M_release() noexcept { _M_exception_object = nullptr; } void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
    }
    exception_ptr current_exception() noexcept { return exception_ptr(__sym_current_exception()); }
    void rethrow_exception(exception_ptr p) { __sym_rethrow(p._M_get()); __builtin_unreachable(); }
    bool uncaught_exception() noexcept { return uncaught_exceptions() > 0; }
}
extern "C" {
char __libc_single_threaded = 0;
int strcmp(const char* a, const char* b) { for (;; ++a, ++b) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (; n; ++a, ++b, --n) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
const char* strchr_(const char* s, int c) __asm__("strchr");
const char* strchr_(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) ; return r; }
int toupper(int c) { return c - ((c >= 'a') & (c <= 'z')) * 32; }
int tolower(int c) { return c + ((c >= 'A') & (c <= 'Z')) * 32; }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isalpha(int c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
int isalnum(int c) { return isdigit(c) | isalpha(c); }
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isprint(int c) { return (c >= 32) & (c < 127); }
int ispunct(int c) { return isprint(c) & !isalnum(c) & (c != 32); }
long strtol(const char* s, char** e, int base) {
    const char* p = s; while (isspace((unsigned char)*p)) ++p; bool neg = false; if (*p == '-') { neg = true; ++p; } else if (*p == '+') ++p; if (base == 0) base = 10; unsigned long v = 0; bool any = false; bool over = false; int nd = 0;
    for (;; ++p) { int c = (unsigned char)*p; int d; if (isdigit(c)) d = c - '0'; else if (base > 10 && isalpha(c)) d = toupper(c) - 'A' + 10; else break; if (d >= base) break; any = true; if (++nd > 11 && v > (0x7fffffffffffffffUL - d) / base) over = true; else v = v * base + d; }
    if (e) *e = (char*)(any ? p : s); if (over) { *__errno_location() = 34; return neg ? (long)0x8000000000000000UL : 0x7fffffffffffffffL; } return neg ? -(long)v : (long)v; }
long strtoll_(const char* s, char** e, int b) __asm__("strtoll"); long strtoll_(const char* s, char** e, int b) { return strtol(s, e, b); }
double strtod(const char*, char**);
long strtol_(const char* s, char** e, int b) __asm__("strtol"); long strtol_(const char* s, char** e, int b) { return strtol(s, e, b); }
}
#include <ios>
namespace std { ostream cout, cerr, clog; istream cin; static std::map<std::string, std::string*>* files_ = nullptr; std::string* __sym_file(const char* n, bool create) { if (!files_) files_ = new std::map<std::string, std::string*>; auto it = files_->find(n); if (it != files_->end()) return it->second; if (!create) return nullptr; return (*files_)[n] = new std::string; } }
extern "C" int remove(const char* f) { if (!std::files_) return -1; auto it = std::files_->find(f); if (it == std::files_->end()) return -1; std::files_->erase(it); return 0; }
