// Models of the libc / libstdc++ functions that exist only as machine code.
// Compiled to IR and linked with the code under check (symbolic runs only).
#include "wsym.h"
#include <cerrno>
#include <cstdarg>
#include <cstddef>
#include <ctime>
#include <exception>
#include <functional>
#include <unordered_map>
#include <list>
#include <map>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include "include/wsym_iostream.h"

extern "C" {
// ---- memory / strings: branch free on contents where possible -------------
int memcmp(const void* a, const void* b, size_t n)
{
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    int r = 0;
    for (size_t i = n; i-- > 0;)
    {
        int d = (int)x[i] - (int)y[i];
        r = d != 0 ? d : r;
    }
    return r;
}
int bcmp(const void* a, const void* b, size_t n)
{
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    unsigned r = 0;
    for (size_t i = 0; i < n; ++i) r |= (unsigned)(x[i] ^ y[i]);
    return (int)r;
}
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char* a, const char* b)
{
    size_t i = 0;
    while (a[i] && a[i] == b[i]) ++i;
    return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
int strncmp(const char* a, const char* b, size_t n)
{
    size_t i = 0;
    while (i < n && a[i] && a[i] == b[i]) ++i;
    return i == n ? 0 : (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
char* strncpy(char* d, const char* s, size_t n)
{
    size_t i = 0;
    for (; i < n && s[i]; ++i) d[i] = s[i];
    for (; i < n; ++i) d[i] = 0;
    return d;
}
char* strcpy(char* d, const char* s) { size_t i = 0; do { d[i] = s[i]; } while (s[i++]); return d; }
char* stpcpy(char* d, const char* s) { size_t i = 0; do { d[i] = s[i]; } while (s[i++]); return d + i - 1; }
char* strchr(const char* s, int c)
{
    for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; }
}
void* memchr(const void* p, int c, size_t n)
{
    const unsigned char* s = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) if (s[i] == (unsigned char)c) return (void*)(s + i);
    return nullptr;
}
void* memcpy(void* d, const void* s, size_t n) { char* x = (char*)d; const char* y = (const char*)s; for (size_t i = 0; i < n; ++i) x[i] = y[i]; return d; }
void* memmove(void* d, const void* s, size_t n)
{
    char* x = (char*)d; const char* y = (const char*)s;
    if (x < y) for (size_t i = 0; i < n; ++i) x[i] = y[i];
    else for (size_t i = n; i-- > 0;) x[i] = y[i];
    return d;
}
void* memset(void* d, int c, size_t n) { char* x = (char*)d; for (size_t i = 0; i < n; ++i) x[i] = (char)c; return d; }
// ---- ctype ("C" locale) ---------------------------------------------------
int isdigit(int c) { return (unsigned)(c - '0') < 10u; }
int isalpha(int c) { return ((unsigned)((c | 32) - 'a') < 26u); }
int isalnum(int c) { return (int)((unsigned)(c - '0') < 10u) | (int)((unsigned)((c | 32) - 'a') < 26u); }
int isxdigit(int c) { return (int)((unsigned)(c - '0') < 10u) | (int)((unsigned)((c | 32) - 'a') < 6u); }
int iscntrl(int c) { return (int)((unsigned)c < 32u) | (int)(c == 127); }
int isspace(int c) { return (int)(c == ' ') | (int)((unsigned)(c - '\t') < 5u); }
int isprint(int c) { return (unsigned)(c - 32) < 95u; }
int isupper(int c) { return (unsigned)(c - 'A') < 26u; }
int islower(int c) { return (unsigned)(c - 'a') < 26u; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
static int wsym_errno;
int* __errno_location(void) { return &wsym_errno; }
char* strerror(int) { return (char*)"error"; }
// ---- formatted output / input -------------------------------------------
static void outc(char* b, size_t n, size_t& k, char c) { if (k + 1 < n) b[k] = c; ++k; }
int wsym_vsnprintf(char* b, size_t n, const char* f, const uint64_t* a)
{
    size_t k = 0;
    for (; *f; ++f)
    {
        if (*f != '%') { outc(b, n, k, *f); continue; }
        ++f;
        bool zero = false, left = false;
        for (;; ++f) { if (*f == '0') zero = true; else if (*f == '-') left = true; else break; }
        size_t w = 0;
        while (*f >= '0' && *f <= '9') w = w * 10 + (size_t)(*f++ - '0');
        int l = 0;
        for (;; ++f) { if (*f == 'l' || *f == 'z' || *f == 'j') ++l; else if (*f == 'h') --l; else break; }
        if (*f == '%') { outc(b, n, k, '%'); continue; }
        if (*f == 's')
        {
            const char* s = (const char*)*a++;
            size_t len = strlen(s);
            if (!left) for (size_t i = len; i < w; ++i) outc(b, n, k, ' ');
            for (size_t i = 0; i < len; ++i) outc(b, n, k, s[i]);
            if (left) for (size_t i = len; i < w; ++i) outc(b, n, k, ' ');
            continue;
        }
        if (*f == 'c') { outc(b, n, k, (char)*a++); continue; }
        uint64_t v = *a++;
        bool neg = false;
        unsigned base = 10;
        if (*f == 'd' || *f == 'i')
        {
            int64_t s = l >= 1 ? (int64_t)v : l == 0 ? (int64_t)(int)v : l == -1 ? (int64_t)(short)v : (int64_t)(signed char)v;
            neg = s < 0;
            v = neg ? 0 - (uint64_t)s : (uint64_t)s;
        }
        else
        {
            v = l >= 1 ? v : l == 0 ? (unsigned)v : l == -1 ? (unsigned short)v : (unsigned char)v;
            if (*f == 'x' || *f == 'X') base = 16;
            else if (*f == 'o') base = 8;
            else if (*f != 'u') wsym_unsupported("printf conversion");
        }
        if (base == 16 && zero && w == 2 && (v & ~(uint64_t)0xff) == 0)
        {
            // two hex digits, no data dependent branches
            for (int sft = 4; sft >= 0; sft -= 4)
            {
                unsigned d = (unsigned)(v >> sft) & 15u;
                unsigned up = *f == 'X' ? 'A' : 'a';
                outc(b, n, k, (char)(d + (d < 10 ? '0' : up - 10)));
            }
            continue;
        }
        char t[32];
        int m = 32;
        do { unsigned d = (unsigned)(v % base); t[--m] = (char)(d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10); v /= base; } while (v);
        size_t len = (size_t)(32 - m) + (neg ? 1 : 0);
        if (!zero && !left) for (size_t i = len; i < w; ++i) outc(b, n, k, ' ');
        if (neg) outc(b, n, k, '-');
        if (zero && !left) for (size_t i = len; i < w; ++i) outc(b, n, k, '0');
        for (int i = m; i < 32; ++i) outc(b, n, k, t[i]);
        if (left) for (size_t i = len; i < w; ++i) outc(b, n, k, ' ');
    }
    if (n) b[k < n ? k : n - 1] = 0;
    return (int)k;
}
int wsym_vsprintf(char* b, const char* f, const uint64_t* a) { return wsym_vsnprintf(b, (size_t)1 << 20, f, a); }
int wsym_vprintf(const char*, const uint64_t*) { return 0; }
int wsym_vfprintf(void*, const char*, const uint64_t*) { return 0; }
static int hexval(int c)
{
    int d = c - '0';
    int x = (c | 32) - 'a' + 10;
    return (unsigned)d < 10u ? d : x;
}
int wsym_vsscanf(const char* s, const char* f, const uint64_t* a)
{
    int cnt = 0;
    size_t p = 0;
    for (; *f; ++f)
    {
        if (isspace(*f)) { while (isspace(s[p])) ++p; continue; }
        if (*f != '%') { if (s[p] != *f) return cnt; ++p; continue; }
        ++f;
        size_t w = 0;
        while (*f >= '0' && *f <= '9') w = w * 10 + (size_t)(*f++ - '0');
        if (!w) w = 1000;
        int l = 0;
        for (;; ++f) { if (*f == 'l' || *f == 'z' || *f == 'j') ++l; else if (*f == 'h') --l; else break; }
        if (*f == 'n') { *(int*)*a++ = (int)p; continue; }
        bool hex = *f == 'x' || *f == 'X';
        if (!hex && *f != 'd' && *f != 'u' && *f != 'i') wsym_unsupported("scanf conversion");
        while (isspace(s[p])) ++p;
        bool neg = false;
        size_t n = 0;
        if (n < w && (s[p] == '-' || s[p] == '+')) { neg = s[p] == '-'; ++p; ++n; }
        if (hex && n + 1 < w && s[p] != 0 && ((s[p] ^ '0') | ((s[p + 1] | 32) ^ 'x')) == 0) { p += 2; n += 2; if (!(n < w && isxdigit(s[p]))) { p -= 1; n -= 1; } }
        uint64_t v = 0;
        bool any = false;
        while (n < w && (hex ? isxdigit(s[p]) : isdigit(s[p])))
        {
            v = hex ? v * 16 + (uint64_t)hexval(s[p]) : v * 10 + (uint64_t)(s[p] - '0');
            ++p; ++n; any = true;
        }
        if (!any) return (s[p] == 0 && cnt == 0) ? -1 : cnt;
        if (neg) v = 0 - v;
        void* o = (void*)*a++;
        if (l <= -2) *(unsigned char*)o = (unsigned char)v;
        else if (l == -1) *(unsigned short*)o = (unsigned short)v;
        else if (l == 0) *(unsigned*)o = (unsigned)v;
        else *(uint64_t*)o = v;
        ++cnt;
    }
    return cnt;
}
struct tm* localtime_r(const time_t* t, struct tm* o)
{
    // UTC; only the text form of the date depends on it
    long long s = *t, days = s / 86400, r = s % 86400;
    o->tm_hour = (int)(r / 3600); o->tm_min = (int)(r / 60 % 60); o->tm_sec = (int)(r % 60);
    int y = 1970;
    for (;;) { int n = (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)) ? 366 : 365; if (days < n) break; days -= n; ++y; }
    o->tm_year = y - 1900; o->tm_mon = 0; o->tm_mday = 1 + (int)(days % 28); o->tm_yday = (int)days; o->tm_isdst = 0;
    return o;
}
struct tm* gmtime_r(const time_t* t, struct tm* o) { return localtime_r(t, o); }
double floor(double d) { long long x = (long long)d; double r = (double)x; return r > d ? r - 1.0 : r; }
void* dlopen(const char*, int) { return nullptr; }
void* dlsym(void*, const char*) { return nullptr; }
char* dlerror(void) { return (char*)"dl"; }
int dlclose(void*) { return 0; }
long strtol(const char* s, char** e, int base)
{
    size_t p = 0;
    while (isspace(s[p])) ++p;
    bool neg = false;
    if (s[p] == '-' || s[p] == '+') { neg = s[p] == '-'; ++p; }
    if ((base == 0 || base == 16) && s[p] == '0' && (s[p + 1] | 32) == 'x' && isxdigit(s[p + 2])) { p += 2; base = 16; }
    else if (base == 0) base = s[p] == '0' ? 8 : 10;
    unsigned long v = 0;
    bool any = false, over = false;
    for (;;)
    {
        int c = s[p];
        int d = isdigit(c) ? c - '0' : isalpha(c) ? (c | 32) - 'a' + 10 : 99;
        if (d >= base) break;
        if (v > (0x8000000000000000UL - (unsigned long)d) / (unsigned long)base) over = true;
        v = v * (unsigned long)base + (unsigned long)d;
        any = true; ++p;
    }
    if (e) *e = (char*)(any ? s + p : s);
    if (over || v > (neg ? 0x8000000000000000UL : 0x7fffffffffffffffUL)) { wsym_errno = ERANGE; return neg ? (-0x7fffffffffffffffL - 1) : 0x7fffffffffffffffL; }
    return neg ? (long)(0 - v) : (long)v;
}
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char* s, char** e, int base)
{
    size_t p = 0;
    while (isspace(s[p])) ++p;
    bool neg = false;
    if (s[p] == '-' || s[p] == '+') { neg = s[p] == '-'; ++p; }
    if ((base == 0 || base == 16) && s[p] == '0' && (s[p + 1] | 32) == 'x' && isxdigit(s[p + 2])) { p += 2; base = 16; }
    else if (base == 0) base = s[p] == '0' ? 8 : 10;
    unsigned long v = 0;
    bool any = false, over = false;
    for (;;)
    {
        int c = s[p];
        int d = isdigit(c) ? c - '0' : isalpha(c) ? (c | 32) - 'a' + 10 : 99;
        if (d >= base) break;
        if (v > (~0UL - (unsigned long)d) / (unsigned long)base) over = true;
        v = v * (unsigned long)base + (unsigned long)d;
        any = true; ++p;
    }
    if (e) *e = (char*)(any ? s + p : s);
    if (over) { wsym_errno = ERANGE; return ~0UL; }
    return neg ? 0 - v : v;
}
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
char* strrchr(const char* s, int c)
{
    const char* r = nullptr;
    for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; }
}
char* strstr(const char* h, const char* n)
{
    size_t k = strlen(n);
    for (;; ++h) { if (strncmp(h, n, k) == 0) return (char*)h; if (!*h) return nullptr; }
}
int strcasecmp(const char* a, const char* b)
{
    size_t i = 0;
    while (a[i] && tolower(a[i]) == tolower(b[i])) ++i;
    return tolower((unsigned char)a[i]) - tolower((unsigned char)b[i]);
}
int abs(int x) { return x < 0 ? -x : x; }
double wsym_strtod(const char* s, char** e);
double strtod(const char* s, char** e) { return wsym_strtod(s, e); }
char* getenv(const char*) { return nullptr; }
void* __dso_handle;
}

// ---- libstdc++ ------------------------------------------------------------
template class std::basic_string<char>;
namespace std
{
    ostream cout, cerr, clog;
    exception::~exception() noexcept {}
    const char* exception::what() const noexcept { return "std::exception"; }
    bad_alloc::~bad_alloc() noexcept {}
    const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
    bad_array_new_length::~bad_array_new_length() noexcept {}
    const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
    bad_cast::~bad_cast() noexcept {}
    const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
    bad_function_call::~bad_function_call() noexcept {}
    const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
    static const char* dupstr(const char* s)
    {
        size_t n = strlen(s);
        char* p = new char[n + 1];
        for (size_t i = 0; i <= n; ++i) p[i] = s[i];
        return p;
    }
    // __cow_string: leaked immutable copy
    __cow_string::__cow_string() : _M_p("") {}
    __cow_string::__cow_string(const std::string& s) : _M_p(dupstr(s.c_str())) {}
    __cow_string::__cow_string(const char* s, size_t) : _M_p(dupstr(s)) {}
    __cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) {}
    __cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
    __cow_string::~__cow_string() {}
    __cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) {}
    __cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }
#define WSYM_EXC2(X) \
    X::X(const string& s) : _M_msg(s) {} \
    X::X(const char* s) : _M_msg(s, 0) {} \
    X::X(const X& o) noexcept : _M_msg(o._M_msg) {} \
    X& X::operator=(const X& o) noexcept { _M_msg = o._M_msg; return *this; } \
    X::X(X&& o) noexcept : _M_msg(o._M_msg) {} \
    X& X::operator=(X&& o) noexcept { _M_msg = o._M_msg; return *this; } \
    X::~X() noexcept {} \
    const char* X::what() const noexcept { return *(const char* const*)&_M_msg; }
    WSYM_EXC2(logic_error)
    WSYM_EXC2(runtime_error)
#define WSYM_EXC(X, B) \
    X::X(const string& s) : B(s) {} \
    X::X(const char* s) : B(s) {} \
    X::~X() noexcept {}
    WSYM_EXC(invalid_argument, logic_error)
    WSYM_EXC(domain_error, logic_error)
    WSYM_EXC(length_error, logic_error)
    WSYM_EXC(out_of_range, logic_error)
    WSYM_EXC(range_error, runtime_error)
    WSYM_EXC(overflow_error, runtime_error)
    WSYM_EXC(underflow_error, runtime_error)
    void __throw_bad_alloc() { throw bad_alloc(); }
    void __throw_bad_array_new_length() { throw bad_array_new_length(); }
    void __throw_bad_cast() { throw bad_cast(); }
    void __throw_bad_function_call() { throw bad_function_call(); }
    void __throw_logic_error(const char* s) { throw logic_error(s); }
    void __throw_length_error(const char* s) { throw length_error(s); }
    void __throw_out_of_range(const char* s) { throw out_of_range(s); }
    void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
    void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
    void __throw_runtime_error(const char* s) { throw runtime_error(s); }
    void __throw_system_error(int) { throw runtime_error("system_error"); }

    // ordered containers: an unbalanced search tree is observationally equal
    static _Rb_tree_node_base* tinc(_Rb_tree_node_base* x)
    {
        if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
        else
        {
            _Rb_tree_node_base* y = x->_M_parent;
            while (x == y->_M_right) { x = y; y = y->_M_parent; }
            if (x->_M_right != y) x = y;
        }
        return x;
    }
    static _Rb_tree_node_base* tdec(_Rb_tree_node_base* x)
    {
        if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
        else if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; }
        else
        {
            _Rb_tree_node_base* y = x->_M_parent;
            while (x == y->_M_left) { x = y; y = y->_M_parent; }
            x = y;
        }
        return x;
    }
    _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return tinc(x); }
    const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return tinc((_Rb_tree_node_base*)x); }
    _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return tdec(x); }
    const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return tdec((_Rb_tree_node_base*)x); }
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
    {
        x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
        if (left)
        {
            p->_M_left = x; // also makes leftmost = x when p == &h
            if (p == &h) { h._M_parent = x; h._M_right = x; }
            else if (p == h._M_left) h._M_left = x;
        }
        else
        {
            p->_M_right = x;
            if (p == h._M_right) h._M_right = x;
        }
    }
    _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
    {
        if (h._M_left == z) h._M_left = tinc(z);
        if (h._M_right == z) h._M_right = tdec(z);
        auto repl = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) {
            if (h._M_parent == o) h._M_parent = n;
            else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n;
            else o->_M_parent->_M_right = n;
            if (n) n->_M_parent = o->_M_parent;
        };
        if (!z->_M_left) repl(z, z->_M_right);
        else if (!z->_M_right) repl(z, z->_M_left);
        else
        {
            _Rb_tree_node_base* y = z->_M_right;
            while (y->_M_left) y = y->_M_left;
            if (y->_M_parent != z)
            {
                repl(y, y->_M_right);
                y->_M_right = z->_M_right;
                y->_M_right->_M_parent = y;
            }
            repl(z, y);
            y->_M_left = z->_M_left;
            y->_M_left->_M_parent = y;
        }
        if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
        return z;
    }
    // hash tables: bucket counts only need to grow with the number of elements
    size_t _Hash_bytes(const void* p, size_t n, size_t seed)
    {
        const size_t mul = (0xc6a4a793UL << 32) + 0x5bd1e995UL;
        const unsigned char* c = (const unsigned char*)p;
        size_t h = seed ^ (n * mul), al = n & ~size_t(7);
        for (size_t i = 0; i < al; i += 8)
        {
            size_t d = 0;
            for (int j = 7; j >= 0; --j) d = (d << 8) + c[i + (size_t)j];
            d *= mul; d ^= d >> 47; d *= mul;
            h ^= d; h *= mul;
        }
        if (n & 7)
        {
            size_t d = 0;
            for (size_t j = n & 7; j-- > 0;) d = (d << 8) + c[al + j];
            h ^= d; h *= mul;
        }
        h ^= h >> 47; h *= mul; h ^= h >> 47;
        return h;
    }
    size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
    namespace __detail
    {
        size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
        {
            static const size_t pr[] = { 2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273 };
            for (unsigned i = 0; i < sizeof(pr) / sizeof(pr[0]); ++i)
                if (pr[i] >= n) { _M_next_resize = pr[i]; return pr[i]; }
            wsym_unsupported("hash table too large");
            return 0;
        }
        pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
        {
            if (ne + ni <= _M_next_resize) return pair<bool, size_t>(false, 0);
            size_t want = ne + ni;
            if (!_M_next_resize && want < 12) want = 12;
            if (nb > 1 && want < nb * 2) want = nb * 2;
            return pair<bool, size_t>(true, _M_next_bkt(want));
        }
        void _List_node_base::_M_hook(_List_node_base* const p) noexcept
        { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
        void _List_node_base::_M_unhook() noexcept
        { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
        void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept
        {
            if (this != l)
            {
                l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
                _List_node_base* const t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
            }
        }
        void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
        {
            _List_node_base t = x; x = y; y = t;
            if (x._M_next == &y) x._M_next = x._M_prev = &x; else x._M_next->_M_prev = x._M_prev->_M_next = &x;
            if (y._M_next == &x) y._M_next = y._M_prev = &y; else y._M_next->_M_prev = y._M_prev->_M_next = &y;
        }
    }
}

// ---- dynamic_cast (unambiguous public bases) -------------------------------
extern "C" {
extern char _ZTVN10__cxxabiv120__si_class_type_infoE[], _ZTVN10__cxxabiv121__vmi_class_type_infoE[];
struct wsym_ti { char* vt; const char* name; };
struct wsym_si { char* vt; const char* name; const wsym_ti* base; };
struct wsym_vmi { char* vt; const char* name; unsigned flags, count; struct { const wsym_ti* base; long off; } b[1]; };
static void* wsym_upcast(char* o, const wsym_ti* t, const wsym_ti* d)
{
    if (t == d) return o;
    if (t->vt == _ZTVN10__cxxabiv120__si_class_type_infoE + 16) return wsym_upcast(o, ((const wsym_si*)t)->base, d);
    if (t->vt == _ZTVN10__cxxabiv121__vmi_class_type_infoE + 16)
    {
        const wsym_vmi* v = (const wsym_vmi*)t;
        for (unsigned i = 0; i < v->count; ++i)
        {
            long off = v->b[i].off >> 8;
            if (v->b[i].off & 1) off = *(long*)(*(char**)o + off);
            void* r = wsym_upcast(o + off, v->b[i].base, d);
            if (r) return r;
        }
    }
    return nullptr;
}
void* __dynamic_cast(const void* src, const void*, const void* dst, long)
{
    char* vt = *(char**)src;
    long off = *(long*)(vt - 16);
    return wsym_upcast((char*)src + off, *(const wsym_ti**)(vt - 8), (const wsym_ti*)dst);
}
}
