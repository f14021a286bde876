// Minimal replacement of libstdc++ iostreams for symbolic execution.  With
// WSYM_FMT_OFF all insertions are no-ops (used where formatted text is only
// logged); otherwise formatting and extraction are modelled exactly for the
// "C" locale.  The native replay uses the real library.
#ifndef WSYM_IOSTREAM_H
#define WSYM_IOSTREAM_H
#include <iosfwd>
#include <string>
#include <limits>
#include <system_error>
extern "C" int wsym_fmt_double(char* out, double v, int prec, int flags);
namespace std
{
    class ios_base
    {
    public:
        typedef unsigned fmtflags;
        typedef unsigned iostate;
        typedef unsigned openmode;
        typedef unsigned seekdir;
        static constexpr fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8,
            internal = 16, left = 32, oct = 64, right = 128, scientific = 256,
            showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096,
            unitbuf = 8192, uppercase = 16384,
            basefield = dec | hex | oct, adjustfield = left | right | internal,
            floatfield = fixed | scientific;
        static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
        static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
        static constexpr seekdir beg = 0, cur = 1, end = 2;
        class failure : public std::system_error { public: using system_error::system_error; };
        fmtflags flags() const { return fl_; }
        fmtflags flags(fmtflags f) { fmtflags o = fl_; fl_ = f; return o; }
        fmtflags setf(fmtflags f) { fmtflags o = fl_; fl_ |= f; return o; }
        fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; }
        void unsetf(fmtflags m) { fl_ &= ~m; }
        streamsize precision() const { return prec_; }
        streamsize precision(streamsize p) { streamsize o = prec_; prec_ = p; return o; }
        streamsize width() const { return width_; }
        streamsize width(streamsize p) { streamsize o = width_; width_ = p; return o; }
        virtual ~ios_base() {}
    protected:
        fmtflags fl_ = dec | skipws;
        streamsize prec_ = 6, width_ = 0;
        iostate st_ = goodbit;
        char fill_ = ' ';
    };
    template <class C, class T> class basic_ios : public ios_base
    {
    public:
        bool good() const { return st_ == 0; }
        bool eof() const { return st_ & eofbit; }
        bool fail() const { return st_ & (failbit | badbit); }
        bool bad() const { return st_ & badbit; }
        iostate rdstate() const { return st_; }
        void clear(iostate s = goodbit) { st_ = s; }
        void setstate(iostate s) { st_ |= s; }
        bool operator!() const { return fail(); }
        explicit operator bool() const { return !fail(); }
        C fill() const { return fill_; }
        C fill(C c) { C o = fill_; fill_ = c; return o; }
        basic_ios& copyfmt(const basic_ios& o) { fl_ = o.fl_; prec_ = o.prec_; width_ = o.width_; fill_ = o.fill_; return *this; }
    };
    template <class C, class T> class basic_ostream : virtual public basic_ios<C, T>
    {
    public:
        typedef basic_ios<C, T> ios_type;
        basic_ostream() {}
        basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
        basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
        basic_ostream& operator<<(bool v) { return num(v, false, true); }
        basic_ostream& operator<<(short v) { return num((unsigned long long)(hexoct() ? (long long)(unsigned short)v : (long long)v), !hexoct() && v < 0, false); }
        basic_ostream& operator<<(unsigned short v) { return num(v, false, false); }
        basic_ostream& operator<<(int v) { return num((unsigned long long)(hexoct() ? (long long)(unsigned)v : (long long)v), !hexoct() && v < 0, false); }
        basic_ostream& operator<<(unsigned v) { return num(v, false, false); }
        basic_ostream& operator<<(long v) { return num((unsigned long long)v, !hexoct() && v < 0, false); }
        basic_ostream& operator<<(unsigned long v) { return num(v, false, false); }
        basic_ostream& operator<<(long long v) { return num((unsigned long long)v, !hexoct() && v < 0, false); }
        basic_ostream& operator<<(unsigned long long v) { return num(v, false, false); }
        basic_ostream& operator<<(float v) { return dbl((double)v); }
        basic_ostream& operator<<(double v) { return dbl(v); }
        basic_ostream& operator<<(const void* p) { return num((unsigned long long)p, false, false); }
        basic_ostream& put(C c) { wsym_put(&c, 1); return *this; }
        basic_ostream& write(const C* p, streamsize n) { wsym_put(p, (size_t)n); return *this; }
        basic_ostream& flush() { return *this; }
        void wsym_padded(const C* p, size_t n)
        {
#ifndef WSYM_FMT_OFF
            size_t w = (size_t)this->width_;
            this->width_ = 0;
            if (w > n && !(this->fl_ & ios_base::left)) for (size_t i = n; i < w; ++i) wsym_put(&this->fill_, 1);
            wsym_put(p, n);
            if (w > n && (this->fl_ & ios_base::left)) for (size_t i = n; i < w; ++i) wsym_put(&this->fill_, 1);
#else
            (void)p; (void)n;
#endif
        }
        void wsym_put(const C* p, size_t n)
        {
#ifndef WSYM_FMT_OFF
            obuf_.append(p, n);
#else
            (void)p; (void)n;
#endif
        }
    protected:
        bool hexoct() const { return (this->fl_ & ios_base::basefield) != ios_base::dec; }
        basic_ostream& num(unsigned long long v, bool neg, bool isb)
        {
#ifndef WSYM_FMT_OFF
            if (isb && (this->fl_ & ios_base::boolalpha))
            {
                if (v) wsym_padded("true", 4); else wsym_padded("false", 5);
                return *this;
            }
            char b[32];
            int n = 32;
            unsigned base = (this->fl_ & ios_base::hex) ? 16 : (this->fl_ & ios_base::oct) ? 8 : 10;
            const char* dg = (this->fl_ & ios_base::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef";
            if (neg) v = 0ULL - v;
            do { b[--n] = dg[v % base]; v /= base; } while (v);
            if (neg) b[--n] = '-';
            else if ((this->fl_ & ios_base::showpos) && base == 10) b[--n] = '+';
            wsym_padded(b + n, (size_t)(32 - n));
#else
            (void)v; (void)neg; (void)isb;
#endif
            return *this;
        }
        basic_ostream& dbl(double v)
        {
#ifndef WSYM_FMT_OFF
            char b[128];
            int n = wsym_fmt_double(b, v, (int)this->prec_,
                (this->fl_ & ios_base::fixed ? 1 : 0) | (this->fl_ & ios_base::showpoint ? 2 : 0)
                | (this->fl_ & ios_base::scientific ? 4 : 0));
            wsym_padded(b, (size_t)n);
#else
            (void)v;
#endif
            return *this;
        }
        std::basic_string<C> obuf_;
    };
    template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& os, const char* s)
    {
#ifndef WSYM_FMT_OFF
        os.wsym_padded(s, char_traits<char>::length(s));
#else
        (void)s;
#endif
        return os;
    }
    template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& os, const unsigned char* s)
    { return os << (const char*)s; }
    template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& os, char c)
    { os.wsym_padded(&c, 1); return os; }
    template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& os, unsigned char c)
    { char d = (char)c; os.wsym_padded(&d, 1); return os; }
    template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& os, signed char c)
    { char d = (char)c; os.wsym_padded(&d, 1); return os; }
    // non-templates: preferred over the library's own string operators
    inline ostream& operator<<(ostream& os, const string& s)
    { os.wsym_padded(s.data(), s.size()); return os; }
    template <class C, class T> basic_ostream<C, T>& endl(basic_ostream<C, T>& os) { C c = '\n'; os.wsym_put(&c, 1); return os; }
    template <class C, class T> basic_ostream<C, T>& flush(basic_ostream<C, T>& os) { return os; }
    template <class C, class T> basic_ostream<C, T>& ends(basic_ostream<C, T>& os) { C c = 0; os.wsym_put(&c, 1); return os; }
    inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
    inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
    inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
    inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
    inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
    inline ios_base& showpoint(ios_base& b) { b.setf(ios_base::showpoint); return b; }
    inline ios_base& noshowpoint(ios_base& b) { b.unsetf(ios_base::showpoint); return b; }
    inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
    inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; }
    inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
    inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
    inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; }
    inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; }
    inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
    struct _Wsetw { int n; };
    struct _Wsetp { int n; };
    struct _Wsetf { char c; };
    inline _Wsetw setw(int n) { return _Wsetw{n}; }
    inline _Wsetp setprecision(int n) { return _Wsetp{n}; }
    inline _Wsetf setfill(char c) { return _Wsetf{c}; }
    template <class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& os, _Wsetw w) { os.width(w.n); return os; }
    template <class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& os, _Wsetp w) { os.precision(w.n); return os; }
    template <class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& os, _Wsetf w) { os.fill(w.c); return os; }

    template <class C, class T> class basic_istream : virtual public basic_ios<C, T>
    {
    public:
        typedef long long off_t_;
        basic_istream() {}
        static bool wsym_space(C c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
        bool wsym_sentry(bool noskip)
        {
            if (!this->good()) { this->setstate(ios_base::failbit); return false; }
            if (!noskip && (this->fl_ & ios_base::skipws))
            {
                while (ipos_ < ibuf_.size() && wsym_space(ibuf_[ipos_])) ++ipos_;
                if (ipos_ >= ibuf_.size()) { this->setstate(ios_base::eofbit | ios_base::failbit); return false; }
            }
            return true;
        }
        long long tellg()
        {
            if (this->fail()) return -1;
            if (!wsym_sentry(true)) return -1;
            return (long long)ipos_;
        }
        basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
        basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
        basic_istream& operator>>(long long& v) { return sgn(v); }
        basic_istream& operator>>(long& v) { return sgn(v); }
        basic_istream& operator>>(int& v) { return sgn(v); }
        basic_istream& operator>>(short& v) { return sgn(v); }
        basic_istream& operator>>(unsigned long long& v) { return uns(v); }
        basic_istream& operator>>(unsigned long& v) { return uns(v); }
        basic_istream& operator>>(unsigned& v) { return uns(v); }
        int get()
        {
            if (!wsym_sentry(true)) return -1;
            if (ipos_ >= ibuf_.size()) { this->setstate(ios_base::eofbit | ios_base::failbit); return -1; }
            return (unsigned char)ibuf_[ipos_++];
        }
        basic_istream& get(C& c) { int r = get(); if (r >= 0) c = (C)r; return *this; }
        int peek()
        {
            if (!wsym_sentry(true)) return -1;
            if (ipos_ >= ibuf_.size()) { this->setstate(ios_base::eofbit); return -1; }
            return (unsigned char)ibuf_[ipos_];
        }
        basic_string<C>& wsym_ibuf() { return ibuf_; }
        size_t& wsym_ipos() { return ipos_; }
    protected:
        // digits: returns false when none were found
        bool digits(bool& neg, unsigned long long& v, bool& over, unsigned long long lim_pos, unsigned long long lim_neg)
        {
            neg = false; v = 0; over = false;
            if (ipos_ < ibuf_.size() && (ibuf_[ipos_] == '-' || ibuf_[ipos_] == '+'))
            { neg = ibuf_[ipos_] == '-'; ++ipos_; }
            unsigned long long lim = neg ? lim_neg : lim_pos;
            bool any = false;
            while (ipos_ < ibuf_.size() && ibuf_[ipos_] >= '0' && ibuf_[ipos_] <= '9')
            {
                unsigned d = (unsigned)(ibuf_[ipos_] - '0');
                any = true;
                if (!over)
                {
                    if (v > lim / 10) over = true;
                    else
                    {
                        v *= 10;
                        if (v > lim - d) over = true; else v += d;
                    }
                }
                ++ipos_;
            }
            if (ipos_ >= ibuf_.size()) this->setstate(ios_base::eofbit);
            return any;
        }
        template <class I> basic_istream& sgn(I& out)
        {
            if (!wsym_sentry(false)) return *this;
            bool neg, over; unsigned long long v;
            unsigned long long mx = (unsigned long long)numeric_limits<I>::max();
            if (!digits(neg, v, over, mx, mx + 1)) { out = 0; this->setstate(ios_base::failbit); }
            else if (over) { out = neg ? numeric_limits<I>::min() : numeric_limits<I>::max(); this->setstate(ios_base::failbit); }
            else out = (I)(neg ? 0ULL - v : v);
            return *this;
        }
        template <class I> basic_istream& uns(I& out)
        {
            if (!wsym_sentry(false)) return *this;
            bool neg, over; unsigned long long v;
            unsigned long long mx = (unsigned long long)numeric_limits<I>::max();
            if (!digits(neg, v, over, mx, mx)) { out = 0; this->setstate(ios_base::failbit); }
            else if (over) { out = numeric_limits<I>::max(); this->setstate(ios_base::failbit); }
            else out = (I)(neg ? 0ULL - v : v);
            return *this;
        }
        basic_string<C> ibuf_;
        size_t ipos_ = 0;
    };
    inline istream& getline(istream& is, string& s, char delim)
    {
        if (!is.wsym_sentry(true)) return is;
        s.erase();
        bool ext = false;
        for (;;)
        {
            if (is.wsym_ipos() >= is.wsym_ibuf().size()) { is.setstate(ios_base::eofbit); break; }
            char c = is.wsym_ibuf()[is.wsym_ipos()++];
            ext = true;
            if (c == delim) break;
            s += c;
        }
        if (!ext) is.setstate(ios_base::failbit);
        return is;
    }
    inline istream& getline(istream& is, string& s) { return std::getline(is, s, '\n'); }
    inline istream& operator>>(istream& is, string& s)
    {
        if (!is.wsym_sentry(false)) return is;
        s.erase();
        while (is.wsym_ipos() < is.wsym_ibuf().size() && !istream::wsym_space(is.wsym_ibuf()[is.wsym_ipos()]))
            s += is.wsym_ibuf()[is.wsym_ipos()++];
        if (is.wsym_ipos() >= is.wsym_ibuf().size()) is.setstate(ios_base::eofbit);
        if (s.empty()) is.setstate(ios_base::failbit);
        return is;
    }
    template <class C, class T> basic_istream<C, T>& operator>>(basic_istream<C, T>& is, C& c)
    {
        if (!is.wsym_sentry(false)) return is;
        c = is.wsym_ibuf()[is.wsym_ipos()++];
        return is;
    }
    template <class C, class T> basic_istream<C, T>& ws(basic_istream<C, T>& is)
    {
        while (is.wsym_ipos() < is.wsym_ibuf().size() && basic_istream<C, T>::wsym_space(is.wsym_ibuf()[is.wsym_ipos()])) is.wsym_ipos()++;
        if (is.wsym_ipos() >= is.wsym_ibuf().size()) is.setstate(ios_base::eofbit);
        return is;
    }
    template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {};
inline namespace __cxx11 {
    template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T>
    {
    public:
        basic_ostringstream() {}
        explicit basic_ostringstream(const basic_string<C, T, A>& s) { this->obuf_ = s; }
        basic_string<C, T, A> str() const { return this->obuf_; }
        void str(const basic_string<C, T, A>& s) { this->obuf_ = s; }
    };
    template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T>
    {
    public:
        basic_istringstream() {}
        explicit basic_istringstream(const basic_string<C, T, A>& s, ios_base::openmode = ios_base::in) { this->ibuf_ = s; }
        basic_string<C, T, A> str() const { return this->ibuf_; }
        void str(const basic_string<C, T, A>& s) { this->ibuf_ = s; this->ipos_ = 0; }
    };
}
    extern ostream cout, cerr, clog;
}
#endif
