// Model of the iostream library for the symbolic executor. It replaces the standard stream headers when the
// library under test is compiled to IR (the native replay build uses the real ones). Numbers are written as
// opaque tokens whose value after reading back is given by the error model of the executor (__vp_fmt_double).
#pragma once
#include <iosfwd>
#include <string>
#include <string_view>
#include <stdexcept>
#include <system_error>
#include <cstddef>
#include <cstdint>
#include <limits>
#include <memory>
#include <utility>
#include <type_traits>

extern "C" size_t __vp_fmt_double(double v, int mode, int prec, char* buf);
extern "C" size_t __vp_parse_double(const char* s, size_t n, double* out);

_LIBCPP_BEGIN_NAMESPACE_STD

typedef long long streamoff;
typedef ptrdiff_t streamsize;

class locale { public: locale() {} explicit locale(const char*) {} static const locale& classic() { static locale l; return l; } };

template <class C> class numpunct { public: C decimal_point() const { return (C)'.'; } C thousands_sep() const { return (C)','; } string grouping() const { return string(); } basic_string<C> truename() const { return {}; } basic_string<C> falsename() const { return {}; } };
template <class F> const F& use_facet(const locale&) { static F f; return f; }
template <class F> bool has_facet(const locale&) { return true; }

enum class io_errc { stream = 1 };

class ios_base
{
public:
    typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef streamoff streamoff;
    enum seekdir { beg, cur, end };
    static constexpr fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = left | right | internal, basefield = dec | oct | hex, floatfield = scientific | fixed;
    static constexpr iostate badbit = 1, eofbit = 2, failbit = 4, goodbit = 0;
    static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
    class failure : public std::runtime_error { public: explicit failure(const char* m) : std::runtime_error(m) {} };
    fmtflags flags() const { return m_flags; }
    fmtflags flags(fmtflags f) { auto o = m_flags; m_flags = f; return o; }
    fmtflags setf(fmtflags f) { auto o = m_flags; m_flags |= f; return o; }
    fmtflags setf(fmtflags f, fmtflags m) { auto o = m_flags; m_flags = (m_flags & ~m) | (f & m); return o; }
    void unsetf(fmtflags m) { m_flags &= ~m; }
    streamsize precision() const { return m_prec; }
    streamsize precision(streamsize p) { auto o = m_prec; m_prec = p; return o; }
    streamsize width() const { return m_width; }
    streamsize width(streamsize w) { auto o = m_width; m_width = w; return o; }
    locale imbue(const locale&) { return locale(); }
    locale getloc() const { return locale(); }
    static bool sync_with_stdio(bool = true) { return true; }
    virtual ~ios_base() {}
protected:
    ios_base() {}
    fmtflags m_flags = skipws | dec; streamsize m_prec = 6, m_width = 0;
};

template <class C, class T> class basic_streambuf
{
public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef streamoff off_type; typedef streamoff pos_type;
    virtual ~basic_streambuf() {}
    streamsize sputn(const C* s, streamsize n) { return xsputn(s, n); }
    int_type sputc(C c) { return xsputn(&c, 1) == 1 ? T::to_int_type(c) : T::eof(); }
    int_type sgetc() { return underflow(); }
    int_type sbumpc() { return uflow(); }
    int_type snextc() { return uflow() == T::eof() ? T::eof() : underflow(); }
    streamsize sgetn(C* s, streamsize n) { return xsgetn(s, n); }
    streamsize in_avail() { return showmanyc(); }
    int pubsync() { return sync(); }
    int_type sungetc() { return pbackfail(T::eof()); }
    int_type sputbackc(C c) { return pbackfail(T::to_int_type(c)); }
    pos_type pubseekoff(off_type o, ios_base::seekdir d, ios_base::openmode m = ios_base::in | ios_base::out) { return seekoff(o, d, m); }
    pos_type pubseekpos(pos_type p, ios_base::openmode m = ios_base::in | ios_base::out) { return seekoff(p, ios_base::beg, m); }
    locale getloc() const { return locale(); }
protected:
    basic_streambuf() {}
    virtual int_type overflow(int_type = T::eof()) { return T::eof(); }
    virtual streamsize xsputn(const C* s, streamsize n) { streamsize i = 0; for (; i < n; i++) if (overflow(T::to_int_type(s[i])) == T::eof()) break; return i; }
    virtual int_type underflow() { return T::eof(); }
    virtual int_type uflow() { return T::eof(); }
    virtual int_type pbackfail(int_type = T::eof()) { return T::eof(); }
    virtual streamsize xsgetn(C* s, streamsize n) { streamsize i = 0; for (; i < n; i++) { auto c = uflow(); if (c == T::eof()) break; s[i] = T::to_char_type(c); } return i; }
    virtual streamsize showmanyc() { return 0; }
    virtual int sync() { return 0; }
    virtual pos_type seekoff(off_type, ios_base::seekdir, ios_base::openmode = 0) { return -1; }
};

// byte sequence with a read and a write position
template <class C, class T, class A> class basic_stringbuf : public basic_streambuf<C, T>
{
public:
    typedef basic_string<C, T, A> S; typedef typename T::int_type int_type; typedef streamoff pos_type; typedef streamoff off_type;
    S* s; S own; size_t g = 0, p = 0; bool isApp = false;
    basic_stringbuf() : s(&own) {}
    explicit basic_stringbuf(ios_base::openmode) : s(&own) {}
    explicit basic_stringbuf(const S& x, ios_base::openmode = 0) : s(&own), own(x) {}
    basic_stringbuf(const basic_stringbuf& o) : s(&own), own(*o.s), g(o.g), p(o.p) {}
    S str() const { return *s; }
    void str(const S& x) { s = &own; own = x; g = p = 0; }
protected:
    int_type overflow(int_type c = T::eof()) override { C x = T::to_char_type(c); return xsputn(&x, 1) == 1 ? c : T::eof(); }
    streamsize xsputn(const C* d, streamsize n) override
    {
        if (n <= 0) return 0;
        if (isApp) p = s->size();
        if (p == s->size()) s->append(d, (size_t)n);
        else { if (p + n > s->size()) s->resize(p + n); T::move(s->data() + p, d, (size_t)n); }
        p += n; return n;
    }
    int_type underflow() override { return g < s->size() ? T::to_int_type((*s)[g]) : T::eof(); }
    int_type uflow() override { return g < s->size() ? T::to_int_type((*s)[g++]) : T::eof(); }
    int_type pbackfail(int_type = T::eof()) override { if (!g) return T::eof(); g--; return T::to_int_type((*s)[g]); }
    streamsize xsgetn(C* d, streamsize n) override { size_t k = s->size() - g; if ((size_t)n < k) k = n; if (n <= 0) k = 0; if (k) T::copy(d, s->data() + g, k); g += k; return k; }
    streamsize showmanyc() override { return s->size() - g; }
    pos_type seekoff(off_type o, ios_base::seekdir d, ios_base::openmode m) override
    {
        off_type b = d == ios_base::beg ? 0 : d == ios_base::end ? (off_type)s->size() : (m & ios_base::in) ? (off_type)g : (off_type)p;
        b += o; if (b < 0 || b > (off_type)s->size()) return -1;
        if (m & ios_base::in) g = b;
        if (m & ios_base::out) p = b;
        return b;
    }
};

template <class C, class T> class basic_ios : public ios_base
{
public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef streamoff off_type; typedef streamoff pos_type;
    explicit operator bool() const { return !fail(); }
    bool operator!() const { return fail(); }
    iostate rdstate() const { return m_state; }
    void clear(iostate s = goodbit) { m_state = m_buf ? s : s | badbit; if (m_state & m_exc) throw failure("ios"); }
    void setstate(iostate s) { clear(m_state | s); }
    bool good() const { return m_state == 0; }
    bool eof() const { return (m_state & eofbit) != 0; }
    bool fail() const { return (m_state & (failbit | badbit)) != 0; }
    bool bad() const { return (m_state & badbit) != 0; }
    iostate exceptions() const { return m_exc; }
    void exceptions(iostate e) { m_exc = e; clear(m_state); }
    basic_streambuf<C, T>* rdbuf() const { return m_buf; }
    basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b) { auto o = m_buf; m_buf = b; clear(); return o; }
    basic_ostream<C, T>* tie() const { return nullptr; }
    basic_ostream<C, T>* tie(basic_ostream<C, T>*) { return nullptr; }
    C fill() const { return m_fill; }
    C fill(C c) { C o = m_fill; m_fill = c; return o; }
    basic_ios& copyfmt(const basic_ios& o) { m_flags = o.m_flags; m_prec = o.m_prec; m_width = o.m_width; m_fill = o.m_fill; return *this; }
    char narrow(C c, char) const { return (char)c; }
    C widen(char c) const { return (C)c; }
protected:
    basic_ios() {}
    void init(basic_streambuf<C, T>* b) { m_buf = b; m_state = b ? goodbit : badbit; }
    void set_rdbuf(basic_streambuf<C, T>* b) { m_buf = b; }
    basic_streambuf<C, T>* m_buf = nullptr; iostate m_state = 0, m_exc = 0; C m_fill = (C)' ';
};

template <class C, class T> class basic_ostream : virtual public basic_ios<C, T>
{
public:
    typedef C char_type; typedef T traits_type; typedef streamoff pos_type; typedef streamoff off_type; typedef typename T::int_type int_type;
    explicit basic_ostream(basic_streambuf<C, T>* b) { this->init(b); }
    class sentry { basic_ostream& o; public: explicit sentry(basic_ostream& x) : o(x) {} explicit operator bool() const { return o.good(); } };
    basic_ostream& vp_put(const C* s, streamsize n)
    {
        if (!this->good()) { this->setstate(ios_base::failbit); return *this; }
        if (this->m_buf->sputn(s, n) != n) this->setstate(ios_base::badbit);
        return *this;
    }
    // formatted text, padded to the field width
    basic_ostream& vp_text(const C* s, streamsize n)
    {
        streamsize w = this->width(0);
        if (w > n && !(this->flags() & ios_base::left)) for (streamsize i = n; i < w; i++) { C c = this->fill(); vp_put(&c, 1); }
        vp_put(s, n);
        if (w > n && (this->flags() & ios_base::left)) for (streamsize i = n; i < w; i++) { C c = this->fill(); vp_put(&c, 1); }
        return *this;
    }
    basic_ostream& vp_int(unsigned long long v, bool neg)
    {
        C b[32]; int n = 32; unsigned base = (this->flags() & ios_base::hex) ? 16 : (this->flags() & ios_base::oct) ? 8 : 10;
        do { b[--n] = (C)("0123456789abcdef"[v % base]); v /= base; } while (v);
        if (neg) b[--n] = (C)'-'; else if (this->flags() & ios_base::showpos) b[--n] = (C)'+';
        return vp_text(b + n, 32 - n);
    }
    basic_ostream& vp_double(double v)
    {
        char t[16]; auto f = this->flags() & ios_base::floatfield;
        int mode = f == ios_base::fixed ? 1 : f == ios_base::scientific ? 2 : f == ios_base::floatfield ? 3 : 0;
        size_t n = __vp_fmt_double(v, mode, (int)this->precision(), t); C b[16]; for (size_t i = 0; i < n; i++) b[i] = (C)t[i];
        return vp_text(b, n);
    }
    basic_ostream& write(const C* s, streamsize n) { return vp_put(s, n); }
    basic_ostream& put(C c) { return vp_put(&c, 1); }
    basic_ostream& flush() { if (this->m_buf && this->good() && this->m_buf->pubsync() == -1) this->setstate(ios_base::badbit); return *this; }
    pos_type tellp() { return this->fail() ? -1 : this->m_buf->pubseekoff(0, ios_base::cur, ios_base::out); }
    basic_ostream& seekp(pos_type p) { if (!this->fail() && this->m_buf->pubseekoff(p, ios_base::beg, ios_base::out) < 0) this->setstate(ios_base::failbit); return *this; }
    basic_ostream& seekp(off_type p, ios_base::seekdir d) { if (!this->fail() && this->m_buf->pubseekoff(p, d, ios_base::out) < 0) this->setstate(ios_base::failbit); return *this; }
    basic_ostream& operator<<(bool v) { if (this->flags() & ios_base::boolalpha) { static const C t[] = {'t', 'r', 'u', 'e'}, f[] = {'f', 'a', 'l', 's', 'e'}; return v ? vp_text(t, 4) : vp_text(f, 5); } return vp_int(v, false); }
    basic_ostream& operator<<(short v) { return *this << (long long)v; }
    basic_ostream& operator<<(unsigned short v) { return vp_int(v, false); }
    basic_ostream& operator<<(int v) { return *this << (long long)v; }
    basic_ostream& operator<<(unsigned v) { return vp_int(v, false); }
    basic_ostream& operator<<(long v) { return *this << (long long)v; }
    basic_ostream& operator<<(unsigned long v) { return vp_int(v, false); }
    basic_ostream& operator<<(long long v) { return v < 0 ? vp_int(0ull - (unsigned long long)v, true) : vp_int((unsigned long long)v, false); }
    basic_ostream& operator<<(unsigned long long v) { return vp_int(v, false); }
    basic_ostream& operator<<(double v) { return vp_double(v); }
    basic_ostream& operator<<(float v) { return vp_double(v); }
    basic_ostream& operator<<(long double v) { return vp_double((double)v); }
    basic_ostream& operator<<(basic_streambuf<C, T>* b) { for (;;) { auto c = b->sbumpc(); if (c == T::eof()) break; put(T::to_char_type(c)); } return *this; }
    basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
    basic_ostream& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
    basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
protected:
    basic_ostream() {}
};
template <class C, class T, class A> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, const basic_string<C, T, A>& s) { return o.vp_text(s.data(), s.size()); }
template <class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, basic_string_view<C, T> s) { return o.vp_text(s.data(), s.size()); }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) { return o.vp_text(s, char_traits<char>::length(s)); }
template <class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, C c) { return o.vp_text(&c, 1); }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { char x = (char)c; return o.vp_text(&x, 1); }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { char x = (char)c; return o.vp_text(&x, 1); }
template <class C, class T> basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { o.put((C)'\n'); o.flush(); return o; }
template <class C, class T> basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { o.put((C)0); return o; }
template <class C, class T> basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { o.flush(); return o; }
template <class S, class V, class = enable_if_t<!is_lvalue_reference<S>::value && is_base_of<ios_base, S>::value>, class = decltype(std::declval<S&>() << std::declval<const V&>())>
S&& operator<<(S&& s, const V& v) { s << v; return std::move(s); }

inline bool vp_space(int c) { return c == ' ' || (c >= 9 && c <= 13); }

template <class C, class T> class basic_istream : virtual public basic_ios<C, T>
{
public:
    typedef C char_type; typedef T traits_type; typedef streamoff pos_type; typedef streamoff off_type; typedef typename T::int_type int_type;
    explicit basic_istream(basic_streambuf<C, T>* b) { this->init(b); }
    class sentry { bool ok; public: explicit sentry(basic_istream& x, bool noskip = false) { ok = x.vp_ready(noskip); } explicit operator bool() const { return ok; } };
    bool vp_ready(bool noskip)
    {
        if (!this->good()) { this->setstate(ios_base::failbit); return false; }
        if (!noskip && (this->flags() & ios_base::skipws)) vp_ws();
        if (!this->good()) { this->setstate(ios_base::failbit); return false; }
        return true;
    }
    void vp_ws() { for (;;) { auto c = this->m_buf->sgetc(); if (c == T::eof()) { this->setstate(ios_base::eofbit); return; } if (!vp_space((int)c)) return; this->m_buf->sbumpc(); } }
    streamsize gcount() const { return m_gc; }
    basic_istream& read(C* s, streamsize n)
    {
        m_gc = 0; if (!vp_ready(true)) return *this;
        m_gc = this->m_buf->sgetn(s, n); if (m_gc != n) this->setstate(ios_base::failbit | ios_base::eofbit);
        return *this;
    }
    streamsize readsome(C* s, streamsize n) { m_gc = 0; if (!vp_ready(true)) return 0; streamsize k = this->m_buf->in_avail(); if (n < k) k = n; m_gc = this->m_buf->sgetn(s, k); return m_gc; }
    int_type get() { m_gc = 0; if (!vp_ready(true)) return T::eof(); auto c = this->m_buf->sbumpc(); if (c == T::eof()) this->setstate(ios_base::failbit | ios_base::eofbit); else m_gc = 1; return c; }
    basic_istream& get(C& c) { auto x = get(); if (x != T::eof()) c = T::to_char_type(x); return *this; }
    int_type peek() { m_gc = 0; if (!vp_ready(true)) return T::eof(); auto c = this->m_buf->sgetc(); if (c == T::eof()) this->setstate(ios_base::eofbit); return c; }
    basic_istream& unget() { this->m_state &= ~ios_base::eofbit; if (this->m_buf->sungetc() == T::eof()) this->setstate(ios_base::badbit); return *this; }
    basic_istream& putback(C c) { this->m_state &= ~ios_base::eofbit; if (this->m_buf->sputbackc(c) == T::eof()) this->setstate(ios_base::badbit); return *this; }
    basic_istream& ignore(streamsize n = 1, int_type d = T::eof())
    {
        m_gc = 0; if (!vp_ready(true)) return *this;
        while (n == std::numeric_limits<streamsize>::max() || m_gc < n) { auto c = this->m_buf->sbumpc(); if (c == T::eof()) { this->setstate(ios_base::eofbit); break; } m_gc++; if (c == d) break; }
        return *this;
    }
    basic_istream& getline(C* s, streamsize n, C d = (C)'\n')
    {
        m_gc = 0; streamsize k = 0; if (!vp_ready(true)) { if (n > 0) *s = 0; return *this; }
        for (;;)
        {
            auto c = this->m_buf->sgetc();
            if (c == T::eof()) { this->setstate(m_gc ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); break; }
            if (T::to_char_type(c) == d) { this->m_buf->sbumpc(); m_gc++; break; }
            if (k + 1 >= n) { this->setstate(ios_base::failbit); break; }
            this->m_buf->sbumpc(); s[k++] = T::to_char_type(c); m_gc++;
        }
        if (n > 0) s[k] = 0;
        return *this;
    }
    pos_type tellg() { if (this->fail()) return -1; return this->m_buf->pubseekoff(0, ios_base::cur, ios_base::in); }
    basic_istream& seekg(pos_type p) { this->m_state &= ~ios_base::eofbit; if (!this->fail() && this->m_buf->pubseekoff(p, ios_base::beg, ios_base::in) < 0) this->setstate(ios_base::failbit); return *this; }
    basic_istream& seekg(off_type o, ios_base::seekdir d) { this->m_state &= ~ios_base::eofbit; if (!this->fail() && this->m_buf->pubseekoff(o, d, ios_base::in) < 0) this->setstate(ios_base::failbit); return *this; }
    int sync() { return 0; }
    template <class I> basic_istream& vp_int(I& v)
    {
        if (!vp_ready(false)) return *this;
        bool neg = false, any = false, ovf = false; unsigned long long x = 0; unsigned base = (this->flags() & ios_base::hex) ? 16 : (this->flags() & ios_base::oct) ? 8 : 10;
        auto c = this->m_buf->sgetc();
        if (c == '-' || c == '+') { neg = c == '-'; this->m_buf->sbumpc(); c = this->m_buf->sgetc(); }
        for (;;)
        {
            if (c == T::eof()) { this->setstate(ios_base::eofbit); break; }
            unsigned d; if (c >= '0' && c <= '9') d = c - '0'; else if (base == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (base == 16 && c >= 'A' && c <= 'F') d = c - 'A' + 10; else break;
            any = true; if (x > (~0ull - d) / base) ovf = true; else x = x * base + d;
            this->m_buf->sbumpc(); c = this->m_buf->sgetc();
        }
        if (!any) { v = 0; this->setstate(ios_base::failbit); return *this; }
        unsigned long long mx = (unsigned long long)std::numeric_limits<I>::max();
        if (std::is_signed<I>::value)
        {
            if (ovf || x > mx + (neg ? 1 : 0)) { v = neg ? std::numeric_limits<I>::min() : std::numeric_limits<I>::max(); this->setstate(ios_base::failbit); }
            else v = (I)(neg ? 0ull - x : x);
        }
        else if (ovf || x > mx) { v = std::numeric_limits<I>::max(); this->setstate(ios_base::failbit); }
        else v = (I)(neg ? 0ull - x : x);
        return *this;
    }
    basic_istream& vp_double(double& v)
    {
        if (!vp_ready(false)) return *this;
        char b[64]; size_t n = 0;
        for (;;)
        {
            auto c = this->m_buf->sgetc();
            if (c == T::eof()) { this->setstate(ios_base::eofbit); break; }
            bool tok = n && b[0] == 1;
            if (c == 1) { if (n) break; }
            else if (tok) { if (n >= 8) break; }
            else if (!((c >= '0' && c <= '9') || c == '+' || c == '-' || c == '.' || c == 'e' || c == 'E')) break;
            if (n < sizeof b - 1) b[n++] = (char)c;
            this->m_buf->sbumpc();
        }
        b[n] = 0;
        double x = 0; size_t k = n ? __vp_parse_double(b, n, &x) : 0;
        if (!k || k != n) { v = 0; this->setstate(ios_base::failbit); return *this; }
        v = x; return *this;
    }
    basic_istream& operator>>(bool& v) { int x; vp_int(x); v = x != 0; return *this; }
    basic_istream& operator>>(short& v) { return vp_int(v); }
    basic_istream& operator>>(unsigned short& v) { return vp_int(v); }
    basic_istream& operator>>(int& v) { return vp_int(v); }
    basic_istream& operator>>(unsigned& v) { return vp_int(v); }
    basic_istream& operator>>(long& v) { return vp_int(v); }
    basic_istream& operator>>(unsigned long& v) { return vp_int(v); }
    basic_istream& operator>>(long long& v) { return vp_int(v); }
    basic_istream& operator>>(unsigned long long& v) { return vp_int(v); }
    basic_istream& operator>>(double& v) { return vp_double(v); }
    basic_istream& operator>>(float& v) { double d = 0; vp_double(d); v = (float)d; return *this; }
    basic_istream& operator>>(long double& v) { double d = 0; vp_double(d); v = d; return *this; }
    basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
    basic_istream& operator>>(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
    basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
protected:
    basic_istream() {}
    streamsize m_gc = 0;
};
template <class C, class T> basic_istream<C, T>& ws(basic_istream<C, T>& i) { i.vp_ws(); return i; }
template <class C, class T> basic_istream<C, T>& operator>>(basic_istream<C, T>& i, C& c)
{
    if (!i.vp_ready(false)) return i;
    auto x = i.rdbuf()->sbumpc(); if (x == T::eof()) i.setstate(ios_base::eofbit | ios_base::failbit); else c = T::to_char_type(x);
    return i;
}
template <class C, class T, class A> basic_istream<C, T>& operator>>(basic_istream<C, T>& i, basic_string<C, T, A>& s)
{
    if (!i.vp_ready(false)) return i;
    s.clear(); streamsize n = i.width(0);
    for (;;)
    {
        auto c = i.rdbuf()->sgetc();
        if (c == T::eof()) { i.setstate(s.empty() ? ios_base::eofbit | ios_base::failbit : ios_base::eofbit); break; }
        if (vp_space((int)c)) { if (s.empty()) i.setstate(ios_base::failbit); break; }
        if (n > 0 && (streamsize)s.size() >= n) break;
        s.push_back(T::to_char_type(c)); i.rdbuf()->sbumpc();
    }
    return i;
}
template <class C, class T, class A> basic_istream<C, T>& getline(basic_istream<C, T>& i, basic_string<C, T, A>& s, C d)
{
    if (!i.vp_ready(true)) return i;
    s.clear(); bool any = false;
    for (;;)
    {
        auto c = i.rdbuf()->sbumpc();
        if (c == T::eof()) { i.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); break; }
        any = true; C x = T::to_char_type(c); if (x == d) break;
        s.push_back(x);
    }
    return i;
}
template <class C, class T, class A> basic_istream<C, T>& getline(basic_istream<C, T>& i, basic_string<C, T, A>& s) { return getline(i, s, (C)'\n'); }
template <class C, class T, class A> basic_istream<C, T>& getline(basic_istream<C, T>&& i, basic_string<C, T, A>& s, C d) { return getline(i, s, d); }
template <class C, class T, class A> basic_istream<C, T>& getline(basic_istream<C, T>&& i, basic_string<C, T, A>& s) { return getline(i, s, (C)'\n'); }
template <class S, class V, class = enable_if_t<!is_lvalue_reference<S>::value && is_base_of<ios_base, S>::value>, class = decltype(std::declval<S&>() >> std::declval<V&&>())>
S&& operator>>(S&& s, V&& v) { s >> std::forward<V>(v); return std::move(s); }

template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T>
{
public:
    typedef C char_type; typedef T traits_type; typedef streamoff pos_type; typedef streamoff off_type; typedef typename T::int_type int_type;
    explicit basic_iostream(basic_streambuf<C, T>* b) { this->init(b); }
protected:
    basic_iostream() {}
};

template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T>
{
    basic_stringbuf<C, T, A> b;
public:
    typedef basic_string<C, T, A> S;
    basic_stringstream() { this->init(&b); }
    explicit basic_stringstream(ios_base::openmode) { this->init(&b); }
    explicit basic_stringstream(const S& s, ios_base::openmode m = ios_base::in | ios_base::out) : b(s) { this->init(&b); if (m & ios_base::ate) b.p = s.size(); }
    basic_stringstream(basic_stringstream&& o) : b(o.b) { this->init(&b); this->copyfmt(o); this->m_state = o.m_state; }
    S str() const { return b.str(); }
    void str(const S& s) { b.str(s); }
    basic_string_view<C, T> view() const { return basic_string_view<C, T>(b.s->data(), b.s->size()); }
    basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&b); }
};
template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T>
{
    basic_stringbuf<C, T, A> b;
public:
    typedef basic_string<C, T, A> S;
    basic_istringstream() { this->init(&b); }
    explicit basic_istringstream(const S& s, ios_base::openmode = ios_base::in) : b(s) { this->init(&b); }
    basic_istringstream(basic_istringstream&& o) : b(o.b) { this->init(&b); this->copyfmt(o); this->m_state = o.m_state; }
    S str() const { return b.str(); }
    void str(const S& s) { b.str(s); }
    basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&b); }
};
template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T>
{
    basic_stringbuf<C, T, A> b;
public:
    typedef basic_string<C, T, A> S;
    basic_ostringstream() { this->init(&b); }
    explicit basic_ostringstream(ios_base::openmode) { this->init(&b); }
    explicit basic_ostringstream(const S& s, ios_base::openmode m = ios_base::out) : b(s) { this->init(&b); if (m & ios_base::ate) b.p = s.size(); }
    basic_ostringstream(basic_ostringstream&& o) : b(o.b) { this->init(&b); this->copyfmt(o); this->m_state = o.m_state; }
    S str() const { return b.str(); }
    void str(const S& s) { b.str(s); }
    basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&b); }
};

// Files: an in-memory store by name. "/dev/full" accepts data into its buffer and fails when it is flushed; names with
// another '/' cannot be opened. Data reaches the store when it is flushed, closed or the buffer is destroyed.
struct vp_file { string name, data; vp_file* next; };
inline vp_file*& vp_files() { static vp_file* f = nullptr; return f; }
inline vp_file* vp_find(const string& n) { for (auto* f = vp_files(); f; f = f->next) if (f->name == n) return f; return nullptr; }

template <class C, class T> class basic_filebuf : public basic_stringbuf<C, T, allocator<C>>
{
public:
    vp_file* f = nullptr; bool full = false, isOpen = false, rd = false, wr = false; size_t pending = 0;
    basic_filebuf() {}
    ~basic_filebuf() override { close(); }
    bool is_open() const { return isOpen; }
    basic_filebuf* open(const string& n, ios_base::openmode m)
    {
        if (isOpen) return nullptr;
        rd = (m & ios_base::in) != 0; wr = (m & (ios_base::out | ios_base::app)) != 0;
        full = n == "/dev/full"; this->g = this->p = 0; this->own.clear(); this->s = &this->own;
        if (!full)
        {
            for (char c : n) if (c == '/') return nullptr;
            f = vp_find(n);
            if (!f && (!wr || (rd && !(m & (ios_base::trunc | ios_base::app))))) return nullptr;
            if (!f) { f = new vp_file{n, string(), vp_files()}; vp_files() = f; }
            if ((wr && !rd && !(m & ios_base::app)) || (m & ios_base::trunc)) f->data.clear();
            this->s = &f->data; this->isApp = (m & ios_base::app) != 0; if (m & ios_base::ate) this->g = this->p = f->data.size();
        }
        isOpen = true; return this;
    }
    basic_filebuf* close() { if (!isOpen) return nullptr; bool bad = sync() == -1; isOpen = false; this->own = *this->s; this->s = &this->own; return bad ? nullptr : this; }
    int sync() override { if (full && pending) { pending = 0; return -1; } pending = 0; return 0; }
protected:
    streamsize xsputn(const C* d, streamsize n) override { if (!isOpen || !wr) return 0; if (full) { pending += n; return n; } pending += n; return basic_stringbuf<C, T, allocator<C>>::xsputn(d, n); }
    typename T::int_type underflow() override { return isOpen && rd ? basic_stringbuf<C, T, allocator<C>>::underflow() : T::eof(); }
    typename T::int_type uflow() override { return isOpen && rd ? basic_stringbuf<C, T, allocator<C>>::uflow() : T::eof(); }
    streamsize xsgetn(C* d, streamsize n) override { return isOpen && rd ? basic_stringbuf<C, T, allocator<C>>::xsgetn(d, n) : 0; }
};
#define VP_FSTREAM(NAME, BASE, DEF, OR)                                                                                           \
    template <class C, class T> class NAME : public BASE<C, T>                                                                    \
    {                                                                                                                             \
        basic_filebuf<C, T> b;                                                                                                    \
    public:                                                                                                                       \
        NAME() { this->init(&b); }                                                                                                \
        explicit NAME(const char* n, ios_base::openmode m = DEF) { this->init(&b); open(n, m); }                                  \
        explicit NAME(const string& n, ios_base::openmode m = DEF) { this->init(&b); open(n, m); }                                \
        void open(const char* n, ios_base::openmode m = DEF) { open(string(n), m); }                                              \
        void open(const string& n, ios_base::openmode m = DEF) { if (b.open(n, m | (OR))) this->clear(); else this->setstate(ios_base::failbit); } \
        bool is_open() const { return b.is_open(); }                                                                              \
        void close() { if (!b.close()) this->setstate(ios_base::failbit); }                                                       \
        basic_filebuf<C, T>* rdbuf() const { return const_cast<basic_filebuf<C, T>*>(&b); }                                       \
    };
VP_FSTREAM(basic_ifstream, basic_istream, ios_base::in, ios_base::in)
VP_FSTREAM(basic_ofstream, basic_ostream, ios_base::out, ios_base::out)
VP_FSTREAM(basic_fstream, basic_iostream, ios_base::in | ios_base::out, 0)

inline ios_base& fixed(ios_base& s) { s.setf(ios_base::fixed, ios_base::floatfield); return s; }
inline ios_base& scientific(ios_base& s) { s.setf(ios_base::scientific, ios_base::floatfield); return s; }
inline ios_base& hexfloat(ios_base& s) { s.setf(ios_base::floatfield, ios_base::floatfield); return s; }
inline ios_base& defaultfloat(ios_base& s) { s.unsetf(ios_base::floatfield); return s; }
inline ios_base& boolalpha(ios_base& s) { s.setf(ios_base::boolalpha); return s; }
inline ios_base& noboolalpha(ios_base& s) { s.unsetf(ios_base::boolalpha); return s; }
inline ios_base& skipws(ios_base& s) { s.setf(ios_base::skipws); return s; }
inline ios_base& noskipws(ios_base& s) { s.unsetf(ios_base::skipws); return s; }
inline ios_base& dec(ios_base& s) { s.setf(ios_base::dec, ios_base::basefield); return s; }
inline ios_base& hex(ios_base& s) { s.setf(ios_base::hex, ios_base::basefield); return s; }
inline ios_base& oct(ios_base& s) { s.setf(ios_base::oct, ios_base::basefield); return s; }
inline ios_base& left(ios_base& s) { s.setf(ios_base::left, ios_base::adjustfield); return s; }
inline ios_base& right(ios_base& s) { s.setf(ios_base::right, ios_base::adjustfield); return s; }
inline ios_base& internal(ios_base& s) { s.setf(ios_base::internal, ios_base::adjustfield); return s; }
inline ios_base& showpos(ios_base& s) { s.setf(ios_base::showpos); return s; }
inline ios_base& noshowpos(ios_base& s) { s.unsetf(ios_base::showpos); return s; }
inline ios_base& showpoint(ios_base& s) { s.setf(ios_base::showpoint); return s; }
inline ios_base& noshowpoint(ios_base& s) { s.unsetf(ios_base::showpoint); return s; }
inline ios_base& uppercase(ios_base& s) { s.setf(ios_base::uppercase); return s; }
inline ios_base& nouppercase(ios_base& s) { s.unsetf(ios_base::uppercase); return s; }

struct vp_prec { int n; }; struct vp_w { int n; }; struct vp_set { unsigned f; }; struct vp_reset { unsigned f; }; template <class C> struct vp_fillc { C c; };
inline vp_prec setprecision(int n) { return {n}; }
inline vp_w setw(int n) { return {n}; }
inline vp_set setiosflags(unsigned f) { return {f}; }
inline vp_reset resetiosflags(unsigned f) { return {f}; }
template <class C> vp_fillc<C> setfill(C c) { return {c}; }
template <class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, vp_prec p) { o.precision(p.n); return o; }
template <class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, vp_w p) { o.width(p.n); return o; }
template <class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, vp_set p) { o.setf(p.f); return o; }
template <class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, vp_reset p) { o.unsetf(p.f); return o; }
template <class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, vp_fillc<C> p) { o.fill(p.c); return o; }
template <class C, class T> basic_istream<C, T>& operator>>(basic_istream<C, T>& o, vp_prec p) { o.precision(p.n); return o; }
template <class C, class T> basic_istream<C, T>& operator>>(basic_istream<C, T>& o, vp_w p) { o.width(p.n); return o; }

// console streams: output is discarded, input is empty
class vp_null : public basic_streambuf<char, char_traits<char>> { streamsize xsputn(const char*, streamsize n) override { return n; } };
inline ostream& vp_console() { static vp_null b; static ostream o(&b); return o; }
inline istream& vp_keyboard() { static vp_null b; static istream i(&b); return i; }
static ostream& cout = vp_console();
static ostream& cerr = vp_console();
static ostream& clog = vp_console();
static istream& cin = vp_keyboard();

_LIBCPP_END_NAMESPACE_STD
