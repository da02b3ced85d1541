// Streams for the symbolic build: the part of <ios>, <istream>, <ostream>, <sstream>, <fstream> that the code uses,
// in plain C++ (the library's own streams are precompiled).  Files live in one in-memory table.
#pragma once
#include <bits/c++config.h>
#include <iosfwd>
#include <string>
#include <stdexcept>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <type_traits>
extern "C" int vf_stream_read(const char* path, std::string* out);            // 0: no such file
extern "C" int vf_stream_write(const char* path, const char* p, size_t n, int first);  // 0: failed
namespace std {
class locale { public: locale() {} };
class ios_base {
public:
    typedef unsigned iostate, openmode, fmtflags; typedef int seekdir;
    static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
    static const fmtflags hex = 1, dec = 2, left = 4, right = 8, boolalpha = 16, adjustfield = 12, basefield = 3, fixed = 32, scientific = 64, floatfield = 96, uppercase = 128, showbase = 256, skipws = 512, internal = 1024;
    static const seekdir beg = 0, cur = 1, end = 2;
    class failure : public runtime_error { public: explicit failure(const string& s) : runtime_error(s) {} };
    fmtflags flags() const { return _f; }
    fmtflags flags(fmtflags f) { fmtflags o = _f; _f = f; return o; }
    fmtflags setf(fmtflags f) { fmtflags o = _f; _f |= f; return o; }
    fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = _f; _f = (_f & ~m) | (f & m); return o; }
    void unsetf(fmtflags f) { _f &= ~f; }
    streamsize width() const { return _w; }
    streamsize width(streamsize w) { streamsize o = _w; _w = w; return o; }
    streamsize precision() const { return _p; }
    streamsize precision(streamsize p) { streamsize o = _p; _p = p; return o; }
    locale getloc() const { return locale(); }
    static bool sync_with_stdio(bool = true) { return true; }
    ios_base() : _f(dec | skipws), _w(0), _p(6) {}
    virtual ~ios_base() {}
protected:
    fmtflags _f; streamsize _w, _p;
};
inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; }
inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; }
inline ios_base& nouppercase(ios_base& b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base& showbase(ios_base& b) { b.setf(ios_base::showbase); return b; }
inline ios_base& noshowbase(ios_base& b) { b.unsetf(ios_base::showbase); return b; }
inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
template <class C, class T> class basic_streambuf {
public:
    virtual ~basic_streambuf() {}
    streamsize sputn(const C* p, streamsize n) { return put(p, n); }
    int sputc(C c) { return put(&c, 1) == 1 ? (unsigned char)c : -1; }
    int sgetc() { return peekc(); }
    int sbumpc() { int c = peekc(); if (c >= 0) nextc(); return c; }
    int snextc() { sbumpc(); return sgetc(); }
    int sungetc() { return backc(); }
    int pubsync() { return sync(); }
    virtual bool failing() { return false; }
protected:
    virtual streamsize put(const C*, streamsize) { return 0; }
    virtual int peekc() { return -1; }
    virtual void nextc() {}
    virtual int backc() { return -1; }
public:
    virtual long seek(long, int, bool) { return -1; }  // beg 0, cur 1, end 2
protected:
    virtual int sync() { return 0; }
};
template <class C, class T> class basic_ios : public ios_base {
public:
    typedef C char_type; typedef T traits_type;
    basic_ios() : _b(nullptr), _s(0), _x(0), _fill(' '), _tie(nullptr) {}
    explicit basic_ios(basic_streambuf<C, T>* b) : basic_ios() { init(b); }
    iostate rdstate() const { return _s; }
    void clear(iostate s = goodbit) { _s = _b ? s : s | badbit; if (_s & _x) throw failure("stream"); }
    void setstate(iostate s) { clear(_s | s); }
    bool good() const { return _s == 0; }
    bool eof() const { return _s & eofbit; }
    bool fail() const { return _s & (badbit | failbit); }
    bool bad() const { return _s & badbit; }
    explicit operator bool() const { return !fail(); }
    bool operator!() const { return fail(); }
    iostate exceptions() const { return _x; }
    void exceptions(iostate x) { _x = x; clear(_s); }
    basic_streambuf<C, T>* rdbuf() const { return _b; }
    basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b) { auto o = _b; _b = b; clear(); return o; }
    C fill() const { return _fill; }
    C fill(C c) { C o = _fill; _fill = c; return o; }
    void _M_setstate(iostate s) { _s |= s; }
    locale imbue(const locale&) { return locale(); }
protected:
    void init(basic_streambuf<C, T>* b) { _b = b; _s = b ? goodbit : badbit; }
    basic_streambuf<C, T>* _b; iostate _s, _x; C _fill; void* _tie;
};
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
public:
    class sentry { bool ok; public: explicit sentry(basic_ostream& o) : ok(o.good()) { if (!ok) o.setstate(ios_base::failbit); } explicit operator bool() const { return ok; } };
    explicit basic_ostream(basic_streambuf<C, T>* b) { this->init(b); }
    basic_ostream& write(const C* p, streamsize n) { sentry s(*this); if (s && this->_b->sputn(p, n) != n) this->setstate(ios_base::badbit); return *this; }
    basic_ostream& put(C c) { return write(&c, 1); }
    streampos tellp() { return this->fail() ? streampos(-1) : streampos(this->_b->seek(0, 1, true)); }
    basic_ostream& seekp(streampos p) { if (!this->fail() && this->_b->seek((long)streamoff(p), 0, true) < 0) this->setstate(ios_base::failbit); return *this; }
    basic_ostream& seekp(streamoff p, ios_base::seekdir d) { if (!this->fail() && this->_b->seek((long)p, d, true) < 0) this->setstate(ios_base::failbit); return *this; }
    basic_ostream& flush() { if (this->_b && this->good() && this->_b->pubsync() == -1) this->setstate(ios_base::badbit); return *this; }
    basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
    basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    basic_ostream& operator<<(bool v) { return num(v); }
    basic_ostream& operator<<(short v) { return num(v); }
    basic_ostream& operator<<(unsigned short v) { return num(v); }
    basic_ostream& operator<<(int v) { return num(v); }
    basic_ostream& operator<<(unsigned v) { return num(v); }
    basic_ostream& operator<<(long v) { return num(v); }
    basic_ostream& operator<<(unsigned long v) { return num(v); }
    basic_ostream& operator<<(long long v) { return num(v); }
    basic_ostream& operator<<(unsigned long long v) { return num(v); }
    basic_ostream& operator<<(double v) { char b[64]; snprintf(b, sizeof b, "%g", v); return padded(b, strlen(b)); }
    basic_ostream& operator<<(float v) { return *this << (double)v; }
    basic_ostream& operator<<(long double v) { return *this << (double)v; }
    basic_ostream& operator<<(const void* v) { char b[32]; snprintf(b, sizeof b, "%p", v); return padded(b, strlen(b)); }
    basic_ostream& operator<<(basic_streambuf<C, T>* in) { int c; while ((c = in->sbumpc()) >= 0) put((C)c); return *this; }
    basic_ostream& padded(const C* p, streamsize n) {
        streamsize w = this->width(), k = w > n ? w - n : 0;
        this->width(0);
        bool l = (this->flags() & ios_base::adjustfield) == ios_base::left;
        if (!l) for (streamsize i = 0; i < k; i++) put(this->fill());
        write(p, n);
        if (l) for (streamsize i = 0; i < k; i++) put(this->fill());
        return *this;
    }
private:
    template <class I> basic_ostream& num(I v) {
        char b[32]; int n = 0; unsigned long long u = (unsigned long long)v; bool neg = false;
        int base = (this->flags() & ios_base::basefield) == ios_base::hex ? 16 : 10;
        if (base == 10 && v < 0) { neg = true; u = 0 - u; }
        else if (base == 16) u &= sizeof(I) >= 8 ? ~0ull : (1ull << (8 * sizeof(I))) - 1;
        do { int d = u % base; b[n++] = d < 10 ? '0' + d : ((this->flags() & ios_base::uppercase) ? 'A' : 'a') + d - 10; u /= base; } while (u);
        if (base == 16 && v && (this->flags() & ios_base::showbase)) { b[n++] = (this->flags() & ios_base::uppercase) ? 'X' : 'x'; b[n++] = '0'; }
        if (neg) b[n++] = '-';
        for (int i = 0; i < n / 2; i++) { char t = b[i]; b[i] = b[n - 1 - i]; b[n - 1 - i] = t; }
        return padded(b, n);
    }
};
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { return o.padded(&c, 1); }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { return o << (char)c; }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { return o << (char)c; }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) { if (!s) { o.setstate(ios_base::badbit); return o; } return o.padded(s, strlen(s)); }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const string& s) { return o.padded(s.data(), s.size()); }
template <class C, class T> basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { o.put('\n'); return o.flush(); }
template <class C, class T> basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o.put('\0'); }
template <class C, class T> basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o.flush(); }
template <class C, class T> class basic_istream : virtual public basic_ios<C, T> {
public:
    explicit basic_istream(basic_streambuf<C, T>* b) : _n(0) { this->init(b); }
    streamsize gcount() const { return _n; }
    streampos tellg() { return this->fail() ? streampos(-1) : streampos(this->_b->seek(0, 1, false)); }
    basic_istream& seekg(streampos p) { this->clear(this->rdstate() & ~ios_base::eofbit); if (!this->fail() && this->_b->seek((long)streamoff(p), 0, false) < 0) this->setstate(ios_base::failbit); return *this; }
    basic_istream& seekg(streamoff p, ios_base::seekdir d) { this->clear(this->rdstate() & ~ios_base::eofbit); if (!this->fail() && this->_b->seek((long)p, d, false) < 0) this->setstate(ios_base::failbit); return *this; }
    int sync() { return this->_b ? this->_b->pubsync() : -1; }
    basic_istream& putback(C) { return unget(); }
    basic_istream& operator>>(bool& v) { int x = 0; num(x); if (x != 0 && x != 1) { this->setstate(ios_base::failbit); x = 1; } v = x; return *this; }
    bool ready() { if (!this->good()) { this->setstate(ios_base::failbit); return false; } return true; }
    int peek() { _n = 0; if (!ready()) return -1; int c = this->_b->sgetc(); chk(); if (c < 0) this->setstate(ios_base::eofbit); return c; }
    int get() { _n = 0; if (!ready()) return -1; int c = this->_b->sbumpc(); chk(); if (c < 0) this->setstate(ios_base::eofbit | ios_base::failbit); else _n = 1; return c; }
    basic_istream& get(C& c) { int x = get(); if (x >= 0) c = (C)x; return *this; }
    basic_istream& read(C* p, streamsize n) {
        _n = 0; if (!ready()) return *this;
        while (_n < n) { int c = this->_b->sbumpc(); if (c < 0) { chk(); this->setstate(ios_base::eofbit | ios_base::failbit); break; } p[_n++] = (C)c; }
        return *this;
    }
    basic_istream& getline(C* p, streamsize n, C d = '\n') {
        _n = 0; streamsize k = 0;
        if (ready()) for (;;) {
            int c = this->_b->sgetc();
            if (c < 0) { chk(); this->setstate(_n ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); break; }
            if ((C)c == d) { this->_b->sbumpc(); _n++; break; }
            if (k + 1 >= n) { this->setstate(ios_base::failbit); break; }
            p[k++] = (C)c; _n++; this->_b->sbumpc();
        }
        if (n > 0) p[k] = 0;
        return *this;
    }
    basic_istream& ignore(streamsize n = 1, int d = -1) { _n = 0; if (ready()) while (_n < n) { int c = this->_b->sbumpc(); if (c < 0) { this->setstate(ios_base::eofbit); break; } _n++; if (c == d) break; } return *this; }
    void chk() { if (this->_b->failing()) this->setstate(ios_base::badbit); }
    basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
    basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    basic_istream& unget() { this->clear(this->rdstate() & ~ios_base::eofbit); _n = 0; if (ready() && this->_b->sungetc() < 0) this->setstate(ios_base::badbit); return *this; }
    basic_istream& operator>>(short& v) { return num(v); }
    basic_istream& operator>>(unsigned short& v) { return num(v); }
    basic_istream& operator>>(int& v) { return num(v); }
    basic_istream& operator>>(long long& v) { return num(v); }
    basic_istream& operator>>(unsigned long long& v) { return num(v); }
    basic_istream& operator>>(double& v) { return real(v); }
    basic_istream& operator>>(float& v) { double d = v; real(d); v = (float)d; return *this; }
    basic_istream& operator>>(unsigned& v) { return num(v); }
    basic_istream& operator>>(long& v) { return num(v); }
    basic_istream& operator>>(unsigned long& v) { return num(v); }
    bool skip() {
        if (!ready()) return false;
        if (!(this->flags() & ios_base::skipws)) { if (this->_b->sgetc() >= 0) return true; chk(); this->setstate(ios_base::eofbit | ios_base::failbit); return false; }
        for (;;) { int c = this->_b->sgetc(); if (c < 0) { chk(); this->setstate(ios_base::eofbit | ios_base::failbit); return false; } if (!((c == ' ') | ((c >= 9) & (c <= 13)))) return true; this->_b->sbumpc(); }
    }
    streamsize _n;
private:
    basic_istream& real(double& v) {
        if (!skip()) return *this;
        char b[64]; int n = 0, c;
        while (n < 63 && (c = this->_b->sgetc()) >= 0 && ((c >= '0' && c <= '9') || c == '+' || c == '-' || c == '.' || c == 'e' || c == 'E')) { b[n++] = (char)c; this->_b->sbumpc(); }
        b[n] = 0;
        if (this->_b->sgetc() < 0) this->setstate(ios_base::eofbit);
        char* e; v = strtod(b, &e);
        if (e == b || *e) { v = 0; this->setstate(ios_base::failbit); }
        return *this;
    }
    template <class I> basic_istream& num(I& v) {
        if (!skip()) { return *this; }
        bool neg = false; int c = this->_b->sgetc(); int d = 0; unsigned long x = 0; bool over = false;
        if (c == '-' || c == '+') { neg = c == '-'; this->_b->sbumpc(); }
        for (; (c = this->_b->sgetc()) >= '0' && c <= '9'; this->_b->sbumpc(), d++) { if (x > (~0ul - 9) / 10) over = true; x = x * 10 + (c - '0'); }
        if (c < 0) this->setstate(ios_base::eofbit);
        I lim = is_signed<I>::value ? (I)(~0ull >> (65 - 8 * sizeof(I))) : (I)~0ull;
        if (!d) { v = 0; this->setstate(ios_base::failbit); }
        else if (over || x > (unsigned long)lim + (neg && is_signed<I>::value ? 1 : 0)) { v = neg && is_signed<I>::value ? -lim - 1 : lim; this->setstate(ios_base::failbit); }
        else v = neg ? (I)(0 - x) : (I)x;
        return *this;
    }
};
template <class C, class T> basic_istream<C, T>& ws(basic_istream<C, T>& i) {
    if (i.eof() || !i.good()) { i.setstate(ios_base::failbit); return i; }
    for (;;) { int c = i.rdbuf()->sgetc(); if (c < 0) { i.chk(); i.setstate(ios_base::eofbit); return i; } if (!((c == ' ') | ((c >= 9) & (c <= 13)))) return i; i.rdbuf()->sbumpc(); }
}
inline basic_istream<char>& operator>>(basic_istream<char>& i, string& s) {
    if (!i.skip()) return i;
    s.clear();
    for (;;) { int c = i.rdbuf()->sgetc(); if (c < 0) { i.setstate(ios_base::eofbit); break; } if ((c == ' ') | ((c >= 9) & (c <= 13))) break; s.push_back((char)c); i.rdbuf()->sbumpc(); }
    return i;
}
inline basic_istream<char>& operator>>(basic_istream<char>& i, char& c) { if (i.skip()) c = (char)i.rdbuf()->sbumpc(); return i; }
inline basic_istream<char>& getline(basic_istream<char>& i, string& s, char d) {
    if (!i.ready()) return i;
    s.clear();
    bool any = false;
    for (;;) {
        int c = i.rdbuf()->sbumpc();
        if (c < 0) { if (i.rdbuf()->failing()) { i.setstate(ios_base::badbit); break; } i.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); break; }
        any = true;
        if ((char)c == d) break;
        s.push_back((char)c);
    }
    return i;
}
inline basic_istream<char>& getline(basic_istream<char>& i, string& s) { return getline(i, s, '\n'); }
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
public:
    explicit basic_iostream(basic_streambuf<C, T>* b) : basic_istream<C, T>(b), basic_ostream<C, T>(b) {}
};
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <class C, class T, class A> class basic_stringbuf : public basic_streambuf<C, T> {
public:
    basic_stringbuf() : _p(0) {}
    explicit basic_stringbuf(ios_base::openmode) : _p(0) {}
    explicit basic_stringbuf(const basic_string<C, T, A>& s, ios_base::openmode = 0) : _d(s), _p(0) {}
    basic_string<C, T, A> str() const { return _d; }
    void str(const basic_string<C, T, A>& s) { _d = s; _p = 0; }
    basic_string<C, T, A> _d; size_t _p;
    long seek(long o, int w, bool out) {
        if (out) return o == 0 && w != 0 ? (long)_d.size() : -1;
        long p = w == 0 ? o : w == 1 ? (long)_p + o : (long)_d.size() + o;
        if (p < 0 || p > (long)_d.size()) return -1;
        _p = p; return p;
    }
protected:
    streamsize put(const C* p, streamsize n) { _d.append(p, n); return n; }
    int peekc() { return _p < _d.size() ? (unsigned char)_d[_p] : -1; }
    void nextc() { _p++; }
    int backc() { return _p ? (unsigned char)_d[--_p] : -1; }
};
#define VF_SS(N, B) \
template <class C, class T, class A> class N : public B<C, T> { basic_stringbuf<C, T, A> _sb; public: \
    explicit N(ios_base::openmode = 0) : B<C, T>(nullptr) { this->init(&_sb); } \
    explicit N(const basic_string<C, T, A>& s, ios_base::openmode = 0) : B<C, T>(nullptr) { this->init(&_sb); _sb._d = s; } \
    basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&_sb); } \
    basic_string<C, T, A> str() const { return _sb._d; } \
    void str(const basic_string<C, T, A>& s) { _sb._d = s; _sb._p = 0; } };
VF_SS(basic_ostringstream, basic_ostream)
VF_SS(basic_istringstream, basic_istream)
VF_SS(basic_stringstream, basic_iostream)
_GLIBCXX_END_NAMESPACE_CXX11
template <class C, class T> class basic_filebuf : public basic_streambuf<C, T> {
public:
    string _path, _d; size_t _p; bool _open, _w, _first, _bad;
    basic_filebuf() : _p(0), _open(false), _w(false), _first(true), _bad(false) {}
    ~basic_filebuf() { close(); }
    bool is_open() const { return _open; }
    basic_filebuf* open(const char* path, ios_base::openmode m) {
        if (_open) return nullptr;
        _path = path; _p = 0; _d.clear(); _first = !(m & ios_base::app); _bad = false;
        _w = m & (ios_base::out | ios_base::app);
        if (_w) { if (!vf_stream_write(path, "", 0, _first)) return nullptr; _first = false; }
        else { int r = vf_stream_read(path, &_d); if (r == 0) return nullptr; if (r < 0) _bad = true; }
        _open = true;
        return this;
    }
    basic_filebuf* open(const string& p, ios_base::openmode m) { return open(p.c_str(), m); }
    basic_filebuf* close() { if (!_open) return nullptr; bool ok = sync() == 0; _open = false; return ok ? this : nullptr; }
    bool failing() { return _bad; }
    long seek(long o, int w, bool) {
        if (!_open || _bad) return -1;
        if (_w) return -1;
        long p = w == 0 ? o : w == 1 ? (long)_p + o : (long)_d.size() + o;
        if (p < 0) return -1;
        _p = p; return p;
    }
protected:
    streamsize put(const C* p, streamsize n) { if (!_open || !_w) return 0; _d.append(p, n); return n; }
    int sync() { if (!_open || !_w || _d.empty()) return 0; int ok = vf_stream_write(_path.c_str(), _d.data(), _d.size(), 0); if (ok) _d.clear(); return ok ? 0 : -1; }
    int peekc() { return !_w && !_bad && _p < _d.size() ? (unsigned char)_d[_p] : -1; }
    void nextc() { _p++; }
    int backc() { return _p ? (unsigned char)_d[--_p] : -1; }
};
#define VF_FS(N, B, M) \
template <class C, class T> class N : public B<C, T> { basic_filebuf<C, T> _fb; public: \
    N() : B<C, T>(nullptr) { this->init(&_fb); } \
    explicit N(const char* p, ios_base::openmode m = M) : B<C, T>(nullptr) { this->init(&_fb); open(p, m); } \
    explicit N(const string& p, ios_base::openmode m = M) : B<C, T>(nullptr) { this->init(&_fb); open(p, m); } \
    void open(const char* p, ios_base::openmode m = M) { if (_fb.open(p, m | (M))) this->clear(); else this->setstate(ios_base::failbit); } \
    void open(const string& p, ios_base::openmode m = M) { open(p.c_str(), m); } \
    bool is_open() const { return _fb.is_open(); } \
    basic_filebuf<C, T>* rdbuf() const { return const_cast<basic_filebuf<C, T>*>(&_fb); } \
    void close() { if (!_fb.close()) this->setstate(ios_base::failbit); } };
VF_FS(basic_ifstream, basic_istream, ios_base::in)
VF_FS(basic_ofstream, basic_ostream, ios_base::out)
VF_FS(basic_fstream, basic_iostream, ios_base::in)
extern basic_ostream<char, char_traits<char>> cout, cerr, clog;
extern basic_istream<char, char_traits<char>> cin;
struct _VfW { streamsize w; }; struct _VfF { char c; }; struct _VfP { streamsize p; };
inline _VfW setw(int n) { return _VfW{n}; }
inline _VfF setfill(char c) { return _VfF{c}; }
inline _VfP setprecision(int p) { return _VfP{p}; }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, _VfW w) { o.width(w.w); return o; }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, _VfF f) { o.fill(f.c); return o; }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, _VfP p) { o.precision(p.p); return o; }
}
