// Minimal stand-in for the iostreams of libstdc++ in the symbolic build: same formatting for the operations JASS uses
// (sampled paths are re-run natively against the real library). Output to cout/cerr/clog is discarded.
#pragma once
#include <iosfwd>
#include <string>
#include <string_view>
#include <vector>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
namespace std {
	class ios_base {
	public:
		typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
		static constexpr fmtflags dec = 1, hex = 2, fixed = 4, left = 8, right = 16, boolalpha = 32, scientific = 64, oct = 128, floatfield = fixed | scientific, basefield = dec | hex | oct, adjustfield = left | right;
		static constexpr iostate goodbit = 0, badbit = 1, failbit = 2, eofbit = 4;
		static constexpr openmode in = 1, out = 2, binary = 4, app = 8, trunc = 16, ate = 32;
		static constexpr seekdir beg = 0, cur = 1, end = 2;
		fmtflags f = dec; int prec = 6, wid = 0; iostate st = 0;
		fmtflags flags() const { return f; } fmtflags flags(fmtflags n) { auto o = f; f = n; return o; } fmtflags setf(fmtflags n) { auto o = f; f |= n; return o; } fmtflags setf(fmtflags n, fmtflags m) { auto o = f; f = (f & ~m) | n; return o; } void unsetf(fmtflags n) { f &= ~n; }
		streamsize precision() const { return prec; } streamsize precision(streamsize n) { auto o = prec; prec = (int)n; return o; } streamsize width() const { return wid; } streamsize width(streamsize n) { auto o = wid; wid = (int)n; return o; }
		static bool sync_with_stdio(bool = true) { return true; }
	};
	template <class C, class T> class basic_ios : public ios_base {
	public:
		C fl = ' '; basic_ios() {} explicit basic_ios(void *) {}
		bool good() const { return st == 0; } bool eof() const { return st & eofbit; } bool fail() const { return st & (failbit | badbit); } bool bad() const { return st & badbit; } bool operator!() const { return fail(); } explicit operator bool() const { return !fail(); }
		void clear(iostate s = goodbit) { st = s; } void setstate(iostate s) { st |= s; } iostate rdstate() const { return st; } C fill() const { return fl; } C fill(C c) { C o = fl; fl = c; return o; }
		void copyfmt(const basic_ios &o) { f = o.f; prec = o.prec; wid = o.wid; fl = o.fl; } void *rdbuf() const { return nullptr; } void *rdbuf(void *) { return nullptr; }
	};
	template <class C, class T> class basic_streambuf {};
	template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
	public:
		std::string *sink = nullptr; FILE *fp = nullptr;
		basic_ostream() {} explicit basic_ostream(void *) {} virtual ~basic_ostream() {}
		void raw(const char *p, size_t n) { if (sink) sink->append(p, n); else if (fp) fwrite(p, 1, n, fp); }
		void pad(const char *p, size_t n) { size_t w = this->wid < 0 ? 0 : (size_t)this->wid; this->wid = 0; char c = this->fl; if (w > n && !(this->f & ios_base::left)) for (size_t i = n; i < w; i++) raw(&c, 1); raw(p, n); if (w > n && (this->f & ios_base::left)) for (size_t i = n; i < w; i++) raw(&c, 1); }
		void num(unsigned long long v, bool neg) { char b[32]; size_t at = 32; unsigned base = this->f & ios_base::hex ? 16 : 10; do { b[--at] = "0123456789abcdef"[v % base]; v /= base; } while (v); if (neg) b[--at] = '-'; pad(b + at, 32 - at); }
		basic_ostream &write(const C *p, streamsize n) { raw(p, (size_t)n); return *this; } basic_ostream &put(C c) { raw(&c, 1); return *this; } basic_ostream &flush() { return *this; } long tellp() { return sink ? (long)sink->size() : 0; }
		basic_ostream &operator<<(bool v) { num(v, false); return *this; } basic_ostream &operator<<(short v) { return *this << (long long)v; } basic_ostream &operator<<(unsigned short v) { num(v, false); return *this; } basic_ostream &operator<<(int v) { return *this << (long long)v; } basic_ostream &operator<<(unsigned v) { num(v, false); return *this; } basic_ostream &operator<<(long v) { return *this << (long long)v; } basic_ostream &operator<<(unsigned long v) { num(v, false); return *this; }
		basic_ostream &operator<<(long long v) { bool neg = v < 0 && !(this->f & ios_base::hex); num(neg ? 0ULL - (unsigned long long)v : (unsigned long long)v, neg); return *this; } basic_ostream &operator<<(unsigned long long v) { num(v, false); return *this; }
		basic_ostream &operator<<(double v) { char b[400]; int n = this->f & ios_base::fixed ? snprintf(b, sizeof(b), "%.*f", this->prec, v) : snprintf(b, sizeof(b), "%.*g", this->prec, v); pad(b, (size_t)n); return *this; } basic_ostream &operator<<(float v) { return *this << (double)v; } basic_ostream &operator<<(const void *) { pad("0x0", 3); return *this; }
		basic_ostream &operator<<(basic_ostream &(*m)(basic_ostream &)) { return m(*this); } basic_ostream &operator<<(ios_base &(*m)(ios_base &)) { m(*this); return *this; }
	};
	typedef basic_ostream<char, char_traits<char>> ostream;
	inline ostream &operator<<(ostream &o, const char *s) { o.pad(s, strlen(s)); return o; } inline ostream &operator<<(ostream &o, char c) { o.pad(&c, 1); return o; } inline ostream &operator<<(ostream &o, unsigned char c) { char x = (char)c; o.pad(&x, 1); return o; } inline ostream &operator<<(ostream &o, signed char c) { char x = (char)c; o.pad(&x, 1); return o; } inline ostream &operator<<(ostream &o, const unsigned char *s) { o.pad((const char *)s, strlen((const char *)s)); return o; }
	inline ostream &operator<<(ostream &o, const std::string &s) { o.pad(s.data(), s.size()); return o; } inline ostream &operator<<(ostream &o, const std::string_view &s) { o.pad(s.data(), s.size()); return o; }
	inline ostream &endl(ostream &o) { o.raw("\n", 1); return o; } inline ostream &flush(ostream &o) { return o; } inline ostream &ends(ostream &o) { o.raw("", 1); return o; }
	inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; } inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; } inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; } inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; } inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; } inline ios_base &boolalpha(ios_base &b) { return b; } inline ios_base &scientific(ios_base &b) { return b; }
	struct sym_setw { int n; }; inline sym_setw setw(int n) { return {n}; } inline ostream &operator<<(ostream &o, sym_setw s) { o.wid = s.n; return o; }
	struct sym_setp { int n; }; inline sym_setp setprecision(int n) { return {n}; } inline ostream &operator<<(ostream &o, sym_setp s) { o.prec = s.n; return o; }
	struct sym_setf { char c; }; inline sym_setf setfill(char c) { return {c}; } inline ostream &operator<<(ostream &o, sym_setf s) { o.fl = s.c; return o; }
	template <class S, class V, typename = typename enable_if<is_base_of<ostream, typename remove_reference<S>::type>::value && is_rvalue_reference<S &&>::value>::type> S &&operator<<(S &&s, const V &v) { static_cast<ostream &>(s) << v; return static_cast<S &&>(s); }
	template <class C, class T> class basic_istream : virtual public basic_ios<C, T> {
	public:
		std::string *src = nullptr; size_t at = 0; FILE *ifp = nullptr; streamsize got = 0; bool skip = true;
		basic_istream() {} virtual ~basic_istream() {}
		int next() { if (src) return at < src->size() ? (unsigned char)(*src)[at++] : -1; if (ifp) return fgetc(ifp); return -1; }
		void back(int c) { if (c < 0) return; if (src) at--; else if (ifp) ungetc(c, ifp); }
		int get() { got = 0; int c = next(); if (c < 0) this->st |= ios_base::eofbit | ios_base::failbit; else got = 1; return c; } basic_istream &get(C &c) { int x = get(); if (x >= 0) c = (C)x; return *this; } int peek() { int c = next(); if (c < 0) this->st |= ios_base::eofbit; back(c); return c; }
		basic_istream &read(C *p, streamsize n) { got = 0; while (got < n) { int c = next(); if (c < 0) { this->st |= ios_base::eofbit | ios_base::failbit; break; } p[got++] = (C)c; } return *this; }
		streamsize gcount() const { return got; }
		template <class V> basic_istream &number(V &v) { int c = next(); while (c == ' ' || (c >= 9 && c <= 13)) c = next(); bool neg = c == '-', any = false; if (neg || c == '+') c = next(); unsigned long long x = 0; while (c >= '0' && c <= '9') { x = x * 10 + (unsigned)(c - '0'); any = true; c = next(); } if (c < 0) this->st |= ios_base::eofbit; back(c); if (!any) { this->st |= ios_base::failbit; v = 0; } else v = (V)(neg ? 0 - x : x); return *this; }
		basic_istream &operator>>(int &v) { return number(v); } basic_istream &operator>>(unsigned &v) { return number(v); } basic_istream &operator>>(long &v) { return number(v); } basic_istream &operator>>(unsigned long &v) { return number(v); } basic_istream &operator>>(long long &v) { return number(v); } basic_istream &operator>>(unsigned long long &v) { return number(v); } basic_istream &operator>>(short &v) { return number(v); } basic_istream &operator>>(unsigned short &v) { return number(v); }
	};
	typedef basic_istream<char, char_traits<char>> istream;
	inline istream &getline(istream &i, std::string &s, char d = '\n') { s.clear(); if (i.fail() || i.eof()) { i.st |= ios_base::failbit; return i; } for (;;) { int c = i.next(); if (c < 0) { i.st |= ios_base::eofbit; if (s.empty()) i.st |= ios_base::failbit; return i; } if (c == (unsigned char)d) return i; s.push_back((char)c); } }
	template <class V, typename = typename enable_if<is_same<V, char>::value || is_same<V, unsigned char>::value>::type> inline istream &operator>>(istream &i, V &v) { int c = i.next(); while (i.skip && (c == ' ' || (c >= 9 && c <= 13))) c = i.next(); if (c < 0) i.setstate(ios_base::eofbit | ios_base::failbit); else v = (V)c; return i; }
	inline istream &operator>>(istream &i, std::string &s) { s.clear(); int c = i.next(); while (c == ' ' || (c >= 9 && c <= 13)) c = i.next(); while (c >= 0 && !(c == ' ' || (c >= 9 && c <= 13))) { s.push_back((char)c); c = i.next(); } if (c < 0) i.st |= ios_base::eofbit; i.back(c); if (s.empty()) i.st |= ios_base::failbit; return i; }
	struct sym_skipws { bool on; }; static const sym_skipws noskipws = {false}, skipws = {true}; inline istream &operator>>(istream &i, sym_skipws k) { i.skip = k.on; return i; }
	template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {};
	typedef basic_iostream<char, char_traits<char>> iostream; typedef basic_ios<char, char_traits<char>> ios;
	inline namespace __cxx11 {
	template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> { std::string buf; public: basic_ostringstream(unsigned = 0) { this->sink = &buf; } explicit basic_ostringstream(const std::string &s, unsigned = 0) : buf() { this->sink = &buf; (void)s; } basic_ostringstream(basic_ostringstream &&o) : buf(std::move(o.buf)) { this->sink = &buf; } basic_ostringstream(const basic_ostringstream &) = delete; std::string str() const { return buf; } void str(const std::string &s) { buf = s; } std::string_view view() const { return buf; } };
	template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T> { std::string buf; public: basic_istringstream() { this->src = &buf; } explicit basic_istringstream(const std::string &s, unsigned = 0) : buf(s) { this->src = &buf; } basic_istringstream(const basic_istringstream &) = delete; std::string str() const { return buf; } void str(const std::string &s) { buf = s; this->at = 0; } };
	template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> { std::string buf; public: basic_stringstream() { this->sink = &buf; this->src = &buf; } explicit basic_stringstream(const std::string &s) : buf(s) { this->sink = &buf; this->src = &buf; } basic_stringstream(const basic_stringstream &) = delete; std::string str() const { return buf; } void str(const std::string &s) { buf = s; this->at = 0; } };
	}
	template <class C, class T> class basic_ofstream : public basic_ostream<C, T> { public: basic_ofstream() {} explicit basic_ofstream(const char *n, unsigned m = 0) { open(n, m); } explicit basic_ofstream(const std::string &n, unsigned m = 0) { open(n.c_str(), m); } ~basic_ofstream() { close(); } void open(const char *n, unsigned m = 0) { this->fp = fopen(n, m & ios_base::app ? "a" : "w"); if (!this->fp) this->st |= ios_base::failbit; } void open(const std::string &n, unsigned m = 0) { open(n.c_str(), m); } bool is_open() const { return this->fp != nullptr; } void close() { if (this->fp) fclose(this->fp); this->fp = nullptr; } };
	template <class C, class T> class basic_ifstream : public basic_istream<C, T> { public: basic_ifstream() {} explicit basic_ifstream(const char *n, unsigned = 0) { open(n); } explicit basic_ifstream(const std::string &n, unsigned = 0) { open(n.c_str()); } ~basic_ifstream() { close(); } void open(const char *n, unsigned = 0) { this->ifp = fopen(n, "r"); if (!this->ifp) this->st |= ios_base::failbit; } void open(const std::string &n, unsigned = 0) { open(n.c_str()); } bool is_open() const { return this->ifp != nullptr; } void close() { if (this->ifp) fclose(this->ifp); this->ifp = nullptr; } };
	typedef basic_ofstream<char, char_traits<char>> ofstream; typedef basic_ifstream<char, char_traits<char>> ifstream;
	inline ostream &sym_null_stream() { static ostream s; return s; }
	static ostream &cout = sym_null_stream(), &cerr = sym_null_stream(), &clog = sym_null_stream(); static istream cin;
}
