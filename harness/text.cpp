// C16: UTF-8 encoding and decoding, character classes and case folding
#include "sym.h"
#include <string.h>
#include <stdio.h>
#include "unicode.h"
#include "ascii.h"
using namespace JASS;
extern "C" { void sym_tables(void); size_t sym_fold_count(void); uint32_t sym_fold_cp(size_t); const uint32_t *sym_fold_ref(size_t); }
// every code point, buffers of every size
extern "C" void encode_harness(void) {
	size_t b = sym_choose(6, "room"); uint8_t *buf = new uint8_t[b]; memset(buf, 0xA5, b); uint32_t cp = sym_range(0, unicode::max_codepoint, "codepoint");
	size_t want = cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4; size_t got = unicode::codepoint_to_utf8(buf, buf + b, cp);
	sym_check(unicode::utf8_bytes(cp) == want, "length of the encoding");
	if (b < want) { sym_check(got == 0, "an encoding that does not fit is refused"); int ok = 1; for (size_t i = 0; i < b; i++) ok &= buf[i] == 0xA5; sym_check(ok, "a refused encoding writes nothing"); sym_reach("refused"); return; }
	sym_check(got == want, "length of the encoding"); for (size_t i = 0; i < b; i++) sym_out(buf[i]); size_t used = 99; sym_check(unicode::utf8_bytes(buf) == got, "the first byte tells the length");
	uint8_t *exact = new uint8_t[got]; memcpy(exact, buf, got); sym_check(unicode::isutf8(exact, exact + got) == got, "the encoding is UTF-8"); uint32_t back = unicode::utf8_to_codepoint(exact, exact + got, used); sym_check(back == cp, "decoding the encoding gives the code point"); sym_check(used == got, "decoding consumes the whole encoding");
	uint8_t lead = want == 1 ? 0 : want == 2 ? 0xC0 : want == 3 ? 0xE0 : 0xF0, mask = want == 1 ? 0x80 : want == 2 ? 0xE0 : want == 3 ? 0xF0 : 0xF8; int form = (exact[0] & mask) == lead; for (size_t i = 1; i < got; i++) form &= (exact[i] & 0xC0) == 0x80; sym_check(form, "the bytes have the form UTF-8 requires");
	for (size_t cut = 1; cut < got; cut++) { uint8_t *t = new uint8_t[cut]; memcpy(t, exact, cut); used = 99; sym_check(unicode::isutf8(t, t + cut) == 0, "a truncated encoding is not UTF-8"); back = unicode::utf8_to_codepoint(t, t + cut, used); sym_check(both(back == unicode::replacement_character, used == 0), "a truncated encoding decodes to the replacement character"); delete[] t; }
	sym_reach("encoded");
}
extern "C" void beyond_harness(void) { uint32_t cp = sym_range(0x200000, 0xFFFFFFFFu, "value"); uint8_t *buf = new uint8_t[4]; sym_check(unicode::codepoint_to_utf8(buf, buf + 4, cp) == 0, "a value no encoding exists for is refused"); sym_reach("refused"); }
// every sequence of 1..5 bytes
extern "C" void decode_harness(void) {
	size_t n = 1 + sym_choose(5, "n"); uint8_t *s = new uint8_t[n]; sym_bytes(s, n, "bytes"); uint8_t c = s[0];
	size_t need = c < 0x80 ? 1 : c < 0xC0 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF8 ? 4 : 0; int good = both(need != 0, need <= n); uint32_t v = need == 1 ? c : need == 2 ? c & 0x1F : need == 3 ? c & 0x0F : c & 0x07;
	for (size_t i = 1; i < n && i < 4; i++) { int in = i < need; good &= either(!in, (s[i] & 0xC0) == 0x80); v = in ? v << 6 | (s[i] & 0x3F) : v; }
	size_t used = 99, is = unicode::isutf8(s, s + n); uint32_t got = unicode::utf8_to_codepoint(s, s + n, used); sym_out(got); sym_out(used);
	sym_check(is == (good ? need : 0), "exactly the well formed sequences are UTF-8"); sym_check(used == is, "decoding consumes the sequence, or nothing");
	sym_check(got == (good ? v > unicode::max_codepoint ? unicode::replacement_character : v : unicode::replacement_character), "well formed sequences decode to their code point, others to the replacement character"); sym_reach("decoded");
}
extern "C" void ascii_harness(void) {
	uint8_t c = sym_u8("c"); int up = both(c >= 'A', c <= 'Z'), lo = both(c >= 'a', c <= 'z'), di = both(c >= '0', c <= '9'), al = up | lo, sp = either(c == ' ', both(c >= 9, c <= 13)), ct = either(c < 32, c == 127), gr = both(c > 32, c < 127), pu = both(gr, !(al | di)), l = up ? c + 32 : c;
	int hex = either(di, both(l >= 'a', l <= 'f'));
#define SAME(a, b) ((a) != 0) == ((b) != 0)
	sym_check(SAME(ascii::isupper(c), up), "isupper"); sym_check(SAME(ascii::islower(c), lo), "islower"); sym_check(SAME(ascii::isdigit(c), di), "isdigit"); sym_check(SAME(ascii::isalpha(c), al), "isalpha"); sym_check(SAME(ascii::isalnum(c), al | di), "isalnum");
	sym_check(SAME(ascii::isspace(c), sp), "isspace"); sym_check(SAME(ascii::iscntrl(c), ct), "iscntrl"); sym_check(SAME(ascii::ispunct(c), pu), "ispunct"); sym_check(SAME(ascii::isgraph(c), gr), "isgraph"); sym_check(SAME(ascii::isxdigit(c), hex), "isxdigit");
	sym_check(SAME(ascii::isascii(c), c < 128), "isascii"); sym_check(ascii::tolower(c) == (uint8_t)l, "tolower"); sym_check(ascii::toupper(c) == (uint8_t)(lo ? c - 32 : c), "toupper");
	sym_check(SAME(ascii::isvowel(c), (l == 'a') | (l == 'e') | (l == 'i') | (l == 'o') | (l == 'u')), "isvowel"); sym_check(SAME(ascii::isDNAbase(c), (l == 'a') | (l == 'c') | (l == 'g') | (l == 't')), "isDNAbase");
	sym_out(ascii::tolower(c)); sym_reach("ascii");
}
// the Unicode tables agree with ASCII there
extern "C" void agree_harness(void) {
	sym_tables(); uint32_t c = sym_range(0, 127, "c"); uint8_t b = (uint8_t)c;
	sym_check(SAME(unicode::isupper(c), ascii::isupper(b)), "isupper"); sym_check(SAME(unicode::islower(c), ascii::islower(b)), "islower"); sym_check(SAME(unicode::isdigit(c), ascii::isdigit(b)), "isdigit"); sym_check(SAME(unicode::isalpha(c), ascii::isalpha(b)), "isalpha"); sym_check(SAME(unicode::isalnum(c), ascii::isalnum(b)), "isalnum");
	sym_check(SAME(unicode::isspace(c), ascii::isspace(b)), "isspace"); sym_check(SAME(unicode::iscntrl(c), ascii::iscntrl(b)), "iscntrl"); sym_check(SAME(unicode::isxdigit(c), ascii::isxdigit(b)), "isxdigit"); sym_check(SAME(either(unicode::ispunct(c), unicode::issymbol(c)), ascii::ispunct(b)), "punctuation and symbols");
	sym_check(SAME(unicode::isgraph(c), either(ascii::isgraph(b), c == ' ')), "isgraph");
	uint32_t k = (uint32_t)sym_concretize(c); const uint32_t *f = unicode::tocasefold(k); if (ascii::isalnum(b)) { sym_check(both(f[0] == ascii::tolower(b), f[1] == 0), "case folding"); } else sym_check(f[0] == 0, "only letters and digits have a folded form"); sym_reach("agree");
}
// relations between the classes over all of Unicode
extern "C" void classes_harness(void) {
	uint32_t c = sym_range(0, unicode::max_codepoint, "codepoint"); int al = unicode::isalpha(c) != 0, an = unicode::isalnum(c) != 0, di = unicode::isdigit(c) != 0, up = unicode::isupper(c) != 0, lo = unicode::islower(c) != 0;
	sym_check(!both(al, !an), "letters are alphanumeric"); sym_check(!both(up, !al), "upper case letters are letters"); sym_check(!both(lo, !al), "lower case letters are letters"); sym_check(!both(up, lo), "no letter is both upper and lower case");
	sym_check(!both(unicode::iscntrl(c), unicode::isgraph(c)), "control characters are not graphical"); sym_check(!both(unicode::isxmlnamestartchar(c), !unicode::isxmlnamechar(c)), "a character that starts an XML name may be in one"); sym_check(!both(unicode::isuspace(c), !unicode::isspace(c)), "spaces are white space"); sym_check(!both(an, unicode::isspace(c)), "no space is alphanumeric");
	sym_check(!both(an, !(al | di)), "alphanumerics are letters or digits"); sym_check(!both(unicode::isxdigit(c), !an), "hexadecimal digits are alphanumeric"); sym_reach("classes");
}
// folding follows the Unicode data files (independent reading of them in symcheck.py) and is stable
extern "C" void fold_harness(void) {
	sym_tables(); size_t n = sym_fold_count(), page = sym_choose((n + 63) / 64, "page"), i = sym_range(page * 64, page * 64 + 63 < n ? page * 64 + 63 : n - 1, "index"); i = sym_concretize(i); uint32_t c = sym_fold_cp(i); const uint32_t *want = sym_fold_ref(i), *got = unicode::tocasefold(c);
	size_t len = 0; int ok = 1; while (got[len]) { ok &= got[len] == want[len]; len++; } ok &= want[len] == 0; sym_check(ok, "the folded form is that of the Unicode database"); sym_check(len <= unicode::max_casefold_expansion_factor, "the folded form is no longer than the declared maximum");
	std::vector<uint32_t> v; unicode::tocasefold(v, c); sym_check(v.size() == len, "both forms of tocasefold agree"); for (size_t k = 0; k < len && k < v.size(); k++) ok &= v[k] == got[k]; sym_check(ok, "both forms of tocasefold agree"); sym_out(len); sym_reach("folded");
}
