// C23: command-line parsing
#include "sym.h"
#include <string.h>
#include <stdlib.h>
#include <string>
#include <tuple>
#include "commandline.h"
using namespace JASS;
struct values { bool flag = false, help = false; std::string text = "?"; int number = 7, least = 8; unsigned count = 9; long long wide = 10; double real = 0.5; };
static const char *const SHORT[] = {"-b", "-s", "-i", "-im", "-u", "-w", "-d", "-?"}, *const LONG[] = {"--boolean", "--str", "--int", "--int_min", "--uns", "--wide", "--dbl", "--help"};
enum { BOOL, TEXT, INT, MIN, UNS, WIDE, REAL, HELP, OPTIONS };
static bool parse(int argc, const char **argv, values &v, std::string &error) {
	auto all = std::make_tuple(commandline::note("Options"), commandline::parameter(SHORT[0], LONG[0], "flag", v.flag), commandline::parameter(SHORT[1], LONG[1], "text", v.text), commandline::parameter(SHORT[2], LONG[2], "number", v.number), commandline::parameter(SHORT[3], LONG[3], "least", v.least), commandline::note("\nMore"), commandline::parameter(SHORT[4], LONG[4], "count", v.count), commandline::parameter(SHORT[5], LONG[5], "wide", v.wide), commandline::parameter(SHORT[6], LONG[6], "real", v.real), commandline::parameter(SHORT[7], LONG[7], "help", v.help));
	return commandline::parse(argc, argv, all, error);
}
// what the command line means: an argument is the longest option name it starts with; text after the name is the value, else the next argument is
struct meaning { values v; bool error = false, loose[OPTIONS] = {false}; };
static void expect(int argc, const char **argv, meaning &m) {
	for (int at = 1; at < argc; ) {
		const char *a = argv[at++]; int which = -1; size_t longest = 0;
		for (int o = 0; o < OPTIONS; o++) for (int k = 0; k < 2; k++) { const char *name = k ? LONG[o] : SHORT[o]; size_t len = strlen(name); if (len > longest && strncmp(a, name, len) == 0) { longest = len; which = o; } }
		if (which < 0) { m.error = true; continue; }
		const char *value = a + longest; bool attached = *value != 0;
		if (which == BOOL || which == HELP) { if (attached) m.loose[which] = true; (which == BOOL ? m.v.flag : m.v.help) = true; continue; }
		if (!attached) { if (at >= argc) { m.error = true; continue; } value = argv[at++]; }
		if (which == TEXT) m.v.text = value;
		else if (which == REAL) m.v.real = strtod(value, nullptr);
		else if (which == UNS) { unsigned long long n = strtoull(value, nullptr, 0); if (n > 0xFFFFFFFFULL) m.error = m.loose[which] = true; else { m.v.count = (unsigned)n; m.loose[which] = false; } }
		else { long long n = strtoll(value, nullptr, 0); if (which == WIDE) m.v.wide = n; else if (n > 2147483647LL || n < -2147483648LL) m.error = true; else (which == INT ? m.v.number : m.v.least) = (int)n; }
	}
}
static void run(int argc, const char **argv) {
	values got; meaning want; std::string error; bool ok = parse(argc, argv, got, error); expect(argc, argv, want);
	bool fuzzy = want.loose[BOOL] || want.loose[HELP];
	if (!fuzzy) { sym_check(ok == !want.error, "parse succeeds exactly when every argument is understood"); sym_check(ok == (error == ""), "the error string is empty exactly on success"); } else if (want.error) sym_check(!ok, "an error is reported");
	if (!fuzzy) { sym_check(got.flag == want.v.flag, "boolean option"); sym_check(got.help == want.v.help, "second boolean option"); }
	sym_check(got.text == want.v.text, "string option"); sym_check(got.number == want.v.number, "integer option"); sym_check(got.least == want.v.least, "integer option whose name extends another's"); if (!want.loose[UNS]) sym_check(got.count == want.v.count, "unsigned option"); sym_check(got.wide == want.v.wide, "wide integer option"); sym_check(got.real == want.v.real, "floating-point option");
	sym_out(ok); sym_out(got.flag); sym_out(got.help); sym_out(got.number); sym_out(got.least); if (ok) sym_out(got.count); sym_out(got.wide); sym_out(got.text.size()); for (char c : got.text) sym_out(c); sym_reach(ok ? "parsed" : "refused");
}
static const char *const TOKEN[] = {"-i", "-i12", "--int", "--int-3", "--int_min", "--int_min4", "-im", "-im5", "5", "-s", "--strabc", "-s-b", "--str", "-b", "--boolean", "-u", "--uns6", "-u-1", "-d", "-d0", "--dbl-2.5", "0", "-7", "1e3", "x", "", "-", "--", "--help", "-?", "-i99999999999", "-u4294967296", "-w", "--wide-99999999999", "0x1F", "-bx"};
extern "C" void tokens_harness(void) {
	size_t n = sym_choose(sym_arg("n", 3) + 1, "n"), kinds = sym_arg("kinds", sizeof(TOKEN) / sizeof(*TOKEN)); if (kinds > sizeof(TOKEN) / sizeof(*TOKEN)) kinds = sizeof(TOKEN) / sizeof(*TOKEN);
	const char **argv = new const char *[n + 2]; argv[0] = "prog"; for (size_t i = 0; i < n; i++) { const char *t = TOKEN[sym_choose(kinds, "argument")]; char *copy = new char[strlen(t) + 1]; strcpy(copy, t); argv[i + 1] = copy; } argv[n + 1] = nullptr; run((int)n + 1, argv);
}
// arguments of any bytes
extern "C" void bytes_harness(void) {
	size_t n = 1 + sym_choose(sym_arg("n", 2), "n"), len = sym_arg("len", 3); const char **argv = new const char *[n + 2]; argv[0] = "prog";
	for (size_t i = 0; i < n; i++) { size_t l = sym_choose(len + 1, "length"); char *a = new char[l + 1]; if (l) sym_bytes(a, l, "argument"); for (size_t k = 0; k < l; k++) sym_assume(both(a[k] != 0, a[k] != 'd')); a[l] = 0; argv[i + 1] = a; } argv[n + 1] = nullptr; run((int)n + 1, argv);
}
// numbers around the limits of the types: all digits but the last one or two as given, those arbitrary
extern "C" void limits_harness(void) {
	static const char *const HEAD[] = {"214748364", "-214748364", "429496729", "922337203685477580", "-922337203685477580", "", "-", "0x7ffffff", "0xfffffff", "1844674407370955161", "0"}; static const int OPTION[] = {INT, MIN, UNS, WIDE};
	int o = OPTION[sym_choose(4, "option")]; std::string head = HEAD[sym_choose(11, "digits")], name = sym_choose(2, "long") ? LONG[o] : SHORT[o]; if (o == WIDE && head.size() == 19 && head[0] == '1') sym_kill(); // beyond 64 bits: not the type's own limit
	size_t n = head.size() + 1; char *v = new char[n + 1]; memcpy(v, head.c_str(), head.size()); v[n - 1] = (char)sym_u8("digit"); sym_assume(both(v[n - 1] >= '0', v[n - 1] <= '9')); v[n] = 0;
	const char **argv = new const char *[4]; argv[0] = "prog"; if (sym_choose(2, "attached")) { char *a = new char[name.size() + n + 1]; memcpy(a, name.c_str(), name.size()); memcpy(a + name.size(), v, n + 1); argv[1] = a; argv[2] = nullptr; run(2, argv); } else { char *a = new char[name.size() + 1]; memcpy(a, name.c_str(), name.size() + 1); argv[1] = a; argv[2] = v; argv[3] = nullptr; run(3, argv); }
}
