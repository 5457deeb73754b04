/*
	C20: the command line parser assigns exactly what it was given
*/
#include "common.h"
#include <cmath>
#include <tuple>
#include <memory>
#include "commandline.h"
using namespace vf;

/* one value of every supported type */
struct values
{
	bool b = false, c = false;
	std::string s = "before", t = "unset";
	int i = -7;
	unsigned u = 7;
	long l = -77;
	unsigned long ul = 77;
	long long ll = -777;
	unsigned long long ull = 777;
	short h = -70;
	unsigned short uh = 70;
	double d = 0.25;
	float f = 0.75f;
	std::vector<std::string> show() const
	{
		auto real = [](double v) { char x[100]; snprintf(x, sizeof(x), "%.17g", v); return std::string(x); };
		return {std::to_string(b), std::to_string(c), s, t, std::to_string(i), std::to_string(u), std::to_string(l), std::to_string(ul), std::to_string(ll), std::to_string(ull),
			std::to_string(h), std::to_string(uh), real(d), real(f)};
	}
};
static const size_t KINDS = 14;
static const char *kind_names[KINDS] = {"bool", "bool", "string", "string", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "short", "unsigned short", "double", "float"};

struct names { std::string brief, full, about; };

template <size_t... ORDER>
static bool parse_with(int argc, const char **argv, std::vector<names> &n, values &v, std::string &error, std::string &usage, std::index_sequence<ORDER...>)
{
	auto members = std::tie(v.b, v.c, v.s, v.t, v.i, v.u, v.l, v.ul, v.ll, v.ull, v.h, v.uh, v.d, v.f);
	auto all = std::make_tuple(JASS::commandline::note("SOME NOTE"), JASS::commandline::parameter(n[ORDER].brief, n[ORDER].full, n[ORDER].about, std::get<ORDER>(members))...);
	usage = JASS::commandline::usage("program", all);
	return JASS::commandline::parse(argc, argv, all, error);
}
typedef std::index_sequence<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13> forwards;
typedef std::index_sequence<13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0> backwards;
typedef std::index_sequence<4, 2, 9, 0, 13, 7, 11, 1, 5, 3, 12, 6, 8, 10> shuffled;

static std::string integer_text(rng &r, __int128 low, __int128 high, std::string &decimal)
{
	__int128 v;
	switch (r.below(6))
		{
		case 0: v = low; break;
		case 1: v = high; break;
		case 2: v = 0; break;
		case 3: v = (__int128)r.below(1000); break;
		default: { unsigned __int128 span = (unsigned __int128)(high - low) + 1; unsigned __int128 x = r.next(); if (r.chance(0.5)) x >>= r.below(63); v = low + (__int128)(x % span); }
		}
	if (v > high) v = high;
	bool negative = v < 0;
	unsigned __int128 m = negative ? -(unsigned __int128)v : v;
	decimal = (negative ? "-" : "") + std::to_string((unsigned long long)m);
	if (!negative && r.chance(0.1)) { char hex[50]; snprintf(hex, sizeof(hex), "0x%llx", (unsigned long long)m); return hex; }
	if (!negative && r.chance(0.05)) return "+" + decimal;
	return decimal;
}

static std::string a_string(rng &r, const std::vector<names> &n)
{
	switch (r.below(5))
		{
		case 0: return n[r.below(n.size())].brief;				// the value is what looks like an option
		case 1: return n[r.below(n.size())].full + "x";
		case 2: return std::string(r.below(300), 'v');
		case 3: return "a value with spaces = and \"quotes\"";
		default: return "/path/file" + std::to_string(r.below(1000));
		}
}

static void parse_case(rng &r, uint64_t number)
{
	/*
		names, many of which start with one another
	*/
	std::vector<names> n(KINDS);
	std::set<std::string> taken;
	auto fresh = [&](bool full)
		{
		for (;;)
			{
			std::string name = full ? "--" : "-";
			if (!taken.empty() && r.chance(0.4))
				{
				auto at = taken.begin();
				std::advance(at, r.below(taken.size()));
				if ((at->substr(0, 2) == "--") == full) name = *at;
				}
			for (size_t i = 0, c = r.range(1, full ? 4 : 2); i < c; i++)
				name += r.chance(0.05) ? std::string("\xe2\x84\x9d") : std::string(1, "abcdefgRT12_?"[r.below(full ? 13 : 13)]);
			if (taken.insert(name).second) return name;
			}
		};
	for (auto &x : n) { x.brief = fresh(false); x.full = fresh(true); x.about = "does " + std::to_string(r.below(1000000)) + " things"; }

	/*
		the arguments, and what each should do
	*/
	values expect;
	std::vector<std::string> want = expect.show(), args = {"program"};
	bool bad = false;
	std::set<size_t> unsure;
	std::string culprit;
	auto ambiguous = [&](const std::string &argument, const std::string &name)
		{
		for (auto &t : taken)
			if (t.size() > name.size() && argument.compare(0, t.size(), t) == 0) return true;
		return false;
		};
	size_t options = r.below(12);
	for (size_t o = 0; o < options; o++)
		{
		size_t which = r.below(KINDS);
		std::string name = r.chance(0.5) ? n[which].brief : n[which].full, text, outcome;
		bool known = true;						// is the value one that must be taken?
		if (which < 2) { args.push_back(name); want[which] = "1"; continue; }
		switch (which)
			{
			case 2: case 3: text = outcome = a_string(r, n); break;
			case 4: text = integer_text(r, INT32_MIN, INT32_MAX, outcome); break;
			case 5: text = integer_text(r, 0, UINT32_MAX, outcome); break;
			case 6: case 8: text = integer_text(r, INT64_MIN, INT64_MAX, outcome); break;
			case 7: case 9: text = integer_text(r, 0, UINT64_MAX, outcome); break;
			case 10: text = integer_text(r, INT16_MIN, INT16_MAX, outcome); break;
			case 11: text = integer_text(r, 0, UINT16_MAX, outcome); break;
			default:
				{
				double v = r.pick(std::vector<double>{0, 1, -1, 0.5, 100, -2.25, 1e10, -1e10, 1e-10, (double)r.below(100000) / 64, 3.4e38, 1e300, 2.3e-308});
				if (which == 13 && std::fabs(v) > 3.4e38) v = 12.5;
				if (which == 13) v = (float)v;
				if (which == 13 && v != 0 && std::fabs(v) < 1e-30) v = 0;
				char x[100];
				snprintf(x, sizeof(x), "%.17g", v);
				text = outcome = x;
				}
			}
		if (which >= 4 && r.chance(0.06))
			{
			/* a value that does not fit must be reported, and cannot become some other value */
			static const std::map<size_t, std::vector<std::string>> beyond = {
				{4, {"2147483648", "-2147483649", "99999999999999999999999"}}, {5, {"4294967296", "-1", "18446744073709551616"}}, {6, {"9223372036854775808", "-9223372036854775809"}},
				{7, {"18446744073709551616", "-1"}}, {8, {"9223372036854775808", "-9223372036854775809"}}, {9, {"18446744073709551616", "-5"}},
				{10, {"32768", "-32769"}}, {11, {"65536", "-1"}}, {12, {"1e999", "-1e999"}}, {13, {"1e39", "-1e39"}}};
			text = r.pick(beyond.at(which));
			known = false;
			}
		bool attached = r.chance(0.4) && !text.empty() && !ambiguous(name + text, name);
		if (attached && taken.count(name + text)) attached = false;
		if (attached) args.push_back(name + text);
		else { args.push_back(name); args.push_back(text); }
		tally(attached ? "attached values" : "separate values");
		if (known) { want[which] = outcome; unsure.erase(which); }
		else { bad = true; culprit = text; unsure.insert(which); tally("values that do not fit"); }
		}
	size_t error_kind = r.below(6);
	if (error_kind == 0)
		{
		/* an option nobody declared, anywhere between the others is as good as at the end */
		std::string odd = r.pick(std::vector<std::string>{"positional", "+x", "=", "", "zzz", "-", "--", "-zz", "--zz", "Z"});
		bool starts = false;
		for (auto &t : taken) starts = starts || odd.compare(0, t.size(), t) == 0;
		if (!starts) { args.push_back(odd); bad = true; culprit = odd; tally("unknown options"); }
		}
	else if (error_kind == 1)
		{
		size_t which = r.range(2, KINDS - 1);
		args.push_back(r.chance(0.5) ? n[which].brief : n[which].full);
		bad = true;
		culprit = "";
		tally("missing values");
		}

	/* exactly as many pointers as arguments, each text in its own exact allocation */
	std::vector<std::unique_ptr<char[]>> texts;
	std::unique_ptr<const char *[]> argv(new const char *[args.size()]);
	std::string shown;
	for (size_t i = 0; i < args.size(); i++)
		{
		texts.emplace_back(new char[args[i].size() + 1]);
		memcpy(texts.back().get(), args[i].c_str(), args[i].size() + 1);
		argv[i] = texts.back().get();
		shown += (i ? " '" : "'") + args[i].substr(0, 40) + "'";
		}
	values got;
	std::string error = "stale", usage;
	bool ok = false, threw = false;
	try
		{
		switch (r.below(3))
			{
			case 0: ok = parse_with((int)args.size(), argv.get(), n, got, error, usage, forwards()); break;
			case 1: ok = parse_with((int)args.size(), argv.get(), n, got, error, usage, backwards()); break;
			default: ok = parse_with((int)args.size(), argv.get(), n, got, error, usage, shuffled()); break;
			}
		}
	catch (std::exception &e) { threw = true; error = e.what(); }
	evaluation();
	check(!threw, "exception", shown + ": parsing throws " + error);
	if (threw) return;
	check(ok == !bad, bad ? "error-missed" : "error-invented", shown + ": " + (ok ? "success" : "failure") + " reported, with '" + error.substr(0, 200) + "'");
	check(ok == error.empty(), "error-text", shown + ": " + (ok ? "success with a message" : "failure without one"));
	if (bad && !culprit.empty()) check(error.find(culprit) != std::string::npos, "error-names", shown + ": the message '" + error.substr(0, 200) + "' does not say " + culprit);
	std::vector<std::string> have = got.show();
	for (size_t i = 0; i < KINDS; i++)
		if (!unsure.count(i))
			if (!check(have[i] == want[i], std::string("value:") + kind_names[i], shown + ": the " + kind_names[i] + " " + n[i].brief + " " + n[i].full + " is '" + have[i].substr(0, 60) + "' not '" + want[i].substr(0, 60) + "'")) break;
	for (auto &x : n)
		if (!check(usage.find(x.brief + " ") != std::string::npos && usage.find(x.full + " ") != std::string::npos && usage.find(x.about) != std::string::npos, "usage", "the usage does not show " + x.brief + " " + x.full)) break;
	nontrivial(hash(shown));
	if (number < 10) sample(shown.substr(0, 300));
}

/* things no careful user would type: any outcome but a crash, and options that were not named keep their values */
static void hostile_case(rng &r, uint64_t number)
{
	std::vector<names> n(KINDS);
	for (size_t i = 0; i < KINDS; i++) { n[i].brief = std::string("-") + (char)('a' + i); n[i].full = std::string("--") + (char)('a' + i) + "long"; n[i].about = "x"; }
	std::vector<std::string> args = {"program"};
	for (size_t i = 0, c = r.below(8); i < c; i++)
		switch (r.below(5))
			{
			case 0: args.push_back(n[r.below(KINDS)].brief); break;
			case 1: args.push_back(n[r.below(KINDS)].full); break;
			case 2: args.push_back(n[r.below(KINDS)].brief + r.pick(std::vector<std::string>{"", "abc", "-", "1x", ".", "nan", "inf", "0x", " 5", "1e5000", "\xff"})); break;
			case 3: args.push_back(r.pick(std::vector<std::string>{"abc", "", "-", "--", "nan", "-inf", "1e-400", "0x1p3", "99999999999999999999999999999999", "1 2", "\xff\xfe"})); break;
			default: { std::string x(r.below(8), 0); for (auto &ch : x) ch = (char)r.range(1, 255); args.push_back(x); }
			}
	std::vector<std::unique_ptr<char[]>> texts;
	std::unique_ptr<const char *[]> argv(new const char *[args.size()]);
	std::string shown;
	for (size_t i = 0; i < args.size(); i++)
		{
		texts.emplace_back(new char[args[i].size() + 1]);
		memcpy(texts.back().get(), args[i].c_str(), args[i].size() + 1);
		argv[i] = texts.back().get();
		shown += (i ? " '" : "'") + args[i] + "'";
		}
	values got;
	std::string error, usage;
	bool threw = false, ok = false;
	try { ok = parse_with((int)args.size(), argv.get(), n, got, error, usage, forwards()); }
	catch (std::exception &e) { threw = true; error = e.what(); }
	check(!threw, "exception", shown + ": parsing throws " + error);
	check(threw || ok == error.empty(), "error-text", shown + ": " + (ok ? "success with a message" : "failure without one"));
	if (!threw)
		{
		std::vector<std::string> have = got.show(), before = values().show();
		for (size_t i = 0; i < KINDS; i++)
			{
			bool named = false;
			for (size_t a = 1; a < args.size(); a++) named = named || args[a].compare(0, 2, n[i].brief) == 0 || args[a].compare(0, n[i].full.size(), n[i].full) == 0;
			check(named || have[i] == before[i], "untouched", shown + ": the " + kind_names[i] + " was not named but is now '" + have[i] + "'");
			}
		}
	evaluation();
	nontrivial(hash(shown));
	tally("hostile command lines");
}

int main(int argc, char *argv[])
{
	return drive(argc, argv, {{"parse", 30000, 1500000, parse_case}, {"hostile", 20000, 1000000, hostile_case}});
}
