/*
	C19: Unicode classes and folding against the Unicode data read by another reader (lib/ucd.py), and UTF-8 against a
	decoder written from table 3-7 of the Unicode standard
*/
#include "common.h"
#include <ctype.h>
#include "unicode.h"
#include "ascii.h"
using namespace vf;
using JASS::unicode;

struct reference { uint16_t flags; std::vector<uint32_t> fold; };
static std::vector<reference> &ucd()
{
	static std::vector<reference> *table = [] {
		auto *t = new std::vector<reference>;
		const char *name = getenv("VF_UCD");
		FILE *f = name ? fopen(name, "rb") : nullptr;
		if (f == nullptr) harness_error("no reference table");
		for (size_t cp = 0; cp <= 0x10FFFF; cp++)
			{
			reference r;
			uint8_t n;
			if (fread(&r.flags, 2, 1, f) != 1 || fread(&n, 1, 1, f) != 1) harness_error("short reference table");
			r.fold.resize(n);
			if (n && fread(r.fold.data(), 4, n, f) != n) harness_error("short reference table");
			t->push_back(r);
			}
		fclose(f);
		return t;
	}();
	return *table;
}

struct klass { const char *name; std::function<int(uint32_t)> of; };
static const std::vector<klass> &classes()
{
	#define C(x) {#x, [](uint32_t c) { return unicode::x(c); }}
	static const std::vector<klass> all = {C(isalpha), C(isalnum), C(isupper), C(islower), C(isdigit), C(ispunct), C(isuspace), C(isspace), C(ismark), C(issymbol),
		C(iscntrl), C(isgraph), C(isxdigit), C(isxmlnamestartchar), C(isxmlnamechar)};
	#undef C
	return all;
}

static std::string hex(uint32_t c) { char b[16]; snprintf(b, sizeof(b), "U+%04X", c); return b; }
static std::string hexes(const std::vector<uint32_t> &v) { std::string s; for (auto c : v) s += hex(c) + " "; return s; }
static std::string bytes(const uint8_t *p, size_t n) { std::string s; char b[8]; for (size_t i = 0; i < n; i++) { snprintf(b, sizeof(b), "%02X ", p[i]); s += b; } return s; }

static const size_t block = 1024;
static void table(rng &, uint64_t index)
{
	auto &ref = ucd();
	for (uint32_t cp = (uint32_t)(index * block); cp < (index + 1) * block && cp <= 0x10FFFF; cp++)
		{
		const reference &r = ref[cp];
		for (size_t k = 0; k < classes().size(); k++)
			{
			bool want = (r.flags >> k) & 1;
			if (k >= 13 && !(r.flags >> 15)) { tally("unassigned (XML class not compared)"); continue; }
			bool got = classes()[k].of(cp) != 0;
			if (got) tally(classes()[k].name);
			if (want != got)
				violation(std::string("class:") + classes()[k].name, std::string(classes()[k].name) + "(" + hex(cp) + ") is " + std::to_string(got) + ", the Unicode data says " + std::to_string(want));
			}
		std::vector<uint32_t> a, b{7};
		for (const uint32_t *p = unicode::tocasefold(cp); *p; p++) a.push_back(*p);
		unicode::tocasefold(b, cp);
		if (a != r.fold)
			violation("fold", hex(cp) + " folds to " + hexes(a) + "rather than " + hexes(r.fold));
		if (b.size() != a.size() + 1 || b[0] != 7 || !std::equal(a.begin(), a.end(), b.begin() + 1))
			violation("fold:append", hex(cp) + " appended " + hexes(b));
		if (a.size() > unicode::max_casefold_expansion_factor)
			violation("fold:longer-than-allowed-for", hex(cp) + " folds to " + std::to_string(a.size()));
		if (!a.empty() && !(a.size() == 1 && a[0] == cp)) tally("code points that fold to something else"), nontrivial(cp), sample(hex(cp) + " folds to " + hexes(a));
		evaluation(classes().size() + 2);
		}
}

/* UTF-8 as the standard defines it */
static size_t encode(uint32_t cp, uint8_t *to)
{
	if (cp < 0x80) { to[0] = cp; return 1; }
	if (cp < 0x800) { to[0] = 0xC0 + cp / 64; to[1] = 0x80 + cp % 64; return 2; }
	if (cp < 0x10000) { to[0] = 0xE0 + cp / 4096; to[1] = 0x80 + cp / 64 % 64; to[2] = 0x80 + cp % 64; return 3; }
	to[0] = 0xF0 + cp / 262144; to[1] = 0x80 + cp / 4096 % 64; to[2] = 0x80 + cp / 64 % 64; to[3] = 0x80 + cp % 64;
	return 4;
}
static size_t decode(const uint8_t *p, size_t n, uint32_t &cp)	// length of the well formed sequence at p, or 0
{
	auto in = [&](size_t i, unsigned low, unsigned high) { return i < n && p[i] >= low && p[i] <= high; };
	auto tail = [&](size_t i) { return in(i, 0x80, 0xBF); };
	if (in(0, 0, 0x7F)) { cp = p[0]; return 1; }
	if (in(0, 0xC2, 0xDF) && tail(1)) { cp = (p[0] - 0xC0) * 64 + p[1] - 0x80; return 2; }
	if (((in(0, 0xE0, 0xE0) && in(1, 0xA0, 0xBF)) || (in(0, 0xE1, 0xEC) && tail(1)) || (in(0, 0xED, 0xED) && in(1, 0x80, 0x9F)) || (in(0, 0xEE, 0xEF) && tail(1))) && tail(2))
		{ cp = (p[0] - 0xE0) * 4096 + (p[1] - 0x80) * 64 + p[2] - 0x80; return 3; }
	if (((in(0, 0xF0, 0xF0) && in(1, 0x90, 0xBF)) || (in(0, 0xF1, 0xF3) && tail(1)) || (in(0, 0xF4, 0xF4) && in(1, 0x80, 0x8F))) && tail(2) && tail(3))
		{ cp = (p[0] - 0xF0) * 262144 + (p[1] - 0x80) * 4096 + (p[2] - 0x80) * 64 + p[3] - 0x80; return 4; }
	return 0;
}

/* buffers whose end is the end of an allocation, so that reading or writing past the end is seen */
static uint8_t *ending_at(size_t n)
{
	static uint8_t *all[8] = {};
	if (!all[n]) all[n] = (uint8_t *)malloc(n ? n : 1) ;
	return n ? all[n] : all[n] + 1;
}

static void look(const uint8_t *what, size_t n)		// decode what[0..n)
{
	uint8_t *p = ending_at(n);
	if (n) memcpy(p, what, n);
	uint32_t cp = 0;
	size_t want = decode(what, n, cp);
	size_t used = 99;
	size_t got = unicode::isutf8(p, p + n);
	uint32_t to = unicode::utf8_to_codepoint(p, p + n, used);
	evaluation();
	if (got != want)
		violation(want ? "utf8:refused" : "utf8:malformed-accepted", bytes(what, n) + " has length " + std::to_string(want) + " but isutf8() says " + std::to_string(got));
	if (used != want || to != (want ? cp : (uint32_t)unicode::replacement_character))
		violation(want ? "utf8:decode" : "utf8:malformed-decoded", bytes(what, n) + " decodes to " + hex(to) + " of length " + std::to_string(used) + ", expected " + (want ? hex(cp) : "the replacement character") + " of length " + std::to_string(want));
	if (want && unicode::utf8_bytes((const void *)p) != want)
		violation("utf8:length", bytes(what, n) + " utf8_bytes() " + std::to_string(unicode::utf8_bytes((const void *)p)));
	tally(want ? "well formed" : n == 0 ? "empty" : "malformed or truncated");
}

static void convert(rng &, uint64_t index)
{
	for (uint32_t cp = (uint32_t)(index * block); cp < (index + 1) * block; cp++)
		{
		if (cp >= 0xD800 && cp <= 0xDFFF) continue;
		uint8_t want[4];
		bool valid = cp <= 0x10FFFF;
		size_t length = valid ? encode(cp, want) : 0;
		check(unicode::utf8_bytes(cp) == length, "utf8:bytes-needed", hex(cp) + " " + std::to_string(unicode::utf8_bytes(cp)));
		for (size_t room = 0; room <= 5; room++)
			{
			uint8_t *p = ending_at(room);
			memset(p, 0xA5, room);
			size_t got = unicode::codepoint_to_utf8(p, p + room, cp);
			evaluation();
			size_t expected = length <= room ? length : 0;
			bool same = got == expected;
			for (size_t i = 0; i < room && same; i++)
				if (p[i] != (i < expected ? want[i] : 0xA5)) same = false;
			if (!same)
				violation(length > room ? "utf8:encode-without-room" : "utf8:encode", hex(cp) + " in " + std::to_string(room) + " bytes returned " + std::to_string(got) + " and wrote " + bytes(p, room));
			}
		if (!valid) { tally("code points that are too large"); continue; }
		for (size_t n = 0; n <= length; n++) look(want, n);
		uint8_t more[6];
		memcpy(more, want, length); more[length] = (uint8_t)(cp * 31 + 0x80);
		look(more, length + 1);
		}
}

static const std::vector<uint8_t> edges = {0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF};
static void malformed(rng &random, uint64_t index)	// index: the first byte
{
	uint8_t s[6];
	s[0] = (uint8_t)index;
	look(s, 1);
	for (int b = 0; b < 256; b++)
		{
		s[1] = b;
		look(s, 2);
		if (g().thorough)
			for (int c = 0; c < 256; c++) { s[2] = c; look(s, 3); for (auto d : edges) { s[3] = d; look(s, 4); } }
		else
			for (auto c : edges) { s[2] = c; look(s, 3); for (auto d : edges) { s[3] = d; look(s, 4); } }
		}
	for (int i = 0; i < 2000; i++)
		{
		for (int j = 1; j < 6; j++) s[j] = random.chance(0.5) ? random.pick(edges) : (uint8_t)random.next();
		look(s, random.range(1, 6));
		}
}

static void ascii(rng &, uint64_t)
{
	using JASS::ascii;
	for (int c = 0; c < 256; c++)
		{
		#define same(f, want) evaluation(), check(!!ascii::f((uint8_t)c) == !!(want), "ascii:" #f, "ascii::" #f "(" + std::to_string(c) + ")")
		bool low = c < 128;
		same(isascii, low);
		same(isalnum, low && ::isalnum(c)); same(isalpha, low && ::isalpha(c)); same(iscntrl, low && ::iscntrl(c)); same(isdigit, low && ::isdigit(c));
		same(isgraph, low && ::isgraph(c)); same(islower, low && ::islower(c)); same(ispunct, low && ::ispunct(c)); same(isspace, low && ::isspace(c));
		same(isupper, low && ::isupper(c)); same(isxdigit, low && ::isxdigit(c));
		if (low) same(isprint, ::isprint(c));
		same(isDNAbase, c && strchr("acgtACGT", c)); same(isvowel, c && strchr("aeiouAEIOU", c)); same(isvowely, c && strchr("aeiouyAEIOUY", c));
		#undef same
		check(ascii::tolower((uint8_t)c) == (low ? ::tolower(c) : c), "ascii:tolower", std::to_string(c));
		check(ascii::toupper((uint8_t)c) == (low ? ::toupper(c) : c), "ascii:toupper", std::to_string(c));
		/* ASCII and Unicode agree where the tokenisers rely on it */
		if (low)
			{
			check(!!ascii::isalpha(c) == !!unicode::isalpha(c) && !!ascii::isdigit(c) == !!unicode::isdigit(c) && !!ascii::isspace(c) == !!unicode::isspace(c), "ascii:differs-from-unicode", std::to_string(c));
			if (ascii::isalnum(c)) check(unicode::tocasefold((uint32_t)c)[0] == ascii::tolower(c) && unicode::tocasefold((uint32_t)c)[1] == 0, "ascii:folds-differently", std::to_string(c));
			}
		}
}

int main(int argc, char *argv[])
{
	return drive(argc, argv, {
		{"table", 0x110000 / block, 0x110000 / block, table},
		{"convert", 0x120000 / block, 0x120000 / block, convert},
		{"malformed", 256, 256, malformed},
		{"ascii", 1, 1, ascii},
	});
}
