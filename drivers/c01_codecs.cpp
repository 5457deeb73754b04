/*
	C01: integer codecs are lossless and stay inside their buffers.

	Every codec is driven over sequences whose shape is chosen to reach selector, run, exception and block boundaries.  The
	source array and the destination buffer are exact-size heap allocations, so AddressSanitizer is the oracle for reads and
	writes outside them; the decode target has a canary region; the round trip is the oracle for losslessness.
*/
#include "common.h"
#include "codec.h"
#include "compress_integer_lyck_16.h"
#include "compress_integer_nybble_8.h"

using namespace vf;
typedef uint32_t integer;

struct profile
{
	const char *name;
	uint32_t low;			// smallest integer it can encode
	uint32_t bits;			// widest integer it is documented to encode
};

/*
	Domains: as each class' own documentation and unit test state them.
*/
static const std::vector<profile> codecs =
{
	{"-cc", 0, 28}, {"-cC", 1, 32}, {"-cd", 1, 32}, {"-cD", 1, 32}, {"-ce", 1, 32}, {"-cE", 0, 32}, {"-cF", 0, 32}, {"-cg", 1, 32}, {"-cG", 1, 32},
	{"-cn", 0, 32}, {"-cp", 0, 28}, {"-cq", 0, 28}, {"-cQ", 0, 32}, {"-cr", 0, 28}, {"-cs", 0, 28}, {"-ct", 0, 28}, {"-cT", 0, 32}, {"-cv", 0, 32},
	{"-cV", 0, 32}, {"-cX", 0, 32}, {"-cx", 0, 32}, {"-cZ", 0, 32}, {"-c128", 0, 32}, {"-c256", 0, 32}, {"-c32r", 0, 32}, {"-c64", 0, 32},
	{"lyck_16", 0, 16}, {"nybble_8", 0, 8},
};

static std::unique_ptr<JASS::compress_integer> make(const std::string &name)
{
	if (name == "lyck_16") return std::make_unique<JASS::compress_integer_lyck_16>();
	if (name == "nybble_8") return std::make_unique<JASS::compress_integer_nybble_8>();

	return codec_by_flag(name);
}

static JASS::compress_integer &get(size_t which)
{
	// one long lived object per codec: statelessness across encodes is part of the property
	static std::vector<std::unique_ptr<JASS::compress_integer>> made(codecs.size());
	if (!made[which]) made[which] = make(codecs[which].name);
	return *made[which];
}

static uint32_t of_bits(rng &r, uint32_t bits)
{
	if (bits == 0) return 0;
	uint64_t top = (uint64_t)1 << (bits - 1);
	switch (r.below(4))
		{
		case 0: return (uint32_t)((top << 1) - 1);
		case 1: return (uint32_t)top;
		default: return (uint32_t)(top + r.below(top));
		}
}

static uint32_t clamp(const profile &p, uint64_t v)
{
	uint64_t high = p.bits == 32 ? 0xFFFFFFFFULL : ((uint64_t)1 << p.bits) - 1;
	if (v < p.low) v = p.low;
	if (v > high) v = high;
	return (uint32_t)v;
}

static size_t length_of(rng &r)
{
	static const std::vector<size_t> edges = {1, 2, 3, 4, 5, 7, 8, 9, 14, 15, 16, 17, 27, 28, 29, 31, 32, 33, 56, 60, 63, 64, 65, 120, 127, 128, 129, 240, 255, 256, 257, 384, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049};
	switch (r.below(10))
		{
		case 0: case 1: case 2: return r.range(1, 40);
		case 3: case 4: return r.range(1, 300);
		case 5: case 6: case 7: return r.pick(edges);
		case 8: return r.range(1, 3000);
		default: return g().thorough && r.chance(0.2) ? r.range(3000, 70000) : r.range(200, 5000);
		}
}

static std::vector<integer> sequence(rng &r, const profile &p, size_t n, std::string &shape)
{
	std::vector<integer> v(n);
	uint32_t maxbits = r.chance(0.5) ? p.bits : (uint32_t)r.range(1, p.bits);
	switch (r.below(10))
		{
		case 0:		// constant width
			shape = "constant-width";
			{ uint32_t b = r.range(0, maxbits); for (auto &x : v) x = clamp(p, of_bits(r, b)); }
			break;
		case 1:		// constant value
			shape = "constant-value";
			{ uint32_t c = clamp(p, of_bits(r, r.range(0, maxbits))); for (auto &x : v) x = c; }
			break;
		case 2:		// any width each
			shape = "any-width";
			for (auto &x : v) x = clamp(p, of_bits(r, r.range(0, maxbits)));
			break;
		case 3:		// narrow with rare wide outliers
			shape = "outliers";
			{ uint32_t b = r.range(0, std::min(maxbits, 8U)); double rate = r.pick(std::vector<double>{0.002, 0.01, 0.05, 0.2}); for (auto &x : v) x = clamp(p, of_bits(r, r.chance(rate) ? r.range(b, maxbits) : b)); }
			break;
		case 4:		// runs of the same width
			shape = "runs";
			for (size_t i = 0; i < n;)
				{
				size_t run = r.chance(0.5) ? r.range(1, 12) : r.range(1, 260);
				uint32_t b = r.range(0, maxbits);
				bool full = r.chance(0.3);
				for (size_t j = 0; j < run && i < n; j++, i++)
					v[i] = clamp(p, full ? ((uint64_t)1 << b) - 1 : of_bits(r, r.range(0, b)));
				}
			break;
		case 5:		// geometric (d-gap like)
			shape = "geometric";
			{ double q = r.pick(std::vector<double>{0.5, 0.1, 0.01, 0.001}); for (auto &x : v) { uint64_t g = 1; while (!r.chance(q) && g < 100000) g++; x = clamp(p, g); } }
			break;
		case 6:		// zeros and ones with interruptions
			shape = "sparse";
			{ double rate = r.real(); for (auto &x : v) x = clamp(p, r.chance(rate) ? p.low : r.chance(0.9) ? 1 : of_bits(r, r.range(0, maxbits))); }
			break;
		case 7:		// widths going up or down
			shape = "ramp";
			{ bool up = r.chance(0.5); for (size_t i = 0; i < n; i++) { uint32_t b = (uint32_t)(maxbits * (up ? i : n - 1 - i) / std::max<size_t>(1, n - 1)); v[i] = clamp(p, of_bits(r, b)); } }
			break;
		case 8:		// last integer(s) wide: tail handling
			shape = "wide-tail";
			{ uint32_t b = r.range(0, std::min(maxbits, 4U)); for (auto &x : v) x = clamp(p, of_bits(r, b)); size_t k = std::min<size_t>(n, r.range(1, 3)); for (size_t i = 0; i < k; i++) v[n - 1 - i] = clamp(p, of_bits(r, maxbits)); }
			break;
		default:		// the exact bit pattern of every width
			shape = "cycle";
			for (size_t i = 0; i < n; i++) v[i] = clamp(p, of_bits(r, (uint32_t)(i % (maxbits + 1))));
			break;
		}
	return v;
}

static constexpr size_t OUT_SLACK = 2048;		// "it may decode more": integers
static constexpr size_t IN_SLACK = 64;			// the readers of an index always have more file after a list: bytes
static const uint32_t CANARY = 0xA5C3B5D7;

static std::string describe(const profile &p, const std::string &shape, const std::vector<integer> &v)
{
	return std::string("codec ") + p.name + " shape " + shape + " " + show(v, 48);
}

/*
	Decode what encode produced and compare.
*/
static bool fits_in_first_word(const profile &p, const std::vector<integer> &v)
{
	// carry-8b refuses anything that needs only its first (57-bit) codeword, and the unit test of the class demands it
	if (strcmp(p.name, "-cC") != 0) return false;
	uint32_t largest = *std::max_element(v.begin(), v.end());
	size_t bits = 1;
	while (bits < 32 && (largest >> bits)) bits++;
	return v.size() <= 57 / bits;
}

static bool decode_and_compare(JASS::compress_integer &c, const profile &p, const std::vector<integer> &v, const uint8_t *encoded, size_t used, const std::string &what, const std::string &shape)
{
	uint8_t *copy = (uint8_t *)malloc(used + IN_SLACK);
	memcpy(copy, encoded, used);
	memset(copy + used, 0xCC, IN_SLACK);			// what follows a list in an index is some other list
	integer *decoded = (integer *)malloc((v.size() + OUT_SLACK) * sizeof(integer));
	for (size_t i = 0; i < v.size() + OUT_SLACK; i++) decoded[i] = CANARY;
	c.decode(decoded, v.size(), copy, used);
	bool same = memcmp(decoded, v.data(), v.size() * sizeof(integer)) == 0;
	if (!same)
		{
		size_t at = 0;
		while (decoded[at] == v[at]) at++;
		violation(std::string("lossy:") + what + ":" + p.name, describe(p, shape, v) + " first difference at " + std::to_string(at) + ": wrote " + std::to_string(v[at]) + " read " + std::to_string(decoded[at]));
		}
	free(decoded);
	free(copy);
	return same;
}

static void roundtrip(rng &r, uint64_t index)
{
	size_t which = index % codecs.size();
	const profile &p = codecs[which];
	JASS::compress_integer &c = get(which);
	size_t n = length_of(r);
	std::string shape;
	std::vector<integer> v = sequence(r, p, n, shape);
	evaluation();
	tally(std::string("sequences through ") + p.name);
	exact source(v.data(), v.size() * sizeof(integer));

	size_t room = v.size() * 16 + 4096;
	uint8_t *big = (uint8_t *)malloc(room);
	memset(big, 0x5A, room);
	size_t used = c.encode(big, room, (integer *)source.data, v.size());
	if (used == 0 && fits_in_first_word(p, v))
		{
		violation("no-room:carry-8b-single-codeword", describe(p, shape, v) + " cannot be encoded whatever the room");
		free(big);
		return;
		}
	if (!check(used != 0 && used <= room, std::string("no-room:") + p.name, describe(p, shape, v) + " encode into a buffer of " + std::to_string(room) + " bytes returned " + std::to_string(used)))
		{
		free(big);
		return;
		}
	check(memcmp(source.data, v.data(), v.size() * sizeof(integer)) == 0, std::string("source-changed:") + p.name, describe(p, shape, v));
	for (size_t i = used + 64; i < room; i++)
		;	// nothing is claimed about bytes between the reported length and the end of the buffer
	decode_and_compare(c, p, v, big, used, "roundtrip", shape);
	nontrivial(mix(hash(v), which));
	if (index < codecs.size() && n < 60) sample(describe(p, shape, v) + " -> " + std::to_string(used) + " bytes");

	/*
		A fresh object, and the long lived one after unrelated work, must produce an equivalent encoding
	*/
	if (r.chance(0.03))
		{
		auto fresh = make(p.name);
		uint8_t *again = (uint8_t *)malloc(room);
		size_t used2 = fresh->encode(again, room, (integer *)source.data, v.size());
		check(used2 == used, std::string("history-dependent-length:") + p.name, describe(p, shape, v) + " long lived object used " + std::to_string(used) + " bytes, a fresh one " + std::to_string(used2));
		if (used2 != 0)
			decode_and_compare(c, p, v, again, used2, "cross-object", shape);
		free(again);
		}

	/*
		Short destinations: exact fit, a little short, very short.
	*/
	std::vector<size_t> rooms = {used, used - 1, used + 1, used / 2, (size_t)r.below(used + 32), (size_t)r.below(24)};
	for (size_t small : rooms)
		{
		/*
			A canary rather than a red zone: the overrun is then a violation of this codec and not the end of the run.
		*/
		static std::vector<uint8_t> canary;
		size_t guard = v.size() * 40 + 8192;
		if (canary.size() < small + guard) canary.assign(small + guard, 0xB7);
		uint8_t *tight = canary.data();
		size_t got = c.encode(tight, small, (integer *)source.data, v.size());
		tally("short destinations");
		size_t beyond = 0;
		static const std::vector<uint8_t> clean_bytes(1 << 22, 0xB7);
		size_t look = std::min(guard, clean_bytes.size());
		if (memcmp(tight + small, clean_bytes.data(), look) != 0)
			for (size_t i = look; i > 0; i--)
				if (tight[small + i - 1] != 0xB7) { beyond = i; break; }
		bool inside = check(beyond == 0, std::string("overrun:") + p.name, describe(p, shape, v) + " (needs " + std::to_string(used) + " bytes) destination of " + std::to_string(small) + " bytes, wrote " + std::to_string(beyond) + " bytes past it");
		if (check(got <= small, std::string("overlong:") + p.name, describe(p, shape, v) + " destination of " + std::to_string(small) + " bytes, encode claims to have used " + std::to_string(got)) && got != 0 && inside)
			{
			tally("short destinations that fitted");
			decode_and_compare(c, p, v, tight, got, "short-destination", shape);
			}
		memset(tight, 0xB7, small + beyond);
		}
}

/*
	Small sequences exhaustively: every length up to 3 over a set of boundary values, for every codec
*/
static void small(rng &r, uint64_t index)
{
	size_t which = index % codecs.size();
	const profile &p = codecs[which];
	JASS::compress_integer &c = get(which);
	std::vector<uint64_t> values = {0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 4095, 4096, 16383, 16384, 32767, 65535, 65536, 0xFFFFF, 0x1FFFFF, 0x200000, 0xFFFFFF, 0x7FFFFFF, 0xFFFFFFF, 0x10000000, 0x3FFFFFFF, 0x7FFFFFFF, 0x80000000ULL, 0xFFFFFFFFULL};
	std::vector<uint64_t> ok;
	for (auto v : values) if (clamp(p, v) == v) ok.push_back(v);
	std::vector<integer> v;
	uint8_t buffer[4096];
	auto one = [&]()
		{
		evaluation();
		size_t used = c.encode(buffer, sizeof(buffer), v.data(), v.size());
		if (used == 0 && fits_in_first_word(p, v)) { violation("no-room:carry-8b-single-codeword", describe(p, "small", v)); return; }
		if (check(used != 0 && used <= sizeof(buffer), std::string("no-room:") + p.name, describe(p, "small", v)))
			decode_and_compare(c, p, v, buffer, used, "small", "small");
		};
	for (auto a : ok) { v = {(integer)a}; one(); }
	for (auto a : ok) for (auto b : ok) { v = {(integer)a, (integer)b}; one(); }
	for (size_t i = 0; i < 400; i++) { v = {(integer)r.pick(ok), (integer)r.pick(ok), (integer)r.pick(ok)}; one(); }
	// and every length of a constant
	for (size_t n = 1; n <= 300; n++) { uint32_t x = r.pick(ok); v.assign(n, x); size_t used; std::vector<uint8_t> out(n * 16 + 1024); evaluation(); used = c.encode(out.data(), out.size(), v.data(), n); if (used == 0 && fits_in_first_word(p, v)) continue; if (check(used != 0, std::string("no-room:") + p.name, describe(p, "small", v))) decode_and_compare(c, p, v, out.data(), used, "small", "constant"); }
	nontrivial(mix(which, 77));
	tally(std::string("small sequences enumerated, codecs"));
}

/*
	D1 / Dn gap coding, in place and out of place, alone and through a codec
*/
static void gaps(rng &r, uint64_t index)
{
	size_t n = length_of(r);
	std::vector<integer> v(n);
	bool sorted = r.chance(0.7);
	uint64_t at = r.chance(0.5) ? 1 : r.below(1000);
	for (auto &x : v)
		if (sorted) { x = (integer)at; at += r.chance(0.7) ? r.range(1, 20) : r.range(1, 5000); }
		else x = (integer)r.next();
	evaluation();
	nontrivial(hash(v));
	size_t d = r.chance(0.4) ? 1 : r.range(1, std::min<size_t>(63, n));
	for (int in_place = 0; in_place < 2; in_place++)
		{
		integer *source = (integer *)malloc(n * sizeof(integer));
		memcpy(source, v.data(), n * sizeof(integer));
		integer *into = in_place ? source : (integer *)malloc(n * sizeof(integer));
		size_t got = JASS::compress_integer::dn_encode(into, source, n, d);
		check(got == n, "gap-count", "dn_encode returned " + std::to_string(got));
		std::vector<integer> expect(n);
		for (size_t i = 0; i < n; i++) expect[i] = i < d ? v[i] : v[i] - v[i - d];
		check(memcmp(into, expect.data(), n * sizeof(integer)) == 0, "dn-encode", "d=" + std::to_string(d) + " in_place=" + std::to_string(in_place) + " " + show(v));
		integer *out = in_place ? into : (integer *)malloc(n * sizeof(integer));
		got = JASS::compress_integer::dn_decode(out, into, n, d);
		check(got == n && memcmp(out, v.data(), n * sizeof(integer)) == 0, "dn-decode", "d=" + std::to_string(d) + " in_place=" + std::to_string(in_place) + " " + show(v));
		if (!in_place) { free(into); free(out); }
		memcpy(source, v.data(), n * sizeof(integer));

		into = in_place ? source : (integer *)malloc(n * sizeof(integer));
		got = JASS::compress_integer::d1_encode(into, source, n);
		for (size_t i = 0; i < n; i++) expect[i] = i == 0 ? v[i] : v[i] - v[i - 1];
		check(got == n && memcmp(into, expect.data(), n * sizeof(integer)) == 0, "d1-encode", show(v));
		out = in_place ? into : (integer *)malloc(n * sizeof(integer));
		got = JASS::compress_integer::d1_decode(out, into, n);
		check(got == n && memcmp(out, v.data(), n * sizeof(integer)) == 0, "d1-decode", show(v));
		if (!in_place) { free(into); free(out); }
		free(source);
		}
	tally("gap coded sequences");
	if (sorted)
		{
		size_t which = index % codecs.size();
		const profile &p = codecs[which];
		if (p.bits < 28) return;
		std::vector<integer> coded(n);
		JASS::compress_integer::d1_encode(coded.data(), v.data(), n);
		if (coded[0] < p.low) return;
		std::vector<uint8_t> room(n * 16 + 4096);
		size_t used = get(which).encode(room.data(), room.size(), coded.data(), n);
		if (used == 0 && fits_in_first_word(p, coded)) return;
		if (check(used != 0 && used <= room.size(), std::string("no-room:") + p.name, describe(p, "gaps", coded)))
			{
			std::vector<integer> back(n + OUT_SLACK);
			room.resize(used + IN_SLACK);
			get(which).decode(back.data(), n, room.data(), used);
			JASS::compress_integer::d1_decode(back.data(), back.data(), n);
			back.resize(n);
			check(back == v, std::string("lossy:gaps:") + p.name, describe(p, "gaps", v));
			}
		}
}

/*
	The table of codecs: every entry is usable, and names agree whichever way it is looked up
*/
static void table(rng &, uint64_t)
{
	for (size_t i = 0; i < JASS::compress_integer_all::compressors_size; i++)
		{
		evaluation();
		std::array<bool, JASS::compress_integer_all::compressors_size> chosen = {};
		chosen[i] = true;
		auto by_flag = JASS::compress_integer_all::compressor(chosen);
		auto by_name = JASS::compress_integer_all::get_by_name(JASS::compress_integer_all::name(chosen));
		if (!check(by_flag != nullptr && by_name != nullptr, "table", "no compressor for entry " + std::to_string(i))) continue;
		check(typeid(*by_flag) == typeid(*by_name), "table-names", "entry " + std::to_string(i) + " is a different codec by flag and by name");
		auto &it = by_flag;
		std::vector<integer> v = {1, 2, 3, 1000, 70000};
		uint8_t out[1024];
		size_t used = it->encode(out, sizeof(out), v.data(), v.size());
		profile p = {"table", 0, 32};
		if (check(used != 0, "table", "entry " + std::to_string(i) + " encodes nothing"))
			decode_and_compare(*it, p, v, out, used, "table", "table");
		nontrivial(mix(i, 99));
		}
}

int main(int argc, char *argv[])
{
	return drive(argc, argv,
		{
		{"roundtrip", 28 * 400, 28 * 20000, roundtrip},
		{"small", 28, 28 * 8, small},
		{"gaps", 1500, 60000, gaps},
		{"table", 1, 1, table},
		});
}
