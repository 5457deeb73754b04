/*
	C22: bit strings and bit streams behave as sequences of bits
*/
#include "common.h"
#include <limits>
#include "bitstring.h"
#include "bitstream.h"
using namespace vf;

struct model
{
	size_t length = 0;
	std::set<size_t> on;
	void resize(size_t n) { length = n; on.erase(on.lower_bound(n), on.end()); }
};

static size_t a_length(rng &r)
{
	switch (r.below(4))
		{
		case 0: return r.pick(std::vector<size_t>{0, 1, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257, 1000});
		case 1: return r.below(70);
		case 2: return r.below(700);
		default: return r.below(r.chance(0.1) ? 20000 : 3000);
		}
}

static std::string show(const model &m)
{
	std::string s = "{" + std::to_string(m.length) + ":";
	size_t n = 0;
	for (auto b : m.on) { s += " " + std::to_string(b); if (++n > 12) { s += " ..."; break; } }
	return s + "}";
}

static bool same(JASS::bitstring &b, const model &m, const std::string &op, const std::string &did)
{
	bool ok = check(b.size() == m.length, "string:size:" + op, "size() is " + std::to_string(b.size()) + " not " + std::to_string(m.length) + " after" + did);
	size_t wrong = ~(size_t)0;
	std::vector<char> flat(m.length + 512, 0);
	for (auto i : m.on) flat[i] = 1;
	for (size_t i = 0; i < m.length + 70; i++)
		if (b.getbit(i) != (flat[i] != 0)) { wrong = i; break; }
	ok = check(wrong == ~(size_t)0, "string:bits:" + op, "bit " + std::to_string(wrong) + " of " + show(m) + " is wrong after" + did) && ok;
	ok = check(b.popcount() == m.on.size(), "string:popcount:" + op, "popcount() is " + std::to_string(b.popcount()) + " for " + show(m) + " after" + did) && ok;
	if (m.length)
		{
		size_t bytes = 0;
		uint8_t *raw = b.serialise(bytes);
		ok = check(bytes * 8 >= m.length, "string:serialise:" + op, "serialise() gives " + std::to_string(bytes) + " bytes for " + std::to_string(m.length) + " bits") && ok;
		for (size_t i = 0; i < bytes * 8; i++)
			if ((bool)((raw[i / 8] >> (i % 8)) & 1) != (i < flat.size() && flat[i] != 0)) { wrong = i; break; }
		ok = check(wrong == ~(size_t)0, "string:serialise:" + op, "bit " + std::to_string(wrong) + " of the serialised " + show(m) + " is wrong after" + did) && ok;
		}
	evaluation();
	return ok;
}

static void string_case(rng &r, uint64_t number)
{
	const size_t n = 4;
	std::vector<JASS::bitstring> b(n);
	std::vector<model> m(n);
	std::string did;
	for (size_t i = 0; i < n; i++)
		{
		size_t length = a_length(r);
		b[i].resize(length);
		m[i].resize(length);
		did += " resize(" + std::to_string(i) + "," + std::to_string(length) + ")";
		if (!same(b[i], m[i], "new", did)) return;
		}
	uint64_t h = 0;
	for (size_t step = 0, steps = r.range(5, 60); step < steps; step++)
		{
		size_t i = r.below(n), op = r.below(11);
		std::string name;
		if (op <= 2)
			{
			/* a handful of single bits, some of them out of range */
			for (size_t j = 0, c = r.range(1, r.chance(0.3) ? 200 : 10); j < c; j++)
				{
				size_t at = m[i].length && r.chance(0.9) ? r.below(m[i].length) : m[i].length + r.below(200);
				if (r.chance(0.75)) { b[i].setbit(at); if (at < m[i].length) m[i].on.insert(at); }
				else { b[i].unsetbit(at); m[i].on.erase(at); }
				}
			name = "bits";
			did += " bits(" + std::to_string(i) + ")";
			}
		else if (op == 3)
			{
			size_t length = a_length(r);
			b[i].resize(length);
			m[i].resize(length);
			name = "resize";
			did += " resize(" + std::to_string(i) + "," + std::to_string(length) + ")";
			}
		else if (op == 4) { b[i].zero(); m[i].on.clear(); name = "zero"; did += " zero(" + std::to_string(i) + ")"; }
		else if (op == 5) { b[i].one(); for (size_t x = 0; x < m[i].length; x++) m[i].on.insert(x); name = "one"; did += " one(" + std::to_string(i) + ")"; }
		else if (op == 6)
			{
			/* the which-th set bit, counting from 1 */
			std::vector<size_t> on(m[i].on.begin(), m[i].on.end());
			for (size_t j = 0; j < 5; j++)
				{
				size_t which = r.range(1, on.size() + 2);
				size_t got = b[i].index(which), expect = which <= on.size() ? on[which - 1] : std::numeric_limits<size_t>::max();
				check(got == expect, "string:index", "index(" + std::to_string(which) + ") of " + show(m[i]) + " is " + std::to_string(got));
				evaluation();
				}
			continue;
			}
		else
			{
			size_t with = r.below(n), answer = r.below(n);
			if (r.chance(0.6)) while (with == i || answer == i || answer == with) with = r.below(n), answer = r.below(n);
			std::set<size_t> x = m[i].on, y = m[with].on, z;
			size_t longest = std::max(m[i].length, m[with].length);
			if (op == 7) { b[i].bit_or(b[answer], b[with]); std::set_union(x.begin(), x.end(), y.begin(), y.end(), std::inserter(z, z.end())); name = "or"; }
			else if (op == 8) { b[i].bit_and(b[answer], b[with]); std::set_intersection(x.begin(), x.end(), y.begin(), y.end(), std::inserter(z, z.end())); name = "and"; }
			else if (op == 9) { b[i].bit_xor(b[answer], b[with]); std::set_symmetric_difference(x.begin(), x.end(), y.begin(), y.end(), std::inserter(z, z.end())); name = "xor"; }
			else { b[i].bit_and_not(b[answer], b[with]); std::set_difference(x.begin(), x.end(), y.begin(), y.end(), std::inserter(z, z.end())); name = "and-not"; }
			m[i].length = m[with].length = m[answer].length = longest;			// as documented: all become as long as the longest
			m[answer].on = z;
			did += " " + name + "(" + std::to_string(answer) + "=" + std::to_string(i) + "," + std::to_string(with) + ")";
			if (!same(b[with], m[with], name, did) || !same(b[answer], m[answer], name, did)) return;
			tally("combinations");
			}
		h = mix(h, hash(name) + m[i].length * 31 + m[i].on.size());
		if (!same(b[i], m[i], name, did)) return;
		}
	nontrivial(h);
	if (number < 8) sample(did.substr(0, 300));
}

static void count_case(rng &r, uint64_t number)
{
	for (size_t i = 0; i < 200; i++)
		{
		uint64_t v = r.next();
		switch (r.below(5))
			{
			case 0: v &= r.next() & r.next(); break;
			case 1: v |= r.next() | r.next(); break;
			case 2: v = ~(uint64_t)0 << r.below(64); break;
			case 3: v = ~(uint64_t)0 >> r.below(64); break;
			default: break;
			}
		bool ok = JASS::bitstring::popcount((uint64_t)v) == (size_t)__builtin_popcountll(v)
			&& JASS::bitstring::popcount((uint32_t)v) == (size_t)__builtin_popcountll((uint32_t)v)
			&& JASS::bitstring::popcount((uint16_t)v) == (size_t)__builtin_popcountll((uint16_t)v)
			&& JASS::bitstring::popcount((uint8_t)v) == (size_t)__builtin_popcountll((uint8_t)v);
		check(ok, "popcount", "the bits of " + std::to_string(v) + " are miscounted at some width");
		evaluation();
		nontrivial(v);
		}
	if (number == 0)
		for (uint64_t v = 0; v < 65536; v++)
			{
			check(JASS::bitstring::popcount((uint16_t)v) == (size_t)__builtin_popcountll(v), "popcount", "the bits of " + std::to_string(v) + " are miscounted");
			check(JASS::bitstring::popcount((uint8_t)v) == (size_t)__builtin_popcountll((uint8_t)v), "popcount", "the bits of " + std::to_string(v) + " are miscounted");
			}
}

static void stream_case(rng &r, uint64_t number)
{
	struct field { uint64_t bits; size_t width; };
	std::vector<field> fields;
	std::vector<bool> bits;
	std::string did;
	size_t n = r.below(r.chance(0.3) ? 3 : 120);
	size_t widest = r.pick(std::vector<size_t>{1, 8, 31, 32, 33, 64});
	for (size_t i = 0; i < n; i++)
		{
		field f;
		f.width = r.range(r.chance(0.05) ? 0 : 1, widest);
		f.bits = r.chance(0.2) ? ~(uint64_t)0 : r.chance(0.2) ? 0 : r.next();
		fields.push_back(f);
		for (size_t b = f.width; b-- > 0;) bits.push_back((f.bits >> b) & 1);
		}
	if (r.chance(0.3))
		{
		/* finish exactly at the end of a word */
		field f;
		f.width = (32 - bits.size() % 32) % 32;
		f.bits = r.next();
		fields.push_back(f);
		for (size_t b = f.width; b-- > 0;) bits.push_back((f.bits >> b) & 1);
		}
	size_t words = (bits.size() + 31) / 32;
	size_t room = r.chance(0.4) ? words : r.chance(0.5) ? words + r.below(4) : r.below(words + 1);
	std::vector<uint32_t> memory(room, 0xA5A5A5A5);
	std::string about = std::to_string(bits.size()) + " bits in " + std::to_string(fields.size()) + " fields into " + std::to_string(room) + " words";
	JASS::bitstream stream;
	stream.rewind(memory.data(), room * 4 + (room < words || room == 0 ? 0 : r.below(1)));
	for (auto &f : fields)
		{
		bool zeros = f.width != 0 && (f.width == 64 ? f.bits : f.bits & (((uint64_t)1 << f.width) - 1)) == 0;
		if (f.width == 1 && r.chance(0.5)) { if (f.bits & 1) stream.push_one(); else stream.push_zero(); }
		else if (zeros && r.chance(0.5)) stream.push_zeros(f.width);
		else stream.push_bits(f.bits, f.width);
		}
	uint64_t used = stream.eof();
	evaluation();
	if (room < words)
		{
		check(used == 0, "stream:overflow", about + ": does not fit but eof() reports " + std::to_string(used) + " bytes");
		tally("overflows");
		}
	else
		{
		if (!check(used == (bits.size() + 7) / 8, "stream:used", about + ": eof() reports " + std::to_string(used) + " bytes")) return;
		/* read it back from a copy of exactly the words needed, in the same fields and in others */
		std::vector<uint32_t> copy(memory.begin(), memory.begin() + words);
		JASS::bitstream reader;
		reader.rewind(copy.data(), copy.size() * 4);
		for (size_t i = 0; i < fields.size(); i++)
			{
			uint64_t expect = fields[i].width == 0 ? 0 : fields[i].width == 64 ? fields[i].bits : fields[i].bits & (((uint64_t)1 << fields[i].width) - 1);
			uint64_t got = fields[i].width == 1 && r.chance(0.5) ? reader.get_bit() : reader.get_bits(fields[i].width);
			if (!check(got == expect, "stream:field", about + ": field " + std::to_string(i) + " of " + std::to_string(fields[i].width) + " bits is " + std::to_string(got) + " not " + std::to_string(expect))) return;
			tally("fields");
			}
		reader.rewind(copy.data(), copy.size() * 4);
		for (size_t at = 0; at < bits.size();)
			{
			size_t width = std::min<size_t>(bits.size() - at, r.range(1, 64));
			uint64_t expect = 0;
			for (size_t i = 0; i < width; i++) expect = expect << 1 | bits[at + i];
			if (!check(reader.get_bits(width) == expect, "stream:refield", about + ": reading " + std::to_string(width) + " bits from bit " + std::to_string(at) + " gives other bits")) return;
			at += width;
			}
		for (size_t i = words; i < room; i++)
			tally(memory[i] == 0xA5A5A5A5 ? "untouched_words" : "touched_words");
		}
	nontrivial(mix(hash(memory), bits.size()));
	if (number < 8) sample(about);
}

int main(int argc, char *argv[])
{
	return drive(argc, argv, {{"string", 2500, 100000, string_case}, {"count", 100, 5000, count_case}, {"stream", 4000, 200000, stream_case}});
}
