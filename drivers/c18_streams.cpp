/*
	C18: bytes survive files, channels, streams and general purpose compression
*/
#include "common.h"
#include <sstream>
#include <memory>
#include <sys/stat.h>
#include "zlib.h"
#include "file.h"
#include "channel_file.h"
#include "channel_buffer.h"
#include "channel_trec.h"
#include "instream_file.h"
#include "instream_file_star.h"
#include "instream_memory.h"
#include "instream_deflate.h"
#include "compress_general_zlib.h"
#include "compress_general_zstd.h"
#include "checksum.h"
#include "allocator_pool.h"
#include "allocator_cpp.h"
#include "string_cpp.h"
using namespace vf;

static std::string scratch()
{
	static std::string where;
	if (where.empty())
		{
		char name[] = "/tmp/vf_c18_XXXXXX";
		where = mkdtemp(name);
		static struct remover { ~remover() { if (system(("rm -rf " + where).c_str())) {} } } at_exit;
		}
	return where;
}

static std::string some_bytes(rng &r, size_t n)
{
	std::string s(n, 0);
	switch (r.below(5))
		{
		case 0: for (auto &c : s) c = (char)r.next(); break;
		case 1: for (auto &c : s) c = "abc\n\r\t \0x"[r.below(9)]; break;
		case 2: { std::string word = "some text that repeats; "; for (size_t i = 0; i < n; i++) s[i] = word[i % word.size()]; break; }
		case 3: for (size_t i = 0; i < n; i++) s[i] = (char)(i * 7 + i / 251); break;
		default: { char c = (char)r.next(); for (auto &x : s) x = r.chance(0.01) ? (char)r.next() : c; }
		}
	return s;
}

static size_t a_size(rng &r, size_t around)
{
	switch (r.below(6))
		{
		case 0: return r.below(3);
		case 1: return around + r.below(5) - std::min<size_t>(2, around);
		case 2: return around * r.range(1, 4) + r.below(3) - 1;
		case 3: return r.below(around + 1);
		default: return r.below(around * 4 + 50);
		}
}

static std::string differ(const std::string &got, const std::string &want)
{
	size_t i = 0;
	while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
	return std::to_string(got.size()) + " bytes instead of " + std::to_string(want.size()) + ", the first difference at " + std::to_string(i);
}

/*
	a file object against a vector of bytes and a position
*/
static void file_case(rng &r, uint64_t number)
{
	std::string name = scratch() + "/f" + std::to_string(number);
	std::string model, did;
	size_t at = 0;
	size_t buffer = r.pick(std::vector<size_t>{1, 2, 7, 16, 64, 100, 4096, 4097, 10 * 1024 * 1024});
	size_t around = buffer > 5000 ? 3000 : buffer;
	bool update = r.chance(0.3);
	if (update)
		{
		model = some_bytes(r, r.below(1000));
		JASS::file out(name, "wb");
		out.write(model);
		}
	{
	JASS::file f(name, update ? "r+b" : "w+b");
	if (buffer != 10 * 1024 * 1024) f.setvbuf(buffer);
	did = (update ? "r+b " : "w+b ") + std::to_string(buffer);
	/* C requires a seek between a write and a read that follows it, and between a read and a write */
	enum { none, reading, writing } last = none;
	for (size_t step = 0, steps = r.range(1, 60); step < steps; step++)
		{
		size_t op = r.below(10);
		if (op < 5)
			{
			if (last == reading) { f.seek(at); }
			std::string piece = some_bytes(r, a_size(r, around));
			did += " w" + std::to_string(piece.size());
			if (r.chance(0.5)) f.write(piece); else f.write(piece.data(), piece.size());
			if (at + piece.size() > model.size()) model.resize(at + piece.size());
			std::copy(piece.begin(), piece.end(), model.begin() + at);
			at += piece.size();
			last = writing;
			tally("bytes written", piece.size());
			}
		else if (op < 7)
			{
			at = model.size() == 0 ? 0 : r.chance(0.2) ? model.size() : r.below(model.size());
			did += " s" + std::to_string(at);
			f.seek(at);
			last = none;
			}
		else if (op < 9)
			{
			if (last == writing) f.seek(at);
			size_t want = a_size(r, around) , there = std::min(want, model.size() - at);
			did += " r" + std::to_string(want);
			std::string got;
			if (want && r.chance(0.5))
				{
				std::vector<uint8_t> into(want, 0xEE);
				f.read(into);
				got.assign(into.begin(), into.end());
				}
			else
				{
				std::vector<char> into(want + 16, (char)0xEE);
				size_t count = f.read(into.data(), want);
				if (!check(count <= want, "file:read-count", did + ": read() reports " + std::to_string(count))) return;
				got.assign(into.data(), count);
				for (size_t i = want; i < into.size(); i++) check(into[i] == (char)0xEE, "file:read-past", did + ": read() wrote past what was asked for");
				}
			if (!check(got == model.substr(at, there), "file:read", did + ": read back " + differ(got, model.substr(at, there)))) return;
			if (there != want) tally("short reads");
			at += there;
			last = reading;
			evaluation();
			if (!check(f.tell() == at, there != want ? "file:tell:short-read" : "file:tell", did + ": tell() is " + std::to_string(f.tell()) + " not " + std::to_string(at))) return;
			f.seek(at);
			last = none;
			}
		else
			{
			did += " size";
			if (!check(f.tell() == at, "file:tell", did + ": tell() is " + std::to_string(f.tell()) + " not " + std::to_string(at))) return;
			if (r.chance(0.5)) f.flush();
			check(f.size() == model.size(), "file:size", did + ": size() is " + std::to_string(f.size()) + " not " + std::to_string(model.size()));
			evaluation();
			}
		}
	}
	std::string back;
	size_t length = JASS::file::read_entire_file(name, back);
	check(length == model.size() && back == model, "file:contents", did + ": the file holds " + differ(back, model));
	evaluation();
	nontrivial(hash(model, hash(did)));
	if (number < 8) sample(did.substr(0, 200));
	unlink(name.c_str());
}

/*
	whole files
*/
static void whole_case(rng &r, uint64_t number)
{
	std::string name = scratch() + "/w" + std::to_string(number);
	size_t n = r.chance(0.1) ? 0 : a_size(r, r.pick(std::vector<size_t>{16, 4096, 65536}));
	std::string content = some_bytes(r, n), back = some_bytes(r, r.below(50));
	bool ok = JASS::file::write_entire_file(name, content);
	check(ok, n ? "whole:write" : "whole:write:empty", "writing " + std::to_string(n) + " bytes reports failure");
	size_t length = JASS::file::read_entire_file(name, back);
	check(length == n, "whole:length", "reading a file of " + std::to_string(n) + " bytes reports " + std::to_string(length));
	check(back == content, n ? "whole:contents" : "whole:contents:empty", "a file of " + std::to_string(n) + " bytes comes back as " + differ(back, content));
	{
	JASS::file::file_read_only view;
	const uint8_t *bytes = nullptr;
	length = JASS::file::read_entire_file(name, view);
	check(length == n, "view:length", "mapping a file of " + std::to_string(n) + " bytes reports " + std::to_string(length));
	length = view.read_entire_file(bytes);
	check(length == n && (n == 0 || memcmp(bytes, content.data(), n) == 0), "view:contents", "a mapped file of " + std::to_string(n) + " bytes is different");
	}
	/* in pieces, through an instream */
	JASS::instream_file reader(name);
	std::string again;
	for (;;)
		{
		size_t want = r.range(1, n / 3 + 10);
		std::vector<char> into(want, 'x');
		size_t got = reader.fetch(into.data(), want);
		if (got == 0 || got > want) { check(got == 0, "instream_file:count", "fetch() of " + std::to_string(want) + " reports " + std::to_string(got)); break; }
		again.append(into.data(), got);
		if (again.size() > n + 100) break;
		}
	check(again == content, "instream_file", "read in pieces a file of " + std::to_string(n) + " bytes gives " + differ(again, content));
	evaluation(3);
	if (number % 16 == 0)
		{
		std::string absent = "before";
		JASS::file::file_read_only view;
		check(JASS::file::read_entire_file(scratch() + "/not/there", absent) == 0 && absent == "", "whole:missing", "reading a file that is not there leaves '" + absent + "'");
		check(JASS::file::read_entire_file(scratch() + "/not/there", view) == 0, "view:missing", "mapping a file that is not there reports a length");
		check(!JASS::file::write_entire_file(scratch() + "/not/there", content), "whole:unwritable", "writing to a directory that is not there reports success");
		check(JASS::file::is_directory(scratch()) && !JASS::file::is_directory(name) && !JASS::file::is_directory(scratch() + "/nope"), "is_directory", "is_directory() is wrong");
		}
	unlink(name.c_str());
	nontrivial(hash(content));
}

/*
	lines of a buffer
*/
static void lines_case(rng &r, uint64_t number)
{
	std::string text;
	std::vector<std::string> want;
	for (size_t i = 0, n = r.below(30); i < n; i++)
		text += r.pick(std::vector<std::string>{"\n", "\r", "\r\n", "\n\n\n", "\n\r\n", "a", "line", "two words", " ", "\t", "\xff\xfe", std::string(r.below(200), 'z')});
	std::string line;
	for (char c : text)
		if (c == '\n' || c == '\r') { if (!line.empty()) want.push_back(line); line.clear(); }
		else line += c;
	if (!line.empty()) want.push_back(line);
	std::string buffer = text;
	std::vector<uint8_t *> list(r.below(3), nullptr);
	JASS::file::buffer_to_list(list, buffer);
	std::vector<std::string> got;
	bool inside = true;
	for (auto p : list)
		{
		inside = inside && (char *)p >= buffer.data() && (char *)p < buffer.data() + buffer.size();
		if (!inside) break;
		got.push_back((char *)p);
		}
	check(inside, "lines:inside", "a line points outside the buffer");
	check(got == want, "lines", "a buffer of " + std::to_string(text.size()) + " bytes gives " + std::to_string(got.size()) + " lines, not the " + std::to_string(want.size()) + " it has");
	evaluation();
	nontrivial(hash(text));
	tally("lines", want.size());
}

/*
	channels
*/
static void channel_case(rng &r, uint64_t number)
{
	std::string name = scratch() + "/c" + std::to_string(number), model;
	JASS::allocator_pool pool;
	JASS::allocator_cpp<char> allocator(pool);
	size_t sessions = r.range(1, 3);
	for (size_t s = 0; s < sessions; s++)
		{
		JASS::channel_file out(name);
		for (size_t i = 0, n = r.below(40); i < n; i++)
			{
			std::string piece = some_bytes(r, r.chance(0.05) ? r.below(9000) : r.below(60));
			std::string text = piece;
			text.erase(std::remove(text.begin(), text.end(), '\0'), text.end());
			switch (r.below(6))
				{
				case 0: out << piece; model += piece; break;
				case 1: out << text.c_str(); model += text; break;
				case 2: out << (const unsigned char *)text.c_str(); model += text; break;
				case 3: out.puts(piece); model += piece + "\n"; break;
				case 4: { JASS::string copy(piece.data(), piece.size(), allocator); out << copy; model += piece; break; }
				default: { int64_t v = (int64_t)r.next() >> r.below(64); out << v; model += std::to_string(v); }
				}
			}
		}
	/* read it back as lines and blocks */
	size_t kind = r.below(3);
	std::unique_ptr<JASS::channel> in;
	std::shared_ptr<JASS::instream> star;
	if (kind == 1)
		{
		model = model.substr(0, model.find('\0'));
		std::shared_ptr<char> memory(new char[model.size() + 1], [](char *p) { delete [] p; });
		memcpy(memory.get(), model.c_str(), model.size() + 1);
		in.reset(new JASS::channel_buffer(memory));
		}
	else
		in.reset(new JASS::channel_file(name));
	std::string about = std::to_string(model.size()) + " bytes through a " + (kind == 1 ? "channel_buffer" : "channel_file");
	std::string where = kind == 1 ? "channel_buffer" : "channel_file";
	size_t at = 0;
	for (size_t step = 0; step < 100000; step++)
		{
		std::string want, got;
		std::string op;
		if (r.chance(0.6))
			{
			size_t end = model.find('\n', at);
			want = model.substr(at, end == std::string::npos ? std::string::npos : end + 1 - at);
			if (r.chance(0.5)) { got = some_bytes(r, r.below(20)); in->gets(got); }
			else { JASS::string into(allocator); into.resize(r.below(20)); in->gets(into); got.assign(into.data(), into.size()); }
			op = "gets";
			}
		else
			{
			got = some_bytes(r, r.range(1, 3000));
			want = model.substr(at, got.size());
			in->read(got);
			op = "read";
			}
		evaluation();
		if (!check(got == want, where + ":" + op, about + ": " + op + " at " + std::to_string(at) + " gives " + differ(got, want))) break;
		at += want.size();
		if (want.empty()) { if (at != model.size() || r.chance(0.5)) break; }
		}
	check(at == model.size(), where + ":end", about + ": the end came at " + std::to_string(at));
	unlink(name.c_str());
	nontrivial(hash(model));
}

/*
	instreams over a FILE * and over memory
*/
static void source_case(rng &r, uint64_t number)
{
	size_t n = a_size(r, r.pick(std::vector<size_t>{1, 16, 4096, 20000}));
	std::string content = some_bytes(r, n), got;
	std::unique_ptr<JASS::instream> in;
	bool star = r.chance(0.5);
	std::string where = star ? "instream_file_star" : "instream_memory";
	std::unique_ptr<char[]> exact(new char[n]);
	memcpy(exact.get(), content.data(), n);
	if (star)
		{
		FILE *fp = tmpfile();
		fwrite(content.data(), 1, n, fp);
		rewind(fp);
		in.reset(new JASS::instream_file_star(fp));
		}
	else
		in.reset(new JASS::instream_memory(exact.get(), n));
	size_t ends = 0;
	for (size_t step = 0; step < n + 20 && ends < 3; step++)
		{
		size_t want = a_size(r, n / 4 + 5);
		if (want == 0) want = 1;
		std::unique_ptr<char[]> into(new char[want]);
		size_t count = in->fetch(into.get(), want);
		size_t there = std::min(want, n - got.size());
		if (!check(count == there, where + ":count", where + " of " + std::to_string(n) + " bytes: " + std::to_string(want) + " wanted at " + std::to_string(got.size()) + ", " + std::to_string(count) + " reported")) return;
		got.append(into.get(), count);
		if (count == 0) ends++;
		}
	check(got == content.substr(0, got.size()) && (ends == 0 || got.size() == n), where, where + " gives " + differ(got, content));
	evaluation();
	nontrivial(hash(content));
}

/* an instream that hands out its bytes in whatever pieces it likes, but never nothing before the end */
class drip : public JASS::instream
{
	std::string bytes;
	size_t at = 0;
	rng r;
	size_t most;
public:
	drip(const std::string &bytes, uint64_t seed, size_t most) : bytes(bytes), r(seed), most(most) {}
	void read(JASS::document &buffer) override
	{
		size_t n = std::min<size_t>(buffer.contents.size(), bytes.size() - at);
		if (n > 1 && n > most) n = most;
		if (n > 1) n = r.range(1, n);
		if (n == 0) { buffer.contents = JASS::slice(); return; }
		memcpy(buffer.contents.address(), bytes.data() + at, n);
		at += n;
		buffer.contents.resize(n);
	}
};

static std::string gzip(rng &r, const std::string &what, int kind)
{
	z_stream z;
	memset(&z, 0, sizeof(z));
	deflateInit2(&z, r.range(0, 9), Z_DEFLATED, kind == 0 ? 15 : 15 + 16, r.range(1, 9), r.below(4));
	std::string out(deflateBound(&z, what.size()) + 100, 0);
	z.next_in = (Bytef *)what.data(); z.avail_in = what.size();
	z.next_out = (Bytef *)&out[0]; z.avail_out = out.size();
	deflate(&z, Z_FINISH);
	out.resize(z.total_out);
	deflateEnd(&z);
	return out;
}

static void deflate_case(rng &r, uint64_t number)
{
	std::string content, packed;
	int kind = r.below(3);				// zlib, gzip, gzip of several members
	size_t members = kind == 2 ? r.range(2, 5) : 1;
	for (size_t i = 0; i < members; i++)
		{
		std::string part = some_bytes(r, r.chance(0.02) ? 300000 : a_size(r, r.pick(std::vector<size_t>{1, 300, 5000})));
		content += part;
		packed += gzip(r, part, kind);
		}
	int damage = r.chance(0.3) ? r.range(1, 2) : 0;
	if (damage == 1) packed.resize(r.below(packed.size()));			// cut short
	if (damage == 2)
		for (size_t i = 0, n = r.range(1, 5); i < n; i++) packed[r.below(packed.size())] ^= (char)r.range(1, 255);
	std::string name = kind == 0 ? "zlib" : kind == 1 ? "gzip" : "gzip-members";
	std::string about = name + " of " + std::to_string(content.size()) + " bytes" + (damage == 1 ? " cut short" : damage == 2 ? " damaged" : "");
	std::shared_ptr<JASS::instream> source(new drip(packed, r.next(), r.pick(std::vector<size_t>{1, 7, 1000, 1000000})));
	JASS::instream_deflate in(source);
	std::string got;
	size_t ends = 0;
	fflush(stdout);
	bool fixed = r.chance(0.3);
	size_t same = r.range(1, content.size() / 5 + 20);
	for (size_t step = 0; step < content.size() + 50 && ends < 3; step++)
		{
		size_t want = fixed ? same : std::max<size_t>(1, a_size(r, content.size() / 5 + 20));
		std::unique_ptr<char[]> into(new char[want]);
		memset(into.get(), 0x5A, want);
		size_t count = in.fetch(into.get(), want);
		if (!check(count <= want, "deflate:count", about + ": " + std::to_string(want) + " wanted, " + std::to_string(count) + " reported")) return;
		got.append(into.get(), count);
		if (count == 0) ends++;
		if (got.size() > content.size() + 10000) break;
		}
	if (damage == 0)
		check(got == content && ends, "deflate:" + name, about + ": gives " + differ(got, content));
	else if (damage == 1)
		check(got.size() <= content.size() && got == content.substr(0, got.size()), "deflate:cut:" + name, about + ": made up bytes, " + differ(got, content));
	tally(damage == 0 ? "whole compressed streams" : damage == 1 ? "compressed streams cut short" : "compressed streams damaged");
	evaluation();
	nontrivial(hash(packed));
	if (number < 8) sample(about);
}

template <typename CODEX>
static void codex_case(rng &r, const char *name)
{
	CODEX codex;
	for (size_t again = 0; again < 4; again++)
		{
		std::string content = some_bytes(r, r.chance(0.03) ? r.below(500000) : a_size(r, r.pick(std::vector<size_t>{1, 300, 5000})));
		const size_t guard = 64;
		std::vector<uint8_t> packed(content.size() * 2 + 1000 + guard, 0xC3);
		size_t room = packed.size() - guard;
		size_t used = codex.encode(packed.data(), room, content.data(), content.size());
		std::string about = std::string(name) + " of " + std::to_string(content.size()) + " bytes";
		if (!check(used != 0 && used <= room, std::string(name) + ":encode", about + " encodes into " + std::to_string(used))) return;
		std::vector<uint8_t> unpacked(content.size() + guard, 0xC3);
		size_t got = codex.decode(unpacked.data(), content.size(), packed.data(), used);
		check(got == content.size() && memcmp(unpacked.data(), content.data(), got) == 0, std::string(name) + ":decode", about + " decodes into " + std::to_string(got) + " bytes, or others");
		for (size_t i = 0; i < guard; i++)
			if (!check(unpacked[content.size() + i] == 0xC3, std::string(name) + ":decode-overrun", about + ": decoding wrote past the end")) return;
		evaluation();
		/* too small to encode into */
		size_t small = r.chance(0.5) ? used - 1 : r.below(used);
		std::vector<uint8_t> little(small + guard, 0xC3);
		size_t fit = codex.encode(little.data(), small, content.data(), content.size());
		check(fit <= small, std::string(name) + ":encode-short", about + " encodes into " + std::to_string(fit) + " bytes of " + std::to_string(small));
		if (fit)
			{
			std::vector<uint8_t> u(content.size() + 1);
			check(codex.decode(u.data(), content.size(), little.data(), fit) == content.size() && memcmp(u.data(), content.data(), content.size()) == 0, std::string(name) + ":encode-short-lied",
				about + ": encoding into " + std::to_string(small) + " of the " + std::to_string(used) + " bytes it needs reports success");
			}
		for (size_t i = 0; i < guard; i++)
			if (!check(little[small + i] == 0xC3, std::string(name) + ":encode-overrun", about + ": encoding wrote past the end")) return;
		tally("too small to encode into");
		/* too small to decode into */
		if (content.size() > 1)
			{
			small = r.chance(0.5) ? content.size() - 1 : r.below(content.size());
			std::vector<uint8_t> l(small + guard, 0xC3);
			got = codex.decode(l.data(), small, packed.data(), used);
			check(got == 0, std::string(name) + ":decode-short", about + " decodes into " + std::to_string(small) + " bytes, " + std::to_string(got) + " reported");
			for (size_t i = 0; i < guard; i++)
				if (!check(l[small + i] == 0xC3, std::string(name) + ":decode-overrun", about + ": decoding wrote past the end")) return;
			tally("too small to decode into");
			}
		/* half of the encoding */
		std::vector<uint8_t> part(packed.begin(), packed.begin() + r.below(used));
		got = codex.decode(unpacked.data(), content.size(), part.data(), part.size());
		check(got == 0 || content.size() == 0 || (got == content.size() && memcmp(unpacked.data(), content.data(), got) == 0), std::string(name) + ":decode-cut", about + ": " + std::to_string(part.size()) + " of its " + std::to_string(used) + " bytes decode into " + std::to_string(got));
		evaluation(3);
		nontrivial(hash(content));
		}
}
static void zlib_case(rng &r, uint64_t) { codex_case<JASS::compress_general_zlib>(r, "zlib"); }
static void zstd_case(rng &r, uint64_t) { codex_case<JASS::compress_general_zstd>(r, "zstd"); }

static void checksum_case(rng &r, uint64_t number)
{
	std::string content = some_bytes(r, a_size(r, r.pick(std::vector<size_t>{1, 255, 5000})));
	uint64_t a = 0, b = 0;
	for (unsigned char c : content) { a = (a + c) % 255; b = (b + a) % 255; }
	uint16_t want = (uint16_t)(b << 8 | a);
	std::istringstream stream(content);
	std::string name = scratch() + "/k" + std::to_string(number);
	JASS::file::write_entire_file(name, content);
	check(JASS::checksum::fletcher_16(content) == want, "checksum:string", "wrong for " + std::to_string(content.size()) + " bytes");
	check(JASS::checksum::fletcher_16(content.data(), content.size()) == want, "checksum:memory", "wrong for " + std::to_string(content.size()) + " bytes");
	check(JASS::checksum::fletcher_16(stream) == want, "checksum:stream", "wrong for " + std::to_string(content.size()) + " bytes");
	check(JASS::checksum::fletcher_16_file(name) == want, "checksum:file", "wrong for " + std::to_string(content.size()) + " bytes");
	unlink(name.c_str());
	evaluation(4);
	nontrivial(hash(content));
}

/*
	TREC topics: each topic's number and the words of the wanted fields, once, in order
*/
static std::string a_word(rng &r)
{
	std::string w;
	if (r.chance(0.15)) return std::to_string(r.below(r.chance(0.5) ? 100 : 100000000));
	for (size_t i = 0, n = r.range(1, r.chance(0.02) ? 300 : 12); i < n; i++) w += "abcdefghijklmnopqrstuvwxyzABCXYZ"[r.below(32)];
	return w;
}
static void topics_case(rng &r, uint64_t number)
{
	std::string text;
	std::vector<std::string> want;
	std::string tags = r.pick(std::vector<std::string>{"t", "tq", "d", "n", "td", "tdn", "q"});
	bool clueweb = r.chance(0.4);
	size_t topics = r.range(1, 6);
	auto words = [&](std::string &query, bool wanted)
		{
		std::string line;
		for (size_t i = 0, n = r.below(9); i < n; i++)
			{
			std::string w = a_word(r);
			line += w + r.pick(std::vector<std::string>{" ", "  ", ", ", "\n", ".\n", " - ", "? ", "\t"});
			if (wanted)
				{
				std::string low = w;
				for (auto &c : low) c = tolower(c);
				query += low + " ";
				}
			}
		return line;
		};
	for (size_t t = 0; t < topics; t++)
		{
		std::string id = std::to_string(r.below(r.chance(0.5) ? 10 : 1000000)), query;
		if (clueweb)
			{
			text += "<topic number=\"" + id + "\" type=\"faceted\">\n<query>" + words(query, tags.find('q') != std::string::npos) + "</query>\n<description>" + words(query, tags.find('d') != std::string::npos) + "\n</description>\n";
			for (size_t s = 0, n = r.below(3); s < n; s++) { std::string ignored; text += "<subtopic number=\"" + std::to_string(s + 1) + "\" type=\"inf\">" + words(ignored, false) + "</subtopic>\n"; }
			text += "</topic>\n";
			}
		else
			{
			text += "<top>\n\n<num> Number: " + id + r.pick(std::vector<std::string>{"\n", " \n", "\n\n"});
			text += "<title> " + words(query, tags.find('t') != std::string::npos) + "\n";
			text += "<desc> Description: \n"; if (tags.find('d') != std::string::npos) query += "description ";
			text += words(query, tags.find('d') != std::string::npos) + "\n";
			text += "<narr> " + words(query, tags.find('n') != std::string::npos) + "\n</top>\n";
			}
		want.push_back(id + " " + query);
		}
	std::shared_ptr<char> memory(new char[text.size() + 1], [](char *p) { delete [] p; });
	memcpy(memory.get(), text.c_str(), text.size() + 1);
	std::unique_ptr<JASS::channel> source(new JASS::channel_buffer(memory));
	JASS::channel_trec reader(source, tags);
	for (size_t t = 0; t <= topics; t++)
		{
		std::string got = "before";
		reader.gets(got);
		std::string expect = t < topics ? want[t] : "";
		evaluation();
		if (!check(got == expect, clueweb ? "topics:clueweb" : "topics:trec", "tags " + tags + " topic " + std::to_string(t) + " of " + std::to_string(topics) + " is '" + got.substr(0, 200) + "' not '" + expect.substr(0, 200) + "'")) break;
		}
	tally("topics", topics);
	nontrivial(hash(text));
	if (number < 4) sample(text.substr(0, 150));
}

/* topic files that are not: no crash, and an end */
static void hostile_case(rng &r, uint64_t number)
{
	std::string text;
	for (size_t i = 0, n = r.below(40); i < n; i++)
		text += r.pick(std::vector<std::string>{"<top>", "<num>", "<num> Number: ", "12", "<title>", "<topic number=\"7\">", "<topic>", "</top>", "\n", "\n\n", "word ", "<desc>", "<", ">", "&amp;", "<!--", "\xc3", "<query>", std::string(r.below(2000), 'q'), a_word(r)});
	std::string name = scratch() + "/h" + std::to_string(number);
	JASS::file::write_entire_file(name, text);
	std::unique_ptr<JASS::channel> source(new JASS::channel_file(name));
	JASS::channel_trec reader(source, "tqdn");
	size_t got = 0;
	for (std::string line = "x"; !line.empty(); got++)
		{
		reader.gets(line);
		if (!check(got <= text.size() + 2, "topics:endless", "a topic file of " + std::to_string(text.size()) + " bytes gives " + std::to_string(got) + " topics and more")) break;
		}
	unlink(name.c_str());
	evaluation();
	tally("hostile topic files");
	nontrivial(hash(text));
}

int main(int argc, char *argv[])
{
	scratch();
	return drive(argc, argv, {{"file", 500, 20000, file_case}, {"whole", 300, 10000, whole_case}, {"lines", 5000, 200000, lines_case}, {"channel", 600, 20000, channel_case},
		{"source", 600, 20000, source_case}, {"deflate", 800, 30000, deflate_case}, {"zlib", 150, 6000, zlib_case}, {"zstd", 150, 6000, zstd_case},
		{"checksum", 600, 20000, checksum_case}, {"topics", 3000, 100000, topics_case}, {"hostile", 1500, 60000, hostile_case}});
}
