/*
	C12_STREAMS.CPP
	---------------
	Document streams against the records the collection was made from (well-formed) or against the definition of a
	record applied to the whole file at once (damaged collections), with the bytes arriving in random chunks, from
	memory, from files, compressed, and from directories.
*/
#include <zlib.h>
#include <sys/stat.h>
#include <filesystem>
#include <memory>
#include "common.h"
#include "document.h"
#include "instream.h"
#include "instream_file.h"
#include "instream_memory.h"
#include "instream_deflate.h"
#include "instream_file_star.h"
#include "instream_document_trec.h"
#include "instream_document_html.h"
#include "instream_document_warc.h"
#include "instream_document_fasta.h"
#include "instream_directory_iterator.h"
#include "instream_document_unicoil_json.h"

using namespace vf;
typedef std::shared_ptr<JASS::instream> stream;
struct record
{
	std::string key, contents;
	bool operator==(const record &o) const { return key == o.key && contents == o.contents; }
};
typedef std::vector<record> records;

/* delivers at least one and at most what was asked for, until there are no more */
struct chunked : public JASS::instream
{
	std::string text;
	size_t at = 0;
	rng random;
	size_t most;
	uint64_t reads = 0;
	chunked(const std::string &text, uint64_t seed, size_t most) : text(text), random(seed), most(most) {}
	void read(JASS::document &into) override
	{
		size_t asked = into.contents.size();
		size_t give = std::min(asked, text.size() - at);
		if (give > 1) give = random.range(1, std::min(give, most));
		if (give) memcpy(into.contents.address(), text.data() + at, give);
		at += give;
		reads++;
		into.contents = JASS::slice(into.contents.address(), give);
	}
};

static std::string compress(const std::string &text, int level = 6)
{
	z_stream z;
	memset(&z, 0, sizeof(z));
	if (deflateInit2(&z, level, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY) != Z_OK) harness_error("deflateInit2");
	std::string out(deflateBound(&z, text.size()) + 64, '\0');
	z.next_in = (Bytef *)text.data();
	z.avail_in = text.size();
	z.next_out = (Bytef *)&out[0];
	z.avail_out = out.size();
	if (deflate(&z, Z_FINISH) != Z_STREAM_END) harness_error("deflate");
	out.resize(z.total_out);
	deflateEnd(&z);
	return out;
}
static std::string members(rng &random, const std::string &text)
{
	if (text.size() < 2 || random.chance(0.6)) return compress(text, random.range(0, 9));
	size_t cut = random.range(1, text.size() - 1);
	return compress(text.substr(0, cut), random.range(0, 9)) + compress(text.substr(cut), random.range(0, 9));
}

static uint64_t file_number = 0;
struct scratch_file
{
	std::string name;
	scratch_file(const std::string &text, const std::string &suffix = "") : name(g().scratch + "/c12." + std::to_string(getpid()) + "." + std::to_string(file_number++) + suffix) { write_file(name, text); }
	~scratch_file() { unlink(name.c_str()); }
};

/* where the bytes come from */
struct origin
{
	stream source;
	std::unique_ptr<exact> memory;
	std::unique_ptr<scratch_file> file;
	FILE *open = nullptr;
	chunked *pieces = nullptr;
	std::string how;
	origin(rng &random, const std::string &text)
	{
		switch (random.below(10))
			{
			case 0:
				how = "memory";
				memory.reset(new exact(text));
				source.reset(new JASS::instream_memory((const uint8_t *)memory->data, text.size()));
				break;
			case 1:
				how = "file";
				file.reset(new scratch_file(text));
				source.reset(new JASS::instream_file(file->name));
				break;
			case 2:
				{
				how = "gz";
				file.reset(new scratch_file(members(random, text)));
				stream raw(new JASS::instream_file(file->name));
				source.reset(new JASS::instream_deflate(raw));
				break;
				}
			case 3:
				{
				how = "gz in chunks";
				static const std::vector<size_t> sizes = {1, 3, 20, 1000};
				stream raw(new chunked(members(random, text), random.next(), text.size() > 100000 ? 1000 : random.pick(sizes)));
				source.reset(new JASS::instream_deflate(raw));
				break;
				}
			default:
				{
				static const std::vector<size_t> sizes = {1, 2, 3, 7, 20, 60, 300, 5000, 10000000}, large = {5000, 70000, 10000000};
				size_t most = random.pick(text.size() > 100000 ? large : sizes);
				how = "chunks of up to " + std::to_string(most);
				source.reset(pieces = new chunked(text, random.next(), most));
				}
			}
		tally("source: " + how);
	}
};

static records read_all(rng &random, JASS::instream &from, const std::string &kind, size_t limit)
{
	records out;
	std::unique_ptr<JASS::document> one(new JASS::document);
	while (true)
		{
		from.read(*one);
		if (one->isempty()) break;
		out.push_back({std::string((const char *)one->primary_key.address(), one->primary_key.size()), std::string((const char *)one->contents.address(), one->contents.size())});
		if (out.size() > limit)
			{
			violation(kind + ":more-than-there-are", "more than " + std::to_string(limit) + " records, the last with key '" + out.back().key + "'");
			return out;
			}
		if (random.chance(0.5)) one->rewind();
		else if (random.chance(0.5)) one.reset(new JASS::document);
		}
	/* once at the end it stays there */
	for (size_t n = 0; n < 3; n++)
		{
		from.read(*one);
		if (!one->isempty())
			{
			violation(kind + ":after-the-end", "a record after the end of input: key '" + std::string((const char *)one->primary_key.address(), one->primary_key.size()) + "'");
			break;
			}
		}
	tally("reads at end of input", 3);
	return out;
}

static void compare(const std::string &kind, const records &got, const records &want, const std::string &context)
{
	evaluation(want.size() + 1);
	tally(kind + " records", want.size());
	if (got == want) return;
	size_t n = 0;
	while (n < got.size() && n < want.size() && got[n] == want[n]) n++;
	std::ostringstream s;
	s << "record " << n << " of " << want.size() << " (" << got.size() << " were returned): ";
	if (n < want.size()) s << "wanted key '" << want[n].key << "' and '" << want[n].contents.substr(0, 300) << "' (" << want[n].contents.size() << ") "; else s << "wanted the end ";
	if (n < got.size()) s << "but got key '" << got[n].key << "' and '" << got[n].contents.substr(0, 300) << "' (" << got[n].contents.size() << ")"; else s << "but got the end";
	s << " [" << context << "]";
	std::string what = n < want.size() && n < got.size() ? got[n].contents == want[n].contents ? "key" : "contents" : n < want.size() ? "lost" : "made-up";
	violation(kind + ":" + what, s.str());
}

static size_t longest(const records &r)
{
	size_t most = 0;
	for (auto &x : r) most = std::max(most, x.contents.size());
	return most;
}

/* text that is unlikely to have what it must not, but often has the start of it */
static std::string filler(rng &random, size_t length, const std::vector<std::string> &hints, const std::string &avoid)
{
	static const std::string letters = "abc de>fg<h/\n\t 0ACGT";
	std::string s;
	while (s.size() < length)
		if (random.chance(0.15) && hints.size())
			{
			const std::string &h = random.pick(hints);
			s += h.substr(0, random.range(1, h.size()));
			}
		else if (random.chance(0.03))
			s += (char)random.below(256);
		else
			s += letters[random.below(letters.size())];
	size_t at;
	while (avoid != "" && (at = s.find(avoid)) != std::string::npos) s.erase(at, 1);
	return s;
}

static std::string trimmed(std::string s)
{
	while (s.size() && isspace((unsigned char)s.back())) s.pop_back();
	size_t n = 0;
	while (n < s.size() && isspace((unsigned char)s[n])) n++;
	return s.substr(n);
}

static size_t length_of_text(rng &random) { return random.chance(0.1) ? 0 : random.chance(0.1) ? random.range(200, 3000) : random.range(0, 120); }

/* -------------------------------------------------- TREC -------------------------------------------------- */
struct small_trec : public JASS::instream_document_trec
{
	small_trec(stream &source, size_t size, const std::string &tag, const std::string &key) : instream_document_trec(source, size, tag, key) {}
};

/* the definition, on a whole file */
static records trec_records(const std::string &text, const std::string &start, const std::string &end, const std::string &key_start, const std::string &key_end, size_t buffer, bool *too_large)
{
	records out;
	size_t at = 0;
	while (true)
		{
		size_t s = text.find(start, at);
		if (s == std::string::npos) break;
		size_t e = text.find(end, s);
		if (e == std::string::npos) break;
		e += end.size();
		if (e - s > buffer) { *too_large = true; break; }
		std::string document = text.substr(s, e - s);
		std::string key = "Unknown";
		size_t k = document.find(key_start);
		if (k != std::string::npos)
			{
			k += key_start.size();
			size_t ke = document.find(key_end, k);
			if (ke != std::string::npos) key = trimmed(document.substr(k, ke - k));
			}
		out.push_back({key, document});
		at = e;
		}
	return out;
}

static void trec(rng &random, uint64_t)
{
	static const std::vector<std::string> tags = {"DOC", "DOC", "DOC", "D", "page", "DOCUMENT"}, keys = {"DOCNO", "DOCNO", "K", "id"};
	std::string tag = random.pick(tags), key = random.pick(keys);
	std::string start = "<" + tag + ">", end = "</" + tag + ">", ks = "<" + key + ">", ke = "</" + key + ">";
	static const std::vector<std::string> spaces = {"", "", " ", "\n", " \t "};
	records want;
	std::string text;
	size_t count = random.chance(0.05) ? 0 : random.range(1, 12);
	for (size_t n = 0; n < count; n++)
		{
		text += filler(random, random.chance(0.5) ? 1 : length_of_text(random), {start, end}, start);
		/* what comes before must not make a tag together with it */
		while (text.size() && text.back() == '<') text.pop_back();
		std::string body, name;
		int kind = random.below(12);
		if (kind == 0)
			name = "Unknown";
		else
			{
			name = kind == 1 ? "" : "key-" + std::to_string(random.below(1000)) + (random.chance(0.1) ? " with spaces" : "") + (random.chance(0.05) ? std::string(200, 'k') : "");
			body += random.pick(spaces) + ks + random.pick(spaces) + name + random.pick(spaces) + ke;
			if (random.chance(0.1)) body += ks + "second" + ke;
			}
		std::string rest = filler(random, length_of_text(random), {start, end, end, "<" + end, "</" + end, ke}, end);
		if (kind == 0)
			{ size_t at; while ((at = rest.find(ks)) != std::string::npos) rest.erase(at, 1); }
		while (rest.size() && (rest.back() == '<' || rest.back() == '/')) rest.pop_back();
		body += "\n" + rest;
		if (random.chance(0.5)) body = "\n" + body;
		std::string document = start + body + end;
		if (document.find(end) != document.size() - end.size()) continue;
		text += document;
		want.push_back({name, document});
		}
	text += filler(random, random.chance(0.5) ? 1 : length_of_text(random), {start, end}, start);
	/* the generator and the definition must agree, or the generator made something else than it meant to */
	bool too_large = false;
	records defined = trec_records(text, start, end, ks, ke, ~(size_t)0, &too_large);
	if (!(defined == want)) { tally("trec: ambiguous and so left out"); return; }
	size_t buffer = random.chance(0.02) ? 16 * 1024 * 1024 : std::max(longest(want), start.size()) + (random.chance(0.5) ? random.below(4) : random.below(400));
	{
	origin o(random, text);
	small_trec reader(o.source, buffer, tag, key);
	records got = read_all(random, reader, "trec", text.size() + 2);
	compare("trec", got, want, "buffer of " + std::to_string(buffer) + ", " + o.how);
	if (o.pieces) tally("trec: reads of the source", o.pieces->reads);
	}
	if (want.size() > 1) nontrivial(hash(text) ^ buffer);
	/* damaged: cut, or with bytes changed, or in a buffer that cannot hold a record */
	std::string damaged = text.substr(0, random.below(text.size() + 1));
	if (random.chance(0.4) && damaged.size())
		for (size_t n = 0; n < 3; n++)
			{
			size_t at = random.below(damaged.size());
			if (random.chance(0.5)) damaged.erase(at, random.range(1, 6)); else damaged.insert(at, random.chance(0.5) ? start : random.chance(0.5) ? end : ks);
			if (damaged.empty()) break;
			}
	buffer = random.range(std::max(start.size(), end.size()), 300);
	too_large = false;
	want = trec_records(damaged, start, end, ks, ke, buffer, &too_large);
	if (too_large) tally("trec: collections with a record that is too large");
	origin o(random, damaged);
	small_trec reader(o.source, buffer, tag, key);
	records got = read_all(random, reader, "trec-damaged", damaged.size() + 2);
	compare("trec-damaged", got, want, "buffer of " + std::to_string(buffer) + ", " + o.how + ": " + damaged.substr(0, 600));
}

static void html(rng &random, uint64_t)
{
	std::string text;
	records want;
	size_t count = random.below(6);
	for (size_t n = 0; n < count; n++)
		{
		std::string document = "<html" + std::string(random.chance(0.5) ? " lang=\"en\"" : "") + ">\n<title> page " + std::to_string(n) + "</title>" + filler(random, length_of_text(random), {}, "<") + "\n</html>";
		text += (random.chance(0.5) ? "<!DOCTYPE html>\n" : "\n") + document;
		want.push_back({"page " + std::to_string(n), document});
		}
	origin o(random, text);
	JASS::instream_document_html reader(o.source);
	records got = read_all(random, reader, "html", text.size() + 2);
	compare("html", got, want, o.how);
	if (want.size() > 1) nontrivial(hash(text));
}

/* -------------------------------------------------- FASTA -------------------------------------------------- */
struct small_fasta : public JASS::instream_document_fasta
{
	small_fasta(stream &source, size_t size) : instream_document_fasta(source, size) {}
};
static records fasta_records(const std::string &text)
{
	records out;
	size_t at = text.find('>');
	while (at != std::string::npos)
		{
		size_t e = text.find("\n>", at + 1);
		std::string document = text.substr(at, e == std::string::npos ? std::string::npos : e + 1 - at);
		out.push_back({trimmed(document.substr(0, document.find('\n'))), document});
		at = e == std::string::npos ? e : e + 1;
		}
	return out;
}
static void fasta(rng &random, uint64_t)
{
	records want;
	std::string text = random.chance(0.8) ? "" : filler(random, random.range(1, 40), {}, ">");
	size_t count = random.chance(0.05) ? 0 : random.range(1, 12);
	for (size_t n = 0; n < count; n++)
		{
		std::string header = ">" + (random.chance(0.1) ? "" : "seq" + std::to_string(random.below(100)) + (random.chance(0.3) ? " a > b" : ""));
		std::string body = header + (random.chance(0.2) ? " \r" : "") + "\n";
		size_t lines = random.chance(0.1) ? 0 : random.chance(0.05) ? 60 : random.below(5);
		for (size_t l = 0; l < lines; l++)
			{
			size_t length = random.below(71);
			for (size_t b = 0; b < length; b++) body += "ACGTN>"[random.chance(0.97) || b == 0 ? random.below(4) : random.below(6)];
			body += "\n";
			}
		text += body;
		want.push_back({trimmed(header), body});
		}
	if (count && random.chance(0.4))
		{
		/* no new line at the end of the file (which might leave just a header, or part of it) */
		text.pop_back();
		want.back().contents.pop_back();
		want.back().key = trimmed(want.back().contents.substr(0, want.back().contents.find('\n')));
		}
	size_t buffer = random.chance(0.02) ? 16 * 1024 * 1024 : std::max(longest(want), (size_t)1) + (random.chance(0.5) ? random.below(4) : random.below(400));
	{
	origin o(random, text);
	small_fasta reader(o.source, buffer);
	records got = read_all(random, reader, "fasta", text.size() + 2);
	compare("fasta", got, want, "buffer of " + std::to_string(buffer) + ", " + o.how);
	if (o.pieces) tally("fasta: reads of the source", o.pieces->reads);
	}
	if (want.size() > 1) nontrivial(hash(text) ^ buffer);
	std::string damaged = text.substr(0, random.below(text.size() + 1));
	if (random.chance(0.5))
		for (size_t n = 0; n < 3 && damaged.size(); n++)
			{
			size_t at = random.below(damaged.size());
			if (random.chance(0.5)) damaged.erase(at, random.range(1, 6)); else damaged.insert(at, random.chance(0.5) ? ">" : random.chance(0.5) ? "\n>" : "\n\n");
			}
	want = fasta_records(damaged);
	buffer = std::max(longest(want), (size_t)1) + random.below(10);
	origin o(random, damaged);
	small_fasta reader(o.source, buffer);
	records got = read_all(random, reader, "fasta-damaged", damaged.size() + 2);
	compare("fasta-damaged", got, want, "buffer of " + std::to_string(buffer) + ", " + o.how + ": " + damaged.substr(0, 600));
}

/* -------------------------------------------------- WARC -------------------------------------------------- */
static void warc(rng &random, uint64_t)
{
	std::string newline = random.chance(0.5) ? "\n" : "\r\n";
	records want;
	std::string text;
	std::vector<size_t> after_length, after_record;
	size_t count = random.chance(0.05) ? 0 : random.range(1, 8);
	for (size_t n = 0; n < count; n++)
		{
		bool info = random.chance(0.15);
		std::string name = "clueweb-" + std::to_string(random.below(10000));
		std::string payload = random.chance(0.05) ? "" : random.chance(0.002) ? std::string(random.range(1, 3) << 20, 'x') : filler(random, length_of_text(random), {"WARC-TREC-ID: no\n", "Content-Length: 7\n", "WARC/1.0\n", "\n\n"}, "");
		if (info)
			payload = "software: Heritrix\n\nformat: WARC\n";
		auto extra = [&]()
			{
			std::string s;
			while (random.chance(0.5))
				s += "WARC-Date: 2012-02-10T21:51:20Z" + newline;
			if (random.chance(0.1))
				{
				/* lines about as long as the buffer lines are read into, and ones much longer */
				size_t length = random.chance(0.7) ? 8190 + random.below(5) - newline.size() : random.range(100, 40000);
				static const std::vector<std::string> names = {"WARC-Target-URI: ", "WARC-TREC-XX: ", "x: WARC-TREC-ID: "};
				std::string line = random.pick(names);
				while (line.size() < length) line += random.chance(0.05) ? ':' : 'u';
				s += line + newline;
				tally("warc: very long header lines");
				}
			return s;
			};
		text += "WARC/1.0" + newline + "WARC-Type: response" + newline + extra();
		if (!info)
			text += "WARC-TREC-ID:" + std::string(random.chance(0.9) ? " " : "\t  ") + name + newline;
		text += extra() + "Content-Length: " + std::to_string(payload.size()) + newline;
		if (!info) after_length.push_back(text.size());
		text += (random.chance(0.5) ? "" : extra()) + newline + payload;
		if (!info) { after_record.push_back(text.size()); want.push_back({name, "\n" + payload}); }
		if (n + 1 < count || random.chance(0.7)) text += newline + newline;
		}
	if (random.chance(0.3)) text += filler(random, 40, {}, "");
	{
	origin o(random, text);
	JASS::instream_document_warc reader(o.source);
	records got = read_all(random, reader, "warc", text.size() + 2);
	compare("warc", got, want, o.how);
	}
	if (want.size() > 1) nontrivial(hash(text));
	/* cut short: the last record has what there is of it */
	size_t cut = random.below(text.size() + 1);
	std::string damaged = text.substr(0, cut);
	records expected;
	size_t n = 0;
	for (; n < want.size() && after_record[n] <= cut; n++) expected.push_back(want[n]);
	bool part = n < want.size() && after_length[n] <= cut;
	{
	origin o(random, damaged);
	JASS::instream_document_warc reader(o.source);
	records got = read_all(random, reader, "warc-cut", damaged.size() + 2);
	if (part && got.size() == expected.size() + 1)
		{
		record last = got.back();
		tally("warc: last record cut short");
		check(last.key == want[n].key && want[n].contents.compare(0, last.contents.size(), last.contents) == 0, "warc-cut:last", "a record cut short has key '" + last.key + "' and '" + last.contents.substr(0, 300) + "' (" + std::to_string(last.contents.size()) + "), whole it has '" + want[n].key + "' and '" + want[n].contents.substr(0, 300) + "'");
		got.pop_back();
		}
	compare("warc-cut", got, expected, o.how);
	}
	/* lengths that are not true: any record is made of what was in the file */
	if (random.chance(0.3))
		{
		static const std::vector<std::string> lengths = {"-1", "99999999999", "99999999999999999999", "x", "", "1000000", "-9223372036854775808", "0x10", "3"};
		size_t at = 0, changes = 0;
		damaged = text.size() < 200000 ? text : "";
		while ((at = damaged.find("Content-Length: ", at)) != std::string::npos)
			{
			size_t from = at + 16, to = damaged.find_first_of("\r\n", from);
			if (to == std::string::npos) break;
			if (random.chance(0.5)) { damaged.replace(from, to - from, random.pick(lengths)); changes++; }
			at = from;
			}
		if (damaged.size())
			{
			origin o(random, damaged);
			JASS::instream_document_warc reader(o.source);
			records got = read_all(random, reader, "warc-lengths", damaged.size() + 2);
			size_t position = 0;
			evaluation();
			tally("warc: lengths that are not true", changes);
			for (auto &r : got)
				{
				size_t found = damaged.find(r.contents.substr(1), position);
				if (!check(r.contents.size() && r.contents[0] == '\n' && found != std::string::npos, "warc-lengths:made-up", "record '" + r.key + "' of " + std::to_string(r.contents.size()) + " bytes is not in the file: '" + r.contents.substr(0, 200) + "'")) break;
				}
			}
		}
}

/* -------------------------------------------------- JSON -------------------------------------------------- */
static std::string json_text(rng &random, records &want, size_t count, std::vector<size_t> &ends, bool huge = false)
{
	std::string text;
	size_t huge_at = huge ? random.below(count) : count;
	for (size_t n = 0; n < count; n++)
		{
		auto quoted = [&](size_t length)
			{
			static const std::string plain = "abcdefg {:,}[] 019.#-";
			std::string s;
			while (s.size() < length)
				if (random.chance(0.05)) s += random.chance(0.5) ? "\\\"" : "\\n";
				else if (random.chance(0.02)) s += "{\\\"id\\\": \\\"9\\\"";
				else s += plain[random.below(plain.size())];
			return s;
			};
		auto no_pairs = [](std::string s) { size_t at; while ((at = s.find("}}")) != std::string::npos) s.erase(at, 1); return s; };
		std::string key = random.chance(0.05) ? "" : std::to_string(random.below(100000));
		std::string vector;
		size_t terms = random.chance(0.15) ? 0 : random.range(1, 12);
		for (size_t t = 0; t < terms; t++)
			{
			std::string term;
			size_t length = random.range(1, 12);
			while (term.size() < length) term += "abcdefghij#[];?."[random.below(16)];
			vector += (t ? ", \"" : "\"") + term + "\": " + std::to_string(random.below(300));
			}
		bool anonymous = random.chance(0.03);
		std::string document = anonymous ? "{\"id\": 7" : "{\"id\": \"" + key + "\"";
		document += ", \"contents\": \"" + no_pairs(quoted(n == huge_at ? random.range(1000000, 3200000) : random.chance(0.02) ? 20000 : length_of_text(random))) + "\", \"vector\": {" + vector + "}}";
		text += document;
		ends.push_back(text.size());
		text += "\n";
		if (random.chance(0.2)) text += random.chance(0.5) ? "\n" : " \n";
		want.push_back({anonymous ? "AnonymousDocument" : key, vector + "}"});
		}
	return text;
}
static void json(rng &random, uint64_t index)
{
	records want;
	std::vector<size_t> ends;
	bool large = index % 500 == 7;
	bool huge = index % 500 == 207;			// one document that is larger than the buffer
	std::string text = json_text(random, want, large ? 12000 : !huge && random.chance(0.05) ? 0 : random.range(1, 12), ends, huge);
	if (want.size() && random.chance(0.4)) text.resize(ends.back());
	{
	origin o(random, text);
	JASS::instream_document_unicoil_json reader(o.source);
	records got = read_all(random, reader, "json", text.size() + 2);
	compare("json", got, want, o.how);
	if (large) tally("json: collections larger than the buffer");
	if (huge) tally("json: documents larger than the buffer");
	}
	if (want.size() > 1) nontrivial(hash(text));
	/* cut short */
	size_t cut = random.below(text.size() + 1);
	size_t whole = 0;
	while (whole < ends.size() && ends[whole] <= cut) whole++;
	want.resize(whole);
	std::string damaged = text.substr(0, cut);
	{
	origin o(random, damaged);
	JASS::instream_document_unicoil_json reader(o.source);
	compare("json-cut", read_all(random, reader, "json-cut", damaged.size() + 2), want, o.how + ": " + damaged.substr(damaged.size() > 300 ? damaged.size() - 300 : 0));
	}
	/* rubbish: nothing but what is in the file */
	if (!large && !huge)
		{
		damaged = text;
		for (size_t n = 0; n < 4 && damaged.size(); n++)
			{
			size_t at = random.below(damaged.size());
			static const std::vector<std::string> hints = {"}}\n", "{\"id\":", "\"", "\"vector\": {", "\"id\": \"", "}"};
			if (random.chance(0.5)) damaged.erase(at, random.range(1, 20)); else damaged.insert(at, random.pick(hints));
			}
		origin o(random, damaged);
		JASS::instream_document_unicoil_json reader(o.source);
		records got = read_all(random, reader, "json-damaged", damaged.size() + 2);
		evaluation();
		tally("json: damaged collections");
		for (auto &r : got)
			if (damaged.find(r.contents) == std::string::npos || (r.key != "AnonymousDocument" && damaged.find(r.key) == std::string::npos))
				{ violation("json-damaged:made-up", "record '" + r.key + "' with '" + r.contents.substr(0, 300) + "' is not in " + damaged.substr(0, 600)); break; }
		}
}

/* ------------------------------------------ files, compressed files and directories ------------------------------------------ */
static std::string fetch_all(rng &random, JASS::instream &from, size_t limit, const std::string &kind)
{
	std::string out;
	static const std::vector<size_t> sizes = {1, 2, 3, 10, 100, 5000, 40000, 300000};
	size_t most = random.pick(sizes);
	if (limit > 100000) most = std::max(most, (size_t)5000);
	while (true)
		{
		size_t want = random.range(1, most);
		exact into(std::string(want, '#'));
		size_t got = from.fetch(into.data, want);
		if (got > want) { violation(kind + ":too-much", std::to_string(got) + " bytes were returned when " + std::to_string(want) + " were asked for"); break; }
		if (got == 0) break;
		out.append((char *)into.data, got);
		if (out.size() > limit) { violation(kind + ":too-long", "more than the " + std::to_string(limit) + " bytes there are"); break; }
		}
	for (size_t n = 0; n < 3; n++)
		{
		char c[16];
		if (from.fetch(c, sizeof(c)) != 0) { violation(kind + ":after-the-end", "bytes after the end of input"); break; }
		}
	return out;
}
static std::string bytes(rng &random)
{
	size_t length = random.chance(0.05) ? 0 : random.chance(0.05) ? random.range(10000, 600000) : random.range(1, 4000);
	std::string s(length, ' ');
	unsigned spread = random.chance(0.5) ? 256 : 3;
	for (auto &c : s) c = random.below(spread);
	return s;
}
static void files(rng &random, uint64_t)
{
	std::string text = bytes(random);
	evaluation();
	{
	origin o(random, text);
	std::string got = fetch_all(random, *o.source, text.size(), "bytes");
	check(got == text, "bytes", std::to_string(text.size()) + " bytes came back as " + std::to_string(got.size()) + " that differ [" + o.how + "]");
	tally("bytes fetched", got.size());
	if (text.size() > 1) nontrivial(hash(text));
	}
	if (random.chance(0.3))
		{
		scratch_file f(text);
		FILE *open = fopen(f.name.c_str(), "rb");
		JASS::instream_file_star reader(open);
		std::string got = fetch_all(random, reader, text.size(), "file-star");
		check(got == text, "file-star", std::to_string(text.size()) + " bytes came back as " + std::to_string(got.size()));
		}
	/* compressed data that is damaged gives no bytes that are not there, if it is just cut short then a prefix of them */
	std::string packed = compress(text, random.range(0, 9));
	std::string cut = packed.substr(0, random.below(packed.size()));
	bool changed = cut.size() && random.chance(0.3);
	if (changed) cut[random.below(cut.size())] ^= 1 << random.below(8);
	stream raw(new chunked(cut, random.next(), random.chance(0.5) ? 3 : 100000));
	JASS::instream_deflate reader(raw);
	std::string got = fetch_all(random, reader, text.size() * 1100 + 100000, "deflate-cut");
	evaluation();
	tally("compressed streams cut short or changed");
	if (!changed)
		check(got.size() <= text.size() && text.compare(0, got.size(), got) == 0, "deflate-cut", "compressed data that was cut short became " + std::to_string(got.size()) + " bytes that are not the start of the " + std::to_string(text.size()) + " that were compressed");
}

static void directory(rng &random, uint64_t)
{
	std::string name = g().scratch + "/c12.dir" + (random.chance(0.3) ? ".gz." : ".") + std::to_string(getpid()) + "." + std::to_string(file_number++);
	mkdir(name.c_str(), 0755);
	int kind = random.below(3);
	size_t count = random.chance(0.1) ? 0 : random.range(1, 6);
	std::map<std::string, records> groups;			// by key of the first record, which is that of the file
	size_t empties = 0, total = 0;
	for (size_t n = 0; n < count; n++)
		{
		records want;
		std::string text;
		if (random.chance(0.1)) empties++;
		else
			{
			size_t documents = random.range(1, 8);
			for (size_t d = 0; d < documents; d++)
				{
				std::string key = "f" + std::to_string(n) + "d" + std::to_string(d), body = std::to_string(random.next());
				if (kind == 0) { want.push_back({key, "\"t" + body + "\": 5}"}); text += "{\"id\": \"" + key + "\", \"contents\": \"\", \"vector\": {\"t" + body + "\": 5}}\n"; }
				if (kind == 1) { want.push_back({key, "<DOC><DOCNO>" + key + "</DOCNO>" + body + "</DOC>"}); text += want.back().contents + "\n"; }
				if (kind == 2) { want.push_back({">" + key, ">" + key + "\nACGT\n"}); text += want.back().contents; }
				}
			groups[want[0].key] = want;
			total += documents;
			}
		bool packed = random.chance(0.4);
		static const std::vector<std::string> suffixes = {"", ".txt", ".gz.txt", ".jsonl"};
		write_file(name + "/file" + std::to_string(random.below(1000)) + "-" + std::to_string(n) + (packed ? ".gz" : random.pick(suffixes)), packed ? members(random, text) : text);
		}
	if (random.chance(0.3)) { mkdir((name + "/sub").c_str(), 0755); tally("directories with a sub-directory"); }
	{
	stream source(new JASS::instream_directory_iterator(name));
	stream reader;
	if (kind == 0) reader.reset(new JASS::instream_document_unicoil_json(source));
	if (kind == 1) reader.reset(new small_trec(source, random.range(80, 300), "DOC", "DOCNO"));
	if (kind == 2) reader.reset(new small_fasta(source, random.range(20, 300)));
	records got = read_all(random, *reader, "directory", total + 5);
	/* files come in any order, but each is whole */
	records want;
	std::set<std::string> used;
	for (size_t n = 0; n < got.size(); )
		{
		auto group = groups.find(got[n].key);
		if (group == groups.end() || !used.insert(got[n].key).second) break;
		want.insert(want.end(), group->second.begin(), group->second.end());
		n += group->second.size();
		}
	for (auto &group : groups) if (!used.count(group.first)) want.insert(want.end(), group.second.begin(), group.second.end());
	compare("directory", got, want, std::to_string(count) + " files of kind " + std::to_string(kind));
	tally("directories read");
	if (got.size() > 1) nontrivial(mix(total, count) ^ hash(got[0].contents));
	}
	std::error_code ignore;
	std::filesystem::remove_all(name, ignore);
}

int main(int argc, char *argv[])
{
	return drive(argc, argv, {
		{"trec", 6000, 200000, trec},
		{"fasta", 6000, 150000, fasta},
		{"warc", 2500, 60000, warc},
		{"json", 3000, 40000, json},
		{"html", 100, 1000, html},
		{"files", 1500, 20000, files},
		{"directory", 600, 8000, directory},
	});
}
