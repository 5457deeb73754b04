/*
	C11: document parsers on well-formed mark-up (against the generator's own list of tokens) and on hostile bytes
	(bounds by the sanitizer on exact buffers, and by changing the bytes that follow the document)
*/
#include "tokens.h"
#include <memory>
#include <ctype.h>
#include "parser.h"
#include "parser_fasta.h"
#include "parser_unicoil_json.h"
#include "document.h"
using namespace vf;

static const size_t limit = JASS::parser::token::max_token_length;

struct seen { ref::kind type; std::string lexeme; uint64_t count; bool operator==(const seen &w) const { return type == w.type && lexeme == w.lexeme && count == w.count; } };

static ref::kind kind_of(JASS::parser::token::token_type t)
{
	typedef JASS::parser::token T;
	switch (t)
		{
		case T::alpha: return ref::alpha;
		case T::numeric: return ref::numeric;
		case T::xml_start_tag: return ref::start;
		case T::xml_empty_tag: return ref::empty;
		case T::xml_end_tag: return ref::end;
		case T::xml_comment: return ref::comment;
		case T::xml_cdata: return ref::cdata;
		case T::xml_definition: return ref::definition;
		case T::xml_conditional: return ref::conditional;
		case T::xml_processing_instruction: return ref::instruction;
		default: return ref::other;
		}
}

static std::vector<seen> parse(JASS::parser &parser, const uint8_t *data, size_t length, size_t most)
{
	std::vector<seen> out;
	static JASS::document *document = new JASS::document;
	document->contents = JASS::slice((void *)data, length);
	parser.set_document(*document);
	for (;;)
		{
		const auto &t = parser.get_next_token();
		if (t.type == JASS::parser::token::eof)
			{
			if (parser.get_next_token().type != JASS::parser::token::eof) violation("end:not-final", "a token after the end of the document");
			break;
			}
		if (out.size() >= most) { violation("end:none", "more than " + std::to_string(most) + " tokens from " + std::to_string(length) + " bytes"); break; }
		if (t.lexeme.size() > limit) { violation("token:too-long", std::to_string(t.lexeme.size())); break; }
		out.push_back({kind_of(t.type), std::string((const char *)t.lexeme.address(), t.lexeme.size()), t.count});
		}
	return out;
}
static std::string show(const std::vector<seen> &v, size_t from = 0)
{
	std::string s = "[" + std::to_string(v.size()) + "]";
	for (size_t i = from; i < v.size() && i < from + 10; i++) s += std::string(" ") + ref::name(v[i].type) + ":'" + v[i].lexeme.substr(0, 50) + "'x" + std::to_string(v[i].count);
	return s;
}
static size_t difference(const std::vector<seen> &a, const std::vector<seen> &b)
{
	size_t i = 0;
	while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
	return i;
}

/* what the parser says must not depend on what is after the document, nor on what it parsed before */
static std::vector<seen> bounded(const std::string &what, JASS::parser &used, JASS::parser &fresh, const std::string &text, size_t most)
{
	std::vector<seen> first;
	{
	exact at_the_end(text);
	first = parse(fresh, at_the_end.data, text.size(), most);
	}
	static const char *tails[] = {"aaaaaaaaaaaaaaaaaaaaaaaa", "7777777777777777", ">>>>>>>>", "\"'>-->?>]]>", "\xBF\xBF\xBF\xBF\xBF\xBF", "/>aaa", ":1\"z\":2", "acgtacgtacgtacgtacgtacgtacgtacgtacgt"};
	for (size_t i = 0; i < sizeof(tails) / sizeof(*tails); i++)
		{
		std::string more = text + tails[i];
		exact followed(more);
		auto again = parse(used, followed.data, text.size(), most);
		evaluation();
		if (!(again == first))
			{
			size_t d = difference(first, again);
			violation(what + ":depends-on-what-follows", "'" + text.substr(0, 400) + "' followed by '" + tails[i] + "' gives " + show(again, d) + " rather than " + show(first, d) + " from token " + std::to_string(d));
			break;
			}
		}
	return first;
}

/* well-formed mark-up */
struct builder
{
	rng &r;
	std::string text;
	std::vector<ref::token> want;
	bool was_text = false;
	explicit builder(rng &r) : r(r) {}

	std::string name()
	{
		std::string s;
		size_t n = r.range(1, r.chance(0.05) ? 30 : 7);
		for (size_t i = 0; i < n; i++)
			switch (r.below(i == 0 ? 4 : 7))
				{
				case 0: case 1: s += (char)('a' + r.below(26)); break;
				case 2: s += (char)('A' + r.below(26)); break;
				case 3: { uint32_t c = r.chance(0.3) ? r.pick(ref::data().names) : (uint32_t)":_"[r.below(2)]; ref::put(s, c); break; }
				case 4: s += (char)('0' + r.below(10)); break;
				case 5: s += '-'; break;
				case 6: s += '.'; break;
				}
		return s;
	}
	std::string space(size_t least) { std::string s; for (size_t n = r.range(least, least + 2); n; n--) s += " \t\n\r"[r.below(4)]; return s; }
	std::string anything(const char *without, size_t most)	// bytes in which none of the strings (separated by |) occur
	{
		std::string s;
		static const char *bits[] = {"<", ">", "/>", "</", "<b>", "x", " ", "word", "42", "'", "\"", "&amp;", "]", "]]", "?", "-", "--", "!", "[", "\xC3\xA9", "\xFF", "\n", "=", "<!--", "<![CDATA[", "-->", "]]>", "?>", "<?"};
		for (size_t n = r.below(most); n; n--) s += bits[r.below(sizeof(bits) / sizeof(*bits))];
		if (r.chance(0.03)) s += std::string(r.range(1000, 1100), 'q');
		std::string list = without;
		bool found = true;
		while (found)
			{
			found = false;
			for (size_t a = 0; a < list.size(); )
				{
				size_t b = list.find('|', a);
				if (b == std::string::npos) b = list.size();
				std::string w = list.substr(a, b - a);
				for (size_t at; (at = s.find(w)) != std::string::npos; found = true) s.erase(at, 1);
				a = b + 1;
				}
			}
		return s;
	}
	std::string attributes()
	{
		std::string s;
		for (size_t n = r.below(4); n; n--)
			{
			bool d = r.chance(0.5);
			s += space(1) + name() + space(0) + "=" + space(0) + (d ? "\"" : "'") + anything(d ? "\"" : "'", 6) + (d ? "\"" : "'");
			}
		return s;
	}
	void add(const std::string &t, ref::kind k, const std::string &lexeme) { text += t; want.push_back({k, lexeme.substr(0, limit)}); was_text = false; }
	void piece()
	{
		switch (r.below(12))
			{
			case 0: case 1: case 2: case 3:
				{
				std::string t = ref::text(r, r.range(1, 6), true);
				if (was_text) return;
				was_text = true;
				text += t;
				ref::tokenise(want, t);
				for (auto &w : want) if (w.lexeme.size() > limit) w.lexeme.resize(limit);
				return;
				}
			case 4: case 5: { std::string n = name(); add("<" + n + attributes() + space(0) + ">", ref::start, n); return; }
			case 6: { std::string n = name(); add("<" + n + attributes() + space(0) + "/>", ref::empty, n); return; }
			case 7: { std::string n = name(); add("</" + n + ">", ref::end, n); return; }
			case 8: { std::string c = anything("--|-->", 8); while (c.size() && c.back() == '-') c.pop_back(); add("<!--" + c + "-->", ref::comment, c); return; }
			case 9: { std::string c = anything("]]>", 8); add("<![CDATA[" + c + "]]>", ref::cdata, c); return; }
			case 10: { std::string c = name() + space(1) + anything("?>", 6); while (c.size() && c.back() == '?') c.pop_back(); add("<?" + c + "?>", ref::instruction, c); return; }
			case 11:
				{
				static const char *d[] = {"DOCTYPE", "ELEMENT", "ATTLIST", "ENTITY", "NOTATION"};
				if (r.chance(0.7)) { std::string c = d[r.below(5)] + space(1) + name() + " " + anything(">|[", 4); add("<!" + c + ">", ref::definition, c); }
				else if (r.chance(0.5)) { std::string c = space(0) + (r.chance(0.5) ? "INCLUDE" : "IGNORE") + space(0); add("<![" + c + "[", ref::conditional, c); }
				else { std::string after; static const char *no[] = {" ", "\n", "3", "=", "<", "(", "&", "\xFF", "\x80", "-"}; after = no[r.below(10)];
					add("<", ref::other, "<");
					if (after == "<") { text += "< "; want.push_back({ref::other, "<"}); }
					else { text += after; ref::tokenise(want, after); if (isdigit((unsigned char)after[0])) { text += " "; } }
					}
				return;
				}
			}
	}
};

static void markup(rng &random, uint64_t)
{
	static std::unique_ptr<JASS::parser> used(new JASS::parser);
	for (int i = 0; i < 6; i++)
		{
		builder b(random);
		for (size_t n = random.range(1, 25); n; n--) b.piece();
		/* text straight after a lone < or another text would run together: a piece of text is only added after mark-up */
		JASS::parser fresh;
		auto got = bounded("markup", *used, fresh, b.text, b.text.size() + 1);
		std::vector<seen> want;
		for (auto &t : b.want) want.push_back({t.type, t.lexeme, 1});
		evaluation();
		if (!(got == want))
			{
			size_t d = difference(got, want);
			violation(std::string("markup:") + (d < want.size() ? ref::name(want[d].type) : "extra"), "'" + b.text.substr(0, 600) + "' gave " + show(got, d) + " rather than " + show(want, d) + " from token " + std::to_string(d));
			}
		for (auto &t : b.want) if (t.type > ref::other) tally(std::string("mark-up: ") + ref::name(t.type));
		if (b.want.size() > 3) nontrivial(hash(b.text));
		if (i == 0) sample(b.text.substr(0, 100));
		}
}

static std::string damage(rng &r, std::string s)
{
	static const char *bits[] = {"<", ">", "\"", "'", "/", "<!", "<!-", "<!--", "-->", "<?", "?>", "<![", "<![CDATA[", "]]>", "</", "<a ", "<\xFF", "<\xC3", "</\xE2\x82", "\xF0\x9F", "\x80", "\xFF", "<!A", "<!DOCTYPE", "<![x", "\"a\": ", "\\", "{", "}", ":", "99999999999999999999999"};
	for (size_t n = r.below(6); n; n--)
		switch (r.below(5))
			{
			case 0: if (s.size()) s.erase(r.below(s.size()), r.range(1, 8)); break;
			case 1: s.insert(r.below(s.size() + 1), bits[r.below(sizeof(bits) / sizeof(*bits))]); break;
			case 2: if (s.size()) s[r.below(s.size())] = (char)r.next(); break;
			case 3: s.resize(r.below(s.size() + 1)); break;
			case 4: if (s.size()) s += s.substr(r.below(s.size()), r.range(1, 40)); break;
			}
	return s;
}

static void hostile(rng &random, uint64_t)
{
	static std::unique_ptr<JASS::parser> used(new JASS::parser);
	static std::unique_ptr<JASS::parser_fasta> used_fasta(new JASS::parser_fasta(5));
	static std::unique_ptr<JASS::parser_unicoil_json> used_json(new JASS::parser_unicoil_json);
	for (int i = 0; i < 6; i++)
		{
		std::string text;
		switch (random.below(4))
			{
			case 0: { builder b(random); for (size_t n = random.range(1, 10); n; n--) b.piece(); text = damage(random, b.text); break; }
			case 1: { builder b(random); for (size_t n = random.range(1, 4); n; n--) b.piece(); text = b.text.substr(0, random.below(b.text.size() + 1)); break; }		// cut anywhere
			case 2: for (size_t n = random.below(60); n; n--) text += random.chance(0.4) ? "<>!?-[]/\"' =aZ09:&\\{},"[random.below(23)] : (char)random.next(); break;
			case 3: text = damage(random, ref::text(random, random.below(10), true)); break;
			}
		JASS::parser fresh;
		auto got = bounded("hostile", *used, fresh, text, text.size() + 1);
		/* text up to the first < is not affected by what follows it */
		size_t cut = text.find('<');
		std::vector<ref::token> want = ref::tokenise(text.substr(0, cut));
		bool same = got.size() >= want.size();
		for (size_t t = 0; same && t < want.size(); t++) same = got[t].type == want[t].type && got[t].lexeme == want[t].lexeme.substr(0, limit);
		if (!same) violation("hostile:text-before-mark-up", "'" + text.substr(0, 300) + "' gave " + show(got) + " which does not start with " + ref::show(want));
		/* every token's bytes come from the document: what isn't folded must occur in it */
		for (auto &t : got)
			if (t.type > ref::other && text.find(t.lexeme) == std::string::npos)
				violation("hostile:made-up", "'" + text.substr(0, 300) + "' gave " + ref::name(t.type) + " '" + t.lexeme + "'");
		tally("hostile documents");
		tally("hostile documents: tokens", got.size());
		nontrivial(hash(text, 7));

		JASS::parser_fasta fresh_fasta(5);
		bounded("hostile-fasta", *used_fasta, fresh_fasta, text, 2 * text.size() + 1);
		JASS::parser_unicoil_json fresh_json;
		bounded("hostile-json", *used_json, fresh_json, text, text.size() + 1);
		}
}

static void fasta(rng &random, uint64_t)
{
	for (int i = 0; i < 5; i++)
		{
		size_t k = random.chance(0.05) ? random.range(limit - 3, limit + 500) : random.chance(0.3) ? random.range(1, 3) : random.range(1, 40);
		std::string header;
		if (random.chance(0.9)) header = ">" + (random.chance(0.7) ? ref::text(random, random.below(6), true) : "NR_" + std::to_string(random.below(1000000)) + "." + std::to_string(random.below(9)));
		static const char *ends[] = {"", ".", " sequence.", "]", " partial", " 7", ")", "<", "<b", "<a x='", "<?", "</x", "<!--"};
		std::string tail = ends[random.below(13)];
		header.erase(std::remove(header.begin(), header.end(), '\n'), header.end());
		header += tail;
		std::string dna;
		size_t length = random.range(0, k > 100 ? 3 * k : 6 * k + 10);
		for (size_t n = 0; n < length; n++)
			{
			if (random.chance(0.85)) dna += "acgtACGT"[random.below(8)];
			else if (random.chance(0.7)) dna += " \n\t\r"[random.below(4)];
			else if (random.chance(0.5)) dna += "xNnRyK-*.>"[random.below(10)];
			else if (random.chance(0.2)) dna += (char)random.next();
			}
		bool ended = random.chance(0.9);
		std::string text = header + (ended ? "\n" : "") + (ended ? dna : "");

		JASS::parser_fasta used(k), fresh(k);
		auto got = bounded("fasta", used, fresh, text, 2 * text.size() + 1);

		std::vector<seen> want;
		if (tail.empty() || tail[0] != '<')
			for (auto &t : ref::tokenise(header)) want.push_back({t.type, t.lexeme.substr(0, limit), 1});
		else
			{
			/* what the header is as text is for the general parser; the k-mers must be there whatever it is */
			exact h(header);
			JASS::parser general;
			want = parse(general, h.data, header.size(), header.size() + 1);
			}
		size_t text_tokens = want.size();
		if (ended)
			{
			std::string run;
			for (size_t n = 0; n <= dna.size(); n++)
				{
				char c = n < dna.size() ? dna[n] : 'x';
				if (c && strchr(" \t\n\v\f\r", c)) continue;
				if (c && strchr("acgtACGT", c)) { run += (char)(c | 0x20); continue; }
				for (size_t from = 0; from + k <= run.size(); from++) want.push_back({ref::alpha, run.substr(from, k).substr(0, limit), 1});
				run.clear();
				}
			}
		evaluation();
		tally("k-mers", want.size() - text_tokens);
		if (want.size() > text_tokens) nontrivial(hash(text, k));
		if (!(got == want))
			{
			size_t d = difference(got, want);
			bool text_part = d < text_tokens;
			violation(text_part ? "fasta:header" : d < want.size() && d < got.size() && got[d].lexeme == want[d].lexeme ? "fasta:k-mer-type" : "fasta:k-mers", "k=" + std::to_string(k) + " '" + text.substr(0, 400) + "' gave " + show(got, d) + " rather than " + show(want, d) + " from token " + std::to_string(d));
			}
		}
}

static void json(rng &random, uint64_t)
{
	for (int i = 0; i < 5; i++)
		{
		std::string text;
		std::vector<seen> want;
		std::vector<size_t> complete;			// where in the text each term (and its count) is complete
		auto space = [&] { std::string s; for (size_t n = random.below(3); n; n--) s += " \n\t"[random.below(3)]; return s; };
		if (random.chance(0.5)) text += "{" + space();
		for (size_t n = random.range(0, 12); n; n--)
			{
			std::string term;
			for (size_t c = random.range(1, random.chance(0.02) ? 1500 : 9); c; c--)
				switch (random.below(8))
					{
					case 0: term += "\\\""; break;
					case 1: term += "\\\\"; break;
					case 2: term += "\\u00e9"; break;
					case 3: term += "##"; break;
					case 4: ref::put(term, random.pick(ref::data().letters)); break;
					case 5: term += (char)('0' + random.below(10)); break;
					case 6: term += ",:{}[]' "[random.below(8)]; break;
					default: term += (char)('a' + random.below(26));
					}
			uint64_t count = random.chance(0.1) ? 0 : random.chance(0.05) ? random.range(1000, 70000) : random.chance(0.02) ? 4294967290 + random.below(10) : random.chance(0.02) ? ~0ull - random.below(3) : random.range(1, 255);
			std::string digits = std::to_string(count);
			if (random.chance(0.01)) digits += "00000000";
			text += "\"" + term + "\"" + space() + ":" + space() + digits;
			bool zero = count == 0;
			if (!zero) { want.push_back({ref::alpha, term.substr(0, limit), digits.size() > 6 || count > 1024 ? 1024 : count}); complete.push_back(text.size()); }
			else tally("terms with a count of 0");
			if (n > 1) text += space() + "," + space();
			}
		text += space() + (random.chance(0.5) ? "}" : "");
		JASS::parser_unicoil_json used, fresh;
		auto got = bounded("json", used, fresh, text, text.size() + 1);
		evaluation();
		tally("weighted terms", want.size());
		if (want.size() > 1) nontrivial(hash(text));
		if (!(got == want))
			{
			size_t d = difference(got, want);
			violation("json", "'" + text.substr(0, 400) + "' gave " + show(got, d) + " rather than " + show(want, d) + " from term " + std::to_string(d));
			}
		/* a document that is cut short has the terms that are complete, and perhaps one whose count is cut short */
		for (size_t c = 0; c < 4; c++)
			{
			size_t cut = random.below(text.size() + 1);
			JASS::parser_unicoil_json used_again, fresh_again;
			auto part = bounded("json-cut", used_again, fresh_again, text.substr(0, cut), text.size() + 1);
			size_t whole = 0;
			while (whole < complete.size() && complete[whole] <= cut) whole++;
			size_t d = difference(part, want);
			evaluation();
			bool ok = d >= whole && (part.size() == d || (part.size() == d + 1 && d < want.size() && part[d].type == want[d].type && part[d].lexeme == want[d].lexeme && part[d].count <= want[d].count && d == whole));
			tally("documents cut short");
			if (!ok) violation("json:cut-short", "'" + text.substr(0, cut) + "' gave " + show(part) + ", whole it gives " + show(want));
			}
		}
	if (random.chance(0.02))
		{
		/* many terms to be ignored */
		std::string text;
		for (size_t n = 0; n < 60000; n++) text += "\"a\":0,";
		text += "\"b\":3";
		JASS::parser_unicoil_json one;
		exact e(text);
		auto got = parse(one, e.data, text.size(), 10);
		check(got.size() == 1 && got[0].lexeme == "b" && got[0].count == 3, "json:many-zeros", show(got));
		}
}

int main(int argc, char *argv[])
{
	/* the JSON parser reports counts it reduces on std::cout */
	std::ios_base::sync_with_stdio(true);
	std::cout.setstate(std::ios_base::failbit);
	return drive(argc, argv, {
		{"markup", 6000, 80000, markup},
		{"hostile", 7000, 100000, hostile},
		{"fasta", 4000, 40000, fasta},
		{"json", 4000, 40000, json},
	});
}
