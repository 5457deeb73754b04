/*
	C10: the query tokeniser, the document tokeniser and the reference tokeniser, on the same text
*/
#include "tokens.h"
#include <memory>
#include "parser.h"
#include "document.h"
#include "parser_query.h"
#include "query_term_list.h"
#include "allocator_pool.h"
using namespace vf;

static const size_t limit = 1024;		// "JASS handles extra-long tokens by truncating at length token.max_token_length"

static std::vector<ref::token> of_document(JASS::parser &parser, const exact &text)
{
	std::vector<ref::token> out;
	size_t others = 0;
	static JASS::document *document = new JASS::document;
	document->contents = JASS::slice(text.data, text.length);
	parser.set_document(*document);
	for (;;)
		{
		const auto &t = parser.get_next_token();
		if (t.type == JASS::parser::token::eof) break;
		if (out.size() > text.length) { violation("document:no-end", "more tokens than bytes"); break; }
		std::string lexeme((const char *)t.lexeme.address(), t.lexeme.size());
		if (t.type == JASS::parser::token::alpha) out.push_back({ref::alpha, lexeme});
		else if (t.type == JASS::parser::token::numeric) out.push_back({ref::numeric, lexeme});
		else if (t.type == JASS::parser::token::other) others++;
		else violation("document:type", "text without mark-up gave a token of type " + std::to_string(t.type) + " '" + lexeme + "'");
		}
	tally("separators seen as tokens", others);
	return out;
}

static bool of_query(std::map<std::string, uint64_t> &out, JASS::parser_query &parser, const std::string &text, JASS::parser_query::parser_type how)
{
	static JASS::query_term_list *terms = nullptr;
	if (terms == nullptr) terms = (JASS::query_term_list *)malloc(sizeof(*terms));
	new (terms) JASS::query_term_list;
	exact copy(text.c_str(), text.size() + 1);				// what c_str() of a string gives
	struct view { const char *p; size_t n; const char *c_str() const { return p; } size_t size() const { return n; } } q{(const char *)copy.data, text.size()};
	parser.parse(*terms, q, how);
	bool unique = true;
	for (const auto &t : *terms)
		unique &= out.emplace(std::string((const char *)t.token().address(), t.token().size()), t.frequency()).second;
	return unique;
}

static std::string show(const std::map<std::string, uint64_t> &m)
{
	std::string s = "[" + std::to_string(m.size()) + "]";
	size_t n = 0;
	for (auto &e : m) if (n++ < 12) s += " '" + e.first.substr(0, 50) + "'x" + std::to_string(e.second);
	return s;
}

static void compare(const std::string &text, JASS::parser &parser, JASS::parser_query &query_parser)
{
	std::vector<ref::token> want;
	for (auto &t : ref::tokenise(text)) if (t.type == ref::alpha || t.type == ref::numeric) want.push_back(t);

	exact document(text);
	auto got = of_document(parser, document);
	evaluation(2);
	size_t at = 0;
	bool same = got.size() == want.size();
	for (; same && at < want.size(); at++)
		{
		const std::string &w = want[at].lexeme, &g = got[at].lexeme;
		if (want[at].type != got[at].type) same = false;
		else if (w.size() <= limit) same = w == g;
		else { same = g.size() <= limit && g.size() > limit - 4 && w.compare(0, limit - 3, g, 0, limit - 3) == 0; tally("tokens longer than the limit"); }
		if (!same) break;
		}
	if (!same)
		violation("document", "text '" + text.substr(0, 300) + "' gave " + ref::show(got, at) + " rather than " + ref::show(want, at) + " from token " + std::to_string(at));

	std::map<std::string, uint64_t> terms, expected;
	bool unique = of_query(terms, query_parser, text, JASS::parser_query::query);
	for (auto &t : want) expected[t.lexeme]++;
	if (!unique) violation("query:duplicate", "a term is more than once in the terms of '" + text.substr(0, 300) + "'");
	if (terms != expected)
		violation("query", "query '" + text.substr(0, 300) + "' gave " + show(terms) + " rather than " + show(expected));
	size_t letters = 0, nothing = 0;
	for (auto &t : want) letters += t.type == ref::alpha, nothing += t.lexeme.empty();
	tally("alphabetic tokens", letters);
	tally("numeric tokens", want.size() - letters);
	if (nothing) tally("tokens that fold to nothing", nothing);
	if (want.size() > 1) nontrivial(hash(text));
}

static JASS::allocator_pool &memory() { static JASS::allocator_pool *m = new JASS::allocator_pool(65536); return *m; }

static void texts(rng &random, uint64_t)
{
	JASS::parser parser;
	JASS::parser_query query(memory());
	for (int i = 0; i < 12; i++)
		{
		std::string text = ref::text(random, random.range(0, 30), random.chance(0.4));
		if (i == 0) sample(text.substr(0, 80));
		compare(text, parser, query);
		memory().rewind();
		}
}

static const size_t block = 256;
static void every(rng &random, uint64_t index)
{
	JASS::parser parser;
	JASS::parser_query query(memory());
	std::string all;
	for (uint32_t cp = (uint32_t)(index * block); cp < (index + 1) * block; cp++)
		{
		if ((cp >= 0xD800 && cp <= 0xDFFF) || cp == '<') continue;
		std::string c;
		ref::put(c, cp);
		all += c + " a" + c + "b" + c + " 1" + c + "2 " + c + "z" + c + "9" + c + c + " ";
		}
	compare(all, parser, query);
	/* and at the very end and start of a text */
	uint32_t cp = (uint32_t)(index * block + random.below(block));
	if (cp != '<' && (cp < 0xD800 || cp > 0xDFFF))
		{
		std::string c;
		ref::put(c, cp);
		compare(c, parser, query);
		compare("x" + c, parser, query);
		compare("7" + c, parser, query);
		compare(" " + c + "x", parser, query);
		}
	memory().rewind();
}

static void lengths(rng &random, uint64_t)
{
	JASS::parser parser;
	JASS::parser_query query(memory());
	static const uint32_t letters[] = {'a', 'Z', 0xE9, 0x430, 0x6211, 0x29E3D, 0xFDFA};
	static const uint32_t numbers[] = {'0', '7', 0x661, 0xBD, 0x1D7CE};
	std::string text;
	size_t target = random.range(limit - 5, limit + (random.chance(0.3) ? 3000 : 5));
	bool alphabetic = random.chance(0.6);
	std::string folded;
	if (random.chance(0.5)) text = "before ";
	while (folded.size() < target)
		{
		bool plain = random.chance(0.8);
		uint32_t cp = alphabetic ? letters[plain ? random.below(2) : random.below(7)] : numbers[plain ? random.below(2) : random.below(5)];
		ref::put(text, cp);
		ref::fold(folded, cp);
		}
	if (random.chance(0.5)) text += " after";
	compare(text, parser, query);
	compare("again " + text.substr(0, 100), parser, query);
	memory().rewind();
}

static void raw(rng &random, uint64_t)
{
	JASS::parser_query query(memory());
	for (int i = 0; i < 8; i++)
		{
		std::string text = ref::text(random, random.range(0, 25), true);
		if (random.chance(0.5)) for (size_t n = random.below(40); n; n--) text += (char)random.range(1, 255);
		text.erase(std::remove(text.begin(), text.end(), '\0'), text.end());
		std::map<std::string, uint64_t> expected, got;
		std::string word;
		for (size_t at = 0; at <= text.size(); at++)
			if (at == text.size() || strchr(" \t\n\v\f\r", text[at])) { if (word.size()) expected[word]++; word.clear(); }
			else word += text[at];
		bool unique = of_query(got, query, text, JASS::parser_query::raw);
		evaluation();
		if (!unique || got != expected)
			violation("raw", "query '" + text + "' gave " + show(got) + " rather than " + show(expected));
		tally("raw words", expected.size());
		memory().rewind();
		}
}

static void repeats(rng &random, uint64_t index)		// many occurrences, many terms
{
	JASS::parser parser;
	JASS::parser_query query(memory());
	std::string text;
	if (index == 0)
		{
		/* the most terms a query can have */
		for (size_t i = 0; i < 65535; i++) text += "t" + std::to_string(i % 900) + (i % 2 ? " " : ",");		// a letter and a number each
		std::string some;
		size_t words = 0;
		for (size_t at = 0; at < text.size() && words < 65535 / 2; at++) { some += text[at]; if (text[at] == ' ' || text[at] == ',') words++; }
		text = some;
		}
	else
		{
		size_t vocabulary = random.range(1, 40);
		for (size_t i = random.range(1, 2000); i; i--) { std::string w; for (size_t v = random.below(vocabulary) + 1; v; v /= 3) w += (char)(random.chance(0.5) ? 'a' + v % 3 : 'A' + v % 3); text += w + (random.chance(0.5) ? " " : "."); }
		}
	compare(text, parser, query);
	memory().rewind();
}

int main(int argc, char *argv[])
{
	return drive(argc, argv, {
		{"texts", 3000, 120000, texts},
		{"every", 0x110000 / block, 0x110000 / block, every},
		{"lengths", 1200, 20000, lengths},
		{"raw", 1500, 40000, raw},
		{"repeats", 120, 2000, repeats},
	});
}
