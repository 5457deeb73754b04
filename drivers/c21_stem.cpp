/*
	C21: the Porter stemmer against the published algorithm (Porter 1980), written here from the paper
*/
#include "common.h"
#include <memory>
#include "stem_porter.h"
#include "stem.h"
using namespace vf;

namespace paper
{
	/* is the i-th letter a consonant? */
	static bool consonant(const std::string &w, size_t i)
	{
		if (strchr("aeiou", w[i]) && w[i]) return false;
		if (w[i] == 'y') return i == 0 || !consonant(w, i - 1);
		return true;
	}
	/* m in [C](VC)^m[V] */
	static size_t m(const std::string &w)
	{
		size_t count = 0;
		for (size_t i = 1; i < w.size(); i++)
			if (!consonant(w, i - 1) && consonant(w, i)) count++;
		return count;
	}
	static bool vowel_in(const std::string &w)
	{
		for (size_t i = 0; i < w.size(); i++) if (!consonant(w, i)) return true;
		return false;
	}
	static bool double_consonant(const std::string &w)
	{
		size_t n = w.size();
		return n >= 2 && w[n - 1] == w[n - 2] && consonant(w, n - 1) && consonant(w, n - 2);
	}
	static bool cvc(const std::string &w)
	{
		size_t n = w.size();
		return n >= 3 && consonant(w, n - 3) && !consonant(w, n - 2) && consonant(w, n - 1) && !strchr("wxy", w[n - 1]);
	}
	static bool ends(const std::string &w, const std::string &with) { return w.size() >= with.size() && w.compare(w.size() - with.size(), with.size(), with) == 0; }

	struct rule { const char *from, *to; };
	/* "in a set of rules written beneath each other, only one is obeyed, and this will be the one with the longest matching S1" */
	static void apply(std::string &w, const std::vector<rule> &rules, size_t more_than)
	{
		const rule *best = nullptr;
		for (auto &r : rules)
			if (ends(w, r.from) && (best == nullptr || strlen(r.from) > strlen(best->from))) best = &r;
		if (best == nullptr) return;
		std::string stem = w.substr(0, w.size() - strlen(best->from));
		if (m(stem) > more_than && (strcmp(best->from, "ion") != 0 || ends(stem, "s") || ends(stem, "t")))
			w = stem + best->to;
	}

	static std::string stem(std::string w)
	{
		/* 1a */
		if (ends(w, "sses")) w.resize(w.size() - 2);
		else if (ends(w, "ies")) w.resize(w.size() - 2);
		else if (ends(w, "ss")) {}
		else if (ends(w, "s")) w.resize(w.size() - 1);
		/* 1b */
		bool again = false;
		if (ends(w, "eed")) { if (m(w.substr(0, w.size() - 3)) > 0) w.resize(w.size() - 1); }
		else if (ends(w, "ed")) { if (vowel_in(w.substr(0, w.size() - 2))) { w.resize(w.size() - 2); again = true; } }
		else if (ends(w, "ing")) { if (vowel_in(w.substr(0, w.size() - 3))) { w.resize(w.size() - 3); again = true; } }
		if (again)
			{
			if (ends(w, "at") || ends(w, "bl") || ends(w, "iz")) w += "e";
			else if (double_consonant(w) && !strchr("lsz", w.back())) w.resize(w.size() - 1);
			else if (m(w) == 1 && cvc(w)) w += "e";
			}
		/* 1c */
		if (ends(w, "y") && vowel_in(w.substr(0, w.size() - 1))) w.back() = 'i';
		/* 2 */
		static const std::vector<rule> two = {{"ational", "ate"}, {"tional", "tion"}, {"enci", "ence"}, {"anci", "ance"}, {"izer", "ize"}, {"abli", "able"}, {"alli", "al"}, {"entli", "ent"}, {"eli", "e"},
			{"ousli", "ous"}, {"ization", "ize"}, {"ation", "ate"}, {"ator", "ate"}, {"alism", "al"}, {"iveness", "ive"}, {"fulness", "ful"}, {"ousness", "ous"}, {"aliti", "al"}, {"iviti", "ive"}, {"biliti", "ble"}};
		apply(w, two, 0);
		/* 3 */
		static const std::vector<rule> three = {{"icate", "ic"}, {"ative", ""}, {"alize", "al"}, {"iciti", "ic"}, {"ical", "ic"}, {"ful", ""}, {"ness", ""}};
		apply(w, three, 0);
		/* 4 */
		static const std::vector<rule> four = {{"al", ""}, {"ance", ""}, {"ence", ""}, {"er", ""}, {"ic", ""}, {"able", ""}, {"ible", ""}, {"ant", ""}, {"ement", ""}, {"ment", ""}, {"ent", ""}, {"ion", ""}, {"ou", ""},
			{"ism", ""}, {"ate", ""}, {"iti", ""}, {"ous", ""}, {"ive", ""}, {"ize", ""}};
		apply(w, four, 1);
		/* 5 */
		if (ends(w, "e"))
			{
			std::string s = w.substr(0, w.size() - 1);
			if (m(s) > 1 || (m(s) == 1 && !cvc(s))) w = s;
			}
		if (m(w) > 1 && double_consonant(w) && ends(w, "l")) w.resize(w.size() - 1);
		return w;
	}
}

static JASS::stem_porter *stemmer = nullptr;

/* stem exactly these bytes into exactly enough memory */
static std::string run(const std::string &word, bool in_place, size_t &reported)
{
	if (stemmer == nullptr) stemmer = new JASS::stem_porter;
	std::unique_ptr<char[]> to(new char[word.size() + 1]), from(new char[word.size()]);
	memcpy(from.get(), word.data(), word.size());
	memset(to.get(), '#', word.size() + 1);
	if (in_place) { memcpy(to.get(), word.data(), word.size()); reported = stemmer->tostem(to.get(), to.get(), word.size()); }
	else reported = stemmer->tostem(to.get(), from.get(), word.size());
	if (!in_place && memcmp(from.get(), word.data(), word.size()) != 0) violation("source", "stemming '" + word + "' changed it");
	if (reported > word.size()) return "?";
	return std::string(to.get(), reported) + (to[reported] == '\0' ? "" : "<unterminated>");
}

static bool one(const std::string &word, const char *kind, bool in_place = false)
{
	size_t reported;
	std::string got = run(word, in_place, reported), want = paper::stem(word);
	evaluation();
	if (got == want) return true;
	/* the paper says nothing of words of one or two letters, the published program leaves them alone */
	if (word.size() <= 2 && got == word) return true;
	return check(false, std::string(kind) + (in_place ? ":in-place" : ""), "'" + word + "' stems to '" + got + "' not '" + want + "'");
}

static const std::vector<std::string> suffixes = {"s", "es", "ies", "sses", "ss", "eed", "ed", "ing", "at", "bl", "iz", "y", "ational", "tional", "enci", "anci", "ency", "ancy", "izer", "abli", "ably", "alli", "ally", "entli", "ently", "eli", "ely",
	"ousli", "ously", "ization", "ation", "ator", "alism", "iveness", "fulness", "ousness", "aliti", "ality", "iviti", "ivity", "biliti", "bility", "icate", "ative", "alize", "iciti", "icity", "ical", "ful", "ness", "al", "ance", "ence",
	"er", "ic", "able", "ible", "ant", "ement", "ment", "ent", "sion", "tion", "ion", "ou", "ism", "ate", "iti", "ous", "ive", "ize", "e", "l", "ll", "tt", "zz", "ee"};

static std::string letters(rng &r, size_t n)
{
	std::string s;
	size_t kind = r.below(4);
	for (size_t i = 0; i < n; i++)
		s += kind == 0 ? (char)('a' + r.below(26)) : kind == 1 ? "aeiouy"[r.below(6)] : kind == 2 ? "bcdlstyaeo"[r.below(10)] : (i % 2 ? "aeiouy"[r.below(6)] : "bcdfghjklmnpqrstvwxyz"[r.below(21)]);
	return s;
}

static void suffix_case(rng &r, uint64_t number)
{
	for (size_t i = 0; i < 300; i++)
		{
		std::string w = letters(r, r.below(r.chance(0.05) ? 40 : 7));
		for (size_t j = 0, n = r.below(4); j < n; j++) w += r.pick(suffixes);
		if (w.empty()) w = "s";
		one(w, "suffixes", r.chance(0.2));
		nontrivial(hash(w));
		if (number < 1 && i < 12) sample(w + " -> " + paper::stem(w));
		}
}

/* every stem of up to three letters (from all the kinds of letter there are) before every suffix and pair of suffixes */
static void every_suffix_case(rng &r, uint64_t number)
{
	static const char kinds[] = "aeiouybwxlstzcr";
	const size_t k = sizeof(kinds) - 1;
	std::string stem;
	for (uint64_t n = number; n; n /= (k + 1)) { size_t d = n % (k + 1); if (d) stem += kinds[d - 1]; }
	for (auto &a : suffixes)
		{
		one(stem + a, "every-suffix");
		for (auto &b : suffixes) one(stem + a + b, "every-suffix");
		}
	nontrivial(hash(stem));
	tally("stems tried with every suffix");
}

/* every word of five of the letters that matter */
static void every_word_case(rng &r, uint64_t number)
{
	static const char kinds[] = "aeybdglnst";
	for (uint64_t n = number * 1000; n < (number + 1) * 1000; n++)
		{
		std::string w;
		uint64_t v = n;
		for (size_t i = 0; i < (number < 100 ? 5 : 6); i++, v /= 10) w += kinds[v % 10];
		one(w, "every-word");
		}
	nontrivial(number + 77777);
	tally("words enumerated", 1000);
}

static void bytes_case(rng &r, uint64_t number)
{
	for (size_t i = 0; i < 50; i++)
		{
		std::string w(r.below(r.chance(0.05) ? 3000 : 20), 0);
		size_t kind = r.below(3);
		for (auto &c : w) c = kind == 0 ? (char)r.range(1, 255) : kind == 1 ? "0123456789"[r.below(10)] : "ab\xc3\xa9\xe6\x97\xa5y'-"[r.below(10)];
		if (r.chance(0.5)) w += r.pick(suffixes);
		size_t reported;
		std::string got = run(w, r.chance(0.3), reported);
		check(reported <= w.size() && got.size() == reported, "bytes", "stemming " + std::to_string(w.size()) + " bytes reports a length of " + std::to_string(reported));
		bool plain = true;
		for (unsigned char c : w) plain = plain && !isalpha(c);
		if (plain) check(got == w, "bytes:unchanged", "stemming " + std::to_string(w.size()) + " bytes none of which is a letter changed them");
		evaluation();
		nontrivial(hash(w));
		}
	tally("strings that are not words", 50);
}

/* the way the indexer uses it: a token stemmed into itself */
static void token_case(rng &r, uint64_t number)
{
	if (stemmer == nullptr) stemmer = new JASS::stem_porter;
	for (size_t i = 0; i < 40; i++)
		{
		std::string w = r.chance(0.05) ? letters(r, JASS::parser::token::max_token_length - r.below(2)) : letters(r, r.range(3, 12)) + r.pick(suffixes);
		auto token = std::make_unique<JASS::parser::token>();
		std::string text = w;
		bool own = r.chance(0.7);
		if (own) { memcpy(token->buffer, w.data(), w.size()); token->lexeme = JASS::slice(token->buffer, w.size()); }
		else token->lexeme = JASS::slice((void *)text.data(), text.size());
		size_t length = static_cast<JASS::stem *>(stemmer)->tostem(*token, *token);
		std::string got((char *)token->lexeme.address(), token->lexeme.size()), want = paper::stem(w);
		check(length == want.size() && got == want, "token", "a token '" + w.substr(0, 60) + "' stems to '" + got.substr(0, 60) + "' not '" + want.substr(0, 60) + "'");
		check(text == w, "source", "stemming a token changed the document");
		evaluation();
		nontrivial(hash(w));
		}
	tally("tokens", 40);
}

int main(int argc, char *argv[])
{
	return drive(argc, argv, {{"suffix", 1500, 60000, suffix_case}, {"every-suffix", 256, 4096, every_suffix_case}, {"every-word", 100, 1100, every_word_case}, {"bytes", 600, 20000, bytes_case}, {"token", 500, 20000, token_case}});
}
