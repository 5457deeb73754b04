/*
	TOKENS.H
	--------
	The reference tokeniser: written from the documentation (maximal runs of letters, maximal runs of digits, case folded,
	everything else a separator), over the Unicode data as read by lib/ucd.py.
*/
#pragma once
#include "common.h"

namespace ref
{
	struct entry { uint16_t flags; uint8_t n; uint32_t at; };
	struct ucd
	{
		std::vector<entry> of;
		std::vector<uint32_t> folds;
		std::vector<uint32_t> letters, digits, others, names, spaces;
		ucd()
		{
			const char *name = getenv("VF_UCD");
			FILE *f = name ? fopen(name, "rb") : nullptr;
			if (f == nullptr) vf::harness_error("no reference table");
			for (uint32_t cp = 0; cp <= 0x10FFFF; cp++)
				{
				entry e;
				if (fread(&e.flags, 2, 1, f) != 1 || fread(&e.n, 1, 1, f) != 1) vf::harness_error("short reference table");
				e.at = folds.size();
				folds.resize(folds.size() + e.n);
				if (e.n && fread(&folds[e.at], 4, e.n, f) != e.n) vf::harness_error("short reference table");
				of.push_back(e);
				if (!(e.flags >> 15) || (cp >= 0xD800 && cp <= 0xDFFF)) continue;
				if (e.flags & 1) letters.push_back(cp);
				else if (e.flags & 16) digits.push_back(cp);
				else if (e.flags & 128) spaces.push_back(cp);
				else others.push_back(cp);
				if (e.flags & (1 << 13)) names.push_back(cp);
				}
			fclose(f);
		}
		bool alpha(uint32_t c) const { return of[c].flags & 1; }
		bool digit(uint32_t c) const { return of[c].flags & 16; }
		bool space(uint32_t c) const { return of[c].flags & 128; }
	};
	inline const ucd &data() { static ucd *it = new ucd; return *it; }

	inline void put(std::string &to, uint32_t cp)
	{
		if (cp < 0x80) to += (char)cp;
		else if (cp < 0x800) { to += (char)(0xC0 + cp / 64); to += (char)(0x80 + cp % 64); }
		else if (cp < 0x10000) { to += (char)(0xE0 + cp / 4096); to += (char)(0x80 + cp / 64 % 64); to += (char)(0x80 + cp % 64); }
		else { to += (char)(0xF0 + cp / 262144); to += (char)(0x80 + cp / 4096 % 64); to += (char)(0x80 + cp / 64 % 64); to += (char)(0x80 + cp % 64); }
	}
	/* the length of the well formed sequence at s[i], or 0 (table 3-7 of the Unicode standard) */
	inline size_t get(const std::string &s, size_t i, uint32_t &cp)
	{
		auto in = [&](size_t o, unsigned low, unsigned high) { return i + o < s.size() && (uint8_t)s[i + o] >= low && (uint8_t)s[i + o] <= high; };
		auto b = [&](size_t o) { return (uint32_t)(uint8_t)s[i + o]; };
		auto tail = [&](size_t o) { return in(o, 0x80, 0xBF); };
		if (in(0, 0, 0x7F)) { cp = b(0); return 1; }
		if (in(0, 0xC2, 0xDF) && tail(1)) { cp = (b(0) - 0xC0) * 64 + b(1) - 0x80; return 2; }
		if (((in(0, 0xE0, 0xE0) && in(1, 0xA0, 0xBF)) || (in(0, 0xE1, 0xEC) && tail(1)) || (in(0, 0xED, 0xED) && in(1, 0x80, 0x9F)) || (in(0, 0xEE, 0xEF) && tail(1))) && tail(2))
			{ cp = (b(0) - 0xE0) * 4096 + (b(1) - 0x80) * 64 + b(2) - 0x80; return 3; }
		if (((in(0, 0xF0, 0xF0) && in(1, 0x90, 0xBF)) || (in(0, 0xF1, 0xF3) && tail(1)) || (in(0, 0xF4, 0xF4) && in(1, 0x80, 0x8F))) && tail(2) && tail(3))
			{ cp = (b(0) - 0xF0) * 262144 + (b(1) - 0x80) * 4096 + (b(2) - 0x80) * 64 + b(3) - 0x80; return 4; }
		return 0;
	}
	inline void fold(std::string &to, uint32_t cp)
	{
		auto &e = data().of[cp];
		for (size_t i = 0; i < e.n; i++) put(to, data().folds[e.at + i]);
	}

	enum kind { alpha, numeric, other, start, empty, end, comment, cdata, definition, conditional, instruction };
	inline const char *name(kind k)
	{
		static const char *n[] = {"alpha", "numeric", "other", "start-tag", "empty-tag", "end-tag", "comment", "cdata", "definition", "conditional", "instruction"};
		return n[k];
	}
	struct token
	{
		kind type;
		std::string lexeme;
		bool operator==(const token &with) const { return type == with.type && lexeme == with.lexeme; }
	};
	inline std::string show(const std::vector<token> &v, size_t from = 0, size_t limit = 12)
	{
		std::string s = "[" + std::to_string(v.size()) + "]";
		for (size_t i = from; i < v.size() && i < from + limit; i++) s += std::string(" ") + name(v[i].type) + ":'" + v[i].lexeme.substr(0, 60) + "'";
		return s;
	}

	/* text with no mark-up in it */
	inline void tokenise(std::vector<token> &out, const std::string &text)
	{
		auto &u = data();
		size_t i = 0;
		while (i < text.size())
			{
			uint32_t cp = 0;
			size_t n = get(text, i, cp);
			if (n == 0) { out.push_back({other, ""}); i++; continue; }
			if (u.space(cp)) { i += n; continue; }
			bool a = u.alpha(cp), d = u.digit(cp);
			if (!a && !d)
				{
				token t{other, ""};
				if (cp < 0x80) t.lexeme = (char)cp; else fold(t.lexeme, cp);
				out.push_back(t);
				i += n;
				continue;
				}
			token t{a ? alpha : numeric, ""};
			while (i < text.size() && (n = get(text, i, cp)) != 0 && (a ? u.alpha(cp) : u.digit(cp)))
				{
				fold(t.lexeme, cp);
				i += n;
				}
			out.push_back(t);
			}
	}
	inline std::vector<token> tokenise(const std::string &text) { std::vector<token> v; tokenise(v, text); return v; }

	/* text of many kinds; never contains a '<' */
	inline std::string text(vf::rng &r, size_t pieces, bool malformed)
	{
		auto &u = data();
		std::string s;
		static const char *ascii_space[] = {" ", " ", " ", "\n", "\t", "\r\n", "  ", "\v", "\f"};
		for (size_t p = 0; p < pieces; p++)
			{
			size_t n = r.range(1, r.chance(0.1) ? 20 : 6);
			switch (r.below(14))
				{
				case 0: case 1: case 2: for (size_t i = 0; i < n; i++) s += (char)((r.chance(0.2) ? 'A' : 'a') + r.below(26)); break;
				case 3: for (size_t i = 0; i < n; i++) s += (char)('0' + r.below(10)); break;
				case 4: for (size_t i = 0; i < n; i++) put(s, r.pick(u.letters)); break;
				case 5: { uint32_t script = r.pick(u.letters); for (size_t i = 0; i < n; i++) { uint32_t c = script + r.below(16); put(s, c <= 0x10FFFF && (c < 0xD800 || c > 0xDFFF) && u.alpha(c) ? c : script); } break; }
				case 6: for (size_t i = 0; i < n; i++) put(s, r.pick(u.digits)); break;
				case 7: put(s, r.pick(u.others) == '<' ? '-' : r.pick(u.others)); break;
				case 8: put(s, r.pick(u.spaces)); break;
				case 9: { static const uint32_t odd[] = {0xFDFA, 0xFDFB, 0xDF, 0x1E9E, 0x130, 0x131, 0x149, 0x3A3, 0x3C2, 0x2160, 0x2167, 0xBD, 0xB2, 0x3251, 0xFB00, 0xFB2C, 0xA640, 0xAC00, 0x345, 0x300, 0xAD, 0x200B, 0xFEFF, 0xFFFD, 0x1D400, 0x1F600, 0x2E9F, 0x10FFFF, 0xE000};
					put(s, odd[r.below(sizeof(odd) / sizeof(*odd))]); break; }
				case 10: { static const char punct[] = "!\"#$%&'()*+,-./:;=>?@[\\]^_`{|}~"; s += punct[r.below(sizeof(punct) - 1)]; break; }
				case 11: if (malformed) { static const uint8_t odd[] = {0x80, 0xBF, 0xC0, 0xC2, 0xE0, 0xED, 0xF0, 0xF4, 0xF8, 0xFF, 0x00, 0x01, 0x7F}; s += (char)odd[r.below(sizeof(odd))]; if (r.chance(0.5)) s += (char)(0x80 + r.below(64)); } break;
				case 12: s += (char)('a' + r.below(26)); s += (char)('0' + r.below(10)); break;
				case 13: { uint32_t c; do c = (uint32_t)r.below(0x110000); while (c == '<' || (c >= 0xD800 && c <= 0xDFFF)); put(s, c); break; }
				}
			if (r.chance(0.6)) s += ascii_space[r.below(9)];
			}
		for (auto &c : s) if (c == '<') c = '-';
		return s;
	}
}
