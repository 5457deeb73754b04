/*
	ENGINE.H
	--------
	Random indexes written by the library's own serialisers and loaded through the public search API, and a brute-force model
	of what a search over them must return.
*/
#pragma once
#include "common.h"
#include <cmath>
#include <memory>
#include <sys/stat.h>
#include "slice.h"
#include "allocator_pool.h"
#include "index_postings.h"
#include "serialise_jass_v1.h"
#include "serialise_jass_v2.h"
#include "JASS_anytime_api.h"
#include "JASS_anytime_query.h"
#include "JASS_anytime_thread_result.h"

namespace vf
{
	typedef std::map<std::string, std::map<uint32_t, uint32_t>> posting_map;		// term -> (document (from 0) -> impact)

	struct collection
	{
		std::vector<std::string> keys;
		posting_map terms;
		std::vector<std::string> names;				// the terms, as a vector
		size_t documents() const { return keys.size(); }
	};

	/* what a collection looks like is drawn from a few families so that ties, long and short lists, and large totals all occur */
	inline collection make_collection(rng &r, size_t documents, size_t term_count, uint32_t max_impact)
	{
		collection c;
		for (size_t d = 0; d < documents; d++)
			c.keys.push_back("D" + std::to_string(d * 7 + 3) + (r.chance(0.1) ? "-x" : ""));
		for (size_t t = 0; t < term_count; t++)
			{
			std::string name;
			size_t shape = r.below(10);
			if (shape == 0) name = std::to_string(r.below(100000)) ;
			else
				{
				size_t n = r.range(1, 9);
				for (size_t i = 0; i < n; i++) name += (char)('a' + r.below(26));
				}
			if (c.terms.count(name)) continue;
			auto &list = c.terms[name];
			double density = r.pick(std::vector<double>{0.01, 0.05, 0.2, 0.5, 1.0});
			uint32_t top = r.chance(0.3) ? (uint32_t)r.range(1, 3) : (uint32_t)r.range(1, max_impact);
			uint32_t bottom = r.chance(0.3) ? top : 1;
			bool clustered = r.chance(0.2);
			size_t from = clustered ? r.below(documents) : 0, to = clustered ? std::min(documents, from + r.range(1, 300)) : documents;
			for (size_t d = from; d < to; d++)
				if (r.chance(density))
					list[d] = r.chance(0.5) ? (uint32_t)r.range(bottom, top) : bottom + (uint32_t)((top - bottom) * r.real() * r.real());
			if (list.empty())
				list[r.below(documents)] = top;
			c.names.push_back(name);
			}
		return c;
	}

	struct in_directory
	{
		char saved[4096];
		explicit in_directory(const std::string &where)
		{
			if (!getcwd(saved, sizeof(saved)) || chdir(where.c_str()) != 0) harness_error("cannot enter " + where);
		}
		~in_directory() { if (chdir(saved) != 0) harness_error("cannot leave"); }
	};

	inline const std::vector<std::pair<JASS::serialise_jass_v1::jass_v1_codex, int>> &index_codecs()
	{
		typedef JASS::serialise_jass_v1 s;
		static std::vector<std::pair<s::jass_v1_codex, int>> all = {{s::elias_gamma_simd, 1}, {s::elias_gamma_simd_vb, 1}, {s::elias_delta_simd, 1}, {s::qmx, 16}, {s::uncompressed, 1}};
		return all;
	}

	inline void write_index(const collection &c, const std::string &directory, int version, JASS::serialise_jass_v1::jass_v1_codex codex, int alignment)
	{
		mkdir(directory.c_str(), 0755);
		in_directory inside(directory);
		JASS::allocator_pool memory(1024 * 1024);
		std::unique_ptr<JASS::serialise_jass_v1> out;
		if (version == 1)
			out.reset(new JASS::serialise_jass_v1(c.documents(), codex, alignment));
		else
			out.reset(new JASS::serialise_jass_v2(c.documents(), codex, alignment));
		for (auto &term : c.terms)
			{
			JASS::index_postings postings(memory);		// the serialisers take the linearised list, passed below
			std::vector<JASS::compress_integer::integer> ids;
			std::vector<JASS::index_postings_impact::impact_type> impacts;
			for (auto &p : term.second)
				{
				ids.push_back(p.first + 1);
				impacts.push_back(p.second);
				}
			(*out)(JASS::slice((void *)term.first.data(), term.first.size()), postings, ids.size(), ids.data(), impacts.data());
			}
		(*out)(0, JASS::slice("-"));
		for (size_t d = 0; d < c.documents(); d++)
			(*out)(d + 1, JASS::slice((void *)c.keys[d].data(), c.keys[d].size()));
		out->finish();
	}

	/* ------------------------------------------------------------------------------------------------------------------ */
	struct hit
	{
		std::string key;
		uint32_t score;
		bool operator==(const hit &o) const { return key == o.key && score == o.score; }
	};

	struct answer
	{
		std::string query_id;
		std::vector<hit> hits;
		size_t postings = 0;
		std::string malformed;			// what was wrong with the TREC lines, if anything
		bool operator==(const answer &o) const { return query_id == o.query_id && hits == o.hits && postings == o.postings; }
		std::string text(size_t limit = 12) const
		{
			std::string s = "id='" + query_id + "' postings=" + std::to_string(postings) + " hits[" + std::to_string(hits.size()) + "]";
			for (size_t i = 0; i < hits.size() && i < limit; i++) s += " " + hits[i].key + ":" + std::to_string(hits[i].score);
			return s;
		}
	};

	/* <query-id> Q0 <key> <rank> <score> <run> */
	inline answer read_answer(const std::string &query_id, const std::string &list, size_t postings)
	{
		answer a;
		a.query_id = query_id;
		a.postings = postings;
		std::istringstream in(list);
		std::string line;
		size_t expected_rank = 1;
		while (std::getline(in, line))
			{
			std::vector<std::string> field;
			size_t at = 0;
			for (;;)
				{
				size_t space = line.find(' ', at);
				field.push_back(line.substr(at, space == std::string::npos ? std::string::npos : space - at));
				if (space == std::string::npos) break;
				at = space + 1;
				}
			if (field.size() != 6 || field[0] != query_id || field[1] != "Q0" || field[3] != std::to_string(expected_rank) || field[4].find_first_not_of("0123456789") != std::string::npos || field[4].empty())
				{
				if (a.malformed.empty()) a.malformed = "line " + std::to_string(expected_rank) + ": '" + line + "'";
				}
			else
				a.hits.push_back({field[2], (uint32_t)strtoul(field[4].c_str(), 0, 10)});
			expected_rank++;
			}
		return a;
	}
	inline answer read_answer(const JASS_anytime_result &r) { return read_answer(r.query_id, r.results_list, r.postings_processed); }

	/* ------------------------------------------------------------------------------------------------------------------ */
	typedef std::map<std::string, uint32_t> query_terms;			// term -> occurrences

	struct segment
	{
		uint64_t impact;							// before scaling
		uint32_t scaled, scaled_exact;		// after scaling (two ways of rounding)
		size_t length;
		const std::vector<uint32_t> *documents;
	};

	struct prepared
	{
		std::vector<std::vector<uint32_t>> storage;
		std::vector<segment> segments;		// decreasing impact then increasing length
		uint64_t largest = 0;
		uint64_t total_postings = 0;
		bool scaled = false;
		bool ambiguous = false;
	};

	constexpr uint32_t ACCUMULATOR_MAX = JASS::query::MAX_RSV;

	inline void prepare(prepared &p, const collection &c, const query_terms &q)
	{
		std::vector<std::map<uint32_t, std::vector<uint32_t>>> by_impact;
		std::vector<uint32_t> tf;
		for (auto &t : q)
			{
			auto found = c.terms.find(t.first);
			if (found == c.terms.end()) continue;
			by_impact.emplace_back();
			tf.push_back(t.second);
			uint64_t best = 0;
			for (auto &d : found->second)
				{
				by_impact.back()[d.second].push_back(d.first);
				best = std::max<uint64_t>(best, d.second);
				p.total_postings++;
				}
			p.largest += best * t.second;
			}
		p.scaled = p.largest > ACCUMULATOR_MAX;
		size_t total = 0;
		for (auto &m : by_impact) total += m.size();
		p.storage.reserve(total);
		for (size_t t = 0; t < by_impact.size(); t++)
			for (auto &s : by_impact[t])
				{
				p.storage.push_back(s.second);
				segment g;
				g.impact = (uint64_t)s.first * tf[t];
				g.length = s.second.size();
				g.documents = &p.storage.back();
				if (p.scaled)
					{
					g.scaled = (uint32_t)((double)g.impact / (double)p.largest * ((double)ACCUMULATOR_MAX - q.size()) + 1);
					g.scaled_exact = (uint32_t)(g.impact * (ACCUMULATOR_MAX - q.size()) / p.largest + 1);
					if (g.scaled != g.scaled_exact) p.ambiguous = true;
					}
				else
					g.scaled = g.scaled_exact = (uint32_t)g.impact;
				p.segments.push_back(g);
				}
		std::stable_sort(p.segments.begin(), p.segments.end(), [](const segment &a, const segment &b) { return a.impact != b.impact ? a.impact > b.impact : a.length < b.length; });
	}

	inline std::vector<uint32_t> accumulate(const collection &c, const prepared &p, const std::vector<size_t> &which, bool exact = false)
	{
		std::vector<uint32_t> score(c.documents(), 0);
		for (size_t s : which)
			for (uint32_t d : *p.segments[s].documents)
				score[d] += exact ? p.segments[s].scaled_exact : p.segments[s].scaled;
		return score;
	}

	inline std::vector<hit> rank(const collection &c, const std::vector<uint32_t> &score, size_t k)
	{
		std::vector<uint32_t> order;
		for (uint32_t d = 0; d < score.size(); d++) if (score[d]) order.push_back(d);
		std::sort(order.begin(), order.end(), [&](uint32_t a, uint32_t b) { return score[a] != score[b] ? score[a] > score[b] : a > b; });
		std::vector<hit> out;
		for (size_t i = 0; i < order.size() && i < k; i++) out.push_back({c.keys[order[i]], score[order[i]]});
		return out;
	}

	inline std::vector<size_t> all_segments(const prepared &p)
	{
		std::vector<size_t> out;
		for (size_t i = 0; i < p.segments.size(); i++) out.push_back(i);
		return out;
	}

	/* the exhaustive answers that are acceptable (two only when the scaled arithmetic is right on an integer) */
	inline std::vector<std::vector<hit>> exhaustive(const collection &c, const prepared &p, size_t k)
	{
		std::vector<std::vector<hit>> out;
		out.push_back(rank(c, accumulate(c, p, all_segments(p)), k));
		if (p.ambiguous) out.push_back(rank(c, accumulate(c, p, all_segments(p), true), k));
		return out;
	}

	/* the smallest number of leading segments a budget allows, its postings, and the acceptable rankings (empty if too many to list) */
	struct budgeted { size_t postings = 0; size_t segments = 0; std::vector<std::vector<hit>> rankings; bool too_many = false; };

	inline budgeted with_budget(const collection &c, const prepared &p, size_t k, uint64_t budget)
	{
		budgeted b;
		size_t n = 0;
		while (n < p.segments.size() && b.postings + p.segments[n].length <= budget)
			b.postings += p.segments[n++].length;
		b.segments = n;
		// the tie group the cut falls in
		size_t from = n, to = n;
		if (n < p.segments.size() && n > 0)
			{
			while (from > 0 && p.segments[from - 1].impact == p.segments[n].impact && p.segments[from - 1].length == p.segments[n].length) from--;
			while (to < p.segments.size() && p.segments[to].impact == p.segments[n].impact && p.segments[to].length == p.segments[n].length) to++;
			}
		size_t need = n - from, have = to - from;
		std::vector<std::vector<size_t>> choices;
		if (need == 0 || from == n) choices.push_back({});
		else
			{
			std::vector<bool> pick(have, false);
			std::fill(pick.begin(), pick.begin() + need, true);
			do
				{
				std::vector<size_t> one;
				for (size_t i = 0; i < have; i++) if (pick[i]) one.push_back(from + i);
				choices.push_back(one);
				if (choices.size() > 100) { b.too_many = true; return b; }
				}
			while (std::prev_permutation(pick.begin(), pick.end()));
			}
		for (auto &choice : choices)
			for (int exact = 0; exact < (p.ambiguous ? 2 : 1); exact++)
				{
				std::vector<size_t> which;
				for (size_t i = 0; i < from; i++) which.push_back(i);
				which.insert(which.end(), choice.begin(), choice.end());
				b.rankings.push_back(rank(c, accumulate(c, p, which, exact), k));
				}
		return b;
	}

	inline bool among(const std::vector<std::vector<hit>> &these, const std::vector<hit> &one) { return std::find(these.begin(), these.end(), one) != these.end(); }
	inline std::string text(const std::vector<hit> &h, size_t limit = 12)
	{
		answer a;
		a.hits = h;
		return a.text(limit);
	}

	/* a query over (mostly) the collection's terms */
	inline std::string make_query(rng &r, const collection &c, query_terms &terms, size_t max_terms, bool unknown = true)
	{
		size_t n = r.range(1, max_terms);
		std::vector<std::string> words;
		for (size_t i = 0; i < n; i++)
			{
			std::string w = unknown && r.chance(0.1) ? "zzunknown" + std::string(1, (char)('a' + r.below(4))) : r.pick(c.names);
			size_t times = r.chance(0.2) ? r.range(2, 4) : 1;
			for (size_t t = 0; t < times; t++) words.push_back(w);
			}
		r.shuffle(words);
		std::string q;
		for (auto &w : words)
			{
			terms[w]++;
			q += (q.empty() ? "" : " ") + w;
			}
		return q;
	}

	struct index_shape { size_t documents, terms; uint32_t max_impact; int version; size_t codec; };
	inline index_shape make_shape(rng &r)
	{
		index_shape s;
		s.documents = r.pick(std::vector<size_t>{1, 2, 7, 30, 100, 255, 256, 257, 400, 1000, 3000});
		s.terms = r.range(1, 60);
		s.max_impact = r.pick(std::vector<uint32_t>{1, 5, 20, 60, 255, 1023});
		s.version = r.chance(0.5) ? 1 : 2;
		s.codec = r.below(index_codecs().size());
		if (index_codecs()[s.codec].first == JASS::serialise_jass_v1::qmx) s.version = 1;		// version 2 ignores the alignment QMX needs (C03 records that)
		return s;
	}
	inline std::string describe(const index_shape &s)
	{
		return "index(documents=" + std::to_string(s.documents) + " terms=" + std::to_string(s.terms) + " max_impact=" + std::to_string(s.max_impact) + " v" + std::to_string(s.version) + " codec='" + std::string(1, (char)index_codecs()[s.codec].first) + "')";
	}
	inline std::string write_index(const collection &c, const index_shape &s, const std::string &name)
	{
		std::string where = g().scratch + "/" + name;
		write_index(c, where, s.version, index_codecs()[s.codec].first, index_codecs()[s.codec].second);
		return where;
	}
	inline void remove_index(const std::string &where)
	{
		for (auto f : {"CIvocab.bin", "CIvocab_terms.bin", "CIpostings.bin", "CIdoclist.bin"}) unlink((where + "/" + f).c_str());
		rmdir(where.c_str());
	}
}
