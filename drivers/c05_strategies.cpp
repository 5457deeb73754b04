/*
	C05: every top-k strategy over every accumulator arrangement gives the answer a plain array and a full sort gives.

	Compiled once per configuration (-DCONF_...); query.h fixes the default configuration, so it is included first and its
	choices are then replaced by those of this configuration before the strategies are included.
*/
#include <math.h>
#include "common.h"
#include "query.h"
#undef ACCUMULATOR_STRATEGY_2D
#undef JASS_TOPK_SORT
#include "c05_conf.h"
#include "accumulator_2d.h"
#include "accumulator_counter.h"
#include "accumulator_counter_interleaved.h"
#include "query_heap.h"
#if defined(JASS_TOPK_SORT) && !defined(CONF_FINDING)
	/* query_maxblock with JASS_TOPK_SORT is a known finding (see the "pinned" section): use another sort to decide the rest */
	#undef JASS_TOPK_SORT
	#define CPP_TOPK_SORT
	#include "query_maxblock.h"
	#undef CPP_TOPK_SORT
	#define JASS_TOPK_SORT
#else
	#include "query_maxblock.h"
#endif
#include "query_maxblock_heap.h"
#include "query_heap_clean.h"
#include <new>
using namespace vf;
using namespace JASS;

/* A strategy whose postings lists are stored uncompressed */
template <typename STRATEGY>
class strategy : public STRATEGY
	{
	public:
		virtual void decode(query::DOCID_TYPE *decoded, size_t integers_to_decode, const void *source, size_t source_length)
			{
			memcpy(decoded, source, integers_to_decode * sizeof(*decoded));
			}
		using STRATEGY::decode_and_process;
	};

/* The objects are hundreds of megabytes, most of it never touched: keep them out of the heap */
template <typename T> T *make()
{
	void *at = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (at == MAP_FAILED) harness_error("mmap");
	return new (at) T;
}
template <typename T> void unmake(T *what)
{
	what->~T();
	munmap((void *)what, sizeof(T));
}

struct hit { size_t id; unsigned score; };
static bool better(const hit &a, const hit &b) { return a.score > b.score || (a.score == b.score && a.id > b.id); }
static std::string text(const std::vector<hit> &h)
{
	std::string s = "[" + std::to_string(h.size()) + "]";
	for (size_t i = 0; i < h.size() && i < 30; i++) s += " <" + std::to_string(h[i].id) + "," + std::to_string(h[i].score) + ">";
	return s;
}

struct segment { unsigned impact; std::vector<uint32_t> ids; };

static std::vector<segment> make_additions(rng &r, size_t documents, size_t k)
{
	std::vector<segment> all;
	std::vector<unsigned> total(documents, 0);
	size_t lists = r.pick(std::vector<size_t>{0, 1, 1, 2, 3, 5, 10, 25});
	/* ids are taken from: anywhere, the ends, one block, or a small set that is hit again and again */
	int where = r.below(5);
	size_t base = r.below(documents), few = 1 + r.below(std::min<size_t>(documents, 2 * k + 3));
	for (size_t l = 0; l < lists; l++)
		{
		segment s;
		s.impact = r.pick(std::vector<unsigned>{1, 1, 2, 3, (unsigned)r.range(1, 12), (unsigned)r.range(1, 60), (unsigned)r.range(1, 255)});
		size_t n = r.pick(std::vector<size_t>{1, 2, 3, 7, 8, 9, 15, 16, 17, 33, 100, (size_t)r.below(documents + 1), documents});
		std::set<uint32_t> ids;
		for (size_t i = 0; i < n; i++)
			{
			size_t id;
			switch (where)
				{
				case 0: id = r.below(documents); break;
				case 1: id = r.chance(0.5) ? r.below(std::min<size_t>(documents, 40)) : documents - 1 - r.below(std::min<size_t>(documents, 40)); break;
				case 2: id = (base + r.below(70)) % documents; break;
				case 3: id = (base + r.below(few)) % documents; break;
				default: id = i < documents ? i : documents - 1;
				}
			if (total[id] + s.impact <= 255) ids.insert(id);
			}
		for (auto id : ids) total[id] += s.impact, s.ids.push_back(id);
		if (!s.ids.empty()) all.push_back(s);
		}
	if (r.chance(0.5)) std::sort(all.begin(), all.end(), [](const segment &a, const segment &b) { return a.impact > b.impact; });
	return all;
}

static std::vector<hit> reference(const std::vector<segment> &all, size_t documents, std::vector<unsigned> &total)
{
	total.assign(documents, 0);
	for (auto &s : all) for (auto id : s.ids) total[id] += s.impact;
	std::vector<hit> h;
	for (size_t i = 0; i < documents; i++) if (total[i]) h.push_back({i, total[i]});
	std::sort(h.begin(), h.end(), better);
	return h;
}

enum order { ASCENDING, DESCENDING };

/*
	Are these the k best of want (the complete ranking)?  Ties at the k-th score may be broken either way, but the scores, the
	score of each document, and the order have to be right.
*/
static void judge(const std::string &name, const std::vector<hit> &got, const std::vector<hit> &want, const std::vector<unsigned> &total, size_t k, bool sorted, const std::string &about)
{
	size_t expected = std::min(k, want.size());
	if (!check(got.size() == expected, name + ":count", about + " got " + text(got) + " want " + text(want)))
		return;
	std::set<size_t> seen;
	for (auto &h : got)
		{
		check(seen.insert(h.id).second, name + ":twice", about + " document " + std::to_string(h.id) + " in " + text(got));
		if (!check(h.id < total.size() && total[h.id] == h.score, name + ":score", about + " document " + std::to_string(h.id) + " has score " + std::to_string(h.score) + " want " + (h.id < total.size() ? std::to_string(total[h.id]) : "none")))
			return;
		}
	std::vector<hit> ranked(got);
	std::sort(ranked.begin(), ranked.end(), better);
	for (size_t i = 0; i < expected; i++)
		if (!check(ranked[i].score == want[i].score, name + ":top-k", about + " got " + text(ranked) + " want " + text(want)))
			return;
	if (sorted)
		for (size_t i = 1; i < got.size(); i++)
			if (!check(got[i].score <= got[i - 1].score, name + ":order", about + " got " + text(got)))
				return;
}

template <typename Q> std::vector<hit> results(Q &q, order o)
{
	std::vector<hit> got;
	for (auto rsv : q)
		{
		got.push_back({rsv.document_id, (unsigned)rsv.rsv});
		if (got.size() > 5000) break;
		}
	if (o == ASCENDING) std::reverse(got.begin(), got.end());
	return got;
}
template <typename Q> std::vector<hit> reversed(Q &q, order o)
{
	std::vector<hit> got;
	for (auto at = q.rbegin(), end = q.rend(); at != end; ++at)
		{
		auto rsv = *at;
		got.push_back({rsv.document_id, (unsigned)rsv.rsv});
		if (got.size() > 5000) break;
		}
	if (o == DESCENDING) std::reverse(got.begin(), got.end());
	return got;
}

template <typename Q> constexpr bool has_reverse() { return true; }

/* some strategies can be fed gaps directly, one or sixteen at a time */
template <typename Q, typename = void> struct takes_gaps : std::false_type {};
template <typename Q> struct takes_gaps<Q, std::void_t<decltype(std::declval<Q &>().add_rsv_d1((uint32_t)1))>> : std::true_type {};
#ifdef __AVX512F__
template <typename Q, typename = void> struct takes_vectors : std::false_type {};
template <typename Q> struct takes_vectors<Q, std::void_t<decltype(std::declval<Q &>().add_rsv_d1(std::declval<__m512i>()))>> : std::true_type {};
#endif

/* one strategy object, many queries */
template <typename STRATEGY> static void strategy_case(const std::string &name, order o, bool reverse, size_t least_k, rng &r)
{
	typedef strategy<STRATEGY> Q;
	Q *q = make<Q>();
	size_t documents = r.pick(std::vector<size_t>{1, 2, 3, 7, 8, 63, 64, 65, 128, 255, 256, 257, 1000, (size_t)r.range(1, 3000)});
	size_t k = std::max<size_t>(least_k, r.pick(std::vector<size_t>{1, 2, 3, 4, 5, 10, 11, 50, 100, 1000}));
	size_t width = r.pick(std::vector<size_t>{0, 1, 2, 3, 5, 7, 10, 14, 20});
	std::vector<std::string> keys;
	for (size_t i = 0; i < documents; i++) keys.push_back("K" + std::to_string(i));
	q->init(keys, documents, k, width);
	size_t queries = r.pick(std::vector<size_t>{3, 20, 40, documents > 1000 ? 40u : 300u});
	for (size_t n = 0; n < queries; n++)
		{
		auto additions = make_additions(r, documents, k);
		std::vector<unsigned> total;
		auto want = reference(additions, documents, total);
		unsigned smallest = 255, largest = 0;
		for (auto &s : additions) smallest = std::min(smallest, s.impact), largest += s.impact;
		q->rewind(smallest, 1, std::min(255u, std::max(1u, largest)));
		std::string about = name + " documents=" + std::to_string(documents) + " k=" + std::to_string(k) + " width=" + std::to_string(width) + " query " + std::to_string(n);
		bool lists = r.chance(0.5), one_by_one = takes_gaps<Q>::value && r.chance(0.3);
		for (auto &s : additions)
			if (one_by_one)
				{
				if constexpr (takes_gaps<Q>::value)
					{
					std::vector<uint32_t> gaps;
					uint32_t last = 0;
					for (auto id : s.ids) gaps.push_back(id - last), last = id;
					q->set_impact(s.impact);
					q->init_add_rsv();
					size_t i = 0;
#ifdef __AVX512F__
					if constexpr (takes_vectors<Q>::value)
						for (; i + 16 <= gaps.size() && r.chance(0.9); i += 16)
							q->add_rsv_d1(_mm512_loadu_si512(&gaps[i]));
#endif
					for (; i < gaps.size(); i++) q->add_rsv_d1(gaps[i]);
					tally("queries fed gap by gap");
					}
				}
			else if (lists)
				{
				std::vector<uint32_t> gaps;
				uint32_t last = 0;
				for (auto id : s.ids) gaps.push_back(id - last), last = id;
				q->decode_and_process(s.impact, gaps.size(), gaps.data(), gaps.size() * sizeof(gaps[0]));
				}
			else
				{
				if (r.chance(0.3)) r.shuffle(s.ids);
				for (auto id : s.ids) q->add_rsv(id, s.impact);
				}
		evaluation();
		tally(name + ": queries");
		if (want.size() > k) tally("queries with more matching documents than k");
		if (want.size() > k && want[k].score == want[k - 1].score) tally("queries with a tie at the k-th score");
		if (!want.empty()) nontrivial(hash(text(want), mix(documents, k)));
		auto got = results(*q, o);
		judge(name, got, want, total, k, true, about);
		if (reverse)
			{
			auto back = reversed(*q, o);
			judge(name + ":reverse", back, want, total, k, true, about);
			}
		if (n == 0) sample(about + " -> " + text(got).substr(0, 120));
		}
	unmake(q);
}

#ifdef CONF_DEFAULT
/* the strategy of the search API, given a bound below which no document can enter the top k */
static void oracle_case(rng &r, uint64_t)
{
	typedef strategy<query_heap_clean> Q;
	Q *q = make<Q>();
	size_t documents = r.range(1, 400);
	size_t k = r.pick(std::vector<size_t>{1, 2, 3, 4, 5, 10, 11, 50});
	std::vector<std::string> keys;
	for (size_t i = 0; i < documents; i++) keys.push_back("K" + std::to_string(i));
	q->init(keys, documents, k, r.below(8));
	for (size_t n = 0; n < 60; n++)
		{
		auto additions = make_additions(r, documents, k);
		std::vector<unsigned> total;
		auto want = reference(additions, documents, total);
		if (want.size() < k) continue;
		unsigned bound = r.range(2, 255);
		if (r.chance(0.8)) bound = std::max(2u, want[k - 1].score > 3 ? (unsigned)r.range(2, want[k - 1].score) : want[k - 1].score);
		q->rewind(1, bound, 255);
		bool stopped = false;
		std::vector<unsigned> sofar(documents, 0);
		std::string about = "oracle documents=" + std::to_string(documents) + " k=" + std::to_string(k) + " bound=" + std::to_string(bound) + " query " + std::to_string(n);
		bool go_on = r.chance(0.7);
		for (auto &s : additions)
			{
			if (stopped && !go_on) break;
			for (auto id : s.ids)
				{
				if (stopped && !go_on) break;
				sofar[id] += s.impact;
				try { q->add_rsv(id, s.impact); }
				catch (Done &)
					{
					check(!stopped, "oracle:done-twice", about);
					stopped = true;
					size_t reached = 0;
					for (auto v : sofar) if (v >= bound) reached++;
					check(reached >= k, "oracle:done-early", about + " stopped with " + std::to_string(reached) + " documents at the bound");
					tally("oracle: queries stopped early");
					}
				}
			}
		std::vector<hit> now;
		for (size_t i = 0; i < documents; i++) if (sofar[i] >= bound) now.push_back({i, sofar[i]});
		std::sort(now.begin(), now.end(), better);
		evaluation();
		nontrivial(hash(text(now), mix(bound, k)));
		judge("oracle", results(*q, ASCENDING), now, sofar, k, true, about);
		}
	unmake(q);
}
#endif

/* an accumulator arrangement against an array */
template <typename A> static void accumulator_case(const std::string &name, rng &r)
{
	A *a = make<A>();
	size_t documents = r.pick(std::vector<size_t>{1, 2, 3, 20, 21, 22, 25, 26, 63, 64, 65, 255, 256, 257, 1000, (size_t)r.range(1, 3000)});
	size_t width = r.pick(std::vector<size_t>{0, 1, 2, 3, 5, 7, 10, 14, 20});
	a->init(documents, width);
	size_t rounds = r.pick(std::vector<size_t>{2, 18, 40, 600});
	std::vector<unsigned> model(documents);
	for (size_t n = 0; n < rounds; n++)
		{
		std::string about = name + " documents=" + std::to_string(documents) + " width=" + std::to_string(width) + " round " + std::to_string(n);
		std::fill(model.begin(), model.end(), 0);
		a->rewind();
		size_t operations = r.chance(0.3) ? 0 : r.below(60);
		for (size_t i = 0; i < operations; i++)
			{
			size_t id = r.chance(0.3) ? documents - 1 - r.below(std::min<size_t>(3, documents)) : r.below(documents);
			if (r.chance(0.6))
				{
				unsigned add = r.range(1, 20);
				auto &slot = (*a)[id];
				check((unsigned)slot == model[id], name + ":element", about + " accumulator " + std::to_string(id) + " is " + std::to_string((unsigned)slot) + " want " + std::to_string(model[id]));
				if (model[id] + add <= 255) slot += add, model[id] += add;
				check(a->get_index(&slot) == id, name + ":index", about + " get_index of accumulator " + std::to_string(id) + " is " + std::to_string(a->get_index(&slot)));
				}
			else
				check((unsigned)a->get_value(id) == model[id], name + ":value", about + " get_value(" + std::to_string(id) + ") is " + std::to_string((unsigned)a->get_value(id)) + " want " + std::to_string(model[id]));
			}
		if (r.chance(0.1))
			for (size_t id = 0; id < documents; id++)
				check((unsigned)a->get_value(id) == model[id], name + ":value", about + " get_value(" + std::to_string(id) + ") is " + std::to_string((unsigned)a->get_value(id)) + " want " + std::to_string(model[id]));
		evaluation();
		}
	nontrivial(mix(documents, mix(width, rounds)));
	tally(name + ": accumulator histories");
	unmake(a);
}

#ifdef CONF_FINDING
/* one fixed history: three documents, the best two are 3 and 1 */
static void pinned_case(rng &, uint64_t)
{
	std::vector<segment> additions = {{10, {2}}, {20, {3}}, {15, {1}}};
	std::vector<std::string> keys(16, "key");
	std::vector<unsigned> total;
	auto want = reference(additions, 16, total);
	auto q = make<strategy<query_maxblock>>();
	q->init(keys, 16, 2, 0);
	q->rewind(1, 1, 255);
	for (auto &s : additions) for (auto id : s.ids) q->add_rsv(id, s.impact);
	evaluation();
	judge("pinned-maxblock-jass-topk-sort", results(*q, DESCENDING), want, total, 2, true, "query_maxblock with JASS_TOPK_SORT");
	unmake(q);
}
#endif

int main(int argc, char *argv[])
{
	std::vector<section> all;
#ifdef CONF_DEFAULT
	uint64_t q = 40, t = 1500;
#else
	uint64_t q = 24, t = 1000;
#endif
#ifdef CONF_FINDING
	all.push_back({"pinned", 1, 1, pinned_case});
#endif
#ifdef CONF_HEAP
	all.push_back({"heap", q, t, [](rng &r, uint64_t) { strategy_case<query_heap>(CONF_NAME "/heap", ASCENDING, true, 1, r); }});
#endif
#ifdef CONF_MAXBLOCK
	all.push_back({"maxblock", q, t, [](rng &r, uint64_t) { strategy_case<query_maxblock>(CONF_NAME "/maxblock", DESCENDING, false, 1, r); }});
	all.push_back({"maxblock_heap", q, t, [](rng &r, uint64_t) { strategy_case<query_maxblock_heap>(CONF_NAME "/maxblock_heap", ASCENDING, true, 1, r); }});
#endif
#ifdef CONF_DEFAULT
	all.push_back({"heap_clean", 2 * q, 2 * t, [](rng &r, uint64_t) { strategy_case<query_heap_clean>("heap_clean", ASCENDING, true, 1, r); }});
	all.push_back({"oracle", 2 * q, 2 * t, oracle_case});
	#define ACC(what, ...) all.push_back({what, q, t, [](rng &r, uint64_t) { accumulator_case<__VA_ARGS__>(what, r); }})
	ACC("2d", accumulator_2d<uint8_t, 10000000>);
	ACC("2d-16", accumulator_2d<uint16_t, 10000000>);
	ACC("counter-8", accumulator_counter<uint8_t, 10000000, 8>);
	ACC("counter-4", accumulator_counter<uint8_t, 10000000, 4>);
	ACC("counter-16-8", accumulator_counter<uint16_t, 10000000, 8>);
	ACC("interleaved-8", accumulator_counter_interleaved<uint8_t, 10000000, 8>);
	ACC("interleaved-8-1", accumulator_counter_interleaved<uint8_t, 10000000, 8, 1>);
	ACC("interleaved-4", accumulator_counter_interleaved<uint8_t, 10000000, 4>);
	ACC("interleaved-16-8", accumulator_counter_interleaved<uint16_t, 10000000, 8>);
#endif
	return drive(argc, argv, all);
}
