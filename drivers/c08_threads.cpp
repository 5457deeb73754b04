/*
	C08: a batch of queries searched by many threads: every query exactly once, with the sequential answer

	Built with ASan and with TSan (which watches for unsynchronised sharing).
*/
#include "engine.h"
#include "jitter.h"
#include <thread>
using namespace vf;

struct batch
{
	std::vector<std::string> text;						// as handed to the engine (may be empty)
	std::map<std::string, answer> want;					// by query id
};

static batch make_batch(rng &r, const collection &c, size_t n, JASS_anytime_api &sequential)
{
	batch b;
	for (size_t i = 0; i < n; i++)
		{
		if (r.chance(0.06)) { b.text.push_back(""); continue; }
		query_terms q;
		std::string id = (r.chance(0.5) ? "" : "Q") + std::to_string(i * 7 + 1);
		std::string query = r.chance(0.05) ? std::string("nosuchword") : make_query(r, c, q, r.pick(std::vector<size_t>{1, 1, 2, 4, 10, 30}));
		if (r.chance(0.03)) query = "";
		b.text.push_back(id + " " + query);
		b.want[id] = read_answer(sequential.search(b.text.back()));
		}
	return b;
}

static void judge(const batch &b, std::vector<JASS_anytime_thread_result> &got, size_t threads, const std::string &about)
{
	check(got.size() == threads, "thread-results", about + " has " + std::to_string(got.size()) + " thread results");
	std::map<std::string, size_t> seen;
	uint64_t interleaving = threads;
	size_t sum = 0, want_sum = 0, busy = 0;
	for (size_t t = 0; t < got.size(); t++)
		{
		if (got[t].results.size()) busy++;
		for (auto &one : got[t].results)
			{
			answer a = read_answer(one.second);
			interleaving = mix(interleaving, mix(hash(one.first), t));
			sum += a.postings;
			check(one.first == a.query_id, "id-mismatch", about + " result filed under '" + one.first + "' is for '" + a.query_id + "'");
			check(a.malformed.empty(), "malformed", about + " " + a.malformed);
			auto w = b.want.find(one.first);
			if (!check(w != b.want.end(), "unknown-id", about + " answered '" + one.first + "', which is not a query")) continue;
			seen[one.first]++;
			check(w->second == a, "differs-from-sequential", about + " query '" + one.first + "' gave " + a.text() + " but sequentially " + w->second.text());
			}
		}
	for (auto &w : b.want)
		{
		want_sum += w.second.postings;
		auto s = seen.find(w.first);
		check(s != seen.end(), "lost-query", about + " query '" + w.first + "' has no answer");
		if (s != seen.end()) check(s->second == 1, "answered-twice", about + " query '" + w.first + "' was answered by " + std::to_string(s->second) + " threads");
		}
	check(sum == want_sum, "totals", about + " postings " + std::to_string(sum) + " want " + std::to_string(want_sum));
	evaluation(b.want.size());
	nontrivial(interleaving);
	tally("batches");
	tally("batches with " + std::to_string(busy) + " threads answering");
}

/*
	Some codecs zero-fill an object of several hundred megabytes per thread, so with those use few threads (all of this runs
	several times over in parallel)
*/
static bool heavy(const index_shape &s)
{
	auto codec = index_codecs()[s.codec].first;
	return codec != JASS::serialise_jass_v1::qmx && codec != JASS::serialise_jass_v1::uncompressed;
}
static size_t thread_count(rng &r, const index_shape &s)
{
#ifdef __SANITIZE_THREAD__
	return heavy(s) ? 2 : r.pick(std::vector<size_t>{2, 2, 3, 4, 6, 8});
#else
	return heavy(s) ? r.pick(std::vector<size_t>{1, 2, 3}) : r.pick(std::vector<size_t>{1, 2, 3, 4, 6, 8, 16});
#endif
}
static index_shape light_shape(rng &r, bool any)
{
	index_shape s = make_shape(r);
	if (heavy(s) && !any)
		for (size_t i = 0; i < index_codecs().size(); i++)
			if (index_codecs()[i].first == (r.chance(0.3) ? JASS::serialise_jass_v1::qmx : JASS::serialise_jass_v1::uncompressed) )
				{
				s.codec = i;
				if (index_codecs()[i].first == JASS::serialise_jass_v1::qmx) s.version = 1;
				}
	if (heavy(s) && !any) { for (size_t i = 0; i < index_codecs().size(); i++) if (index_codecs()[i].first == JASS::serialise_jass_v1::uncompressed) s.codec = i; }
	return s;
}

static void configure(rng &r, JASS_anytime_api &a, JASS_anytime_api &b, bool after, uint64_t plan)
{
	rng p(plan);
	if (!after)
		{
		size_t k = p.pick(std::vector<size_t>{1, 5, 10, 100}), width = p.pick(std::vector<size_t>{0, 0, 3, 7});
		for (auto e : {&a, &b}) e->set_top_k(k), e->set_accumulator_width(width);
		}
	else
		{
		p.next(); p.next();
		int how = p.below(4);
		uint64_t budget = p.below(400);
		double relative = p.pick(std::vector<double>{10, 33, 75});
		bool raw = p.chance(0.2);
		for (auto e : {&a, &b})
			{
			if (how == 1) e->set_postings_to_process(budget);
			if (how == 2) e->set_postings_to_process_relative(relative);
			if (how == 3) e->set_postings_to_process_proportion(relative);
			if (raw) e->use_ascii_parser();
			}
		tally(how == 0 ? "exhaustive cases" : how == 1 ? "cases with an absolute budget" : how == 2 ? "cases with a relative budget" : "cases with a proportional budget");
		}
}

static void batch_case(rng &r, uint64_t n)
{
#ifdef __SANITIZE_THREAD__
	index_shape s = light_shape(r, n < 3);
#else
	index_shape s = light_shape(r, r.chance(0.5));
#endif
	s.documents = std::min<size_t>(s.documents, 1500);
	collection c = make_collection(r, s.documents, s.terms, s.max_impact);
	std::string where = write_index(c, s, "index");
	std::unique_ptr<JASS_anytime_api> engine(new JASS_anytime_api), sequential(new JASS_anytime_api);
	uint64_t plan = r.next();
	configure(r, *engine, *sequential, false, plan);
	if (!check(engine->load_index(s.version, where) == JASS_ERROR_OK && sequential->load_index(s.version, where) == JASS_ERROR_OK, "load", "cannot load " + describe(s)))
		return;
	configure(r, *engine, *sequential, true, plan);

	/* an oracle file with entries for some of the queries */
	if (r.chance(0.4))
		{
		std::string name = g().scratch + "/oracle.txt";
		FILE *f = fopen(name.c_str(), "wb");
		for (size_t i = 0; i < 60; i++) if (r.chance(0.5)) fprintf(f, "%s%zu %d\n", r.chance(0.5) ? "" : "Q", i * 7 + 1, (int)r.range(0, 60));
		fclose(f);
		engine->load_oracle_scores(name);
		sequential->load_oracle_scores(name);
		tally("cases with an oracle");
		}

	for (size_t round = 0; round < 4; round++)
		{
		batch b = make_batch(r, c, r.pick(std::vector<size_t>{1, 3, 10, 40, 40}), *sequential);
		for (size_t repeat = 0; repeat < 3; repeat++)
			{
			size_t threads = thread_count(r, s);
			std::string about = describe(s) + " " + std::to_string(b.text.size()) + " queries, " + std::to_string(threads) + " threads, round " + std::to_string(round);
			std::vector<JASS_anytime_thread_result> got;
			{
			jittering on(r.next());
			if (r.chance(0.5))
				got = engine->threaded_search(b.text, threads);
			else
				{
				std::vector<JASS_anytime_query> list;
				for (auto &t : b.text) list.push_back(t);
				check(engine->search(got, list, threads) == JASS_ERROR_OK, "search-error", about);
				}
			}
			judge(b, got, threads, about);
			sample(about);
			}
		}
	engine.reset();
	sequential.reset();
	tally("injected schedule perturbations", jitter_points.exchange(0));
	remove_index(where);
}

/* independent engines, each used by one thread, on the same index and on different ones */
static void engines_case(rng &r, uint64_t)
{
	index_shape s[2] = {light_shape(r, false), light_shape(r, false)};
	collection c[2];
	std::string where[2];
	for (size_t i = 0; i < 2; i++)
		{
		s[i].documents = std::min<size_t>(s[i].documents, 800);
		c[i] = make_collection(r, s[i].documents, s[i].terms, s[i].max_impact);
		where[i] = write_index(c[i], s[i], "index" + std::to_string(i));
		}
	batch b[2];
	for (size_t i = 0; i < 2; i++)
		{
		std::unique_ptr<JASS_anytime_api> sequential(new JASS_anytime_api);
		sequential->load_index(s[i].version, where[i]);
		b[i] = make_batch(r, c[i], 20, *sequential);
		}
	size_t workers = 4;
	std::vector<std::vector<answer>> answers(workers);
	std::vector<std::thread> pool;
	{
	jittering on(r.next());
	for (size_t w = 0; w < workers; w++)
		pool.emplace_back([&, w]() {
			std::unique_ptr<JASS_anytime_api> engine(new JASS_anytime_api);
			if (engine->load_index(s[w & 1].version, where[w & 1]) != JASS_ERROR_OK) return;
			for (size_t i = 0; i < 3; i++)
				for (auto &q : b[w & 1].text)
					answers[w].push_back(read_answer(engine->search(q)));
			});
	for (auto &t : pool) t.join();
	}
	for (size_t w = 0; w < workers; w++)
		{
		size_t at = 0;
		check(answers[w].size() == 3 * b[w & 1].text.size(), "engine-answers", "an engine in its own thread gave " + std::to_string(answers[w].size()) + " answers");
		for (size_t i = 0; i < 3 && at < answers[w].size(); i++)
			for (auto &q : b[w & 1].text)
				{
				answer &got = answers[w][at++];
				evaluation();
				if (q.empty()) continue;
				auto want = b[w & 1].want.find(got.query_id);
				check(want != b[w & 1].want.end() && want->second == got, "engine-differs", "worker " + std::to_string(w) + " query '" + q + "' gave " + got.text());
				}
		}
	tally("cases with four engines in four threads");
	for (size_t i = 0; i < 2; i++) remove_index(where[i]);
}

int main(int argc, char *argv[])
{
	return drive(argc, argv, {
		{"batch", 56, 1000, batch_case},
		{"engines", 8, 150, engines_case},
	});
}
