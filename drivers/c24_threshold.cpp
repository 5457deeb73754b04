/*
	C24: score thresholds (the "oracle")
*/
#include "engine.h"
#include "top_k_limit.h"
using namespace vf;

static void threshold_case(rng &r, uint64_t)
{
	index_shape s = make_shape(r);
	if (r.chance(0.5)) s.max_impact = r.pick(std::vector<uint32_t>{5, 20, 60});
	collection c = make_collection(r, s.documents, s.terms, s.max_impact);
	std::string where = write_index(c, s, "index");
	size_t k = r.pick(std::vector<size_t>{1, 2, 3, 5, 10, 30, 100});

	struct one { std::string id, text; prepared p; std::vector<uint32_t> score; std::vector<uint32_t> score_exact; std::vector<std::vector<hit>> want; uint32_t kth; bool listed; uint32_t threshold; };
	std::vector<std::unique_ptr<one>> queries;
	std::string file;
	for (size_t n = 0; n < 30; n++)
		{
		std::unique_ptr<one> it(new one);
		query_terms q;
		it->text = make_query(r, c, q, r.pick(std::vector<size_t>{1, 2, 4, 10, 25}));
		it->id = "t" + std::to_string(n);
		prepare(it->p, c, q);
		it->score = accumulate(c, it->p, all_segments(it->p));
		it->want = exhaustive(c, it->p, k);
		it->kth = it->want[0].size() < k ? 0 : it->want[0][k - 1].score;
		it->listed = r.chance(0.8);
		switch (r.below(7))
			{
			case 0: it->threshold = it->kth; break;
			case 1: it->threshold = it->kth + (uint32_t)r.range(1, 5); break;
			case 2: it->threshold = it->kth > 0 ? it->kth - 1 : 0; break;
			case 3: it->threshold = r.range(0, 2); break;
			case 4: it->threshold = r.pick(std::vector<uint32_t>{255, 256, 257, 300, 512, 70000}); break;
			default: it->threshold = r.range(0, it->kth); break;
			}
		if (it->listed)
			file += it->id + (r.chance(0.2) ? "   " : " ") + std::to_string(it->threshold) + "\n";
		queries.push_back(std::move(it));
		}
	if (r.chance(0.3)) file += "nonumber\n";
	file += "other 77\n";
	write_file(g().scratch + "/oracle", file);

	{
	std::string name = g().scratch + "/oracle";
	JASS::top_k_limit table(name);
	for (auto &q : queries)
		check(table[q->id] == (q->listed ? q->threshold : 0), "threshold-read", "the threshold of '" + q->id + "' is " + std::to_string(table[q->id]) + " rather than " + (q->listed ? std::to_string(q->threshold) : "none"));
	}
	std::unique_ptr<JASS_anytime_api> engine(new JASS_anytime_api);
	engine->set_top_k(k);
	engine->set_accumulator_width(r.pick(std::vector<size_t>{0, 1, 3, 8}));
	check(engine->load_oracle_scores(g().scratch + "/oracle") == JASS_ERROR_OK, "load-oracle", "load_oracle_scores failed");
	auto error = engine->load_index(s.version, where);
	if (!check(error == JASS_ERROR_OK, "load", "load_index returned " + std::to_string(error)))
		return;

	for (size_t n = 0; n < 90; n++)
		{
		one &q = *queries[r.below(queries.size())];
		uint64_t minimum = r.chance(0.5) ? 0 : r.below(q.p.total_postings * 5 / 4 + 1);
		engine->set_postings_to_process_minimum(minimum);
		answer got = read_answer(engine->search(q.id + " " + q.text));
		evaluation();
		std::string about = describe(s) + " k=" + std::to_string(k) + " query='" + q.text + "' threshold=" + (q.listed ? std::to_string(q.threshold) : "none") + " k-th score=" + std::to_string(q.kth) + " minimum=" + std::to_string(minimum);
		check(got.malformed.empty(), "malformed", about + " " + got.malformed);
		check(got.postings <= q.p.total_postings, "postings", about);
		check(got.postings >= std::min<uint64_t>(minimum, q.p.total_postings), "below-minimum", about + " processed " + std::to_string(got.postings));
		std::set<std::string> seen;
		for (size_t i = 0; i < got.hits.size(); i++)
			{
			check(seen.insert(got.hits[i].key).second, "duplicate-document", about + " " + got.text());
			if (i) check(got.hits[i].score <= got.hits[i - 1].score, "order", about + " " + got.text());
			}
		if (!q.listed || q.threshold <= 1 || q.threshold > q.kth || q.kth == 0)
			{
			if (!among(q.want, got.hits))
				violation(q.listed && q.threshold > 1 ? "high-threshold-results" : "no-threshold-results", about + " got " + got.text() + " want " + vf::text(q.want[0]));
			check(got.postings == q.p.total_postings, "stopped-early", about + " processed " + std::to_string(got.postings) + " of " + std::to_string(q.p.total_postings));
			tally(q.listed && q.threshold > 1 ? "thresholds above the k-th score" : "no threshold");
			}
		else
			{
			tally("thresholds at or below the k-th score");
			check(got.hits.size() == k, "too-few", about + " got " + got.text());
			std::map<std::string, uint32_t> truth;
			for (size_t d = 0; d < c.documents(); d++) truth[c.keys[d]] = q.score[d];
			for (auto &h : got.hits)
				{
				uint32_t slack = q.p.ambiguous ? q.p.segments.size() : 0;
				check(truth.count(h.key) && truth[h.key] + slack >= q.threshold, "undeserving-document", about + " " + h.key + " really scores " + std::to_string(truth[h.key]) + " in " + got.text());
				check(h.score <= truth[h.key] + slack, "score-too-large", about + " " + h.key + " really scores " + std::to_string(truth[h.key]) + " in " + got.text());
				check(h.score >= q.threshold, "score-below-threshold", about + " " + got.text());
				}
			if (got.postings < q.p.total_postings) tally("searches stopped early");
			nontrivial(hash(q.text, mix(q.threshold, minimum)));
			}
		if (n == 0) sample(about + " -> " + got.text(4));
		}
	engine.reset();
	remove_index(where);
}

int main(int argc, char *argv[])
{
	return drive(argc, argv, {
		{"threshold", 240, 4000, threshold_case},
	});
}
