/*
	C07: an answer depends on the index, the query and the settings only
*/
#include "engine.h"
using namespace vf;

struct setting
{
	uint64_t absolute = ~(uint64_t)0;
	double relative = 100;
	bool raw = false;
	std::string text() const { return "absolute=" + std::to_string(absolute) + " relative=" + std::to_string(relative) + " raw=" + std::to_string(raw); }
};
static void apply(JASS_anytime_api &e, const setting &s)
{
	e.set_postings_to_process(s.absolute);
	e.set_postings_to_process_relative(s.relative);
	if (s.raw) e.use_ascii_parser(); else e.use_query_parser();
}

static void history_case(rng &r, uint64_t)
{
	index_shape s = make_shape(r);
	collection c = make_collection(r, s.documents, s.terms, s.max_impact);
	std::string where = write_index(c, s, "index");

	std::vector<std::string> queries;
	for (size_t i = 0; i < 12; i++)
		{
		query_terms q;
		queries.push_back("q" + std::to_string(i) + " " + make_query(r, c, q, r.pick(std::vector<size_t>{1, 2, 5, 15})));
		}
	queries.push_back("qu nosuchterm");
	std::vector<setting> settings(4);
	settings[1].absolute = r.below(s.documents * 2 + 1);
	settings[2].relative = r.pick(std::vector<double>{12.5, 25, 50});
	settings[3].raw = true;
	settings[3].absolute = r.below(s.documents * 4 + 1);

	size_t k = r.pick(std::vector<size_t>{1, 3, 10, 100});
	std::map<std::pair<size_t, size_t>, answer> known;			// (setting, query) -> the first answer seen
	std::map<std::pair<size_t, size_t>, std::string> first;		// ... and where it was seen
	std::vector<std::unique_ptr<JASS_anytime_api>> engines;
	/*
		Three engines on the same index: same k with two accumulator widths, and a larger k (of whose answers the others must be the prefix)
	*/
	size_t big = std::min<size_t>(1000, k * 3 + 1);
	std::vector<size_t> ks = {k, k, big};
	for (size_t e = 0; e < ks.size(); e++)
		{
		engines.emplace_back(new JASS_anytime_api);
		engines.back()->set_top_k(ks[e]);
		engines.back()->set_accumulator_width(e == 1 ? r.range(1, 12) : 0);
		auto error = engines.back()->load_index(s.version, where);
		if (!check(error == JASS_ERROR_OK, "load", "load_index returned " + std::to_string(error)))
			return;
		}

	size_t steps = g().thorough ? 3000 : 700;
	std::string recent;
	for (size_t step = 0; step < steps; step++)
		{
		size_t which = r.below(3), set = r.below(settings.size()), query = r.below(queries.size());
		/*
			Stay on one query for long stretches now and then (the accumulators are recycled per query)
		*/
		size_t times = r.chance(0.01) ? 300 : 1;
		for (size_t t = 0; t < times; t++)
			{
			apply(*engines[which], settings[set]);
			answer got;
			if (r.chance(0.05))
				{
				std::vector<std::string> batch = {queries[query]};
				auto all = engines[which]->threaded_search(batch, 2);
				size_t found = 0;
				for (auto &thread : all)
					for (auto &one : thread.results)
						got = read_answer(one.second), found++;
				check(found == 1, "threaded-answers", std::to_string(found) + " answers for one query");
				tally("asked in another thread");
				}
			else
				got = read_answer(engines[which]->search(queries[query]));
			evaluation();
			check(got.malformed.empty(), "malformed", got.malformed);
			if (which == 2)
				{
				if (got.hits.size() > k) got.hits.resize(k);
				}
			auto key = std::make_pair(set, query);
			if (!known.count(key))
				{
				known[key] = got;
				first[key] = "step " + std::to_string(step) + " engine " + std::to_string(which);
				}
			else if (!(known[key] == got))
				violation(which == 2 ? "differs-with-k" : "differs", describe(s) + " k=" + std::to_string(k) + " " + settings[set].text() + " query '" + queries[query] + "' at " + first[key] + " gave " + known[key].text() + " but at step " + std::to_string(step) + " engine " + std::to_string(which) + " gave " + got.text() + "; recently:" + recent);
			if (!got.hits.empty()) nontrivial(mix(hash(queries[query]), mix(which * 4 + set, std::min<size_t>(step, 5))));
			}
		recent = (recent + " (" + std::to_string(which) + "," + std::to_string(set) + "," + std::to_string(query) + ")");
		if (recent.size() > 200) recent = recent.substr(recent.size() - 200);
		}
	tally("distinct (settings, query) pairs compared", known.size());
	sample(describe(s) + " k=" + std::to_string(k) + " " + std::to_string(steps) + " steps over " + std::to_string(known.size()) + " (settings, query) pairs and 3 engines");
	engines.clear();
	remove_index(where);
}

int main(int argc, char *argv[])
{
	return drive(argc, argv, {
		{"history", 40, 400, history_case},
	});
}
