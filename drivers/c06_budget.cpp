/*
	C06: the postings budget
*/
#include "engine.h"
using namespace vf;

static bool near_integer(double v) { return std::fabs(v - std::llround(v)) < 1e-6; }

static void budget_case(rng &r, uint64_t)
{
	index_shape s = make_shape(r);
	collection c = make_collection(r, s.documents, s.terms, s.max_impact);
	std::string where = write_index(c, s, "index");
	std::unique_ptr<JASS_anytime_api> engine(new JASS_anytime_api);
	size_t k = r.pick(std::vector<size_t>{1, 3, 10, 50, 1000});
	engine->set_top_k(k);
	auto error = engine->load_index(s.version, where);
	if (!check(error == JASS_ERROR_OK, "load", "load_index returned " + std::to_string(error)))
		return;

	uint64_t absolute = ~(uint64_t)0;			// the settings in force
	double relative = 100;
	for (size_t n = 0; n < 60; n++)
		{
		query_terms q;
		std::string text = make_query(r, c, q, r.pick(std::vector<size_t>{1, 2, 4, 10}));
		prepared p;
		prepare(p, c, q);
		/*
			Usually change the budget, to something interesting for this query
		*/
		size_t how = r.below(10);
		std::string what;
		if (how < 5)
			{
			uint64_t cumulative = 0;
			size_t segments = p.segments.empty() ? 0 : r.below(p.segments.size() + 1);
			for (size_t i = 0; i < segments; i++) cumulative += p.segments[i].length;
			int64_t delta = (int64_t)r.below(3) - 1;
			absolute = r.chance(0.1) ? ~(uint64_t)0 : r.chance(0.1) ? 0 : cumulative + delta < 0 || (int64_t)(cumulative + delta) < 0 ? 0 : cumulative + delta;
			relative = 100;
			engine->set_postings_to_process(absolute);
			engine->set_postings_to_process_relative(100);
			tally("absolute budgets set");
			}
		else if (how < 7)
			{
			double percent = r.pick(std::vector<double>{0, 1, 6.25, 12.5, 33, 50, 75, 100, 150, 400});
			if (near_integer(c.documents() * percent / 100) && c.documents() * (uint64_t)(percent * 100) % 10000 != 0)
				continue;
			absolute = (uint64_t)(c.documents() * percent / 100.0 + (near_integer(c.documents() * percent / 100) ? 1e-3 : 0));
			relative = 100;
			check(engine->set_postings_to_process_proportion(percent) == JASS_ERROR_OK, "set-proportion", "refused");
			engine->set_postings_to_process_relative(100);
			tally("budgets set as a proportion of the collection");
			}
		else if (how < 9)
			{
			relative = r.pick(std::vector<double>{0, 6.25, 12.5, 25, 50, 75, 100, 150});
			check(engine->set_postings_to_process_relative(relative) == JASS_ERROR_OK, "set-relative", "refused");
			tally("budgets set relative to the query");
			}
		uint64_t budget = relative != 100 ? (uint64_t)(p.total_postings * (relative / 100.0)) : absolute;

		budgeted want = with_budget(c, p, k, budget);
		answer got = read_answer(engine->search("7 " + text));
		evaluation();
		std::string about = describe(s) + " k=" + std::to_string(k) + " budget=" + std::to_string(budget) + " of " + std::to_string(p.total_postings) + " (absolute " + std::to_string(absolute) + " relative " + std::to_string(relative) + ") query='" + text + "'";
		check(got.malformed.empty(), "malformed", about + " " + got.malformed);
		check(got.postings <= budget, "over-budget", about + " processed " + std::to_string(got.postings));
		check(got.postings == want.postings, "postings-processed", about + " got " + std::to_string(got.postings) + " want " + std::to_string(want.postings));
		if (want.too_many)
			tally("cuts inside a large tie, ranking not checked");
		else if (!among(want.rankings, got.hits))
			violation("wrong-results", about + " got " + got.text() + " want " + vf::text(want.rankings[0]));
		if (want.postings < p.total_postings)
			{
			tally("queries cut by the budget");
			nontrivial(hash(text, mix(budget, s.documents)));
			}
		if (n == 0) sample(about + " -> " + got.text(4));
		}
	engine.reset();
	remove_index(where);
}

int main(int argc, char *argv[])
{
	return drive(argc, argv, {
		{"budget", 240, 4000, budget_case},
	});
}
