/*
	C04: exhaustive search is the exact top-k of the brute-force scores
*/
#include "engine.h"
using namespace vf;

static void search_case(rng &r, uint64_t)
{
	index_shape s = make_shape(r);
	collection c = make_collection(r, s.documents, s.terms, s.max_impact);
	std::string where = write_index(c, s, "index");
	std::unique_ptr<JASS_anytime_api> engine(new JASS_anytime_api);
	size_t k = r.pick(std::vector<size_t>{1, 2, 3, 5, 10, 20, 64, 100, 1000});
	check(engine->set_top_k(k) == JASS_ERROR_OK, "set-top-k", "set_top_k(" + std::to_string(k) + ") refused");
	size_t width = r.pick(std::vector<size_t>{0, 0, 1, 2, 4, 7, 8, 12, 16, 20});
	check(engine->set_accumulator_width(width) == JASS_ERROR_OK, "set-width", "set_accumulator_width refused");
	auto error = engine->load_index(s.version, where + "/");
	if (!check(error == JASS_ERROR_OK, "load", "load_index returned " + std::to_string(error) + " for " + describe(s)))
		return;
	check(engine->get_document_count() == c.documents(), "document-count", "get_document_count");

	size_t queries = 25;
	for (size_t n = 0; n < queries; n++)
		{
		query_terms q;
		std::string text = make_query(r, c, q, r.pick(std::vector<size_t>{1, 2, 3, 5, 12, 40}));
		std::string id = "q" + std::to_string(n);
		prepared p;
		prepare(p, c, q);
		auto want = exhaustive(c, p, k);
		answer got = read_answer(engine->search(id + r.pick(std::vector<std::string>{" ", ":", "\t", " : "}) + text));
		evaluation();
		tally(p.scaled ? "queries with scaled scores" : "queries with unscaled scores");
		if (want[0].size() == k) tally("queries whose top-k filled");
		if (want[0].size() > 1 && want[0][want[0].size() - 1].score == want[0][want[0].size() - 2].score) tally("queries with a tie at the end of the list");
		if (!want[0].empty()) nontrivial(hash(text, mix(s.documents, k)));
		std::string about = describe(s) + " k=" + std::to_string(k) + " width=" + std::to_string(width) + " query='" + text + "'";
		check(got.malformed.empty(), "malformed", about + " " + got.malformed);
		check(got.query_id == id, "query-id", about + " id '" + got.query_id + "'");
		std::set<std::string> seen;
		for (size_t i = 0; i < got.hits.size(); i++)
			{
			check(seen.insert(got.hits[i].key).second, "duplicate-document", about + " " + got.hits[i].key);
			if (i) check(got.hits[i].score <= got.hits[i - 1].score, "order", about + " " + got.text());
			}
		if (!among(want, got.hits))
			violation(p.scaled ? "wrong-scaled-results" : "wrong-results", about + " got " + got.text() + " want " + vf::text(want[0]));
		check(got.postings == p.total_postings, "postings-processed", about + " got " + std::to_string(got.postings) + " want " + std::to_string(p.total_postings));
		if (n == 0) sample(about + " -> " + got.text(4));
		}
	engine.reset();
	remove_index(where);
}

int main(int argc, char *argv[])
{
	return drive(argc, argv, {
		{"search", 240, 4000, search_case},
	});
}
