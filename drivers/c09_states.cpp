/*
	C09: the search API is defined in every state
*/
#include "engine.h"
#include <sys/stat.h>
using namespace vf;

static const char *index_files[] = {"CIvocab.bin", "CIvocab_terms.bin", "CIpostings.bin", "CIdoclist.bin"};

static std::string copy_of(const std::string &from, const std::string &name, const std::string &without, bool empty)
{
	std::string to = g().scratch + "/" + name;
	mkdir(to.c_str(), 0755);
	for (auto file : index_files)
		{
		FILE *in = fopen((from + "/" + file).c_str(), "rb");
		if (in == nullptr) harness_error(std::string("no ") + file + " in " + from);
		std::string data;
		char block[4096];
		size_t n;
		while ((n = fread(block, 1, sizeof(block), in)) > 0) data.append(block, n);
		fclose(in);
		if (without == file && !empty) continue;
		FILE *out = fopen((to + "/" + file).c_str(), "wb");
		if (without != file) fwrite(data.data(), 1, data.size(), out);
		fclose(out);
		}
	return to;
}

static std::string hostile(rng &r, const collection &c, std::string &kind)
{
	std::string q;
	switch (r.below(13))
		{
		case 0: kind = "empty"; return "";
		case 1: kind = "separators"; for (size_t i = 0, n = r.range(1, 9); i < n; i++) q += " \t:"[r.below(3)]; return q;
		case 2: kind = "id-only"; return r.chance(0.5) ? "17" : "17:";
		case 3: kind = "bytes"; for (size_t i = 0, n = r.below(60); i < n; i++) q += (char)r.below(256); return q;
		case 4: kind = "high-bytes"; q = "1 "; for (size_t i = 0, n = r.below(30); i < n; i++) q += (char)r.range(0x80, 0xFF); return q;
		case 5: kind = "truncated-utf8"; q = "1 " + r.pick(c.names) + " "; q += r.pick(std::vector<std::string>{"\xC3", "\xE2\x82", "\xE2", "\xF0\x9F\x98", "\xF0"}); return q;
		case 6: kind = "long-token"; return "1 " + std::string(r.pick(std::vector<size_t>{255, 256, 257, 1000, 1023, 1024, 1025, 5000, 70000}), (char)('a' + r.below(26)));
		case 7: kind = "long-number"; return "1 " + std::string(r.pick(std::vector<size_t>{255, 256, 1024, 1025, 70000}), '7');
		case 8: kind = "many-terms"; q = "1"; for (size_t i = 0, n = r.pick(std::vector<size_t>{253, 254, 255, 256, 257, 300, 600, 1500}); i < n; i++) { char b[32]; snprintf(b, sizeof(b), " x%c%c%c", (char)('a' + i % 26), (char)('a' + i / 26 % 26), (char)('a' + i / 676)); q += b; } for (auto &n : c.names) q += " " + n; return q;
		case 9: kind = "repeats"; q = "1"; { std::string w = r.pick(c.names); for (size_t i = 0, n = r.pick(std::vector<size_t>{255, 256, 257, 1000, 66000}); i < n; i++) q += " " + w; } return q;
		case 10: kind = "mark-up"; return "1 <" + r.pick(c.names) + "> &amp; </x> <!-- " + r.pick(c.names);
		case 11: kind = "nul"; q = "1 " + r.pick(c.names); q += '\0'; q += r.pick(c.names); return q;
		default: kind = "long"; q = "1"; for (size_t i = 0; i < 4000; i++) q += " " + r.pick(c.names); return q;
		}
}

struct model
{
	bool loaded = false;
	size_t k = 10;
	uint64_t budget = ~(uint64_t)0;
};

static void states_case(rng &r, uint64_t number)
{
	index_shape s = make_shape(r);
	if (r.chance(0.7)) s.codec = index_codecs().size() - 1;		// uncompressed: by far the cheapest to construct
	s.documents = std::min<size_t>(s.documents, 400);
	bool wide = r.chance(0.25);
	if (wide) s.terms = 400;					// enough terms for a query to hold more of them than an accumulator can count
	collection c = make_collection(r, s.documents, s.terms, s.max_impact);
	std::string where = write_index(c, s, "index");
	std::string nowhere = g().scratch + "/no-such-directory", damaged[2];
	const char *missing = index_files[r.below(4)], *zero = index_files[r.below(4)];
	damaged[0] = copy_of(where, "missing", missing, false);
	damaged[1] = copy_of(where, "zero", zero, true);

	std::unique_ptr<JASS_anytime_api> engine(new JASS_anytime_api);
	model m;
	std::string trace;
	auto about = [&]() { return describe(s) + " after" + trace; };
	size_t load_at = r.below(12), operations = 45;
	for (size_t op = 0; op < operations; op++)
		{
		evaluation();
		nontrivial(mix(hash(trace), op));
		int what = op == load_at && !m.loaded ? 100 : r.below(22);
		trace += " " + std::to_string(what);
		if (trace.size() > 300) trace = trace.substr(trace.size() - 300);
		switch (what)
			{
			case 100:
				{
				auto error = engine->load_index(s.version, where);
				check(error == JASS_ERROR_OK, "load", about() + ": load_index returned " + std::to_string(error));
				if (error != JASS_ERROR_OK) return;
				m.loaded = true;
				tally("loads of a good index");
				break;
				}
			case 0:
				{
				size_t version = r.pick(std::vector<size_t>{0, 3, 4, 100, (size_t)-1});
				auto error = engine->load_index(version, where);
				check(error == (m.loaded ? JASS_ERROR_INDEX_ALREADY_LOADED : JASS_ERROR_BAD_INDEX_VERSION), "bad-version", about() + ": returned " + std::to_string(error));
				break;
				}
			case 1:
				{
				auto error = engine->load_index(r.range(1, 2), nowhere);
				check(m.loaded ? error == JASS_ERROR_INDEX_ALREADY_LOADED : error != JASS_ERROR_OK, "no-directory", about() + ": returned " + std::to_string(error));
				if (!m.loaded) tally("failed loads");
				break;
				}
			case 2:
				{
				size_t which = r.below(2);
				auto error = engine->load_index(s.version, damaged[which]);
				check(m.loaded ? error == JASS_ERROR_INDEX_ALREADY_LOADED : error != JASS_ERROR_OK, which == 0 ? "missing-file" : "empty-file", about() + ": with " + (which == 0 ? missing : zero) + (which == 0 ? " missing" : " empty") + " returned " + std::to_string(error));
				if (!m.loaded) tally("failed loads");
				if (!m.loaded && error == JASS_ERROR_OK) return;
				break;
				}
			case 3:
				if (m.loaded)
					check(engine->load_index(s.version, where) == JASS_ERROR_INDEX_ALREADY_LOADED, "load-twice", about());
				break;
			case 4:
				{
				size_t k = r.pick(std::vector<size_t>{0, 1, 2, 7, 10, 100, 999, 1000, 1001, 5000, (size_t)1 << 32, (size_t)-1});
				auto error = engine->set_top_k(k);
				if (m.loaded) check(error == JASS_ERROR_INDEX_ALREADY_LOADED, "top-k-loaded", about() + ": returned " + std::to_string(error));
				else if (k > engine->get_max_top_k()) check(error == JASS_ERROR_TOO_LARGE, "top-k-large", about() + ": set_top_k(" + std::to_string(k) + ") returned " + std::to_string(error));
				else if (error == JASS_ERROR_OK) m.k = k;
				else check(k == 0, "top-k-refused", about() + ": set_top_k(" + std::to_string(k) + ") returned " + std::to_string(error));
				break;
				}
			case 5:
				{
				size_t width = r.pick(std::vector<size_t>{0, 1, 5, 8, 16, 20, 33, 64, 1000, (size_t)-1});
				auto error = engine->set_accumulator_width(width);
				if (m.loaded) check(error == JASS_ERROR_INDEX_ALREADY_LOADED, "width-loaded", about() + ": returned " + std::to_string(error));
				else check(error == (width > 32 ? JASS_ERROR_TOO_LARGE : JASS_ERROR_OK), "width", about() + ": set_accumulator_width(" + std::to_string(width) + ") returned " + std::to_string(error));
				break;
				}
			case 6:
				{
				uint64_t budget = r.pick(std::vector<uint64_t>{0, 1, 10, 1000, ~(uint64_t)0});
				check(engine->set_postings_to_process(budget) == JASS_ERROR_OK, "budget", about());
				m.budget = budget;
				break;
				}
			case 7:
				{
				double percent = r.pick(std::vector<double>{1, 10, 50, 100, 300});
				auto error = engine->set_postings_to_process_proportion(percent);
				check(error == (m.loaded ? JASS_ERROR_OK : JASS_ERROR_NO_INDEX), "proportion", about() + ": returned " + std::to_string(error));
				if (error == JASS_ERROR_OK) m.budget = (uint64_t)((double)c.documents() * percent / 100.0);
				break;
				}
			case 8:
				{
				auto error = engine->set_postings_to_process_proportion_minimum(r.pick(std::vector<double>{0, 10, 100}));
				check(error == (m.loaded ? JASS_ERROR_OK : JASS_ERROR_NO_INDEX), "proportion-minimum", about() + ": returned " + std::to_string(error));
				break;
				}
			case 9:
				check(engine->get_document_count() == (m.loaded ? c.documents() : 0), "document-count", about() + ": " + std::to_string(engine->get_document_count()));
				check(engine->get_top_k() == m.k, "get-top-k", about() + ": get_top_k is " + std::to_string(engine->get_top_k()) + " want " + std::to_string(m.k));
				check(engine->get_max_top_k() == 1000, "max-top-k", about());
				check(engine->get_postings_to_process() == (uint32_t)m.budget, "get-budget", about() + ": get_postings_to_process is " + std::to_string(engine->get_postings_to_process()) + " want " + std::to_string(m.budget));
				break;
			case 10:
				{
				std::string name;
				int32_t d = -77;
				auto error = engine->get_encoding_scheme(name, d);
				check(error == (m.loaded ? JASS_ERROR_OK : JASS_ERROR_NO_INDEX), "scheme", about() + ": returned " + std::to_string(error));
				check(engine->get_encoding_scheme_name().empty() == !m.loaded, "scheme-name", about());
				if (m.loaded) check(engine->get_encoding_scheme_name() == name && engine->get_encoding_scheme_d() == d, "scheme-differs", about());
				else check(engine->get_encoding_scheme_d() == JASS_ERROR_NO_INDEX, "scheme-d", about());
				break;
				}
			case 11:
				{
				std::vector<JASS_anytime_thread_result> output;
				std::vector<JASS_anytime_query> list;
				list.push_back(std::string("1 ") + r.pick(c.names));
				auto error = engine->search(output, list, 1);
				check(error == (m.loaded ? JASS_ERROR_OK : JASS_ERROR_NO_INDEX), "batch-error", about() + ": returned " + std::to_string(error));
				std::vector<std::string> text;
				if (r.chance(0.7)) text.push_back(std::string("1 ") + r.pick(c.names));
				auto all = engine->threaded_search(text, r.range(1, 2));
				if (!m.loaded) check(all.empty(), "batch-unloaded", about());
				break;
				}
			case 12:
				{
				/* a file of thresholds that does not exist, is empty, or makes no sense (no threshold of it can apply) */
				std::string name = g().scratch + "/oracle.txt";
				unlink(name.c_str());
				if (r.chance(0.7))
					{
					FILE *f = fopen(name.c_str(), "wb");
					const char *text = r.pick(std::vector<const char *>{"", "\n", "\n\n  \n", "alone\n", "zz 1\nzz", "zz \n", "zz x\n", "zz 99999999999999999999999\n", "zz -1\n", " \n", "zz  7"});
					fwrite(text, 1, strlen(text), f);
					fclose(f);
					}
				engine->load_oracle_scores(name);
				break;
				}
			case 13:
				if (r.chance(0.5)) check(engine->use_ascii_parser() == JASS_ERROR_OK, "ascii", about());
				check(engine->use_query_parser() == JASS_ERROR_OK, "query-parser", about());
				break;
			case 14: case 15: case 16: case 17: case 18:
				{
				std::string kind, q = hostile(r, c, kind);
				bool raw = r.chance(0.3);
				if (raw) engine->use_ascii_parser();
				answer got = read_answer(engine->search(q));
				if (raw) engine->use_query_parser();
				tally("hostile queries: " + kind);
				if (!m.loaded)
					check(got.hits.empty() && got.postings == 0, "unloaded-answer", about() + ": " + got.text());
				bool text_id = kind != "bytes" && kind != "high-bytes";		// an id may hold anything, including what separates the fields of a TREC line
				if (text_id) check(got.malformed.empty(), "hostile-malformed", about() + " " + kind + ": " + got.malformed);
				check(got.hits.size() <= m.k, "hostile-too-many", about() + " " + kind + ": " + got.text());
				if (m.budget != ~(uint64_t)0) check(got.postings <= m.budget, "hostile-budget", about() + " " + kind + ": " + got.text());
				std::set<std::string> seen, keys(c.keys.begin(), c.keys.end());
				for (auto &h : got.hits)
					if (text_id)
						{
						check(keys.count(h.key), "hostile-key", about() + " " + kind + ": no document has key '" + h.key + "'");
						check(seen.insert(h.key).second, "hostile-twice", about() + " " + kind + ": " + h.key);
						}
				break;
				}
			default:
				{
				query_terms q;
				std::string text = make_query(r, c, q, 6);
				answer got = read_answer(engine->search("7 " + text));
				if (!m.loaded)
					{
					check(got.hits.empty() && got.postings == 0 && got.query_id.empty(), "unloaded-answer", about() + ": " + got.text());
					break;
					}
				prepared p;
				prepare(p, c, q);
				if (m.budget >= p.total_postings)
					{
					check(among(exhaustive(c, p, m.k), got.hits), "wrong-answer", about() + ": k=" + std::to_string(m.k) + " query '" + text + "' got " + got.text() + " want " + vf::text(exhaustive(c, p, m.k)[0]));
					tally("ordinary queries answered in between");
					}
				else
					{
					check(got.postings <= m.budget, "over-budget", about() + ": " + got.text());
					check(got.hits.size() <= m.k, "too-many", about() + ": " + got.text());
					}
				}
			}
		}
	sample(about());
	engine.reset();
	remove_index(where);
	for (auto &d : damaged) remove_index(d);
}

int main(int argc, char *argv[])
{
	return drive(argc, argv, {
		{"states", 240, 5000, states_case},
	});
}
