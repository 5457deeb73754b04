/*
	C03_FORMATS.CPP
	---------------
	The same collection as a version 1 and a version 2 index with each codec: what is read back, what is found by looking it
	up, and what is returned by searching are the same (and are what was written).
*/
#include <sys/wait.h>
#include <list>
#include "engine.h"
#include "deserialised_jass_v1.h"
#include "deserialised_jass_v2.h"
#include "compress_integer.h"

using namespace vf;
typedef JASS::serialise_jass_v1 format;

static std::string name_of(int version, size_t codec) { return "v" + std::to_string(version) + "-" + std::string(1, (char)index_codecs()[codec].first); }

/* as write_index(), but the terms are in no particular order, as they come from a hash table */
static void write_shuffled(rng &r, const collection &c, const std::string &directory, int version, format::jass_v1_codex codex, int alignment)
{
	mkdir(directory.c_str(), 0755);
	in_directory inside(directory);
	JASS::allocator_pool memory(65536);
	std::unique_ptr<format> out;
	if (version == 1) out.reset(new format(c.documents(), codex, alignment));
	else out.reset(new JASS::serialise_jass_v2(c.documents(), codex, alignment));
	std::vector<std::string> order = c.names;
	r.shuffle(order);
	std::list<exact> held;			// the terms have to stay until finish()
	for (auto &name : order)
		{
		JASS::index_postings postings(memory);
		std::vector<JASS::compress_integer::integer> ids;
		std::vector<JASS::index_postings_impact::impact_type> impacts;
		for (auto &p : c.terms.at(name)) { ids.push_back(p.first + 1); impacts.push_back(p.second); }
		held.emplace_back(name);
		(*out)(JASS::slice(held.back().data, name.size()), postings, ids.size(), ids.data(), impacts.data());
		}
	(*out)(0, JASS::slice("-"));
	for (size_t d = 0; d < c.documents(); d++)
		{
		exact key(c.keys[d]);
		(*out)(d + 1, JASS::slice(key.data, c.keys[d].size()));
		}
	out->finish();
}

static collection make(rng &r, bool search)
{
	size_t documents = r.chance(search ? 0.1 : 0.25) ? r.range(3000, 60000) : r.pick(std::vector<size_t>{1, 2, 7, 30, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 3000});
	uint32_t max_impact = r.pick(std::vector<uint32_t>{1, 5, 20, 60, 255, 256, 1023, 1024});
	collection c = make_collection(r, documents, documents > 3000 ? r.range(1, 12) : search ? r.range(1, 60) : r.range(1, 300), max_impact);
	/* terms next to each other in the order, beyond ASCII, and long */
	auto list = [&]()
		{
		std::map<uint32_t, uint32_t> l;
		size_t n = r.chance(0.5) ? 1 : r.range(1, std::min<size_t>(documents, 600));
		while (l.size() < n) l[r.below(documents)] = r.range(1, max_impact);
		return l;
		};
	if (!search)
		for (size_t n = r.below(30); n-- > 0;)
			{
			std::string base = r.pick(c.names), add;
			switch (r.below(6))
				{
				case 0: add = base + "s"; break;
				case 1: add = base.substr(0, r.range(1, base.size())); break;
				case 2: add = base; add.back()++; break;
				case 3: add = "\xc3\xa9" + base; break;
				case 4: add = base + "\xf0\x9f\x98\x80"; break;
				case 5: add = std::string(r.range(200, 1100), (char)('a' + r.below(26))); break;
				}
			if (add.empty() || add.find('\0') != std::string::npos || c.terms.count(add)) continue;
			c.terms[add] = list();
			c.names.push_back(add);
			}
	/* keys of all sorts */
	if (r.chance(0.3))
		for (auto &k : c.keys) if (r.chance(0.3)) k = "clueweb12-0000tw-00-" + k + std::string(r.below(40), 'x');
	return c;
}

static std::string show_ids(const std::vector<uint32_t> &ids, size_t count, int d)
{
	std::string all;
	uint32_t sum = 0;
	for (size_t i = 0; i < count && i < 20; i++) all += (i ? "," : "") + std::to_string(sum = d ? sum + ids[i] : ids[i]);
	return all;
}

static void read_back(rng &r, const collection &c, const std::set<std::pair<int, size_t>> &only = {})
{
	std::string about = std::to_string(c.documents()) + " documents and " + std::to_string(c.terms.size()) + " terms";
	size_t total = 0;
	for (auto &t : c.terms) total += t.second.size();
	for (int version = 1; version <= 2; version++)
		for (size_t codec = 0; codec < index_codecs().size(); codec++)
			{
			if (version == 2 && index_codecs()[codec].first == format::qmx) continue;
			if (!only.empty() && !only.count({version, codec})) continue;
			std::string which = name_of(version, codec), where = g().scratch + "/index";
			write_shuffled(r, c, where, version, index_codecs()[codec].first, index_codecs()[codec].second);
			std::unique_ptr<JASS::deserialised_jass_v1> index(version == 1 ? new JASS::deserialised_jass_v1(false) : new JASS::deserialised_jass_v2(false));
			if (!check(index->read_index(where) != 0, "read:" + which, "cannot be read: " + about)) { remove_index(where); continue; }
			std::string name;
			int32_t d;
			auto decoder = index->codex(name, d);
			check(index->document_count() == c.documents(), "document-count:" + which, std::to_string(index->document_count()) + " rather than " + about);
			check(index->primary_keys() == c.keys, "primary-keys:" + which, "the primary keys differ: " + about);
			size_t seen = 0;
			for (auto &t : *index)
				{
				std::string term((char *)t.term.address(), t.term.size());
				seen++;
				if (!check(c.terms.count(term) == 1, "vocabulary:" + which, "'" + term + "' was not written")) break;
				}
			check(seen == c.terms.size(), "vocabulary:" + which, std::to_string(seen) + " terms rather than " + about);
			std::vector<JASS::deserialised_jass_v1::segment_header> segments(2048);
			JASS::deserialised_jass_v1::metadata found;
			std::vector<uint32_t> ids(c.documents() + 4096);
			for (auto &t : c.terms)
				{
				exact held(t.first);
				std::string here = which + " term '" + t.first.substr(0, 60) + "' of " + std::to_string(t.second.size()) + " postings, " + about;
				if (!check(index->postings_details(found, JASS::query_term(JASS::slice(held.data, t.first.size()))), "lookup:" + which, "not found: " + here)) continue;
				uint32_t smallest = 0, largest = 0;
				JASS::query::DOCID_TYPE frequency = 0;
				std::map<uint32_t, std::vector<uint32_t>> want;
				for (auto &p : t.second) want[p.second].push_back(p.first);
				if (!check(found.impacts == want.size(), "segments:" + which, std::to_string(found.impacts) + " segments rather than " + std::to_string(want.size()) + ": " + here)) continue;
				size_t scale = r.chance(0.1) ? r.range(2, 5) : 1;
				size_t count = index->get_segment_list(segments.data(), found, scale, smallest, largest, frequency);
				check(count == want.size() && frequency == t.second.size(), "frequency:" + which, std::to_string(count) + " segments, " + std::to_string(frequency) + " postings: " + here);
				check(smallest == want.begin()->first * scale && largest == want.rbegin()->first * scale, "bounds:" + which, std::to_string(smallest) + " to " + std::to_string(largest) + ": " + here);
				auto expect = want.rbegin();
				for (size_t s = 0; s < count; s++, expect++)
					{
					auto &h = segments[s];
					if (!check(h.impact == expect->first * scale && h.segment_frequency == expect->second.size(), "segment-header:" + which, "segment " + std::to_string(s) + " has impact " + std::to_string(h.impact) + " and " + std::to_string(h.segment_frequency) + " documents: " + here)) break;
					decoder->decode(ids.data(), h.segment_frequency, index->postings() + h.offset, h.end - h.offset);
					uint32_t sum = 0;
					bool same = true;
					for (size_t i = 0; same && i < h.segment_frequency; i++)
						{
						sum = d ? sum + ids[i] : ids[i];
						same = sum == expect->second[i];
						}
					if (!check(same, "postings:" + which, "the documents with impact " + std::to_string(expect->first) + " differ: " + here + " read " + show_ids(ids, h.segment_frequency, d) + " rather than " + show_ids(expect->second, h.segment_frequency, 0))) break;
					evaluation();
					if (h.segment_frequency > 256) tally("segments longer than 256 decoded");
					}
				/* near misses */
				std::string miss = r.chance(0.5) ? t.first + (char)r.range(1, 255) : r.chance(0.5) ? t.first.substr(0, t.first.size() - 1) : std::string(1, (char)r.range(1, 255)) + t.first;
				if (!c.terms.count(miss))
					{
					exact lost(miss);
					check(!index->postings_details(found, JASS::query_term(JASS::slice(lost.data, miss.size()))), "lookup-absent:" + which, "found '" + miss + "'");
					}
				}
			tally("indexes read back: " + which);
			index.reset();
			remove_index(where);
			}
	tally("postings in them", total);
	nontrivial(hash(about, total));
	sample(about + ", " + std::to_string(total) + " postings, as " + std::to_string(only.empty() ? 9 : only.size()) + " indexes");
}

static void content(rng &r, uint64_t)
{
	read_back(r, make(r, false));
}

/* large enough that the places, lengths, and counts held in variable byte need 4 bytes rather than 3 */
static void large(rng &r, uint64_t)
{
	collection c;
	size_t documents = r.range(1 << 20, (1 << 21) + (1 << 20));
	for (size_t d = 0; d < documents; d++) c.keys.push_back(std::to_string(d));
	for (const char *name : {"all", "half", "few", "one", "other"})
		{
		auto &list = c.terms[name];
		c.names.push_back(name);
		if (*name == 'a')				// all in one segment
			for (size_t d = 0; d < documents; d++) list.emplace_hint(list.end(), d, 7);
		else if (*name == 'h')
			for (size_t d = r.below(2); d < documents; d += 1 + r.below(3)) list.emplace_hint(list.end(), d, 1 + d % 3);
		else
			for (size_t n = *name == 'f' ? 1000 : 1; list.size() < n;) list[r.below(documents)] = r.range(1, 255);
		}
	size_t uncompressed = 0;
	while (index_codecs()[uncompressed].first != format::uncompressed) uncompressed++;
	read_back(r, c, {{2, uncompressed}, {r.range(1, 2), r.below(index_codecs().size())}});
}

static void searching(rng &r, uint64_t)
{
	collection c = make(r, true);
	std::string about = std::to_string(c.documents()) + " documents and " + std::to_string(c.terms.size()) + " terms";
	size_t k = r.pick(std::vector<size_t>{1, 3, 10, 100, 1000});
	std::vector<std::string> texts;
	std::vector<std::vector<std::vector<hit>>> want;
	for (size_t n = 0; n < 15; n++)
		{
		query_terms q;
		texts.push_back(make_query(r, c, q, r.pick(std::vector<size_t>{1, 2, 3, 5, 12})));
		prepared p;
		prepare(p, c, q);
		want.push_back(exhaustive(c, p, k));
		}
	std::vector<answer> first;
	for (int version = 1; version <= 2; version++)
		for (size_t codec = 0; codec < index_codecs().size(); codec++)
			{
			if (version == 2 && index_codecs()[codec].first == format::qmx) continue;
			std::string which = name_of(version, codec), where = g().scratch + "/index";
			write_shuffled(r, c, where, version, index_codecs()[codec].first, index_codecs()[codec].second);
			std::unique_ptr<JASS_anytime_api> engine(new JASS_anytime_api);
			engine->set_top_k(k);
			if (!check(engine->load_index(version, where + "/") == JASS_ERROR_OK, "load:" + which, "cannot be loaded: " + about)) { remove_index(where); continue; }
			for (size_t n = 0; n < texts.size(); n++)
				{
				answer got = read_answer(engine->search("q " + texts[n]));
				evaluation();
				std::string here = which + " k=" + std::to_string(k) + " '" + texts[n] + "' over " + about;
				if (!among(want[n], got.hits))
					violation("results:" + which, here + " gave " + got.text() + " rather than " + vf::text(want[n][0]));
				if (first.size() <= n) first.push_back(got);
				else check(got == first[n], "results-differ:" + which, here + " gave " + got.text() + " but with v1-s " + first[n].text());
				if (version == 1 && codec == 0 && !got.hits.empty()) nontrivial(hash(texts[n], mix(c.documents(), k)));
				}
			tally("indexes searched: " + which);
			engine.reset();
			remove_index(where);
			}
}

/* version 2 indexes do not keep the alignment that QMX needs: in a process of its own, as it crashes */
static void second_with_qmx(rng &r, uint64_t)
{
	collection c = make_collection(r, 3000, 40, 60);
	std::string where = g().scratch + "/index";
	size_t codec = 0;
	while (index_codecs()[codec].first != format::qmx) codec++;
	write_shuffled(r, c, where, 2, format::qmx, index_codecs()[codec].second);
	fflush(stdout);
	pid_t child = fork();
	if (child == 0)
		{
		freopen("/dev/null", "w", stderr);
		freopen("/dev/null", "w", stdout);
		JASS_anytime_api engine;
		bool good = engine.load_index(2, where + "/") == JASS_ERROR_OK;
		for (auto &name : c.names)
			{
			query_terms q;
			q[name] = 1;
			prepared p;
			prepare(p, c, q);
			good = good && among(exhaustive(c, p, 10), read_answer(engine.search("q " + name)).hits);
			}
		_exit(good ? 0 : 3);
		}
	int status = 0;
	waitpid(child, &status, 0);
	evaluation();
	remove_index(where);
	if (!WIFEXITED(status) || WEXITSTATUS(status) != 0)
		violation("v2-with-qmx", "searching a version 2 index written with the QMX codec (alignment 16) " + std::string(WIFEXITED(status) && WEXITSTATUS(status) == 3 ? "gives the wrong results" : "crashes"));
	else
		tally("version 2 indexes with QMX searched");
}

int main(int argc, char *argv[])
{
	return drive(argc, argv, {
		{"content", 70, 4000, content},
		{"search", 14, 400, searching},
		{"large", 1, 12, large},
		{"v2-with-qmx", 1, 1, second_with_qmx},
	});
}
