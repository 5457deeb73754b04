/*
	INDEX_DUMP.CPP
	--------------
	index_dump 1|2 DIRECTORY		everything in an index, as the reader of that version sees it
		codec NAME D
		documents N
		key KEY
		term TERM <tab> impact:document,document;impact:...		in the order stored
		lookup OK|term						whether every term is found by looking it up, and absent terms are not
	index_dump stem WORD...			each word as the Porter stemmer has it
*/
#include <string.h>
#include <stdio.h>
#include <string>
#include <vector>
#include "deserialised_jass_v1.h"
#include "deserialised_jass_v2.h"
#include "compress_integer.h"
#include "stem_porter.h"
#include "parser.h"

int main(int argc, char *argv[])
{
	if (argc >= 2 && strcmp(argv[1], "stem") == 0)
		{
		JASS::stem_porter stemmer;
		for (int i = 2; i < argc; i++)
			{
			char out[4096];
			strcpy(out, argv[i]);
			if (strlen(argv[i]) > 2)
				{
				std::string word = argv[i];
				size_t length = stemmer.tostem(out, word.c_str(), word.size());
				out[length] = '\0';
				}
			printf("%s\n", out);
			}
		return 0;
		}
	bool second = argv[1][0] == '2';
	JASS::deserialised_jass_v1 *index = second ? new JASS::deserialised_jass_v2(false) : new JASS::deserialised_jass_v1(false);
	if (index->read_index(argc > 2 ? argv[2] : "") == 0) { printf("unreadable\n"); return 0; }
	std::string name;
	int32_t d;
	auto codec = index->codex(name, d);
	printf("codec %s %d\ndocuments %zu\n", name.c_str(), (int)d, (size_t)index->document_count());
	for (auto &key : index->primary_keys()) printf("key %s\n", key.c_str());
	std::vector<JASS::deserialised_jass_v1::segment_header> segments(1 << 17);
	uint8_t *aligned = nullptr;
	size_t room = 0;
	std::vector<uint32_t> out(index->document_count() + 4096);
	std::vector<std::string> terms;
	for (auto &term : *index)
		{
		terms.push_back(std::string((char *)term.term.address(), term.term.size()));
		printf("term %s\t", terms.back().c_str());
		uint32_t smallest = 0, largest = 0;
		JASS::query::DOCID_TYPE frequency = 0;
		JASS::deserialised_jass_v1::metadata data = term;
		size_t count = index->get_segment_list(segments.data(), data, 1, smallest, largest, frequency);
		uint64_t total = 0;
		for (size_t s = 0; s < count; s++)
			{
			auto &h = segments[s];
			size_t bytes = h.end - h.offset;
			if (bytes + 256 > room)
				{
				free(aligned);
				room = bytes * 2 + 4096;
				aligned = (uint8_t *)aligned_alloc(64, (room + 63) / 64 * 64);
				}
			memcpy(aligned, index->postings() + h.offset, bytes);
			memset(aligned + bytes, 0, 128);
			if (h.segment_frequency > index->document_count()) { printf("!%u postings in a segment;", (unsigned)h.segment_frequency); continue; }
			std::fill(out.begin(), out.end(), 0);
			codec->decode(out.data(), h.segment_frequency, aligned, bytes);
			printf("%u:", (unsigned)h.impact);
			uint32_t sum = 0;
			for (size_t i = 0; i < h.segment_frequency; i++)
				{
				sum = d ? sum + out[i] : out[i];
				printf(i ? ",%u" : "%u", (unsigned)sum);
				}
			printf(";");
			total += h.segment_frequency;
			if (h.impact < smallest || h.impact > largest) printf("!range;");
			}
		if (total != frequency) printf("!document frequency %u;", (unsigned)frequency);
		printf("\n");
		}
	/* looking up */
	std::string wrong;
	JASS::deserialised_jass_v1::metadata found;
	std::vector<std::string> absent = {std::string(1, 1), "zzzzzzzzzzzzzzzzzzzz", "\xf4\x8f\xbf\xbf"};
	for (auto &t : terms)
		{
		JASS::query_term q(JASS::slice((void *)t.c_str(), t.size()));
		if (!index->postings_details(found, q)) wrong += "\tmissing " + t;
		else if (std::string((char *)found.term.address(), found.term.size()) != t) wrong += "\tfound another for " + t;
		absent.push_back(t + "\x01");
		absent.push_back(t + "q");
		if (t.size() > 1) absent.push_back(t.substr(0, t.size() - 1));
		absent.push_back(std::string(1, (char)(t[0] + 1)) + t.substr(1));
		}
	std::vector<std::string> sorted = terms;
	std::sort(sorted.begin(), sorted.end());
	for (auto &t : absent)
		if (!std::binary_search(sorted.begin(), sorted.end(), t))
			{
			JASS::query_term q(JASS::slice((void *)t.c_str(), t.size()));
			if (index->postings_details(found, q)) wrong += "\tfound " + t + " which is not there";
			}
	printf("lookup %s\n", wrong.empty() ? "OK" : wrong.substr(0, 2000).c_str());
	printf("end\n");
	return 0;
}
