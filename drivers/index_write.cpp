/*
	INDEX_WRITE.CPP
	---------------
	index_write 1|2 CODEC FILE: write an index, with the library's serialisers, of what FILE lists
		key KEY								the documents, in order
		term TERM document:impact...	documents are from 1
	CODEC is g (Elias gamma SIMD), G (with variable byte), D (Elias delta SIMD), q (QMX), s (none)
*/
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <fstream>
#include <list>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "slice.h"
#include "allocator_pool.h"
#include "index_postings.h"
#include "serialise_jass_v1.h"
#include "serialise_jass_v2.h"

int main(int argc, char *argv[])
{
	typedef JASS::serialise_jass_v1 format;
	std::vector<std::pair<char, format::jass_v1_codex>> codecs = {{'g', format::elias_gamma_simd}, {'G', format::elias_gamma_simd_vb}, {'D', format::elias_delta_simd}, {'q', format::qmx}, {'s', format::uncompressed}};
	auto codec = codecs[0];
	for (auto &c : codecs) if (c.first == argv[2][0]) codec = c;
	std::list<std::string> held;
	std::vector<std::string *> keys;
	struct list { std::string *name; std::vector<JASS::compress_integer::integer> ids; std::vector<JASS::index_postings_impact::impact_type> impacts; };
	std::vector<list> lists;
	std::ifstream in(argv[3]);
	std::string line;
	while (std::getline(in, line))
		if (line.compare(0, 4, "key ") == 0)
			{
			held.push_back(line.substr(4));
			keys.push_back(&held.back());
			}
		else
			{
			std::istringstream words(line.substr(5));
			lists.emplace_back();
			held.emplace_back();
			words >> held.back();
			lists.back().name = &held.back();
			for (std::string posting; words >> posting;)
				{
				lists.back().ids.push_back(strtoul(posting.c_str(), nullptr, 10));
				lists.back().impacts.push_back(strtoul(posting.c_str() + posting.find(':') + 1, nullptr, 10));
				}
			}
	JASS::allocator_pool memory(65536);
	std::unique_ptr<format> out;
	int alignment = codec.first == 'q' ? 16 : 1;
	if (argv[1][0] == '1') out.reset(new format(keys.size(), codec.second, alignment));
	else out.reset(new JASS::serialise_jass_v2(keys.size(), codec.second, alignment));
	for (auto &l : lists)
		{
		JASS::index_postings postings(memory);
		(*out)(JASS::slice((void *)l.name->data(), l.name->size()), postings, l.ids.size(), l.ids.data(), l.impacts.data());
		}
	(*out)(0, JASS::slice("-"));
	for (size_t d = 0; d < keys.size(); d++)
		(*out)(d + 1, JASS::slice((void *)keys[d]->data(), keys[d]->size()));
	out->finish();
	return 0;
}
