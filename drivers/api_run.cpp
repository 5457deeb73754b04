/*
	API_RUN.CPP
	-----------
	api_run FILE: search the index in the current directory with the search API, one query at a time, each with an engine that has done no other
		version 1|2, k N, width N, ascii, R N, Rmin N, r PERCENT, rmin PERCENT, relative PERCENT, oracle FILE
		query ID TEXT
	prints for each query "query ID<tab>POSTINGS<tab>TEXT" and then its results
*/
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "JASS_anytime_api.h"

int main(int argc, char *argv[])
{
	std::ifstream in(argv[1]);
	std::string line;
	std::vector<std::pair<std::string, std::string>> options;
	std::vector<std::string> queries;
	size_t version = 1;
	while (std::getline(in, line))
		{
		auto space = line.find(' ');
		std::string word = line.substr(0, space), rest = space == std::string::npos ? "" : line.substr(space + 1);
		if (word == "query") queries.push_back(rest);
		else if (word == "version") version = atoi(rest.c_str());
		else options.push_back({word, rest});
		}
	JASS_anytime_api engine;
	bool loaded = false, bad = false;
	for (int pass = 0; pass < 2; pass++)
		{
		for (auto &o : options)
			{
			const char *v = o.second.c_str();
			JASS_ERROR e = JASS_ERROR_OK;
			if (pass == 0 && o.first == "k") e = engine.set_top_k(atoi(v));
			else if (pass == 0 && o.first == "width") e = engine.set_accumulator_width(atoi(v));
			else if (pass == 0 && o.first == "oracle") e = engine.load_oracle_scores(o.second);
			else if (pass == 1 && o.first == "ascii") e = engine.use_ascii_parser();
			else if (pass == 1 && o.first == "R") e = engine.set_postings_to_process(atoi(v));
			else if (pass == 1 && o.first == "Rmin") e = engine.set_postings_to_process_minimum(atoi(v));
			else if (pass == 1 && o.first == "r") e = engine.set_postings_to_process_proportion(atof(v));
			else if (pass == 1 && o.first == "rmin") e = engine.set_postings_to_process_proportion_minimum(atof(v));
			else if (pass == 1 && o.first == "relative") e = engine.set_postings_to_process_relative(atof(v));
			if (e != JASS_ERROR_OK) bad = true;
			}
		if (!loaded)
			{
			if (engine.load_index(version) != JASS_ERROR_OK) bad = true;
			engine.use_query_parser();
			loaded = true;
			}
		}
	if (bad) { puts("failed"); return 2; }
	for (auto &q : queries)
		{
		std::vector<JASS_anytime_query> one;
		one.push_back(JASS_anytime_query(q));
		std::vector<JASS_anytime_thread_result> output;
		engine.search(output, one, 1);
		for (auto &[id, result] : output[0])
			std::cout << "query " << result.query_id << '\t' << result.postings_processed << '\t' << result.query << '\n' << result.results_list;
		}
	return 0;
}
