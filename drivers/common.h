/*
	COMMON.H
	--------
	What every driver shares: deterministic case seeds, shards, the record of the case in progress (so a crash can be
	attributed to it), violations, and the counts that end up in the evidence file.
*/
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <signal.h>

#include <set>
#include <map>
#include <mutex>
#include <string>
#include <vector>
#include <sstream>
#include <algorithm>
#include <functional>
#include <unordered_set>

namespace vf
{
	/* splitmix64: tiny, and the same everywhere */
	struct rng
	{
		uint64_t state;
		explicit rng(uint64_t seed = 1) : state(seed) {}
		uint64_t next()
		{
			uint64_t z = (state += 0x9e3779b97f4a7c15ULL);
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
			z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
			return z ^ (z >> 31);
		}
		uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
		uint64_t range(uint64_t low, uint64_t high) { return low + below(high - low + 1); }	// inclusive
		bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
		double real() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
		template <typename T> const T &pick(const std::vector<T> &from) { return from[below(from.size())]; }
		template <typename T> void shuffle(std::vector<T> &what) { for (size_t i = what.size(); i > 1; i--) std::swap(what[i - 1], what[below(i)]); }
		typedef uint64_t result_type;
		static constexpr uint64_t min() { return 0; }
		static constexpr uint64_t max() { return ~(uint64_t)0; }
		uint64_t operator()() { return next(); }
	};

	inline uint64_t mix(uint64_t a, uint64_t b)
	{
		rng r(a ^ (b * 0xff51afd7ed558ccdULL) ^ 0x5bf03635);
		r.next();
		return r.next() ^ b;
	}

	inline uint64_t hash(const void *data, size_t length, uint64_t h = 1469598103934665603ULL)
	{
		const uint8_t *p = (const uint8_t *)data;
		for (size_t i = 0; i < length; i++)
			h = (h ^ p[i]) * 1099511628211ULL;
		return h;
	}
	inline uint64_t hash(const std::string &s, uint64_t h = 1469598103934665603ULL) { return hash(s.data(), s.size(), h); }
	template <typename T> uint64_t hash(const std::vector<T> &v, uint64_t h = 1469598103934665603ULL) { return hash(v.data(), v.size() * sizeof(T), h); }

	struct section
	{
		std::string name;
		uint64_t quick;
		uint64_t thorough;
		std::function<void(rng &, uint64_t)> run;
	};

	struct globals
	{
		uint64_t seed = 1;
		bool thorough = false;
		std::string scratch = ".";
		std::string section;
		uint64_t index = 0;
		char *current = nullptr;
		std::mutex lock;
		uint64_t evaluations = 0;
		uint64_t violations = 0;
		std::map<std::string, uint64_t> tallies;
		std::unordered_set<uint64_t> nontrivial;
		std::vector<std::string> samples;
		std::set<std::string> keys;
		bool verbose = false;
	};
	inline globals &g() { static globals *it = new globals; return *it; }

	inline void evaluation(uint64_t n = 1) { std::lock_guard<std::mutex> l(g().lock); g().evaluations += n; }
	inline void tally(const std::string &name, uint64_t n = 1) { std::lock_guard<std::mutex> l(g().lock); g().tallies[name] += n; }
	inline void nontrivial(uint64_t h) { std::lock_guard<std::mutex> l(g().lock); if (g().nontrivial.size() < 200000) g().nontrivial.insert(h); }
	inline void sample(const std::string &s) { std::lock_guard<std::mutex> l(g().lock); if (g().samples.size() < 2) g().samples.push_back(g().section + "/" + std::to_string(g().index) + ": " + s); }

	inline std::string clean(const std::string &s)
	{
		std::string out;
		for (unsigned char c : s)
			if (c == '\n') out += " | ";
			else if (c < ' ' || c >= 127) { char b[8]; snprintf(b, sizeof(b), "\\x%02x", c); out += b; }
			else out += c;
		return out;
	}

	inline void violation(const std::string &key, const std::string &detail)
	{
		std::lock_guard<std::mutex> l(g().lock);
		g().violations++;
		if (g().keys.insert(key).second && g().keys.size() <= 200)
			{
			printf("VIOL\t%s\t%s\t%llu\t%s\n", clean(key).c_str(), g().section.c_str(), (unsigned long long)g().index, clean(detail).substr(0, 2500).c_str());
			fflush(stdout);
			}
	}
	inline bool check(bool ok, const std::string &key, const std::string &detail)
	{
		if (!ok) violation(key, detail);
		return ok;
	}
	[[noreturn]] inline void harness_error(const std::string &what)
	{
		printf("HARNESS\t%s\n", clean(what).c_str());
		printf("DONE\n");
		fflush(stdout);
		_exit(0);
	}

	template <typename T> std::string show(const std::vector<T> &v, size_t limit = 40)
	{
		std::ostringstream s;
		s << "[" << v.size() << "]";
		for (size_t i = 0; i < v.size() && i < limit; i++) s << " " << +v[i];
		if (v.size() > limit) s << " ...";
		return s.str();
	}
	inline std::string show(const std::vector<std::string> &v, size_t limit = 40)
	{
		std::ostringstream s;
		s << "[" << v.size() << "]";
		for (size_t i = 0; i < v.size() && i < limit; i++) s << " '" << v[i] << "'";
		return s.str();
	}

	/* run one case: called by the loop below */
	inline void one(section &s, uint64_t index)
	{
		g().section = s.name;
		g().index = index;
		if (g().current)
			snprintf(g().current, 256, "%s %llu\n", s.name.c_str(), (unsigned long long)index);
		rng r(mix(mix(g().seed, hash(s.name)), index));
		try
			{
			s.run(r, index);
			}
		catch (std::exception &e)
			{
			violation("exception:" + s.name, std::string("uncaught exception: ") + e.what());
			}
		catch (...)
			{
			violation("exception:" + s.name, "uncaught exception");
			}
	}

	inline int drive(int argc, char *argv[], std::vector<section> sections)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		uint64_t shard = 0, shards = 1;
		std::string only_section;
		int64_t only_case = -1;
		double scale = 1;
		std::set<std::string> skip;
		for (int i = 1; i < argc; i++)
			{
			std::string a = argv[i];
			std::string v = i + 1 < argc ? argv[i + 1] : "";
			if (a == "--seed") g().seed = strtoull(v.c_str(), 0, 10), i++;
			else if (a == "--tier") g().thorough = v == "thorough", i++;
			else if (a == "--shard") shard = strtoull(v.c_str(), 0, 10), i++;
			else if (a == "--shards") shards = strtoull(v.c_str(), 0, 10), i++;
			else if (a == "--scratch") g().scratch = v, i++;
			else if (a == "--section") only_section = v, i++;
			else if (a == "--case") only_case = strtoll(v.c_str(), 0, 10), i++;
			else if (a == "--scale") scale = atof(v.c_str()), i++;
			else if (a == "--skip") skip.insert(v), i++;
			else if (a == "--verbose") g().verbose = true;
			else if (a == "--current")
				{
				int fd = open(v.c_str(), O_RDWR | O_CREAT, 0644);
				if (fd >= 0 && ftruncate(fd, 4096) == 0)
					g().current = (char *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
				i++;
				}
			}
		uint64_t number = 0;
		for (auto &s : sections)
			{
			if (only_section != "" && s.name != only_section)
				continue;
			uint64_t cases = (uint64_t)((g().thorough ? s.thorough : s.quick) * scale);
			if (cases == 0) cases = 1;
			if (only_case >= 0)
				{
				one(s, only_case);
				continue;
				}
			for (uint64_t c = 0; c < cases; c++, number++)
				{
				if (number % shards != shard)
					continue;
				if (!skip.empty() && skip.count(s.name + ":" + std::to_string(c)))
					continue;
				one(s, c);
				if (g().violations > 20000)
					break;
				}
			}
		printf("STAT\tevaluations\t%llu\n", (unsigned long long)g().evaluations);
		for (auto &t : g().tallies)
			printf("STAT\t%s\t%llu\n", t.first.c_str(), (unsigned long long)t.second);
		size_t on_line = 0;
		for (auto h : g().nontrivial)
			printf("%s%llx%s", on_line == 0 ? "NONTRIVIAL\t" : "\t", (unsigned long long)h, on_line == 199 ? "\n" : ""), on_line = (on_line + 1) % 200;
		if (on_line)
			printf("\n");
		for (auto &s : g().samples)
			printf("SAMPLE\t%s\n", clean(s).c_str());
		printf("DONE\n");
		fflush(stdout);
		_exit(g().violations ? 10 : 0);
	}

	/*
		A copy of some bytes in an allocation of exactly that size, so a sanitizer sees the first byte read beyond it
	*/
	struct exact
	{
		uint8_t *data;
		size_t length;
		exact(const void *from, size_t length) : data((uint8_t *)malloc(length ? length : 1)), length(length) { if (length) memcpy(data, from, length); }
		explicit exact(const std::string &s) : exact(s.data(), s.size()) {}
		~exact() { free(data); }
		exact(const exact &) = delete;
	};

	inline void write_file(const std::string &name, const std::string &content)
	{
		FILE *f = fopen(name.c_str(), "wb");
		if (!f) harness_error("cannot write " + name);
		if (content.size() && fwrite(content.data(), 1, content.size(), f) != content.size()) harness_error("cannot write " + name);
		fclose(f);
	}
	inline std::string read_file(const std::string &name)
	{
		std::string out;
		FILE *f = fopen(name.c_str(), "rb");
		if (!f) return "";
		char buffer[65536];
		size_t got;
		while ((got = fread(buffer, 1, sizeof(buffer), f)) > 0) out.append(buffer, got);
		fclose(f);
		return out;
	}
}
