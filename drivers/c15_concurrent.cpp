/*
	C15: the concurrent dictionary, tree and list lose nothing under contention
	The keys and elements are ours, so the schedule is disturbed from inside the operations themselves: in the comparison the
	search makes, in the copy of the key and in the construction of the element, that is between each load and the compare-and-swap.
*/
#include "common.h"
#include "jitter.h"
#include <thread>
#include <atomic>
#include "slice.h"
#include "allocator_pool.h"
#include "hash_table.h"
#include "binary_tree.h"
#include "dynamic_array.h"
using namespace vf;

class my_key : public JASS::slice
{
public:
	my_key() {}
	explicit my_key(const std::string &s) : slice((void *)s.data(), s.size()) {}
	my_key(JASS::allocator &pool, const my_key &from) : slice(pool, from) { vf::jitter(); }
	bool operator<(const my_key &with) const
		{
		vf::jitter();
		return slice::operator<(with);
		}
	std::string text() const { return std::string((const char *)address(), size()); }
};

struct my_element
{
	std::atomic<uint64_t> touched{0};
	explicit my_element(JASS::allocator &) { vf::jitter(); }
	my_element() {}
};
std::ostream &operator<<(std::ostream &o, const my_element &e) { return o << "."; }

/* the documented order of slices: shorter first, then byte by byte */
static bool before(const std::string &a, const std::string &b)
{
	if (a.size() != b.size()) return a.size() < b.size();
	return memcmp(a.data(), b.data(), a.size()) < 0;
}

static std::vector<std::string> make_keys(rng &r)
{
	std::set<std::string> keys;
	size_t n = r.pick(std::vector<size_t>{1, 2, 3, 8, 40, 150, 400});
	size_t family = r.below(6);
	while (keys.size() < n)
		{
		std::string s;
		switch (family)
			{
			case 0: s = std::to_string(keys.size() * 7); break;
			case 1: for (size_t i = 0, l = r.range(1, 6); i < l; i++) s += (char)('a' + r.below(3)); break;
			case 2: for (size_t i = 0, l = r.below(10); i < l; i++) s += (char)r.below(256); break;		// any bytes at all, none included
			case 3: { char b[16]; snprintf(b, sizeof(b), "%06zu", keys.size()); s = b; break; }			// ascending: the deepest tree
			case 4: s = std::string(r.below(300), 'x') + (char)('a' + r.below(26)); break;				// prefixes of each other
			default: for (size_t i = 0, l = r.range(1, 20); i < l; i++) s += (char)('a' + r.below(26)); break;
			}
		keys.insert(s);
		if (family == 1 && keys.size() >= 300) break;
		}
	std::vector<std::string> v(keys.begin(), keys.end());
	if (r.chance(0.7)) r.shuffle(v);
	return v;
}

struct looker
{
	std::vector<std::pair<size_t, my_element *>> saw;		// key number, the element operator[] gave
};

template <typename MAP> static void run_threads(rng &r, MAP &map, const std::vector<std::string> &keys, size_t threads, size_t each, std::vector<looker> &all)
{
	all.assign(threads, looker());
	std::vector<uint64_t> seeds;
	for (size_t t = 0; t < threads; t++) seeds.push_back(r.next());
	size_t pattern = r.below(3);
	std::atomic<size_t> ready{0};
	std::vector<std::thread> pool;
	for (size_t t = 0; t < threads; t++)
		pool.push_back(std::thread([&, t]()
			{
			rng mine(seeds[t]);
			my_key held;
			std::vector<std::string> copies(keys);			// each thread looks up with bytes of its own
			ready++;
			while (ready.load() < threads) sched_yield();
			for (size_t i = 0; i < each; i++)
				{
				size_t which = pattern == 0 ? i % keys.size() : pattern == 1 ? mine.below(keys.size()) : (i + t) % keys.size();
				my_element &e = map[my_key(copies[which])];
				e.touched++;
				all[t].saw.push_back({which, &e});
				}
			for (auto &c : copies) std::fill(c.begin(), c.end(), '#');	// the dictionary must have kept its own copy
			}));
	{
	jittering on(r.next());
	for (auto &t : pool) t.join();
	}
}

template <typename MAP> static void judge(rng &r, const std::string &what, MAP &map, const std::vector<std::string> &keys, std::vector<looker> &all, bool ordered, const std::string &about)
{
	std::vector<my_element *> element(keys.size(), nullptr);
	std::vector<uint64_t> lookups(keys.size(), 0);
	for (auto &l : all)
		for (auto &s : l.saw)
			{
			evaluation();
			if (element[s.first] == nullptr) element[s.first] = s.second;
			check(element[s.first] == s.second, what + ":two-elements", about + ": two look-ups of the same key were given different elements");
			lookups[s.first]++;
			}
	std::map<std::string, std::vector<my_element *>> visited;
	std::vector<std::string> order;
	for (const auto at : map)
		{
		my_element *e = const_cast<my_element *>(&at.second);
		std::string k = ((const my_key &)at.first).text();
		visited[k].push_back(e);
		order.push_back(k);
		if (order.size() > 10 * keys.size() + 10) { violation(what + ":endless", about + ": iteration visits more elements than were inserted"); break; }
		}
	size_t expected = 0;
	for (size_t k = 0; k < keys.size(); k++)
		{
		auto found = visited.find(keys[k]);
		size_t times = found == visited.end() ? 0 : found->second.size();
		size_t should = lookups[k] != 0;
		expected += should;
		check(times == should, what + (times < should ? ":lost" : ":repeated"), about + ": key '" + keys[k] + "' looked up " + std::to_string(lookups[k]) + " times is visited " + std::to_string(times) + " times");
		if (times == 1 && should) check(found->second[0] == element[k], what + ":two-elements", about + ": iteration finds a different element from the one the look-ups were given");
		if (element[k]) check(element[k]->touched == lookups[k], what + ":lost-update", about + ": an element was used " + std::to_string(lookups[k]) + " times and counted " + std::to_string(element[k]->touched.load()));
		}
	check(visited.size() == expected, what + ":invented", about + ": " + std::to_string(visited.size()) + " different keys are visited, " + std::to_string(expected) + " were inserted");
	if (ordered)
		for (size_t i = 1; i < order.size(); i++)
			check(before(order[i], order[i - 1]), what + ":order", about + ": '" + order[i - 1] + "' is visited before '" + order[i] + "'");
	/* and a look-up now gives the same element again */
	for (size_t i = 0; i < 20; i++)
		{
		size_t k = r.below(keys.size());
		if (element[k]) check(&map[my_key(keys[k])] == element[k], what + ":two-elements", about + ": a later look-up finds another element");
		}
	std::ostringstream text;
	text << map;
	nontrivial(hash(text.str()));			// the shape of the tree says in which order the threads got there
}

static void tree_case(rng &r, uint64_t number)
{
	auto keys = make_keys(r);
	size_t threads = r.pick(std::vector<size_t>{1, 2, 4, 8}), each = r.range(1, 2 * keys.size() + 20);
	JASS::allocator_pool pool(r.pick(std::vector<size_t>{256, 4096, 65536}));
	JASS::binary_tree<my_key, my_element> tree(pool);
	std::vector<looker> all;
	std::string about = std::to_string(threads) + " threads, " + std::to_string(keys.size()) + " keys in a tree";
	for (size_t round = 0, rounds = r.range(1, 2); round < rounds; round++)
		{
		std::vector<looker> now;
		run_threads(r, tree, keys, threads, each, now);
		all.insert(all.end(), now.begin(), now.end());
		judge(r, "tree", tree, keys, all, true, about);
		}
	tally("tree_lookups", threads * each);
	if (number < 8) sample(about + ", " + std::to_string(each) + " look-ups each");
}

template <size_t BITS> static void table_of(rng &r, uint64_t number, size_t threads)
{
	auto keys = make_keys(r);
	size_t each = r.range(1, 2 * keys.size() + 20);
	JASS::allocator_pool pool(BITS == 24 ? 256 * 1024 : 65536);
	JASS::hash_table<my_key, my_element, BITS> table(pool);
	std::vector<looker> all;
	std::string about = std::to_string(threads) + " threads, " + std::to_string(keys.size()) + " keys in a " + std::to_string(BITS) + "-bit table";
	run_threads(r, table, keys, threads, each, all);
	judge(r, "table", table, keys, all, false, about);
	tally("table_lookups", threads * each);
	if (number < 8) sample(about + ", " + std::to_string(each) + " look-ups each");
}
static void table_case(rng &r, uint64_t number)
{
	size_t threads = r.pick(std::vector<size_t>{1, 2, 4, 8});
	if (number % 60 == 17) table_of<24>(r, number, threads);
	else if (number % 6 == 1) table_of<16>(r, number, threads);
	else table_of<8>(r, number, threads);
}

/* ---- the list ---- */
struct item
{
	uint64_t value = 0;
	item() {}
	item(uint64_t v) : value(v) {}
	item(const item &o) : value(o.value) {}
	item &operator=(const item &o) { vf::jitter(); value = o.value; return *this; }
};

static void list_case(rng &r, uint64_t number)
{
	size_t initial = r.pick(std::vector<size_t>{1, 1, 2, 7, 64});
	double growth = r.pick(std::vector<double>{1, 1.5, 2, 3});
	size_t threads = r.pick(std::vector<size_t>{1, 2, 4, 8}), each = r.range(0, 300);
	JASS::allocator_pool pool(r.pick(std::vector<size_t>{256, 4096, 65536}));
	if (r.chance(0.7)) pool.malloc(r.range(1, 200));			// something else was allocated before
	JASS::dynamic_array<item> array(pool, initial, growth);
	std::string about = std::to_string(threads) + " threads, blocks of " + std::to_string(initial) + " growing by " + std::to_string(growth);
	check(!(array.begin() != array.end()), "list:empty", about + ": an empty list can be iterated");
	std::vector<item *> addresses;
	size_t total = 0;
	for (size_t round = 0, rounds = r.range(1, 3); round < rounds; round++)
		{
		std::atomic<size_t> ready{0};
		std::vector<std::thread> workers;
		for (size_t t = 0; t < threads; t++)
			workers.push_back(std::thread([&, t]()
				{
				ready++;
				while (ready.load() < threads) sched_yield();
				for (size_t i = 0; i < each; i++)
					array.push_back(item((round << 48) | (t << 32) | i));
				}));
		{
		jittering on(r.next());
		for (auto &t : workers) t.join();
		}
		total += threads * each;
		/* every element once, each thread's in the order it appended them, earlier rounds first, and at the address they had */
		std::vector<item *> now;
		std::vector<uint64_t> values;
		for (auto &x : array)
			{
			now.push_back(&x);
			values.push_back(x.value);
			if (now.size() > total + 10) break;
			}
		evaluation(values.size());
		check(values.size() == total, values.size() < total ? "list:lost" : "list:repeated", about + ": " + std::to_string(total) + " elements appended, " + std::to_string(values.size()) + " found");
		check(now.size() >= addresses.size() && std::equal(addresses.begin(), addresses.end(), now.begin()), "list:moved", about + ": elements changed address or order when more were appended");
		std::map<uint64_t, uint64_t> next;
		uint64_t last_round = 0;
		for (auto v : values)
			{
			uint64_t who = v >> 32, sequence = v & 0xFFFFFFFF;
			check(who >> 16 >= last_round, "list:order", about + ": an element of an earlier round comes after one of a later round");
			last_round = who >> 16;
			if (!check(sequence == next[who], "list:order", about + ": a thread's elements are " + (sequence < next[who] ? "repeated" : "missing or out of order"))) break;
			next[who]++;
			}
		addresses = now;
		if (total)
			{
			check(&array.back() == now.back(), "list:back", about + ": back() is not the last element");
			for (size_t i = 0; i < 10; i++)
				{
				size_t which = i == 0 ? total - 1 : r.below(total);
				check(which < now.size() && &array[which] == now[which], "list:index", about + ": operator[](" + std::to_string(which) + ") is not the element iteration finds there");
				}
			}
		for (size_t space : {(size_t)0, total / 2, total, total + 3, (size_t)r.below(total + 1)})
			{
			std::vector<item> into(space, item(~(uint64_t)0));
			size_t would = array.serialise(space ? into.data() : new item[0], space);
			check(would == total, "list:serialise-size", about + ": serialise() says it needs " + std::to_string(would) + " elements, there are " + std::to_string(total));
			for (size_t i = 0; i < std::min(space, total); i++)
				if (!check(i < values.size() && into[i].value == values[i], "list:serialise", about + ": serialise() into " + std::to_string(space) + " of " + std::to_string(total) + " elements gives another element at " + std::to_string(i))) break;
			for (size_t i = total; i < space; i++)
				check(into[i].value == ~(uint64_t)0, "list:serialise", about + ": serialise() wrote past the last element");
			}
		check(array.serialise(nullptr, 0) == total, "list:serialise-size", about + ": serialise(nullptr) does not give the number of elements");
		nontrivial(hash(values));
		}
	tally("list_appends", total);
	if (number < 8) sample(about + ": " + std::to_string(total) + " appended");
}

int main(int argc, char *argv[])
{
	return drive(argc, argv, {{"tree", 320, 12000, tree_case}, {"table", 320, 12000, table_case}, {"list", 320, 12000, list_case}});
}
