/*
	C16: allocators hand out disjoint, aligned memory
	Linked with --wrap=malloc so that the moments at which a pool asks for another chunk are delayed at random.
*/
#include "common.h"
#include "jitter.h"
#include <thread>
#include <list>
#include <atomic>
#include "allocator_pool.h"
#include "allocator_memory.h"
#include "allocator_cpp.h"
using namespace vf;

extern "C" void *__real_malloc(size_t);
static std::atomic<uint64_t> calls{0};
static std::atomic<bool> watched{false};
static void watch(void) { calls = 0; watched = true; }

extern "C" void *__wrap_malloc(size_t size)
{
	/* an allocator that asks for memory without end never gives an answer, and would take the machine with it */
	if (watched && ++calls == 3000000)
		{
		violation("runaway", "3000000 requests to the system's allocator within one case");
		abort();
		}
	vf::jitter();
	void *got = __real_malloc(size);
	vf::jitter();
	return got;
}

struct block
{
	uint8_t *at;
	size_t size;
	size_t alignment;
	uint64_t tag;
};

static uint8_t pattern(uint64_t tag, size_t i) { return (uint8_t)((tag * 31 + i * 7) ^ (tag >> 3) ^ (i >> 8)); }
static void fill(const block &b) { for (size_t i = 0; i < b.size; i++) b.at[i] = pattern(b.tag, i); }
static bool intact(const block &b) { for (size_t i = 0; i < b.size; i++) if (b.at[i] != pattern(b.tag, i)) return false; return true; }

static void judge(std::vector<block> blocks, const std::string &who, const std::string &about, size_t reported, const uint8_t *low = nullptr, const uint8_t *high = nullptr)
{
	size_t total = 0;
	for (auto &b : blocks)
		{
		total += b.size;
		check((uintptr_t)b.at % b.alignment == 0, who + ":misaligned", about + ": " + std::to_string(b.size) + " bytes asked for on a boundary of " + std::to_string(b.alignment) + " are " + std::to_string((uintptr_t)b.at % b.alignment) + " off it");
		if (low) check(b.at >= low && b.at + b.size <= high, who + ":outside", about + ": a block of " + std::to_string(b.size) + " bytes is not inside the memory given");
		check(intact(b), who + ":disturbed", about + ": the contents of a block of " + std::to_string(b.size) + " bytes changed");
		}
	std::sort(blocks.begin(), blocks.end(), [](const block &a, const block &b) { return a.at < b.at || (a.at == b.at && a.size < b.size); });
	for (size_t i = 1; i < blocks.size(); i++)
		if (blocks[i - 1].size != 0 && blocks[i].size != 0)
			check(blocks[i - 1].at + blocks[i - 1].size <= blocks[i].at, who + ":overlap", about + ": blocks of " + std::to_string(blocks[i - 1].size) + " and " + std::to_string(blocks[i].size) + " bytes overlap");
	check(reported >= total, who + ":undercount", about + ": size() is " + std::to_string(reported) + " after handing out " + std::to_string(total));
	evaluation(blocks.size());
}

static size_t a_size(rng &r, size_t unit)
{
	switch (r.below(10))
		{
		case 0: return 0;
		case 1: return 1;
		case 2: return unit;
		case 3: return unit + r.range(1, 40);
		case 4: return unit > 1 ? unit - 1 : 1;
		case 5: return unit * r.range(1, 4) + r.below(9);
		default: return r.range(1, std::max<size_t>(2, unit / 4));
		}
}
static size_t an_alignment(rng &r)
{
	return r.pick(std::vector<size_t>{1, 1, 1, 2, 4, 8, 8, 16, 32, 64, 128, 256, 10, 3, 7});
}

static void pool_case(rng &r, uint64_t)
{
	watch();
	size_t unit = r.pick(std::vector<size_t>{1, 8, 16, 33, 64, 100, 256, 1000, 4096, 65536});
	JASS::allocator_pool pool(unit);
	std::string about = "pool with chunks of " + std::to_string(unit);
	for (size_t life = 0, lives = r.range(1, 3); life < lives; life++)
		{
		std::vector<block> blocks;
		size_t n = r.range(1, 120), last_used = 0;
		uint64_t shape = unit;
		for (size_t i = 0; i < n; i++)
			{
			block b;
			b.size = a_size(r, unit);
			b.alignment = an_alignment(r);
			b.tag = r.next();
			b.at = (uint8_t *)(b.alignment == 1 && r.chance(0.5) ? pool.malloc(b.size) : pool.malloc(b.size, b.alignment));
			if (!check(b.at != nullptr, "pool:null", about + ": no memory for " + std::to_string(b.size) + " bytes")) return;
			fill(b);
			blocks.push_back(b);
			shape = mix(shape, b.size * 1000 + b.alignment);
			check(pool.size() >= last_used + b.size, "pool:undercount", about + ": size() does not include the last " + std::to_string(b.size) + " bytes");
			check(pool.capacity() >= pool.size(), "pool:capacity", about + ": capacity() " + std::to_string(pool.capacity()) + " is below size() " + std::to_string(pool.size()));
			last_used = pool.size();
			if (r.chance(0.05)) judge(blocks, "pool", about, pool.size());
			}
		judge(blocks, "pool", about, pool.size());
		nontrivial(shape);
		tally("pool_blocks", n);
		pool.rewind();
		check(pool.size() == 0, "pool:rewind", about + ": size() is " + std::to_string(pool.size()) + " after rewind()");
		tally("rewinds");
		}
	JASS::allocator_pool unused(unit);
	check(pool == pool && !(pool != pool) && pool == unused && !(pool != unused), "pool:comparison", about + ": an unused (or rewound) pool must equal itself and another unused pool");
	pool.malloc(5);
	check(pool == pool && pool != unused && !(pool == unused), "pool:comparison", about + ": a used pool equals an unused one");
	uint8_t space[16];
	JASS::allocator_memory other(space, sizeof(space));
	JASS::allocator &a = pool, &b = other;
	check(a != b && b != a && !(a == b) && !(b == a), "comparison:kinds", "a pool and a fixed buffer compare as equal");
}

static void memory_case(rng &r, uint64_t)
{
	size_t length = r.pick(std::vector<size_t>{1, 7, 8, 64, 100, 1000, 4096});
	size_t offset = r.below(16);
	std::vector<uint8_t> owner(offset + length);
	uint8_t *buffer = owner.data() + offset;
	JASS::allocator_memory memory(buffer, length);
	std::string about = "fixed memory of " + std::to_string(length);
	for (size_t life = 0; life < 2; life++)
		{
		std::vector<block> blocks;
		size_t n = r.range(1, 80);
		uint64_t shape = length * 16 + offset;
		const uint8_t *top = buffer;
		for (size_t i = 0; i < n; i++)
			{
			block b;
			b.size = r.chance(0.02) ? (size_t)-1 - r.below(300) : r.chance(0.15) ? (size_t)(buffer + length - top) + r.below(2) : a_size(r, std::max<size_t>(1, length / 8));
			b.alignment = an_alignment(r);
			b.tag = r.next();
			shape = mix(shape, b.size * 1000 + b.alignment);
			size_t before = memory.size();
			b.at = (uint8_t *)memory.malloc(b.size, b.alignment);
			if (b.at == nullptr)
				{
				size_t pad = (b.alignment - (uintptr_t)top % b.alignment) % b.alignment, left = buffer + length - top;
				check(b.size > left || b.size + pad > left, "memory:refused", about + ": " + std::to_string(b.size) + " bytes on " + std::to_string(b.alignment) + " refused with " + std::to_string(left) + " bytes left");
				check(memory.size() == before, "memory:refused-counted", about + ": size() changed although the request was refused");
				tally("refusals");
				continue;
				}
			if (!check(b.size <= length && b.at >= buffer && b.at + b.size <= buffer + length, "memory:outside", about + ": a block of " + std::to_string(b.size) + " bytes is not inside the memory given")) return;
			fill(b);
			blocks.push_back(b);
			top = std::max<const uint8_t *>(top, b.at + b.size);
			}
		judge(blocks, "memory", about, memory.size(), buffer, buffer + length);
		check(memory.capacity() == length, "memory:capacity", about + ": capacity() is " + std::to_string(memory.capacity()));
		nontrivial(shape);
		tally("memory_blocks", blocks.size());
		memory.rewind();
		check(memory.size() == 0, "memory:rewind", about + ": size() is not 0 after rewind()");
		void *all = memory.malloc(length);
		check(all == buffer, "memory:rewind", about + ": after rewind() the whole of the memory is not available again");
		memory.rewind();
		}
}

/* threads share one allocator */
static void threads_case(rng &r, uint64_t number)
{
	watch();
	bool fixed = r.chance(0.25);
	size_t unit = r.pick(std::vector<size_t>{16, 64, 256, 1024, 16384});
	size_t threads = r.pick(std::vector<size_t>{2, 3, 4, 8}), each = r.range(20, 200);
	std::vector<uint8_t> space(fixed ? 60000 : 1);
	std::unique_ptr<JASS::allocator> memory;
	if (fixed) memory.reset(new JASS::allocator_memory(space.data(), space.size()));
	else memory.reset(new JASS::allocator_pool(unit));
	std::vector<std::vector<block>> got(threads);
	std::vector<uint64_t> seeds;
	for (size_t t = 0; t < threads; t++) seeds.push_back(r.next());
	std::atomic<size_t> ready{0}, refused{0};
	std::vector<std::thread> pool;
	for (size_t t = 0; t < threads; t++)
		pool.push_back(std::thread([&, t]()
			{
			rng mine(seeds[t]);
			ready++;
			while (ready.load() < threads) sched_yield();
			for (size_t i = 0; i < each; i++)
				{
				block b;
				b.size = fixed ? mine.range(1, 100) : mine.chance(0.2) ? a_size(mine, unit) : mine.range(1, std::max<size_t>(2, unit / 3));
				b.alignment = mine.chance(0.5) ? 1 : an_alignment(mine);
				b.tag = mine.next();
				b.at = (uint8_t *)memory->malloc(b.size, b.alignment);
				if (b.at == nullptr) { refused++; continue; }
				fill(b);
				got[t].push_back(b);
				if (mine.chance(0.05)) sched_yield();
				}
			}));
	{
	jittering on(r.next());
	for (auto &t : pool) t.join();
	}
	std::vector<block> all;
	std::vector<std::pair<uint8_t *, size_t>> order;
	for (size_t t = 0; t < threads; t++)
		for (auto &b : got[t]) { all.push_back(b); order.push_back({b.at, t}); }
	std::string about = std::to_string(threads) + " threads, " + (fixed ? "fixed memory" : "pool with chunks of " + std::to_string(unit));
	check(fixed || refused == 0, "threads:null", about + ": the pool returned nullptr");
	judge(all, fixed ? "threads-memory" : "threads-pool", about, memory->size(), fixed ? space.data() : nullptr, fixed ? space.data() + space.size() : nullptr);
	check(memory->capacity() >= memory->size(), "threads:capacity", about + ": capacity() is less than size()");
	/* which thread owns which successive block is the interleaving that happened */
	std::sort(order.begin(), order.end());
	uint64_t h = number, switches = 0;
	for (size_t i = 0; i < order.size(); i++)
		{
		h = mix(h, order[i].second);
		if (i && order[i].second != order[i - 1].second) switches++;
		}
	nontrivial(h);
	tally("thread_blocks", all.size());
	tally("blocks_next_to_another_threads", switches);
	if (number < 8) sample(about + ": " + std::to_string(all.size()) + " blocks, " + std::to_string(switches) + " next to another thread's");
}

/* the standard containers on top of a pool */
static void containers_case(rng &r, uint64_t)
{
	JASS::allocator_pool pool(r.pick(std::vector<size_t>{16, 128, 4096}));
	std::vector<uint64_t, JASS::allocator_cpp<uint64_t>> v{JASS::allocator_cpp<uint64_t>(pool)};
	std::vector<uint64_t> model;
	std::list<uint32_t, JASS::allocator_cpp<uint32_t>> l{JASS::allocator_cpp<uint32_t>(pool)};
	std::list<uint32_t> model_list;
	typedef JASS::allocator_cpp<std::pair<const uint32_t, uint64_t>> pair_allocator;
	std::map<uint32_t, uint64_t, std::less<uint32_t>, pair_allocator> m{pair_allocator(pool)};
	std::map<uint32_t, uint64_t> model_map;
	uint64_t h = 0;
	for (size_t i = 0, n = r.range(1, 400); i < n; i++)
		{
		uint64_t x = r.next();
		h = mix(h, x);
		switch (r.below(4))
			{
			case 0: v.push_back(x); model.push_back(x); break;
			case 1: l.push_back((uint32_t)x); model_list.push_back((uint32_t)x); break;
			case 2: m[x % 100] = x; model_map[x % 100] = x; break;
			default:
				if (!model_list.empty()) { l.pop_front(); model_list.pop_front(); }
				m.erase(x % 100);
				model_map.erase(x % 100);
			}
		}
	check(std::equal(v.begin(), v.end(), model.begin(), model.end()), "containers:vector", "a vector on a pool allocator lost its contents");
	check(std::equal(l.begin(), l.end(), model_list.begin(), model_list.end()), "containers:list", "a list on a pool allocator lost its contents");
	check(std::equal(m.begin(), m.end(), model_map.begin(), model_map.end(), [](auto &a, auto &b) { return a.first == b.first && a.second == b.second; }), "containers:map", "a map on a pool allocator lost its contents");
	evaluation(3);
	nontrivial(h);
}

int main(int argc, char *argv[])
{
	return drive(argc, argv, {{"pool", 1200, 40000, pool_case}, {"memory", 1200, 40000, memory_case}, {"threads", 480, 12000, threads_case}, {"containers", 200, 5000, containers_case}});
}
