/*
	C17: heaps and partial sorts order like a full sort
	Everything lives in heap allocations of exactly the right size, so AddressSanitizer sees any access outside them.
*/
#include "common.h"
#include <immintrin.h>
#include "heap.h"
#include "beap.h"
#include "top_k_heap.h"
#include "top_k_qsort.h"
#include "pointer_box.h"
#ifdef __AVX512F__
#include "sort512_uint64_t.h"
#endif
using namespace vf;

/* values: few or many distinct, in patterns known to upset sorts */
static std::vector<uint64_t> values(rng &r, size_t n)
{
	std::vector<uint64_t> v(n);
	uint64_t top = r.pick(std::vector<uint64_t>{1, 2, 5, 100, 100000, ~(uint64_t)0});
	size_t pattern = r.below(9);
	for (size_t i = 0; i < n; i++)
		switch (pattern)
			{
			case 0: v[i] = i; break;
			case 1: v[i] = n - i; break;
			case 2: v[i] = std::min(i, n - i); break;				// organ pipe
			case 3: v[i] = i % (1 + top % 7); break;					// saw tooth
			case 4: v[i] = top; break;
			case 5: v[i] = i ^ 1; break;
			default: v[i] = top == ~(uint64_t)0 ? r.next() : r.below(top + 1);
			}
	if (pattern < 3 && r.chance(0.3) && n > 2)
		for (size_t i = 0; i < 3; i++) std::swap(v[r.below(n)], v[r.below(n)]);
	return v;
}
static size_t a_length(rng &r)
{
	switch (r.below(4))
		{
		case 0: return r.below(12);
		case 1: return r.below(80);
		case 2: return r.below(400);
		default: return r.below(r.chance(0.1) ? 5000 : 1000);
		}
}

/* ---- heap<> fed as its callers feed it: fill, make_heap(), then push_back() if better than the root, promote() if it is already there ---- */
template <typename T> static bool is_min_heap(const std::vector<T> &a, size_t size)
{
	for (size_t i = 1; i < size; i++)
		if (a[i] < a[(i - 1) / 2]) return false;
	return true;
}

static void heap_case(rng &r, uint64_t)
{
	size_t k = r.range(1, r.chance(0.2) ? 300 : 20), n = k + a_length(r);
	auto v = values(r, n);
	std::vector<uint64_t> array(v.begin(), v.begin() + k), seen(array);
	JASS::heap<uint64_t> heap(array.data(), r.chance(0.5) ? k : 0);
	heap.set_top_k(k);
	heap.make_heap();
	std::string about = "heap of " + std::to_string(k);
	for (size_t i = k; i <= n; i++)
		{
		std::vector<uint64_t> best(seen), held(array);
		std::sort(best.rbegin(), best.rend());
		best.resize(k);
		std::sort(held.rbegin(), held.rend());
		evaluation();
		if (!check(held == best, "heap:content", about + ": after " + std::to_string(i) + " of " + show(v, 60) + " it holds " + show(held) + " not " + show(best))) return;
		if (!check(is_min_heap(array, k), "heap:order", about + ": not a heap after " + std::to_string(i) + " of " + show(v, 60))) return;
		uint64_t probe = r.chance(0.5) ? r.pick(seen) : r.below(200);
		int64_t at = heap.find(probe);
		bool there = std::find(array.begin(), array.end(), probe) != array.end();
		check(there ? at >= 0 && at < (int64_t)k && array[at] == probe : at == -1, "heap:find", about + ": find() of a " + (there ? "member" : "stranger") + " gives " + std::to_string(at));
		if (i == n) break;
		if (r.chance(0.3))
			{
			/* improve a member in place */
			size_t position = r.below(k);
			uint64_t was = array[position], now = was + std::min<uint64_t>(~(uint64_t)0 - was, r.below(r.chance(0.5) ? 3 : 1000));
			heap.promote(now, position);
			*std::find(seen.begin(), seen.end(), was) = now;
			tally("promotions");
			std::vector<uint64_t> again(array);
			std::sort(again.rbegin(), again.rend());
			std::vector<uint64_t> expect(seen);
			std::sort(expect.rbegin(), expect.rend());
			expect.resize(k);
			if (!check(again == expect && is_min_heap(array, k), "heap:promote", about + ": wrong after improving " + std::to_string(was) + " to " + std::to_string(now))) return;
			}
		seen.push_back(v[i]);
		if (v[i] > array[0])
			heap.push_back(v[i]);
		}
	nontrivial(mix(hash(v), k));
	tally("heap_steps", n - k);
}

/* ---- top_k_heap<> over values ---- */
static void keeper_case(rng &r, uint64_t number)
{
	JASS::allocator_pool memory(65536);
	size_t k = r.range(1, r.chance(0.2) ? 300 : 20), n = a_length(r);
	auto v = values(r, n);
	JASS::top_k_heap<uint64_t> heap(k, memory);
	std::vector<uint64_t> seen;
	std::string about = "top_k_heap of " + std::to_string(k), did;
	for (size_t i = 0; i < n; i++)
		{
		heap.push_back(v[i]);
		seen.push_back(v[i]);
		did += " +" + std::to_string(v[i]);
		std::vector<uint64_t> best(seen), held(heap.begin(), heap.end());
		std::sort(best.rbegin(), best.rend());
		if (best.size() > k) best.resize(k);
		std::sort(held.rbegin(), held.rend());
		evaluation();
		if (!check(held == best, "keeper:content", about + ": after" + did.substr(0, 600) + " it holds " + show(held) + " not " + show(best))) return;
		check(heap.size() == best.size() && heap.capacity() == k, "keeper:size", about + ": size() is wrong");
		if (r.chance(0.25))
			{
			uint64_t front = heap.front();
			did += " front";
			if (!check(front == best.back(), "keeper:front", about + ": after" + did.substr(0, 600) + " front() is " + std::to_string(front) + ", the smallest is " + std::to_string(best.back()))) return;
			}
		if (r.chance(0.1))
			{
			heap.sort();
			did += " sort";
			if (!check(std::vector<uint64_t>(heap.begin(), heap.end()) == best, "keeper:sort", about + ": after" + did.substr(0, 600) + " sort() gives " + show(std::vector<uint64_t>(heap.begin(), heap.end())) + " not " + show(best))) return;
			}
		}
	nontrivial(mix(hash(v), k + 1000));
	tally("keeper_steps", n);
	if (number < 8) sample(about + ":" + did.substr(0, 200));
}

/* ---- top_k_heap<> over pointers to scores that grow, as a search uses it ---- */
static void pointers_case(rng &r, uint64_t)
{
	JASS::allocator_pool memory(65536);
	size_t k = r.range(1, 20), documents = r.range(1, 60);
	typedef JASS::pointer_box<uint32_t> box;
	std::vector<uint32_t> score(documents, 0);
	JASS::top_k_heap<box> heap(k, memory);
	std::string about = "top_k_heap of " + std::to_string(k) + " pointers", did;
	auto better = [&](size_t a, size_t b) { return score[a] != score[b] ? score[a] > score[b] : a > b; };
	size_t steps = r.range(1, 300);
	std::set<size_t> in;
	for (size_t s = 0; s < steps; s++)
		{
		size_t d = r.below(documents);
		uint32_t add = r.range(1, 5);
		did += " " + std::to_string(d) + "+" + std::to_string(add);
		bool was_in = in.count(d);
		score[d] += add;
		if (was_in)
			heap.promote(box(&score[d]));
		else
			heap.push_back(box(&score[d]));
		std::vector<size_t> all;
		for (size_t i = 0; i < documents; i++) if (score[i]) all.push_back(i);
		std::sort(all.begin(), all.end(), better);
		if (all.size() > k) all.resize(k);
		std::vector<size_t> held;
		for (auto &b : heap) held.push_back(((box)b).pointer() - score.data());
		in = std::set<size_t>(held.begin(), held.end());
		evaluation();
		if (!check(in == std::set<size_t>(all.begin(), all.end()) && held.size() == all.size(), "pointers:content", about + ": after" + did.substr(0, 800) + " it does not hold the best")) return;
		if (r.chance(0.2))
			{
			box front = heap.front();
			if (!check((size_t)(front.pointer() - score.data()) == all.back(), "pointers:front", about + ": after" + did.substr(0, 800) + " front() is not the smallest")) return;
			did += " front";
			}
		if (r.chance(0.1))
			{
			heap.sort();
			did += " sort";
			held.clear();
			for (auto &b : heap) held.push_back(((box)b).pointer() - score.data());
			if (!check(held == all, "pointers:sort", about + ": after" + did.substr(0, 800) + " sort() gives the wrong order")) return;
			}
		}
	nontrivial(hash(did));
	tally("pointer_steps", steps);
}

/* ---- the bi-parental heap ---- */
template <typename T> static bool is_beap(const std::vector<T> &a, size_t elements)
{
	for (size_t row = 0, first = 0; first < elements; first += row + 1, row++)
		for (size_t i = 0; i <= row && first + i < elements; i++)
			for (size_t child = 0; child < 2; child++)
				{
				size_t at = first + row + 1 + i + child;
				if (at < elements && a[at] < a[first + i]) return false;
				}
	return true;
}

static void beap_case(rng &r, uint64_t number)
{
	size_t n = r.chance(0.5) ? r.range(1, 30) : r.range(1, 400);
	auto array = values(r, n);
	bool signed_like = r.chance(0.2);
	for (auto &x : array) x = x % 1000000 + (signed_like ? 0 : 10);
	std::multiset<uint64_t> model(array.begin(), array.end());
	JASS::beap<uint64_t> beap(array.data(), r.chance(0.5) ? n : 1);
	beap.set_top_k(n);
	beap.make_beap();
	std::string about = "beap of " + std::to_string(n), did;
	uint64_t h = hash(array);
	auto sound = [&](const char *op)
		{
		bool ok = check(std::multiset<uint64_t>(array.begin(), array.end()) == model, std::string("beap:content:") + op, about + ": wrong content after" + did.substr(did.size() > 600 ? did.size() - 600 : 0));
		ok = check(is_beap(array, n) && beap.isbeap(), std::string("beap:order:") + op, about + ": out of order after" + did.substr(did.size() > 600 ? did.size() - 600 : 0)) && ok;
		return check(array[0] == *model.begin(), std::string("beap:smallest:") + op, about + ": the smallest is not first after" + did.substr(did.size() > 600 ? did.size() - 600 : 0)) && ok;
		};
	if (!sound("make")) return;
	for (size_t step = 0, steps = r.range(20, 150); step < steps; step++)
		{
		evaluation();
		size_t op = r.below(8);
		uint64_t member = array[r.below(n)], low = *model.begin(), high = *model.rbegin();
		h = mix(h, member * 8 + op);
		if (op <= 1)
			{
			uint64_t probe = op == 0 ? member : r.pick(std::vector<uint64_t>{0, low ? low - 1 : 0, high + 1, high + 1000, member + 1, member - 1, r.below(high + 2)});
			int64_t at = beap.find(probe);
			bool there = model.count(probe);
			did += " find(" + std::to_string(probe) + ")";
			if (!check(there ? at >= 0 && at < (int64_t)n && array[at] == probe : at == -1, std::string("beap:find:") + (there ? "member" : "stranger"), about + ": gives " + std::to_string(at) + " after" + did.substr(did.size() > 600 ? did.size() - 600 : 0))) return;
			tally(there ? "finds" : "misses");
			continue;
			}
		uint64_t up = member + r.below(r.chance(0.5) ? 4 : high - low + 3), down = member - std::min<uint64_t>(member, r.below(r.chance(0.5) ? 4 : high - low + 3));
		int64_t at = -2;
		uint64_t old_key = member, new_key = up;
		const char *name = "";
		switch (op)
			{
			case 2: name = "guaranteed_larger"; at = beap.guaranteed_replace_with_larger(member, up); break;
			case 3: name = "guaranteed_smaller"; new_key = down; at = beap.guaranteed_replace_with_smaller(member, down); break;
			case 4: name = "smallest"; old_key = low; new_key = low + r.below(high - low + 4); at = beap.replace_smallest_with(new_key); break;
			case 5: name = "larger"; at = beap.replace_with_larger(member, up); break;
			case 6: name = "smaller"; new_key = down; at = beap.replace_with_smaller(member, down); break;
			default: name = "replace"; new_key = r.chance(0.5) ? up : down; if (r.chance(0.2)) old_key = high + 5; at = beap.replace(old_key, new_key); break;
			}
		did += std::string(" ") + name + "(" + std::to_string(old_key) + "," + std::to_string(new_key) + ")";
		auto found = model.find(old_key);
		if (found == model.end())
			check(at == -1, "beap:replaced-nothing", about + ": reports a place for a key that is not there after" + did.substr(did.size() > 600 ? did.size() - 600 : 0));
		else
			{
			model.erase(found);
			model.insert(new_key);
			if (!check(at >= 0 && at < (int64_t)n && array[at] == new_key, std::string("beap:place:") + name, about + ": the new key is not at the place reported after" + did.substr(did.size() > 600 ? did.size() - 600 : 0))) return;
			}
		if (!sound(name)) return;
		tally("beap_changes");
		}
	nontrivial(h);
	if (number < 8) sample(about + ":" + did.substr(0, 200));
}

/* ---- sorting ---- */
static void sort_case(rng &r, uint64_t)
{
	size_t n = a_length(r);
	auto v = values(r, n);
	auto full = v;
	std::sort(full.begin(), full.end());
	for (size_t times = 0; times < 3; times++)
		{
		size_t k = r.chance(0.3) ? n : r.chance(0.1) ? n + r.below(5) : r.below(n + 1);
		auto got = v;
		got.shrink_to_fit();
		if (k == n && r.chance(0.5)) JASS::top_k_qsort::sort(got.data(), n);
		else JASS::top_k_qsort::sort(got.data(), n, k);
		evaluation();
		check(std::equal(full.begin(), full.begin() + std::min(k, n), got.begin()), "sort:top-k", "the first " + std::to_string(k) + " of " + show(v, 60) + " are " + show(got, 60));
		std::sort(got.begin(), got.end());
		check(got == full, "sort:content", "sorting changed the content of " + show(v, 60));
		tally("partial_sorts");
		}
#ifdef __AVX512F__
	auto got = v;
	Sort512_uint64_t::Sort(got.data(), n);
	auto as_signed = [](uint64_t a, uint64_t b) { return (int64_t)a < (int64_t)b; };
	auto full_signed = full;
	std::sort(full_signed.begin(), full_signed.end(), as_signed);
	if (got != full && got == full_signed)			// the same content, but ordered as if signed
		check(false, "sort:avx512-as-signed", "Sort512 puts values of 2^63 and more before the others");
	else
		check(got == full, "sort:avx512", "Sort512 gives " + show(got, 60) + " from " + show(v, 60));
	tally("avx512_sorts");
#endif
	/* as search sorts: boxes that compare by what they point to, then by address */
	std::vector<uint32_t> score(v.begin(), v.end());
	std::vector<JASS::pointer_box<uint32_t>> boxes;
	for (auto &s : score) boxes.push_back(JASS::pointer_box<uint32_t>(&s));
	r.shuffle(boxes);
	size_t k = r.below(n + 1);
	std::vector<uint32_t *> expect;
	for (auto &s : score) expect.push_back(&s);
	std::sort(expect.begin(), expect.end(), [](uint32_t *a, uint32_t *b) { return *a != *b ? *a < *b : a < b; });
	JASS::top_k_qsort::sort(boxes.data(), n, k);
	for (size_t i = 0; i < k; i++)
		if (!check(boxes[i].pointer() == expect[i], "sort:boxes", "boxes are not in order of their values and addresses at " + std::to_string(i) + " of " + std::to_string(k))) break;
	evaluation(2);
	nontrivial(hash(v));
}

/* ---- pointer_box comparisons are those of (value, address) ---- */
static void box_case(rng &r, uint64_t)
{
	std::vector<uint16_t> a(8);
	for (auto &x : a) x = r.below(3);
	for (auto &x : a)
		for (auto &y : a)
			{
			JASS::pointer_box<uint16_t> p(&x), q(&y);
			int order = x != y ? (x < y ? -1 : 1) : &x < &y ? -1 : &x > &y ? 1 : 0;
			bool ok = (p < q) == (order < 0) && (p <= q) == (order <= 0) && (p > q) == (order > 0) && (p >= q) == (order >= 0) && (p == q) == (order == 0);
			int c = p.compare(q);
			ok = ok && (c < 0) == (order < 0) && (c > 0) == (order > 0);
			check(ok, "box:order", "values " + std::to_string(x) + " and " + std::to_string(y) + " at addresses " + std::to_string(&x - a.data()) + " and " + std::to_string(&y - a.data()));
			evaluation();
			}
	nontrivial(hash(a));
}

int main(int argc, char *argv[])
{
	return drive(argc, argv, {{"heap", 400, 20000, heap_case}, {"keeper", 400, 20000, keeper_case}, {"pointers", 400, 20000, pointers_case}, {"beap", 1500, 60000, beap_case},
		{"sort", 3000, 100000, sort_case}, {"box", 50, 500, box_case}});
}
