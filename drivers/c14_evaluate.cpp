/*
	C14_EVALUATE.CPP
	----------------
	Every metric against its definition computed naively from the assessments that were written down, and the statistics
	against numeric integration and the definition of a rank.
*/
#include <math.h>
#include <limits>
#include <memory>
#include "common.h"
#include "asserts.h"
#include "unittest_data.h"
#include "evaluate.h"
#include "statistics.h"
#include "evaluate_f.h"
#include "evaluate_map.h"
#include "evaluate_recall.h"
#include "evaluate_precision.h"
#include "evaluate_buying_power.h"
#include "evaluate_selling_power.h"
#include "evaluate_buying_power4k.h"
#include "evaluate_cheapest_precision.h"
#include "evaluate_relevant_returned.h"
#include "evaluate_mean_reciprocal_rank.h"
#include "evaluate_rank_biased_precision.h"
#include "evaluate_mean_reciprocal_rank4k.h"
#include "evaluate_expected_search_length.h"
#include "evaluate_price_based_normalized_discounted_cumulative_gain.h"
#include "evaluate_buying_power_normalized_discounted_cumulative_gain.h"

using namespace vf;
typedef std::vector<std::string> list;
static const size_t all = std::numeric_limits<size_t>::max();

struct truth
{
	std::map<std::string, std::map<std::string, double>> grades;
	std::map<std::string, double> prices;
	bool relevant(const std::string &q, const std::string &d) const
	{
		auto a = grades.find(q);
		if (a == grades.end()) return false;
		auto b = a->second.find(d);
		return b != a->second.end() && b->second > 0;
	}
	double price(const std::string &d) const { auto p = prices.find(d); return p == prices.end() ? 0 : p->second; }
	list relevant_documents(const std::string &q) const
	{
		list out;
		auto a = grades.find(q);
		if (a != grades.end())
			for (auto &d : a->second) if (d.second > 0) out.push_back(d.first);
		return out;
	}
};

static list top(const list &l, size_t depth) { return list(l.begin(), l.begin() + std::min(depth, l.size())); }

static bool same(double a, double b) { return std::isfinite(a) && fabs(a - b) <= 1e-9 * std::max(1.0, fabs(b)); }

static void expect(const std::string &metric, double got, double want, double low, double high, const std::string &context)
{
	evaluation();
	if (!std::isfinite(got)) violation(metric + ":not-a-number", std::to_string(got) + " rather than " + std::to_string(want) + " " + context);
	else if (!same(got, want)) violation(metric, std::to_string(got) + " rather than " + std::to_string(want) + " " + context);
	else if (got < low - 1e-9 || got > high + 1e-9) violation(metric + ":range", std::to_string(got) + " " + context);
}
static void defined(const std::string &metric, double got, double low, double high, const std::string &context)
{
	evaluation();
	if (!std::isfinite(got) || got < low - 1e-9 || got > high + 1e-9) violation(metric + ":undefined", std::to_string(got) + " " + context);
}

static double reference_bins(double price, double low, double high)
{
	int bins = 0;
	for (int i = 0; i < 5; i++)
		if (low + (high - low) * ((1 - exp(i)) / (1 - exp(5))) <= price) bins++;
	return 6 - bins;
}

static void metrics(rng &random, uint64_t)
{
	truth t;
	std::string qrels, price_file;
	size_t documents = random.range(1, 40), queries = random.range(1, 5);
	static const std::vector<double> graded = {0, 0, 1, 2, 3, 0.5}, binary = {0, 1};
	bool grades = random.chance(0.5), free_text = random.chance(0.2);
	bool none = random.chance(0.1);
	auto document = [&](size_t d) { return (free_text ? "WSJ-" : "d") + std::to_string(d); };
	auto number = [](double v) { char b[64]; snprintf(b, sizeof(b), "%.4g", v); return std::string(b); };
	for (size_t d = 0; d < documents; d++)
		{
		double price = random.chance(0.3) ? random.range(1, 4) * 10 : random.range(1, 20000) / 100.0;
		std::string p = number(price);
		t.prices[document(d)] = atof(p.c_str());
		price_file += "PRICE 0 " + document(d) + " " + p + "\n";
		}
	std::vector<std::string> lines;
	for (size_t q = 0; q < queries; q++)
		{
		std::string id = random.chance(0.1) ? "Q" + std::to_string(q) : std::to_string(q * 7 + 1);
		double rate = random.chance(0.2) ? 0 : random.real();
		for (size_t d = 0; d < documents; d++)
			if (random.chance(rate))
				{
				double grade = none ? 0 : random.pick(grades ? graded : binary);
				t.grades[id][document(d)] = grade;
				lines.push_back((random.chance(0.05) ? "  " : "") + id + (random.chance(0.1) ? "   " : " ") + "0 " + document(d) + (random.chance(0.1) ? "  " : " ") + number(grade));
				}
		}
	random.shuffle(lines);
	for (size_t l = 0; l < lines.size(); l++) qrels += lines[l] + (random.chance(0.05) ? "\r\n\n" : l + 1 == lines.size() && random.chance(0.2) ? "" : "\n");
	std::shared_ptr<JASS::evaluate> assessments(new JASS::evaluate), prices(new JASS::evaluate);
	std::string copy = qrels;
	assessments->decode_assessments_trec_qrels(copy);
	copy = price_file;
	prices->decode_assessments_trec_qrels(copy);
	size_t with_assessments = 0;
	for (auto &q : t.grades) with_assessments += q.second.size() > 0;
	check(assessments->query_count() == with_assessments, "query-count", std::to_string(assessments->query_count()) + " rather than " + std::to_string(with_assessments) + " in " + qrels);

	for (size_t n = 0; n < 4; n++)
		{
		std::string q = random.chance(0.1) ? "none" : random.chance(0.05) ? "" : std::to_string(random.below(queries) * 7 + 1);
		list run, pool;
		for (size_t d = 0; d < documents; d++) pool.push_back(document(d));
		for (size_t d = 0; d < 5; d++) pool.push_back("unassessed" + std::to_string(d));
		random.shuffle(pool);
		size_t length = random.chance(0.1) ? 0 : random.chance(0.2) ? pool.size() : random.range(1, pool.size());
		run.assign(pool.begin(), pool.begin() + length);
		list relevant = t.relevant_documents(q);
		size_t R = relevant.size();
		check(assessments->relevance_count(q) == R, "relevance-count", std::to_string(assessments->relevance_count(q)) + " rather than " + std::to_string(R));

		for (size_t m = 0; m < 3; m++)
			{
			size_t depth = m == 0 ? all : random.chance(0.1) ? 0 : random.chance(0.3) ? random.pick(std::vector<size_t>{5, 10, 15, 20, 30, 100, 1000}) : random.range(1, 45);
			size_t k = random.range(1, 8);
			double p = random.chance(0.1) ? (random.chance(0.5) ? 0.0 : 1.0) : random.real();
			std::string context = "for query '" + q + "' at depth " + (depth == all ? "all" : std::to_string(depth)) + " k " + std::to_string(k) + " p " + std::to_string(p) + ", results";
			for (size_t d = 0; d < run.size(); d++) context += " " + run[d] + (t.relevant(q, run[d]) ? "*" : "");
			context += ", relevant";
			for (auto &d : relevant) context += " " + d + "=" + number(t.price(d));
			JASS::evaluate_precision precision(assessments);
			JASS::evaluate_recall recall(assessments);
			JASS::evaluate_f f(assessments);
			JASS::evaluate_map map(assessments);
			JASS::evaluate_relevant_returned returned(assessments);
			JASS::evaluate_mean_reciprocal_rank mrr(assessments);
			JASS::evaluate_mean_reciprocal_rank4k mrr4k(k, assessments);
			JASS::evaluate_rank_biased_precision rbp(p, assessments);
			JASS::evaluate_expected_search_length esl(assessments);
			JASS::evaluate_cheapest_precision cheapest(prices, assessments);
			JASS::evaluate_buying_power bp(prices, assessments);
			JASS::evaluate_buying_power4k bp4k(k, prices, assessments);
			JASS::evaluate_selling_power sp(prices, assessments);
			JASS::evaluate_price_based_normalized_discounted_cumulative_gain pbndcg(prices, assessments);
			JASS::evaluate_buying_power_normalized_discounted_cumulative_gain bpndcg(prices, assessments);
			if (depth == 0)
				{
				/* looking at nothing: just that there is an answer that makes sense */
				tally("depth of 0");
				defined("precision", precision.compute(q, run, 0), 0, 1, context);
				defined("recall", recall.compute(q, run, 0), 0, 1, context);
				defined("F1", f.compute(q, run, 0), 0, 1, context);
				defined("MAP", map.compute(q, run, 0), 0, 1, context);
				defined("MRR", mrr.compute(q, run, 0), 0, 1, context);
				defined("MRR4K", mrr4k.compute(q, run, 0), 0, 1, context);
				defined("RBP", rbp.compute(q, run, 0), 0, 1, context);
				defined("ESL", esl.compute(q, run, 0), 0, run.size(), context);
				defined("cheapest-precision", cheapest.compute(q, run, 0), 0, 1, context);
				defined("buying-power", bp.compute(q, run, 0), 0, 1, context);
				defined("buying-power-4k", bp4k.compute(q, run, 0), 0, 1, context);
				defined("selling-power", sp.compute(q, run, 0), 0, 1, context);
				defined("PBnDCG", pbndcg.compute(q, run, 0), 0, 1, context);
				defined("BPnDCG", bpndcg.compute(q, run, 0), 0, 1, context);
				continue;
				}
			list looked = top(run, depth);
			std::vector<size_t> ranks;				// of the relevant, from 1
			for (size_t r = 0; r < looked.size(); r++) if (t.relevant(q, looked[r])) ranks.push_back(r + 1);
			double found = ranks.size(), P = 0, A = 0, B = 0;
			for (size_t i = 0; i < ranks.size(); i++) A += (i + 1.0) / ranks[i], B += pow(p, ranks[i] - 1.0);
			size_t at = depth == all ? looked.size() : depth;
			P = at == 0 ? 0 : found / at;
			expect("precision", precision.compute(q, run, depth), P, 0, 1, context);
			expect("relevant-returned", returned.compute(q, run, depth), found, 0, run.size(), context);
			if (R == 0)
				{
				tally("queries with nothing relevant");
				defined("recall", recall.compute(q, run, depth), 0, 1, context);
				defined("F1", f.compute(q, run, depth), 0, 1, context);
				defined("MAP", map.compute(q, run, depth), 0, 1, context);
				defined("cheapest-precision", cheapest.compute(q, run, depth), 0, 1, context);
				defined("buying-power", bp.compute(q, run, depth), 0, 1, context);
				defined("selling-power", sp.compute(q, run, depth), 0, 1, context);
				defined("PBnDCG", pbndcg.compute(q, run, depth), 0, 1, context);
				defined("BPnDCG", bpndcg.compute(q, run, depth), 0, 1, context);
				}
			else
				{
				double recalled = found / std::min(R, depth);
				expect("recall", recall.compute(q, run, depth), recalled, 0, 1, context);
				expect("F1", f.compute(q, run, depth), P + recalled == 0 ? 0 : 2 * P * recalled / (P + recalled), 0, 1, context);
				expect("MAP", map.compute(q, run, depth), A / R, 0, 1, context);
				/* prices */
				std::vector<double> sorted;
				for (auto &d : relevant) sorted.push_back(t.price(d));
				std::sort(sorted.begin(), sorted.end());
				double spent = 0, buying = 0, selling = 0, ideal_p = 0, ideal_b = 0, gain_p = 0, gain_b = 0;
				for (auto &d : looked)
					{
					spent += t.price(d);
					if (t.relevant(q, d)) { buying = sorted[0] / spent; break; }
					}
				expect("buying-power", bp.compute(q, run, depth), buying, 0, 1, context);
				size_t slots = std::min(R, depth), next = 0;
				for (size_t r = 0; r < looked.size() && r < slots; r++)
					if (t.relevant(q, looked[r])) selling += sorted[next++] / t.price(looked[r]);
				expect("selling-power", sp.compute(q, run, depth), selling / slots, 0, INFINITY, context);		// more than 1 if a dear one comes before a cheap one
				for (size_t r = 0; r < R && r < depth; r++)
					{
					ideal_p += reference_bins(sorted[r], sorted[0], sorted[R - 1]) / log2(r + 2);
					ideal_b += sorted[0] / sorted[r] / log2(r + 2);
					}
				for (size_t r : ranks)
					{
					double price = t.price(looked[r - 1]);
					gain_p += reference_bins(price, sorted[0], sorted[R - 1]) / log2(r + 1);
					gain_b += sorted[0] / price / log2(r + 1);
					}
				expect("PBnDCG", pbndcg.compute(q, run, depth), gain_p / ideal_p, 0, 1, context);
				expect("BPnDCG", bpndcg.compute(q, run, depth), gain_b / ideal_b, 0, 1, context);
				/* the k cheapest and those that cost the same as the last of them */
				double cheap = 0;
				if (run.size())
					{
					double limit = sorted[std::min(std::min(depth, run.size()), R) - 1];
					for (size_t r : ranks) cheap += t.price(looked[r - 1]) <= limit;
					cheap /= at;
					}
				expect("cheapest-precision", cheapest.compute(q, run, depth), cheap, 0, 1, context);
				}
			{
			double best = 0, spent = 0, want = 0;
			std::vector<double> sorted;
			for (auto &d : relevant) sorted.push_back(t.price(d));
			std::sort(sorted.begin(), sorted.end());
			if (R >= k)
				{
				for (size_t i = 0; i < k; i++) best += sorted[i];
				size_t seen = 0;
				for (auto &d : looked)
					{
					spent += t.price(d);
					if (t.relevant(q, d) && ++seen == k) { want = best / spent; break; }
					}
				}
			expect("buying-power-4k", bp4k.compute(q, run, depth), want, 0, 1, context);
			}
			expect("MRR", mrr.compute(q, run, depth), ranks.size() ? 1.0 / ranks[0] : 0, 0, 1, context);
			double reciprocals = 0;
			if (ranks.size() >= k) for (size_t i = 0; i < k; i++) reciprocals += 1.0 / ranks[i] / k;
			expect("MRR4K", mrr4k.compute(q, run, depth), reciprocals, 0, 1, context);
			expect("RBP", rbp.compute(q, run, depth), (1 - p) * B, 0, 1, context);
			expect("ESL", esl.compute(q, run, depth), ranks.size() ? ranks[0] - 1 : depth == all ? run.size() : depth, 0, depth == all ? run.size() : depth, context);
			tally("metrics computed", 15);
			if (ranks.size() > 1) nontrivial(hash(context));
			if (m == 0 && n == 0 && R > 1) sample(context.substr(0, 300));
			}
		}
}

/* anything at all as an assessment file: just no crash, and no relevant document that is not in it */
static void hostile(rng &random, uint64_t)
{
	std::string text;
	size_t lines = random.below(12);
	for (size_t l = 0; l < lines; l++)
		{
		size_t columns = random.below(7);
		for (size_t c = 0; c < columns; c++)
			text += (c ? std::string(random.range(1, 2), random.chance(0.1) ? '\t' : ' ') : "") + (random.chance(0.1) ? std::string(1, (char)random.range(1, 255)) : random.chance(0.5) ? std::to_string(random.below(4)) : "d" + std::to_string(random.below(5)));
		text += random.chance(0.1) ? "\r\n" : random.chance(0.1) ? "" : "\n";
		}
	std::shared_ptr<JASS::evaluate> e(new JASS::evaluate);
	std::string copy = text;
	e->decode_assessments_trec_qrels(copy);
	evaluation();
	check(e->assessments.size() <= lines, "hostile:made-up", "more assessments than lines in " + text);
	list run = {"d1", "d2", "d3"};
	JASS::evaluate_map map(e);
	for (auto q : {"", "0", "1", "d2"})
		defined("MAP", map.compute(q, run), 0, 1, "of " + text);
}

/* -------------------------------------------------- statistics -------------------------------------------------- */
/* P(T <= t) by integrating the density (in the angle, where it is smooth and the range is finite) */
static double t_cdf(double t, double nu)
{
	/* T = sqrt(nu) tan(a): density of a is C cos^(nu-1)(a) */
	long double to = atan(fabs(t) / sqrt(nu));
	long double c = expl(lgammal((nu + 1) / 2) - lgammal(nu / 2)) / sqrtl(M_PIl);
	const size_t steps = 2000;
	auto f = [&](long double a) { return powl(cosl(a), nu - 1); };
	/* for many degrees of freedom all the mass is close to 0 */
	long double sum = f(0) + f(to), h = to / steps;
	for (size_t i = 1; i < steps; i++) sum += f(i * h) * (i % 2 ? 4 : 2);
	long double area = c * sum * h / 3;
	return t < 0 ? 0.5L - area : 0.5L + area;
}
static void statistics(rng &random, uint64_t)
{
	size_t n = random.chance(0.02) ? random.range(990, 1100) : random.chance(0.1) ? random.below(3) : random.range(2, 120);
	std::vector<double> a(n), b(n);
	double shift = random.chance(0.5) ? 0 : (random.real() - 0.5) * 0.5;
	bool coarse = random.chance(0.3);
	for (size_t i = 0; i < n; i++)
		{
		a[i] = coarse ? random.below(5) / 4.0 : random.real();
		b[i] = random.chance(0.3) ? a[i] : coarse ? random.below(5) / 4.0 : random.real() + shift;
		}
	evaluation();
	double mean = 0, variance = 0;
	for (size_t i = 0; i < n; i++) mean += (a[i] - b[i]) / n;
	for (size_t i = 0; i < n; i++) variance += (a[i] - b[i] - mean) * (a[i] - b[i] - mean) / (n - 1.0);
	std::string context = std::to_string(n) + " samples with mean difference " + std::to_string(mean) + " and variance " + std::to_string(variance);
	if (n >= 2 && variance > 1e-9)
		{
		double want = 1 - t_cdf(fabs(mean) / sqrt(variance / n), n - 1);
		double one = JASS::statistics::ttest_paired(a, b, JASS::statistics::ONE_TAILED), two = JASS::statistics::ttest_paired(a, b, JASS::statistics::TWO_TAILED);
		check(fabs(one - want) < 2e-6, "t-test", std::to_string(one) + " rather than " + std::to_string(want) + " for " + context);
		check(fabs(two - 2 * one) < 1e-9, "t-test:two-tailed", std::to_string(two) + " is not twice " + std::to_string(one));
		check(fabs(JASS::statistics::ttest_paired(b, a, JASS::statistics::ONE_TAILED) - one) < 1e-9, "t-test:order", "swapping the samples changed p");
		tally("t-tests");
		if (n > 2) nontrivial(hash(context));
		}
	else if (n < 2)
		check(JASS::statistics::ttest_paired(a, b, JASS::statistics::ONE_TAILED) == 1, "t-test:small", context);
	/* the distribution function itself */
	{
	double nu = random.chance(0.05) ? random.range(990, 1010) : random.range(1, 200), x = (random.real() - 0.5) * 16;
	double got = JASS::statistics::t_cumulative_distribution_function(x, (uint32_t)nu), want = t_cdf(x, nu);
	check(fabs(got - want) < 2e-6, "t-distribution", std::to_string(got) + " rather than " + std::to_string(want) + " at " + std::to_string(x) + " with " + std::to_string(nu) + " degrees of freedom");
	double normal = JASS::statistics::normal_cumulative_distribution_function(x);
	check(fabs(normal - 0.5 * erfc(-x / sqrt(2))) < 1e-6, "normal-distribution", std::to_string(normal) + " at " + std::to_string(x));
	evaluation(2);
	}
	/* ranks and correlation */
	if (n >= 2)
		{
		auto ranks = [](const std::vector<double> &v)
			{
			std::vector<double> r(v.size());
			for (size_t i = 0; i < v.size(); i++)
				{
				double below = 0, equal = 0;
				for (double x : v) below += x < v[i], equal += x == v[i];
				r[i] = below + (equal + 1) / 2;
				}
			return r;
			};
		auto pearson = [](const std::vector<double> &x, const std::vector<double> &y)
			{
			long double mx = 0, my = 0, xy = 0, xx = 0, yy = 0;
			for (size_t i = 0; i < x.size(); i++) mx += x[i], my += y[i];
			mx /= x.size(), my /= x.size();
			for (size_t i = 0; i < x.size(); i++) xy += (x[i] - mx) * (y[i] - my), xx += (x[i] - mx) * (x[i] - mx), yy += (y[i] - my) * (y[i] - my);
			return (double)(xy / sqrtl(xx * yy));
			};
		std::vector<double> got;
		JASS::statistics::value_to_fractional_rank(got, a);
		check(got == ranks(a), "rank", show(got) + " rather than " + show(ranks(a)) + " for " + show(a));
		double r = pearson(a, b), rho = pearson(ranks(a), ranks(b));
		if (std::isfinite(r))
			{
			double g1 = JASS::statistics::pearson_correlation(a, b), g2 = JASS::statistics::spearman_correlation(a, b);
			check(fabs(g1 - r) < 1e-6, "pearson", std::to_string(g1) + " rather than " + std::to_string(r));
			check(fabs(g2 - rho) < 1e-6, "spearman", std::to_string(g2) + " rather than " + std::to_string(rho) + " for " + show(a) + " and " + show(b));
			tally("correlations");
			evaluation(3);
			}
		}
}

int main(int argc, char *argv[])
{
	return drive(argc, argv, {
		{"metrics", 12000, 300000, metrics},
		{"hostile", 2000, 40000, hostile},
		{"statistics", 3000, 60000, statistics},
	});
}
