/* the choices query.h documents, one configuration per -DCONF_n */
#if CONF == 0
	#define CONF_NAME "2d-pointers"
	#define CONF_DEFAULT
	#define CONF_HEAP
	#define CONF_MAXBLOCK
	#define ACCUMULATOR_STRATEGY_2D
	#define JASS_TOPK_SORT
#elif CONF == 1
	#define CONF_NAME "2d-64s"
	#define CONF_HEAP
	#define CONF_MAXBLOCK
	#define ACCUMULATOR_STRATEGY_2D
	#define ACCUMULATOR_64s 1
	#define JASS_TOPK_SORT
#elif CONF == 2
	#define CONF_NAME "2d-64s-partial-sort"
	#define CONF_HEAP
	#define CONF_MAXBLOCK
	#define ACCUMULATOR_STRATEGY_2D
	#define ACCUMULATOR_64s 1
	#define CPP_TOPK_SORT
#elif CONF == 3
	#define CONF_NAME "2d-64s-avx512-sort"
	#define CONF_HEAP
	#define CONF_MAXBLOCK
	#define ACCUMULATOR_STRATEGY_2D
	#define ACCUMULATOR_64s 1
	#define AVX512_SORT
#elif CONF == 4
	#define CONF_NAME "2d-beap"
	#define CONF_HEAP
	#define ACCUMULATOR_STRATEGY_2D
	#define ACCUMULATOR_POINTER_BEAP 1
	#define CPP_SORT
#elif CONF == 5
	#define CONF_NAME "counter-8"
	#define CONF_HEAP
	#define CONF_MAXBLOCK
	#define ACCUMULATOR_COUNTER_8
	#define JASS_TOPK_SORT
#elif CONF == 6
	#define CONF_NAME "counter-4-64s"
	#define CONF_HEAP
	#define CONF_MAXBLOCK
	#define ACCUMULATOR_COUNTER_4
	#define ACCUMULATOR_64s 1
	#define CPP_SORT
#elif CONF == 7
	#define CONF_NAME "interleaved-8"
	#define CONF_HEAP
	#define CONF_MAXBLOCK
	#define ACCUMULATOR_COUNTER_INTERLEAVED_8
	#define CPP_TOPK_SORT
#elif CONF == 8
	#define CONF_NAME "interleaved-8-1"
	#define CONF_HEAP
	#define CONF_MAXBLOCK
	#define ACCUMULATOR_COUNTER_INTERLEAVED_8_1
	#define CPP_SORT
#elif CONF == 9
	#define CONF_NAME "interleaved-4"
	#define CONF_HEAP
	#define CONF_MAXBLOCK
	#define ACCUMULATOR_COUNTER_INTERLEAVED_4
	#define JASS_TOPK_SORT
	#define PRE_SIMD
#elif CONF == 10
	#define CONF_NAME "finding"
	#define CONF_FINDING
	#define ACCUMULATOR_STRATEGY_2D
	#define JASS_TOPK_SORT
#endif
