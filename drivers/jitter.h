/*
	JITTER.H
	--------
	Perturbs the schedule: every allocation made while jitter is on may yield or sleep, so threads are descheduled at points
	that depend on the seed rather than on the machine.  Include in exactly one translation unit of a driver.
*/
#pragma once
#include <new>
#include <atomic>
#include <stdlib.h>
#include <sched.h>
#include <unistd.h>
#include <time.h>

namespace vf
{
	inline std::atomic<uint64_t> jitter_on{0};
	inline std::atomic<uint64_t> jitter_points{0};
	inline std::atomic<uint64_t> jitter_stream{0};
	inline void jitter()
	{
		uint64_t seed = jitter_on.load(std::memory_order_relaxed);
		if (seed == 0) return;
		static thread_local uint64_t state = 0;
		static thread_local uint64_t seeded = 0;
		if (seeded != seed) { seeded = seed; state = seed + 0x9e3779b97f4a7c15ULL * jitter_stream.fetch_add(1, std::memory_order_relaxed); }
		state += 0x9e3779b97f4a7c15ULL;
		uint64_t z = state;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
		z ^= z >> 27;
		if ((z & 7) == 0)
			{
			jitter_points.fetch_add(1, std::memory_order_relaxed);
			if ((z & 0x3f8) == 0)
				{
				struct timespec t = {0, (long)((z >> 32) % 200000)};
				nanosleep(&t, nullptr);
				}
			else
				sched_yield();
			}
	}
	struct jittering
		{
		explicit jittering(uint64_t seed) { jitter_stream = 0; jitter_on = seed | 1; }
		~jittering() { jitter_on = 0; }
		};
}

void *operator new(size_t size)
{
	vf::jitter();
	void *at = malloc(size ? size : 1);
	if (at == nullptr) throw std::bad_alloc();
	return at;
}
void *operator new[](size_t size) { return operator new(size); }
void operator delete(void *at) noexcept { free(at); }
void operator delete[](void *at) noexcept { free(at); }
void operator delete(void *at, size_t) noexcept { free(at); }
void operator delete[](void *at, size_t) noexcept { free(at); }
