// Deterministic simulation kernel: virtual time, fibers standing in for the broker's threads, seeded
// draws, a deterministic heap for the code under test and interposed libc/pthread entry points.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim
{
	using ns = int64_t;
	constexpr ns US = 1000, MS = 1000 * 1000, SEC = 1000 * 1000 * 1000LL;

	// ---- seeded draws: stateless in (seed, tag, index) so that removing one action does not shift others
	uint64_t mix(uint64_t a, uint64_t b);
	uint64_t hash_str(const std::string &s);
	struct Stream {
		uint64_t key = 0, n = 0;
		Stream() = default;
		Stream(uint64_t seed, const std::string &tag) : key(mix(seed, hash_str(tag))) {}
		uint64_t u64() { return mix(key, ++n); }
		uint64_t below(uint64_t m) { return m ? u64() % m : 0; }
		int64_t range(int64_t lo, int64_t hi) { return hi <= lo ? lo : lo + (int64_t) below(hi - lo + 1); }
		bool chance(double p) { return (u64() >> 11) * (1.0 / 9007199254740992.0) < p; }
		double unit() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
		template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
	};

	// ---- fibers
	struct Fiber {
		int id = 0;
		std::string name;
		void *sp = nullptr;
		void *stack = nullptr;
		std::function<void()> fn;
		bool done = false, dead = false, started = false;
		uint64_t gen = 0; // wake generation
		bool timed_out = false, blocked = false;
		int harness = 0; // >0 while executing simulator code
		int saved_errno = 0;
		uint64_t eh[2] = {0, 0};
		std::vector<Fiber *> joiners;
		Stream costs;
		bool detached = false;
		void *retval = nullptr;
	};
	extern Fiber *cur;
	struct Harness { // marks code of the simulator running on a broker fiber
		Harness();
		~Harness();
		Fiber *f;
	};

	struct Knobs {
		uint64_t seed = 1;
		ns cost_max = 20 * US;       // cost of one system/library call
		double preempt_p = 0;        // probability that a call is followed by being descheduled ...
		ns preempt_max = 0;          // ... for up to this long
		ns thread_start_max = 0;     // delay before a new thread first runs
		ns wake_max = 50 * US;       // delay between becoming runnable and running
	};
	extern Knobs knobs;

	ns now();                    // virtual monotonic time
	extern ns wall_offset;       // system clock minus monotonic clock (clock jumps change it)
	void at(ns t, std::function<void()> fn);
	Fiber *spawn(const std::string &name, std::function<void()> fn, ns delay);
	void yield_point(const char *what, ns extra = 0); // cost, possible preemption; only on fibers
	void sleep_until(ns t);
	bool block(ns deadline);     // block current fiber until woken (true) or deadline (false); deadline<0: forever
	void wake(Fiber *f);
	void kill_all_fibers();      // crash of the process under test
	bool run_until(std::function<bool()> stop); // event loop; false if out of events or steps
	uint64_t steps();
	extern ns stall_until;       // no fiber runs before this time (process stopped)
	extern uint64_t max_steps;
	extern uint64_t n_preempt, n_switch;

	// ---- death of the process under test
	struct Death {
		bool dead = false;
		std::string reason;
		int status = 0;
		bool clean = false; // exit()/return from main rather than a crash
	};
	extern Death death;
	[[noreturn]] void die(const std::string &reason, int status, bool clean);
	extern std::function<void()> on_death;
	[[noreturn]] void fatal(const char *fmt, ...); // defect of the simulator itself

	// ---- heap of the code under test
	void arena_init(uint64_t seed);
	size_t arena_live_bytes();
	size_t arena_live_blocks();

	double real_seconds();
	void install_signal_handlers();

	// ---- state of the library under test
	void reset_sync(); // forget all locks (after a crash)
	ns epoch();
	void snapshot_library(const char *substr); // remembers writable data right after loading
	void restore_library();                    // fresh statics for a restarted process

	// ---- trace
	void trace_event(const std::string &s);
	extern uint64_t trace_hash;
	extern bool trace_print;
	extern std::vector<std::string> trace_lines;
}
