#include "kernel.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <new>
#include <pthread.h>
#include <link.h>
#include <queue>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>

namespace sim
{
	uint64_t mix(uint64_t a, uint64_t b)
	{
		uint64_t z = a + 0x9E3779B97F4A7C15ULL * (b + 1);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
		z ^= z >> 31;
		z += a;
		z = (z ^ (z >> 29)) * 0xBF58476D1CE4E5B9ULL;
		return z ^ (z >> 32);
	}
	uint64_t hash_str(const std::string &s)
	{
		uint64_t h = 1469598103934665603ULL;
		for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
		return h;
	}

	Knobs knobs;
	Fiber *cur = nullptr;
	static ns now_ = 0;
	ns now() { return now_; }
	ns wall_offset = 0;
	ns stall_until = 0;
	uint64_t max_steps = 30000000;
	uint64_t n_preempt = 0, n_switch = 0;
	static uint64_t steps_ = 0;
	uint64_t steps() { return steps_; }
	Death death;
	std::function<void()> on_death;

	Harness::Harness() : f(cur) { if (f) ++f->harness; }
	Harness::~Harness() { if (f) --f->harness; }

	void fatal(const char *fmt, ...)
	{
		if (cur) ++cur->harness;
		va_list ap;
		va_start(ap, fmt);
		fprintf(stderr, "SIMULATOR ERROR: ");
		vfprintf(stderr, fmt, ap);
		fprintf(stderr, "\n");
		fflush(stderr);
		fflush(stdout);
		syscall(SYS_exit_group, 97);
		__builtin_unreachable();
	}

	// ------------------------------------------------------------------ event queue
	struct Event {
		ns t;
		uint64_t seq;
		Fiber *f;
		uint64_t gen;
		std::function<void()> fn;
	};
	struct Later {
		bool operator()(const Event *a, const Event *b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; }
	};
	static std::priority_queue<Event *, std::vector<Event *>, Later> queue_;
	static uint64_t seq_ = 0;

	void at(ns t, std::function<void()> fn) { queue_.push(new Event{std::max(t, now_), ++seq_, nullptr, 0, std::move(fn)}); }
	static void at_fiber(ns t, Fiber *f, uint64_t gen) { queue_.push(new Event{std::max(t, now_), ++seq_, f, gen, {}}); }

	// ------------------------------------------------------------------ context switch
	extern "C" void sim_switch(void **save, void *load);
	asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_switch,.-sim_switch
)");
	static void *sched_sp = nullptr;
	static std::vector<Fiber *> fibers_;
	static int next_fiber_ = 0;
	constexpr size_t STACK = 512 * 1024;
	static char *const STACK_BASE = (char *) 0x300000000000ULL;

	static void to_sched()
	{
		Fiber *f = cur;
		f->saved_errno = errno;
		auto *eh = (uint64_t *) abi::__cxa_get_globals();
		f->eh[0] = eh[0], f->eh[1] = eh[1];
		eh[0] = eh[1] = 0;
		cur = nullptr;
		++n_switch;
		sim_switch(&f->sp, sched_sp);
		// resumed
	}
	static void resume(Fiber *f)
	{
		cur = f;
		errno = f->saved_errno;
		auto *eh = (uint64_t *) abi::__cxa_get_globals();
		eh[0] = f->eh[0], eh[1] = f->eh[1];
		sim_switch(&sched_sp, f->sp);
	}
	static void finish_current()
	{
		Fiber *f = cur;
		++f->harness;
		f->done = true;
		for (Fiber *j : f->joiners) wake(j);
		to_sched();
		fatal("finished fiber resumed");
	}
	static void fiber_entry()
	{
		try {
			cur->fn();
		} catch (std::exception &e) {
			die(std::string("uncaught exception in thread: ") + e.what(), 134, false);
		} catch (...) {
			die("uncaught exception in thread", 134, false);
		}
		finish_current();
	}

	Fiber *spawn(const std::string &name, std::function<void()> fn, ns delay)
	{
		auto *f = new Fiber;
		f->id = ++next_fiber_;
		f->name = name;
		f->fn = std::move(fn);
		f->costs = Stream(knobs.seed, "cost:" + std::to_string(f->id));
		char *base = STACK_BASE + (size_t) f->id * (STACK + 2 * 4096);
		void *m = mmap(base, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
		if (m != base) fatal("cannot map fiber stack");
		f->stack = base;
		auto *top = (uint64_t *) (base + STACK - 64);
		*--top = 0; // fake return address (end of stack)
		*--top = (uint64_t) (void *) &fiber_entry;
		for (int i = 0; i < 6; ++i) *--top = 0;
		f->sp = top;
		fibers_.push_back(f);
		at_fiber(now_ + delay, f, f->gen);
		return f;
	}

	static ns draw_cost(Fiber *f)
	{
		ns c = 200 + (ns) f->costs.below((uint64_t) knobs.cost_max + 1);
		if (knobs.preempt_p > 0 && f->costs.chance(knobs.preempt_p)) {
			c += (ns) f->costs.below((uint64_t) knobs.preempt_max + 1);
			++n_preempt;
		}
		return c;
	}
	static void wait_event()
	{
		to_sched();
		if (cur->dead) fatal("dead fiber resumed");
	}
	void sleep_until(ns t)
	{
		Fiber *f = cur;
		++f->harness;
		if (t < now_) t = now_;
		if (stall_until <= now_ && (queue_.empty() || queue_.top()->t > t)) {
			now_ = t;
			++steps_;
			if (steps_ > max_steps) { at_fiber(t, f, ++f->gen); wait_event(); }
		} else {
			at_fiber(t, f, ++f->gen);
			wait_event();
		}
		--f->harness;
	}
	void yield_point(const char *, ns extra)
	{
		Fiber *f = cur;
		if (!f) return;
		++f->harness;
		sleep_until(now_ + draw_cost(f) + extra);
		--f->harness;
	}
	bool block(ns deadline)
	{
		Fiber *f = cur;
		++f->harness;
		f->timed_out = false;
		f->blocked = true;
		++f->gen;
		if (deadline >= 0) {
			uint64_t g = f->gen;
			at(deadline, [f, g]() {
				if (!f->dead && f->blocked && f->gen == g) {
					f->timed_out = true;
					f->blocked = false;
					++f->gen;
					at_fiber(now_ + (ns) f->costs.below((uint64_t) knobs.wake_max + 1), f, f->gen);
				}
			});
		}
		wait_event();
		--f->harness;
		return !f->timed_out;
	}
	// a blocked fiber becomes runnable after a drawn delay; waking twice is harmless
	void wake(Fiber *f)
	{
		if (f->dead || f->done || !f->blocked) return;
		f->blocked = false;
		++f->gen;
		f->timed_out = false;
		at_fiber(now_ + (ns) f->costs.below((uint64_t) knobs.wake_max + 1), f, f->gen);
	}

	void kill_all_fibers()
	{
		if (cur) fatal("kill_all_fibers on a fiber");
		for (Fiber *f : fibers_) {
			if (!f->dead) {
				f->dead = true;
				if (f->stack) munmap(f->stack, STACK);
				f->stack = nullptr;
			}
		}
		fibers_.clear();
	}

	static bool handle_death_pending = false;
	bool run_until(std::function<bool()> stop)
	{
		for (;;) {
			if (handle_death_pending) {
				handle_death_pending = false;
				if (on_death) on_death();
			}
			if (stop()) return true;
			if (queue_.empty()) return false;
			if (steps_ > max_steps) return false;
			Event *e = queue_.top();
			queue_.pop();
			++steps_;
			if (e->f) {
				if (e->f->dead || e->f->done || e->gen != e->f->gen) {
					delete e;
					continue;
				}
				if (stall_until > e->t) {
					e->t = stall_until;
					e->seq = ++seq_;
					queue_.push(e);
					continue;
				}
				now_ = std::max(now_, e->t);
				Fiber *f = e->f;
				delete e;
				resume(f);
			} else {
				now_ = std::max(now_, e->t);
				auto fn = std::move(e->fn);
				delete e;
				fn();
			}
		}
	}

	void die(const std::string &reason, int status, bool clean)
	{
		if (!cur) fatal("process death outside of the process: %s", reason.c_str());
		++cur->harness;
		if (!death.dead) {
			death.dead = true;
			death.reason = reason;
			death.status = status;
			death.clean = clean;
		}
		handle_death_pending = true;
		cur->done = true;
		to_sched();
		fatal("dead fiber resumed");
	}

	// ------------------------------------------------------------------ trace
	uint64_t trace_hash = 1469598103934665603ULL;
	bool trace_print = false;
	std::vector<std::string> trace_lines;
	void trace_event(const std::string &s)
	{
		char buf[32];
		snprintf(buf, sizeof buf, "%lld ", (long long) now_);
		for (const char *p = buf; *p; ++p) trace_hash = (trace_hash ^ (unsigned char) *p) * 1099511628211ULL;
		for (unsigned char c : s) trace_hash = (trace_hash ^ c) * 1099511628211ULL;
		if (trace_print) {
			snprintf(buf, sizeof buf, "%12.6f ", now_ / 1e9);
			trace_lines.push_back(buf + s);
		}
	}

	double real_seconds()
	{
		struct timespec ts;
		syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
		return ts.tv_sec + ts.tv_nsec / 1e9;
	}

	// ------------------------------------------------------------------ signals: crashes and hangs of the code under test
	static void sig_handler(int sig, siginfo_t *, void *)
	{
		if (sig == SIGVTALRM && (!cur || cur->harness > 0)) {
			static int late = 0;
			if (++late < 400) {
				struct itimerval tv {};
				tv.it_value.tv_usec = 100000;
				setitimer(ITIMER_VIRTUAL, &tv, nullptr);
				return;
			}
		}
		if (!cur || cur->harness > 0) {
			char b[64];
			int n = snprintf(b, sizeof b, "SIMULATOR ERROR: signal %d in simulator code\n", sig);
			if (write(2, b, n)) {}
			syscall(SYS_exit_group, 97);
		}
		const char *name = sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS"
			: sig == SIGILL ? "SIGILL" : sig == SIGVTALRM ? "hang (endless computation)" : "SIGABRT";
		// leave the signal stack by switching to the scheduler; the fiber is never resumed
		die(name, 128 + sig, false);
	}
	void install_signal_handlers()
	{
		static char alt[65536];
		stack_t ss{};
		ss.ss_sp = alt;
		ss.ss_size = sizeof alt;
		sigaltstack(&ss, nullptr);
		struct sigaction sa {};
		sa.sa_sigaction = sig_handler;
		sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
		for (int s : {SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGABRT, SIGVTALRM}) sigaction(s, &sa, nullptr);
		struct itimerval tv {};
		tv.it_value.tv_sec = 25;
		setitimer(ITIMER_VIRTUAL, &tv, nullptr);
	}

	// ------------------------------------------------------------------ deterministic heap
	static char *const ARENA = (char *) 0x200000000000ULL;
	constexpr size_t ARENA_SIZE = 4ULL << 30;
	struct Hdr {
		uint32_t cls;
		uint32_t magic;
		uint64_t size;
	};
	constexpr uint32_t LIVE = 0xA11CE5ED, FREED = 0xDEADF4EE;
	static char *arena_top = ARENA;
	static bool arena_ready = false;
	static size_t live_bytes = 0, live_blocks = 0;
	constexpr int NCLS = 160;
	struct Cls {
		void *slots[4096];
		int n = 0;
		void *quar[16];
		int qn = 0, qi = 0;
	};
	static Cls *classes = nullptr;
	static uint64_t arena_key = 0, arena_n = 0;
	void arena_init(uint64_t seed)
	{
		void *m = mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
		if (m != ARENA) fatal("cannot map arena");
		classes = (Cls *) mmap(nullptr, sizeof(Cls) * NCLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		arena_key = mix(seed, hash_str("arena"));
		arena_ready = true;
	}
	size_t arena_live_bytes() { return live_bytes; }
	size_t arena_live_blocks() { return live_blocks; }
	// class sizes: multiples of 16 up to 1024, then powers of two
	static int cls_of(size_t n, size_t &sz)
	{
		if (n <= 1024) {
			int c = (int) ((n + 15) / 16);
			if (c == 0) c = 1;
			sz = (size_t) c * 16;
			return c;
		}
		int c = 65;
		sz = 2048;
		while (sz < n) sz <<= 1, ++c;
		return c;
	}
	static void *arena_alloc(size_t n)
	{
		size_t sz;
		int c = cls_of(n, sz);
		if (c >= NCLS || sz > (1ULL << 30)) return nullptr;
		Cls &k = classes[c];
		if (k.n == 0) {
			int cnt = sz <= 1024 ? 32 : 2;
			size_t stride = sz + sizeof(Hdr);
			if ((size_t) (arena_top - ARENA) + stride * cnt > ARENA_SIZE) return nullptr;
			for (int i = 0; i < cnt; ++i) k.slots[k.n++] = arena_top + stride * i;
			arena_top += stride * cnt;
			for (int i = k.n - 1; i > 0; --i) std::swap(k.slots[i], k.slots[mix(arena_key, ++arena_n) % (i + 1)]);
		}
		auto *h = (Hdr *) k.slots[--k.n];
		h->cls = c;
		h->magic = LIVE;
		h->size = n;
		memset(h + 1, 0xA5, n);
		live_bytes += n;
		++live_blocks;
		return h + 1;
	}
	static void arena_free(void *p)
	{
		auto *h = (Hdr *) p - 1;
		if (h->magic != LIVE) {
			if (cur && cur->harness == 0) die("heap corruption: invalid or double free", 134, false);
			fatal("bad free in simulator");
		}
		h->magic = FREED;
		live_bytes -= h->size;
		--live_blocks;
		memset(p, 0xDD, h->size);
		Cls &k = classes[h->cls];
		// quarantine delays reuse so that stale pointers show up
		void *back = h;
		if (k.qn < 16) {
			k.quar[k.qn++] = h;
			return;
		}
		std::swap(back, k.quar[k.qi]);
		k.qi = (k.qi + 1) % 16;
		if (k.n < 4096) k.slots[k.n++] = back;
	}
	static inline bool use_arena() { return arena_ready && cur && cur->harness == 0; }
	static inline bool in_arena(void *p) { return (char *) p >= ARENA && (char *) p < ARENA + ARENA_SIZE; }

	// ------------------------------------------------------------------ statics of the library under test
	struct Seg {
		char *addr;
		std::vector<char> copy;
	};
	static std::vector<Seg> segs;
	void snapshot_library(const char *substr)
	{
		segs.clear();
		static const char *want;
		want = substr;
		dl_iterate_phdr(
			[](struct dl_phdr_info *info, size_t, void *) {
				if (!info->dlpi_name || !strstr(info->dlpi_name, want)) return 0;
				uintptr_t relro_lo = 0, relro_hi = 0;
				for (int i = 0; i < info->dlpi_phnum; ++i) {
					auto &p = info->dlpi_phdr[i];
					if (p.p_type == PT_GNU_RELRO) {
						relro_lo = info->dlpi_addr + p.p_vaddr;
						relro_hi = (relro_lo + p.p_memsz) & ~4095UL;
					}
				}
				for (int i = 0; i < info->dlpi_phnum; ++i) {
					auto &p = info->dlpi_phdr[i];
					if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) {
						uintptr_t lo = info->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
						if (relro_lo <= lo && lo < relro_hi) lo = relro_hi;
						if (lo < hi) segs.push_back({(char *) lo, std::vector<char>((char *) lo, (char *) hi)});
					}
				}
				return 0;
			},
			nullptr);
		if (segs.empty()) fatal("library under test not found");
	}
	void restore_library()
	{
		for (auto &s : segs) memcpy(s.addr, s.copy.data(), s.copy.size());
	}

	// ------------------------------------------------------------------ synchronisation objects
	struct Mutex {
		Fiber *owner = nullptr;
		int depth = 0;
		std::vector<Fiber *> waiters;
		int readers = 0;
	};
	static std::map<void *, Mutex> mutexes;
	static std::map<void *, std::vector<Fiber *>> conds;
	static std::map<void *, std::vector<Fiber *>> futexes;
	void reset_sync()
	{
		mutexes.clear();
		conds.clear();
		futexes.clear();
	}
	static int lock(void *m, bool recursive, bool tryonly, ns deadline)
	{
		Harness h;
		yield_point("lock");
		for (;;) {
			Mutex &x = mutexes[m];
			if (!x.owner && x.readers == 0) {
				x.owner = cur;
				x.depth = 1;
				return 0;
			}
			if (x.owner == cur && recursive) {
				++x.depth;
				return 0;
			}
			if (tryonly) return EBUSY;
			x.waiters.push_back(cur);
			bool ok = block(deadline);
			auto &w = mutexes[m].waiters;
			w.erase(std::remove(w.begin(), w.end(), cur), w.end());
			if (!ok) return ETIMEDOUT;
		}
	}
	static int unlock(void *m)
	{
		Harness h;
		{
			Mutex &x = mutexes[m];
			if (x.owner == cur) {
				if (--x.depth > 0) return 0;
				x.owner = nullptr;
			} else if (x.readers > 0) {
				--x.readers;
			}
			if (!x.owner && x.readers == 0) {
				for (Fiber *f : x.waiters) wake(f);
				x.waiters.clear();
			}
			if (!x.owner && x.readers == 0 && x.waiters.empty()) mutexes.erase(m);
		}
		yield_point("unlock");
		return 0;
	}
	static int rdlock(void *m, bool tryonly)
	{
		Harness h;
		yield_point("rdlock");
		for (;;) {
			Mutex &x = mutexes[m];
			if (!x.owner) {
				++x.readers;
				return 0;
			}
			if (tryonly) return EBUSY;
			x.waiters.push_back(cur);
			block(-1);
			auto &w = mutexes[m].waiters;
			w.erase(std::remove(w.begin(), w.end(), cur), w.end());
		}
	}
	static int cond_wait(void *c, void *m, ns deadline)
	{
		Harness h;
		conds[c].push_back(cur);
		{
			Mutex &x = mutexes[m];
			x.owner = nullptr;
			x.depth = 0;
			for (Fiber *f : x.waiters) wake(f);
			x.waiters.clear();
		}
		bool ok = block(deadline);
		auto &w = conds[c];
		w.erase(std::remove(w.begin(), w.end(), cur), w.end());
		lock(m, false, false, -1);
		return ok ? 0 : ETIMEDOUT;
	}
	static int cond_signal(void *c, bool all)
	{
		Harness h;
		auto it = conds.find(c);
		if (it != conds.end()) {
			auto &w = it->second;
			while (!w.empty()) {
				size_t i = all ? 0 : cur->costs.below(w.size());
				wake(w[i]);
				w.erase(w.begin() + i);
				if (!all) break;
			}
		}
		yield_point("signal");
		return 0;
	}
	// absolute deadline in some clock -> virtual monotonic time
	static ns abs_deadline(int clock, const struct timespec *ts)
	{
		ns t = (ns) ts->tv_sec * SEC + ts->tv_nsec;
		if (clock == CLOCK_REALTIME) t -= wall_offset;
		return std::max(t, now_);
	}
}

using namespace sim;

// ====================================================================== operator new/delete
static void *do_new(size_t n)
{
	void *p = use_arena() ? arena_alloc(n) : malloc(n ? n : 1);
	if (!p) {
		if (cur && cur->harness == 0) throw std::bad_alloc();
		fatal("out of memory");
	}
	return p;
}
static void do_delete(void *p)
{
	if (!p) return;
	if (in_arena(p)) arena_free(p);
	else free(p);
}
void *operator new(size_t n) { return do_new(n); }
void *operator new[](size_t n) { return do_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return use_arena() ? arena_alloc(n) : malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return use_arena() ? arena_alloc(n) : malloc(n ? n : 1); }
void operator delete(void *p) noexcept { do_delete(p); }
void operator delete[](void *p) noexcept { do_delete(p); }
void operator delete(void *p, size_t) noexcept { do_delete(p); }
void operator delete[](void *p, size_t) noexcept { do_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { do_delete(p); }

// ====================================================================== interposed libc / pthread
static const ns EPOCH = 1700000000LL * SEC;
static bool on_fiber() { return cur && cur->harness == 0; }

extern "C" {
static int get_clock(int clk, struct timespec *ts)
{
	if (!on_fiber()) return (int) syscall(SYS_clock_gettime, clk, ts);
	yield_point("clock");
	ns t = now_;
	switch (clk) {
	case CLOCK_REALTIME:
	case CLOCK_REALTIME_COARSE:
	case CLOCK_TAI: t += wall_offset; break;
	default: t += 1000 * SEC; break;
	}
	ts->tv_sec = t / SEC;
	ts->tv_nsec = t % SEC;
	return 0;
}
int clock_gettime(clockid_t clk, struct timespec *ts) { return get_clock(clk, ts); }
int gettimeofday(struct timeval *tv, void *)
{
	struct timespec ts;
	get_clock(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
time_t time(time_t *out)
{
	struct timespec ts;
	get_clock(CLOCK_REALTIME, &ts);
	if (out) *out = ts.tv_sec;
	return ts.tv_sec;
}
int nanosleep(const struct timespec *req, struct timespec *rem)
{
	if (!on_fiber()) return (int) syscall(SYS_nanosleep, req, rem);
	Harness h;
	ns d = (ns) req->tv_sec * SEC + req->tv_nsec;
	sleep_until(now_ + d + 50 * US);
	yield_point("sleep");
	if (rem) rem->tv_sec = rem->tv_nsec = 0;
	return 0;
}
int clock_nanosleep(clockid_t clk, int flags, const struct timespec *req, struct timespec *rem)
{
	if (!on_fiber()) return (int) syscall(SYS_clock_nanosleep, clk, flags, req, rem);
	Harness h;
	ns d = (ns) req->tv_sec * SEC + req->tv_nsec;
	if (flags & TIMER_ABSTIME) {
		ns base = clk == CLOCK_REALTIME ? wall_offset : 1000 * SEC;
		sleep_until(d - base);
	} else
		sleep_until(now_ + d + 50 * US);
	yield_point("sleep");
	return 0;
}
int usleep(useconds_t us)
{
	struct timespec ts = {(time_t) (us / 1000000), (long) (us % 1000000) * 1000};
	return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s)
{
	struct timespec ts = {(time_t) s, 0};
	nanosleep(&ts, nullptr);
	return 0;
}
int sched_yield()
{
	if (on_fiber()) yield_point("sched_yield");
	return 0;
}

struct StartArg {
	void *(*fn)(void *);
	void *arg;
};
int pthread_create(pthread_t *th, const pthread_attr_t *, void *(*fn)(void *), void *arg)
{
	if (!on_fiber()) fatal("thread created outside of the process under test");
	Harness h;
	Stream s(knobs.seed, "thread_start:" + std::to_string(next_fiber_));
	ns d = 5 * US + (ns) s.below((uint64_t) knobs.thread_start_max + 1);
	Fiber *f = spawn("thread", {}, d);
	f->fn = [f, fn, arg]() { f->retval = fn(arg); };
	*th = (pthread_t) f;
	trace_event("thread start " + std::to_string(f->id));
	yield_point("pthread_create");
	return 0;
}
int pthread_join(pthread_t th, void **ret)
{
	if (!cur) fatal("join outside of a fiber");
	Harness h;
	auto *f = (Fiber *) th;
	while (!f->done) {
		f->joiners.push_back(cur);
		block(-1);
	}
	if (ret) *ret = f->retval;
	yield_point("join");
	return 0;
}
int pthread_detach(pthread_t th)
{
	return 0;
}
pthread_t pthread_self() noexcept { return cur ? (pthread_t) cur : (pthread_t) 1; }
int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }

int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
	return on_fiber() ? lock(m, (m->__data.__kind & 3) == 1, false, -1) : 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept
{
	return on_fiber() ? lock(m, (m->__data.__kind & 3) == 1, true, -1) : 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) noexcept
{
	return on_fiber() ? lock(m, (m->__data.__kind & 3) == 1, false, abs_deadline(CLOCK_REALTIME, ts)) : 0;
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) noexcept
{
	struct timespec t = *ts;
	if (c != CLOCK_REALTIME) t.tv_sec -= 1000;
	return on_fiber() ? lock(m, (m->__data.__kind & 3) == 1, false, abs_deadline(c, &t)) : 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { return on_fiber() ? unlock(m) : 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept { return on_fiber() ? lock(m, false, false, -1) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) noexcept { return on_fiber() ? lock(m, false, true, -1) : 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept { return on_fiber() ? rdlock(m, false) : 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) noexcept { return on_fiber() ? rdlock(m, true) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept { return on_fiber() ? unlock(m) : 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	if (!on_fiber()) fatal("cond_wait outside of a fiber");
	return cond_wait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	if (!on_fiber()) fatal("cond_timedwait outside of a fiber");
	return cond_wait(c, m, abs_deadline(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const struct timespec *ts)
{
	if (!on_fiber()) fatal("cond_clockwait outside of a fiber");
	struct timespec t = *ts;
	if (clk != CLOCK_REALTIME) t.tv_sec -= 1000;
	return cond_wait(c, m, abs_deadline(clk, &t));
}
int pthread_cond_signal(pthread_cond_t *c) noexcept { return on_fiber() ? cond_signal(c, false) : 0; }
int pthread_cond_broadcast(pthread_cond_t *c) noexcept { return on_fiber() ? cond_signal(c, true) : 0; }
int pthread_cond_destroy(pthread_cond_t *) noexcept { return 0; }
int pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) noexcept { return 0; }

long syscall(long n, ...) noexcept
{
	va_list ap;
	va_start(ap, n);
	long a[6];
	for (auto &x : a) x = va_arg(ap, long);
	va_end(ap);
	if (n == SYS_futex && on_fiber()) {
		Harness h;
		int op = (int) a[1] & 127;
		if (op == 0 || op == 9) { // WAIT, WAIT_BITSET
			yield_point("futex");
			if (*(volatile int *) a[0] != (int) a[2]) {
				errno = EAGAIN;
				return -1;
			}
			ns dl = -1;
			if (a[3]) {
				auto *ts = (struct timespec *) a[3];
				ns t = (ns) ts->tv_sec * SEC + ts->tv_nsec;
				if (op == 0) dl = now_ + t;
				else if (a[1] & 256) dl = std::max(now_, t - wall_offset);
				else dl = std::max(now_, t - 1000 * SEC);
			}
			futexes[(void *) a[0]].push_back(cur);
			bool ok = block(dl);
			auto &w = futexes[(void *) a[0]];
			w.erase(std::remove(w.begin(), w.end(), cur), w.end());
			if (!ok) {
				errno = ETIMEDOUT;
				return -1;
			}
			return 0;
		}
		if (op == 1 || op == 10) { // WAKE
			auto &w = futexes[(void *) a[0]];
			long k = 0;
			while (!w.empty() && k < a[2]) {
				wake(w.front());
				w.erase(w.begin());
				++k;
			}
			yield_point("futex");
			return k;
		}
	}
	if (n == SYS_clock_gettime && on_fiber()) return get_clock((int) a[0], (struct timespec *) a[1]);
	if (n == SYS_gettid && on_fiber()) return cur->id;
	long r;
	register long r10 asm("r10") = a[3];
	register long r8 asm("r8") = a[4];
	register long r9 asm("r9") = a[5];
	asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	if (r < 0 && r > -4096) {
		errno = (int) -r;
		return -1;
	}
	return r;
}

void exit(int status) noexcept
{
	if (cur) die("exit", status, true);
	fflush(stdout);
	fflush(stderr);
	syscall(SYS_exit_group, status);
	__builtin_unreachable();
}
void _exit(int status)
{
	if (cur) die("exit", status, true);
	syscall(SYS_exit_group, status);
	__builtin_unreachable();
}
void quick_exit(int status) noexcept { exit(status); }
void abort() noexcept
{
	if (cur && cur->harness == 0) {
		std::string why = "abort";
		++cur->harness;
		if (auto *ti = abi::__cxa_current_exception_type()) {
			int st;
			char *n = abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st);
			why += " (uncaught ";
			why += n ? n : ti->name();
			try { throw; } catch (std::exception &e) { why += std::string(": ") + e.what(); } catch (...) {}
			why += ")";
		}
		die(why, 134, false);
	}
	static const char m[] = "SIMULATOR ERROR: abort\n";
	if (write(2, m, sizeof m - 1)) {}
	syscall(SYS_exit_group, 97);
	__builtin_unreachable();
}
ssize_t getrandom(void *buf, size_t n, unsigned)
{
	static Stream s(knobs.seed, "getrandom");
	for (size_t i = 0; i < n; ++i) ((char *) buf)[i] = (char) s.u64();
	return (ssize_t) n;
}
int getentropy(void *buf, size_t n)
{
	getrandom(buf, n, 0);
	return 0;
}
}
namespace sim { ns epoch() { return EPOCH; } }
