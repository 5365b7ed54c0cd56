// The real reactor, driven by scripted peers and handlers; everything routed must arrive once, complete, in order.
#include "net.h"
#include "world.h"
#include <algorithm>
#include <dlfcn.h>

namespace sim
{
	namespace
	{
		struct M {
			std::string key, ident;
			Msg data;
			bool operator==(const M &o) const { return key == o.key && ident == o.ident && data == o.data; }
		};
		std::string show(const M &m)
		{
			std::string s = m.key + "|" + pct_encode(m.ident);
			for (auto &d : m.data) s += "|" + pct_encode(d.size() > 24 ? d.substr(0, 24) : d);
			return s;
		}
		struct Queue { // messages on one path, in order
			std::deque<std::pair<M, ns>> q;
		};
		struct RW {
			std::vector<Violation> violations;
			std::map<std::string, uint64_t> probes, faults;
			std::set<uint64_t> states;
			int asyncs = 1, sinks = 1;
			ns slow = 0;
			// what async handler k must still get: from the reactor's own thread, and from handler j
			std::vector<Queue> own;
			std::map<std::pair<int, int>, Queue> relay;  // (source, target)
			std::map<std::pair<int, int>, Queue> back;   // (source, sink)
			std::map<int, Queue> out;                    // source -> socket
			std::map<std::string, Queue> wire;           // peer -> what its connection must deliver
			std::vector<int> active;
			std::vector<Fiber *> thread;
			Fiber *main = nullptr;
			ns term_at = -1, returned_at = -1, finished_at = -1;
			uint64_t backlog_at_term = 0, handled = 0, routed = 0, responses = 0;
			uint64_t handled_at_term = 0;

			void viol(const std::string &code, const std::string &text)
			{
				if (violations.size() > 20) return;
				Violation v;
				v.props = {"C20"};
				v.code = code;
				v.text = text;
				v.t = now();
				violations.push_back(v);
				trace_event("VIOLATION " + code + " " + text);
			}
			uint64_t pending()
			{
				uint64_t n = 0;
				for (auto &q : own) n += q.q.size();
				return n;
			}
			bool take(Queue &q, const M &m)
			{
				if (q.q.empty() || !(q.q.front().first == m)) return false;
				q.q.pop_front();
				return true;
			}
			static bool contains(const Queue &q, const M &m)
			{
				for (auto &x : q.q)
					if (x.first == m) return true;
				return false;
			}
			void event(int kind, int who, const M &m)
			{
				switch (kind) {
				case 0: { // routed to async<k> by the reactor's thread
					int k = m.key.size() > 5 ? atoi(m.key.c_str() + 5) : -1;
					if (k >= 0 && k < asyncs) own[k].q.push_back({m, now()}), ++routed;
					break;
				}
				case 7:
					if (m.key == "direct")
						for (auto &q : own) q.q.push_back({m, now()}), ++routed;
					if (!m.data.empty()) {
						auto &q = wire[m.key + "/" + m.ident];
						M w = m;
						if (!take(q, w)) viol("receive", "message from a peer's socket differs from what was sent: " + show(m));
					}
					break;
				case 1: {
					if (who < 0 || who >= asyncs) return;
					if (returned_at >= 0) viol("after-return", "handler " + std::to_string(who) + " is still running after the loop has returned");
					if (active[who]++) viol("overlap", "handler " + std::to_string(who) + " entered twice at the same time");
					if (!thread[who]) thread[who] = cur;
					if (thread[who] != cur || cur == main) viol("thread", "handler " + std::to_string(who) + " does not run in its own thread");
					bool ok = false;
					if (m.key == "relay") {
						for (int j = 0; j < asyncs && !ok; ++j) ok = take(relay[{j, who}], m);
						if (!ok) viol("relay", "handler " + std::to_string(who) + " got " + show(m) + " out of order, twice or changed");
					} else {
						ok = take(own[who], m);
						if (!ok) {
							bool later = contains(own[who], m);
							viol(later ? "skipped" : "unexpected", "handler " + std::to_string(who) + " got " + show(m) +
									(own[who].q.empty() ? " but nothing is due" : " but " + show(own[who].q.front().first) + " is due"));
							while (later && !own[who].q.empty() && !take(own[who], m)) own[who].q.pop_front();
						}
					}
					break;
				}
				case 2:
					if (who >= 0 && who < asyncs) --active[who];
					++handled;
					break;
				case 3:
					++responses;
					if (m.key == "out") out[who].q.push_back({m, now()});
					else if (m.key == "back")
						for (int s = 0; s < sinks; ++s) back[{who, s}].q.push_back({m, now()});
					else if (m.key == "relay")
						relay[{who, 0}].q.push_back({m, now()});
					break;
				case 6: {
					if (cur != main) viol("thread", "a synchronous handler runs outside of the reactor's thread");
					bool ok = false;
					for (int j = 0; j < asyncs && !ok; ++j) ok = take(back[{j, who}], m);
					if (!ok) viol("response", "handler of responses got " + show(m) + " out of order, twice or changed");
					break;
				}
				case 8: {
					if (cur != main) viol("thread", "a socket is used outside of the reactor's thread");
					bool ok = false;
					for (int j = 0; j < asyncs && !ok; ++j) ok = take(out[j], m);
					if (!ok) viol("response", "socket was sent " + show(m) + " out of order, twice or changed");
					break;
				}
				case 5:
					term_at = now();
					handled_at_term = handled;
					backlog_at_term = pending();
					break;
				case 4:
					returned_at = now();
					for (int k = 0; k < asyncs; ++k) {
						if (active[k]) viol("unfinished", "loop returned while handler " + std::to_string(k) + " is processing a message");
						if (!own[k].q.empty())
							viol("lost", std::to_string(own[k].q.size()) + " messages routed to handler " + std::to_string(k) + " were never processed, first " + show(own[k].q.front().first));
					}
					break;
				}
				uint64_t st = hash_str("k" + std::to_string(kind) + "w" + std::to_string(who) + "t" + std::to_string(term_at >= 0) + "p" + std::to_string(std::min<uint64_t>(pending(), 12)));
				for (auto a : active) st = mix(st, a);
				states.insert(st);
			}
			// everything answered well before the end must have got where it was sent
			void settled(ns before)
			{
				auto chk = [&](const Queue &q, const std::string &what) {
					if (!q.q.empty() && q.q.front().second < before)
						viol("response-lost", what + " never arrived: " + show(q.q.front().first) + ", sent at " + std::to_string(q.q.front().second / MS) + " ms");
				};
				for (auto &p : out) chk(p.second, "response for a socket");
				for (auto &p : back) chk(p.second, "response for a handler");
				for (auto &p : relay) chk(p.second, "response for another asynchronous handler");
			}
		};
		RW *rw;
		struct scn_conf {
			int asyncs, sinks, echo, pre;
			long long slow_us, term_us;
			const char *const *pre_data;
			const unsigned long *pre_len;
		};
	}

	Result run_reactor(const Plan &plan, const std::string &)
	{
		rw = new RW;
		knobs.seed = plan.num("seed", 1);
		knobs.cost_max = plan.num("cost_us", 20) * US;
		knobs.preempt_p = plan.real("preempt_p", 0);
		knobs.preempt_max = plan.num("preempt_us", 0) * US;
		knobs.thread_start_max = plan.num("tstart_us", 0) * US;
		knobs.wake_max = plan.num("wake_us", 50) * US;
		max_steps = 20000000;
		wall_offset = epoch();
		arena_init(knobs.seed);
		net::monitor_port = -1;
		auto main_fn = (void (*)(const void *)) dlsym(broker_library, "scn_reactor_main");
		if (!main_fn) fatal("no reactor scenario in the library");
		static scn_conf c;
		c.asyncs = rw->asyncs = (int) std::max<int64_t>(1, plan.num("asyncs", 1));
		c.sinks = rw->sinks = (int) std::max<int64_t>(1, plan.num("sinks", 1));
		c.echo = (int) plan.num("echo", 0);
		c.pre = (int) plan.num("pre", 0);
		c.slow_us = plan.num("slow_us", 0);
		c.term_us = plan.num("term_ms", 1000) < 0 ? -1 : plan.num("term_ms", 1000) * 1000;
		rw->slow = c.slow_us * US;
		static std::vector<std::string> pre;
		static std::vector<const char *> pd;
		static std::vector<unsigned long> pl;
		Stream s(knobs.seed, "pre");
		for (int i = 0; i < c.pre; ++i) {
			std::string d;
			for (int64_t n = s.range(0, 9); n > 0; --n) d += (char) s.below(256);
			pre.push_back(d);
		}
		for (auto &d : pre) pd.push_back(d.data()), pl.push_back(d.size());
		c.pre_data = pd.data();
		c.pre_len = pl.data();
		rw->own.resize(c.asyncs);
		rw->active.resize(c.asyncs);
		rw->thread.resize(c.asyncs);
		observer = nullptr;
		on_death = []() {
			rw->viol("died", "process ended: " + death.reason);
			rw->finished_at = now();
		};
		// peers
		static std::map<std::string, Conn *> peers;
		for (int i = 0; i < 3; ++i)
			for (int port : {7001, 7002, 7003}) {
				std::string id = "peer" + std::to_string(i);
				peers[std::to_string(port) + id] = net::connect(id, port, id);
			}
		int uid = 0;
		ns last = 0;
		for (auto &a : plan.acts) {
			int u = uid++;
			last = std::max(last, a.t);
			if (a.kind == "stall") {
				at(a.t, [&a]() {
					++rw->faults["process-stall"];
					stall_until = std::max(stall_until, now() + a.num("ms") * MS);
				});
				continue;
			}
			at(a.t, [&a, u, &c = c, last]() {
				if (rw->returned_at >= 0 || rw->finished_at >= 0) return;
				Stream d(knobs.seed, "data" + std::to_string(u));
				bool direct = a.get("via") == "socket";
				std::string peer = "peer" + std::to_string(u % 3);
				Msg m;
				if (!direct) m.push_back(std::to_string(a.num("to") % c.asyncs));
				m.push_back("u" + std::to_string(u));
				for (int64_t i = 0; i < a.num("n"); ++i) {
					std::string x;
					for (int64_t j = 0; j < a.num("len"); ++j) x += (char) d.below(256);
					m.push_back(x);
				}
				M w;
				w.key = direct ? "direct" : "io";
				w.ident = peer;
				w.data = m;
				rw->wire[w.key + "/" + peer].q.push_back({w, now()});
				net::send(peers[(direct ? "7002" : "7001") + peer], m);
				++rw->probes[direct ? "routed-from-socket" : "routed-by-handler"];
			});
		}
		spawn("main", [main_fn]() {
			rw->main = cur;
			main_fn(&c);
			Harness h;
			rw->finished_at = now();
		}, 0);

		ns deadline = -1;
		double p = knobs.preempt_p * (double) knobs.preempt_max;
		ns per = 120 * (knobs.cost_max + knobs.wake_max + (ns) p) + 20 * knobs.preempt_max + 4 * rw->slow + 20 * MS;
		bool quiet = run_until([&]() {
			if (rw->finished_at >= 0) return true;
			if (rw->violations.size() > 15) return true;
			if (rw->term_at >= 0 && deadline < 0) // what was routed so far and what the last rounds may still add
				deadline = std::max(rw->term_at, stall_until) + 5 * SEC + knobs.thread_start_max + (ns) (rw->backlog_at_term + 20) * per;
			if (deadline >= 0 && now() > std::max(deadline, stall_until + 5 * SEC) && rw->returned_at < 0) {
				rw->viol("no-termination", "loop still runs " + std::to_string((now() - rw->term_at) / MS) + " ms after it was told to terminate");
				return true;
			}
			return false;
		});
		if (!quiet && rw->finished_at < 0) rw->viol(steps() > max_steps ? "livelock" : "deadlock", rw->term_at >= 0 ? "does not end after it was told to terminate" : "nothing left to happen");
		if (rw->term_at >= 0 && rw->finished_at >= 0) {
			// answers made long before the end, unless the reactor was behind
			ns margin = 2 * SEC + (ns) rw->responses * per;
			rw->settled(rw->term_at - margin);
		}
		Result r;
		r.completed = quiet;
		r.violations = rw->violations;
		r.hash = trace_hash;
		r.steps = steps();
		r.sim_time = now();
		rw->probes["handled"] += rw->handled;
		rw->probes["responses"] += rw->responses;
		if (c.term_us < 0) rw->faults["terminate-before-start"]++;
		else
			rw->faults["terminate-at-arbitrary-time"]++;
		if (c.pre) rw->faults["message-before-thread-start"] += c.pre;
		if (rw->backlog_at_term) rw->faults["terminate-with-backlog"]++;
		if (rw->backlog_at_term > 1000) rw->probes["backlog-over-1000"]++;
		if (n_preempt) rw->faults["preemption"] += n_preempt;
		r.faults = rw->faults;
		r.probes = rw->probes;
		r.states = rw->states;
		return r;
	}
}

extern "C" void sim_scn_event(int kind, int who, const char *key, const char *ident, unsigned long il, const char *const *frames, const unsigned long *lens, int n)
{
	using namespace sim;
	Harness h;
	M m;
	m.key = key;
	m.ident.assign(ident, il);
	for (int i = 0; i < n; ++i) m.data.emplace_back(frames[i], lens[i]);
	trace_event("scn " + std::to_string(kind) + " " + std::to_string(who) + " " + show(m));
	rw->event(kind, who, m);
}
