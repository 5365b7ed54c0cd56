#include "world.h"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>

namespace sim
{
	void *broker_library = nullptr;
	static bool log_fails = false;
	static uint64_t log_lines = 0, log_failures = 0;
	static std::function<int(const std::string &, uint64_t, uint64_t)> log_opened;
	static std::function<void(int, const std::string &)> log_written;

	static std::vector<std::string> split(const std::string &s, char sep)
	{
		std::vector<std::string> v;
		size_t i = 0;
		for (;;) {
			size_t e = s.find(sep, i);
			if (e == std::string::npos) {
				v.push_back(s.substr(i));
				return v;
			}
			v.push_back(s.substr(i, e - i));
			i = e + 1;
		}
	}

	struct World;
	static World *W;

	struct Outcome {
		std::string kind = "OK";
		ns dur = 50 * MS;
		int nprog = 1;
		std::string msg, extra;
	};

	// A worker that follows the protocol of the real one: it introduces itself, pings, evaluates one job at a time,
	// reports progress and the result, and reconnects when the broker stays silent.
	struct Worker {
		std::string name, hw, desc;
		std::vector<std::string> headers;
		ns ping = 500 * MS;
		int wl = 4;
		int xo = 0; // order of the optional frames of its introduction
		bool up = false, stalled = false, extra_ok = false;
		int life = 0;  // crash generation
		int nconn = 0;
		Conn *c = nullptr;
		int missed = 0;
		std::string job;
		int jobn = 0;
		std::deque<std::string> todo; // jobs received while busy (only after it reported something wrong)
		std::deque<std::function<void()>> deferred;
		std::set<std::string> part;

		void later(ns d, std::function<void()> f);
		void act(std::function<void()> f)
		{
			if (stalled) deferred.push_back(std::move(f));
			else f();
		}
		void start();
		void connect();
		void drop_conn(bool power);
		void crash(bool power);
		void unstall();
		void tick();
		void init();
		void on_msg(const Msg &m);
		void begin(const std::string &id);
		void progress(const std::string &id, int n, const std::string &what);
		void finish(const std::string &id, int n, const Outcome &o);
	};

	struct Client {
		std::string name;
		Conn *c = nullptr;
		bool fresh = false;
		int expect = 0;
	};

	struct World : Observer {
		const Plan &plan;
		Model model;
		Config cfg;
		std::string scratch, cfgpath;
		std::map<std::string, Worker *> workers;
		std::map<std::string, Client *> clients;
		std::map<std::string, Conn *> rogues;
		std::map<std::string, Peer> peers; // by identity
		std::map<std::string, std::vector<std::string>> outcomes;
		std::map<std::string, int> attempts;
		std::map<const Action *, int> again_tries;
		std::map<std::string, uint64_t> faults;
		ns up_since = 0;
		bool broker_up = false, stop = false, planned = false, healed = false, expect_exit = false, started_once = false;
		int fresh_n = 0;
		uint64_t boundary = 0, crash_at = 0;
		ns crash_down = 0;
		ns heal_at = 0, last_act = 0, deadline = 0;
		int pending_acts = 0;
		std::vector<std::pair<ns, size_t>> heap_marks;
		ns served_since = -1;

		explicit World(const Plan &p) : plan(p) {}

		// ---- observer: forwards to the model, and can kill the process at an exact boundary event
		void tick_boundary()
		{
			++boundary;
			if (crash_at && boundary >= crash_at) {
				crash_at = 0;
				planned = true;
				++faults["broker-crash-at-event"];
				die("planned crash", 137, false);
			}
		}
		void on_recv(int port, const std::string &id, const Msg &f, ns a) override
		{
			model.on_recv(port, id, f, a);
			tick_boundary();
		}
		void on_send(int port, const std::string &id, const Msg &f, bool routed) override
		{
			model.on_send(port, id, f, routed);
			tick_boundary();
		}
		void on_poll_enter(bool d) override { model.on_poll_enter(d); }
		void on_poll_exit() override { model.on_poll_exit(); }
		void on_bind(const std::string &e, bool ok) override { model.on_bind(e, ok); }
		void on_connect(const std::string &e) override { model.on_connect(e); }

		Peer who(int port, const std::string &id)
		{
			if (port == cfg.mport) return Peer{"monitor", false, false};
			auto it = peers.find(id);
			return it == peers.end() ? Peer{} : it->second;
		}
		Conn *open(const std::string &name, int port, bool rogue, bool flooding = false, const std::string &fixed = "")
		{
			Conn *c = net::connect(name, port, fixed);
			ns lo = plan.num("lat_min_us", 50) * US, hi = plan.num("lat_max_us", 500) * US;
			c->lat_min = lo;
			c->lat_max = hi;
			c->on_up = [this, c, name, rogue, flooding]() { peers[c->identity] = Peer{name, rogue, flooding}; };
			return c;
		}
		void start_broker();
		void stop_broker();
		void died();
		void config_text(std::string &out);
		void apply(const Action &a);
		void heal();
		Client *client_for(const Action &a);
		Outcome outcome(const std::string &job);
		void start_flood(const Action &a);
		void all_done_mark();
	};

	// ------------------------------------------------------------------ worker
	void Worker::later(ns d, std::function<void()> f)
	{
		int l = life;
		at(now() + d, [this, l, f]() {
			if (life != l || !up) return;
			act([this, l, f]() {
				if (life == l && up) f();
			});
		});
	}
	void Worker::start()
	{
		if (up) return;
		up = true;
		stalled = false;
		++life;
		job.clear();
		trace_event("worker " + name + " starts");
		connect();
		later(ping, [this]() { tick(); });
	}
	void Worker::connect()
	{
		++nconn;
		c = W->open(nconn == 1 ? name : name + "#" + std::to_string(nconn), W->cfg.wport, false);
		missed = 0;
		Conn *cc = c;
		c->on_msg = [this, cc](const Msg &m) {
			if (cc != c) return;
			act([this, cc, m]() {
				if (cc == c) on_msg(m);
			});
		};
		init();
	}
	void Worker::init()
	{
		Msg m = {"init", hw};
		for (auto &h : headers) m.push_back(h);
		if (!desc.empty() || !job.empty()) {
			m.push_back("");
			if (xo == 2) m.push_back("version=1.2");
			if (!job.empty() && xo) m.push_back("current_job=" + job);
			if (!desc.empty()) m.push_back("description=" + desc);
			if (!job.empty() && !xo) m.push_back("current_job=" + job);
			if (xo == 3) m.push_back("current_jobs=1");
		}
		net::send(c, m);
	}
	void Worker::tick()
	{
		if (++missed > wl) {
			++W->model.probes["worker-reconnected"];
			drop_conn(false);
			connect();
		}
		net::send(c, {"ping"});
		later(ping, [this]() { tick(); });
	}
	void Worker::drop_conn(bool power)
	{
		if (!c) return;
		todo.clear();
		Conn *cc = c;
		c = nullptr;
		if (power) {
			cc->on_msg = nullptr;
			cc->on_up = cc->on_down = nullptr;
			net::hold(cc);
			cc->open = false;
		} else
			net::close(cc);
	}
	void Worker::crash(bool power)
	{
		if (!up) return;
		trace_event("worker " + name + (power ? " loses power" : " crashes"));
		up = false;
		stalled = false;
		++life;
		job.clear();
		todo.clear();
		deferred.clear();
		drop_conn(power);
	}
	void Worker::unstall()
	{
		if (!stalled) return;
		stalled = false;
		auto d = std::move(deferred);
		deferred.clear();
		for (auto &f : d) act(f);
	}
	void Worker::on_msg(const Msg &m)
	{
		missed = 0;
		if (m.empty()) return;
		if (m[0] == "intro") init();
		else if (m[0] == "eval" && m.size() >= 2) {
			if (job.empty()) begin(m[1]);
			else {
				++W->model.probes["worker-busy-eval"];
				todo.push_back(m[1]);
			}
		}
	}
	void Worker::begin(const std::string &id)
	{
		job = id;
		int n = ++jobn;
		Outcome o = W->outcome(id);
		for (int k = 0; k < o.nprog; ++k) {
			std::string what = k == 0 ? "STARTED" : "TASK";
			later(o.dur * (k + 1) / (o.nprog + 1), [this, id, n, k, what]() {
				if (jobn == n && job == id) progress(id, k, what);
			});
		}
		later(o.dur, [this, id, n, o]() {
			if (jobn == n && job == id) finish(id, n, o);
		});
	}
	void Worker::progress(const std::string &id, int n, const std::string &what)
	{
		Msg m = {"progress", id, what};
		if (what == "TASK") {
			m.push_back("task_" + std::to_string(n));
			m.push_back(n % 3 ? "COMPLETED" : "SKIPPED");
		}
		net::send(c, m);
	}
	void Worker::finish(const std::string &id, int, const Outcome &o)
	{
		std::string k = o.kind;
		char mod = 0; // an irregularity that accompanies the result
		size_t plus = k.find('+');
		if (plus != std::string::npos) mod = k[plus + 1], k.resize(plus);
		bool dup = mod == 'D', lie = mod == 'L', mal = mod == 'M', pre = mod == 'P';
		if (k == "CRASH") {
			if (!W->healed) {
				ns down = atoll(o.extra.c_str()) * MS;
				++W->faults["worker-crash-in-job"];
				crash(o.msg == "power");
				at(now() + down, [this]() { start(); });
				return;
			}
			k = "OK";
		}
		Msg m = {"done", id};
		if (k == "OK") {
			m.push_back("OK");
			if (extra_ok) m.push_back("");
		} else {
			m.push_back(k == "FAIL" ? "FAILED" : "INTERNAL_ERROR");
			m.push_back(o.msg);
		}
		job.clear();
		if (lie) {
			++W->faults["mismatched-result"];
			net::send(c, {"done", id + "x", "OK"});
		}
		if (pre) { // something that only looks like a result of this job
			++W->faults["mismatched-result"];
			std::string like = id;
			if (like.size() > 1 && o.extra != "1") like.pop_back();
			else like = "";
			net::send(c, {"done", like, "OK"});
		}
		if (mal) {
			static const std::vector<Msg> tails = {{}, {"INTERNAL_ERROR"}, {"FAILED"}, {"INTERNAL_ERROR", "a", "b"}, {"FAILED", "a", "b"}, {"ok"}, {""}, {"OK "}, {"UNKNOWN", "x"}};
			Msg bad = {"done", id};
			for (auto &t : tails[atoi(o.extra.c_str()) % tails.size()]) bad.push_back(t);
			++W->faults["malformed-result"];
			net::send(c, bad);
		}
		net::send(c, m);
		if (dup) {
			++W->faults["duplicated-result"];
			net::send(c, m);
		}
		if (!todo.empty()) {
			std::string next = todo.front();
			todo.pop_front();
			begin(next);
		}
	}

	// ------------------------------------------------------------------ world
	Outcome World::outcome(const std::string &job)
	{
		Outcome o;
		int n = attempts[job]++;
		auto it = outcomes.find(job);
		if (it == outcomes.end() || n >= (int) it->second.size()) return o;
		auto f = split(it->second[n], ':');
		o.kind = f[0];
		if (f.size() > 1) o.dur = atoll(f[1].c_str()) * US;
		if (f.size() > 2) o.nprog = atoi(f[2].c_str());
		if (f.size() > 3) o.msg = pct_decode(f[3]);
		if (f.size() > 4) o.extra = f[4];
		return o;
	}
	static std::string yaml_quote(const std::string &s) { return "\"" + s + "\""; }
	void World::config_text(std::string &out)
	{
		if (plan.kv.count("cfgraw")) {
			out = plan.get("cfgraw");
			return;
		}
		std::set<std::string> omit;
		for (auto &x : split_list(plan.get("omit"))) omit.insert(x);
		std::ostringstream o;
		// an omitted item is left out, or its key stands there without a value
		int64_t form = plan.num("omit_form");
		auto item = [&](const std::string &name, const std::string &line) {
			if (!omit.count(name)) o << line << "\n";
			else if (form) o << line.substr(0, line.find(':') + 1) << (form == 2 ? " ~" : "") << "\n";
		};
		auto section = [&](const std::string &name) {
			o << name << ":\n";
			return true;
		};
		auto empty_section = [&](std::initializer_list<const char *> items) {
			for (auto i : items)
				if (!omit.count(i)) return false;
			std::string name = *items.begin();
			if (form) o << name.substr(0, name.find('.')) << (form == 2 ? ": ~\n" : ":\n");
			return true;
		};
		if (!empty_section({"clients.address", "clients.port"}) && section("clients")) {
			item("clients.address", "    address: " + yaml_quote(cfg.caddr));
			item("clients.port", "    port: " + std::to_string(cfg.cport));
		}
		if (!empty_section({"workers.address", "workers.port", "workers.max_liveness", "workers.max_request_failures", "workers.ping_interval"}) && section("workers")) {
			item("workers.address", "    address: " + yaml_quote(cfg.waddr));
			item("workers.port", "    port: " + std::to_string(cfg.wport));
			item("workers.max_liveness", "    max_liveness: " + std::to_string(cfg.L));
			item("workers.max_request_failures", "    max_request_failures: " + std::to_string(cfg.maxfail));
			item("workers.ping_interval", "    ping_interval: " + std::to_string(cfg.ping / MS));
		}
		if (!empty_section({"monitor.address", "monitor.port"}) && section("monitor")) {
			item("monitor.address", "    address: " + yaml_quote(cfg.maddr));
			item("monitor.port", "    port: " + std::to_string(cfg.mport));
		}
		o << "notifier:\n";
		o << "    address: " << yaml_quote(plan.get("fe", "http://frontend.example/v1/broker-reports")) << "\n";
		item("notifier.port", "    port: " + std::to_string(plan.num("fe_port", 8080)));
		if (plan.kv.count("fe_user")) o << "    username: " << yaml_quote(plan.get("fe_user")) << "\n";
		if (plan.kv.count("fe_pass")) o << "    password: " << yaml_quote(plan.get("fe_pass")) << "\n";
		o << "logger:\n    file: " << yaml_quote(scratch + "/" + plan.get("logfile", "broker")) << "\n";
		item("logger.level", "    level: " + yaml_quote(plan.get("loglevel", "debug")));
		item("logger.max-size", "    max-size: " + std::to_string(plan.num("logsize", 1048576)));
		item("logger.rotations", "    rotations: " + std::to_string(plan.num("logfiles", 3)));
		item("queue_manager", "queue_manager: " + yaml_quote(plan.get("qm_name", cfg.qm)));
		out = o.str();
	}
	static int (*broker_main)(int, char **);
	static char *main_argv[4];
	static int main_argc = 3;
	void World::start_broker()
	{
		if (broker_up || stop) return;
		broker_up = true;
		up_since = now();
		death = Death();
		trace_event("broker starts");
		model.started();
		if (started_once) restore_library();
		started_once = true;
		boundary = 0;
		spawn("main", []() {
			int rc = broker_main(main_argc, main_argv);
			die("main returned", rc, true);
		}, 0);
	}
	void World::stop_broker()
	{
		if (!broker_up) return;
		broker_up = false;
		kill_all_fibers();
		net::process_crashed();
		frontend_crashed_client();
		reset_sync();
		model.crashed();
		stall_until = 0;
		trace_event("broker gone");
	}
	void World::died()
	{
		std::string why = death.reason + " status " + std::to_string(death.status);
		bool p = planned;
		planned = false;
		if (!p) trace_event("broker died: " + why);
		stop_broker();
		if (p) {
			at(now() + crash_down, [this]() { start_broker(); });
			return;
		}
		stop = true;
		if (expect_exit && death.clean && death.status != 0) {
			++model.probes["refused-to-start"];
			return;
		}
		if (expect_exit)
			model.viol("C22", death.clean ? "success-status" : "crash-on-bad-config", "broker ended (" + why + ") instead of refusing the configuration with a failure status");
		else
			model.viol("C00", "broker-died", "broker ended: " + why);
	}

	Client *World::client_for(const Action &a)
	{
		std::string n = a.get("client");
		if (!n.empty()) {
			Client *&c = clients[n];
			if (!c) {
				c = new Client;
				c->name = n;
				c->c = open(n, cfg.cport, false, false, a.get("cid"));
			}
			return c;
		}
		auto *c = new Client;
		c->name = "c" + std::to_string(++fresh_n);
		c->fresh = true;
		c->c = open(c->name, cfg.cport, false, false, a.get("cid"));
		return c;
	}
	void World::start_flood(const Action &a)
	{
		std::string role = a.get("role", "c");
		Conn *c = open("flood" + std::to_string(a.id), role == "w" ? cfg.wport : cfg.cport, true, true);
		int n = (int) a.num("n", 100);
		ns gap = a.num("gap_us", 100) * US;
		Msg m = split_list(a.get("frames"));
		++faults["flood"];
		for (int i = 0; i < n; ++i)
			at(now() + 1 * MS + gap * i, [c, m]() { net::send(c, m); });
		at(now() + 1 * MS + gap * (n + 1), [c]() { net::close(c); });
	}

	void World::apply(const Action &a)
	{
		const std::string &k = a.kind;
		if (stop) return;
		auto wk = [&]() -> Worker * {
			auto it = workers.find(a.get("w"));
			return it == workers.end() ? nullptr : it->second;
		};
		auto for_clients = [&](Msg m, int replies) {
			Client *c = client_for(a);
			net::send(c->c, m);
			if (c->fresh) {
				c->expect = replies;
				Conn *cc = c->c;
				if (a.a.count("early")) {
					++faults["client-disconnect"];
					at(now() + a.num("early") * US, [cc]() { net::close(cc); });
				} else
					cc->on_msg = [c, cc](const Msg &) {
						if (--c->expect <= 0) at(now() + 1 * MS, [cc]() { net::close(cc); });
					};
			}
		};
		if (k == "worker") {
			Worker *&w = workers[a.get("w")];
			if (w) return;
			w = new Worker;
			w->name = a.get("w");
			w->hw = a.get("hw");
			w->headers = split_list(a.get("h"));
			w->desc = a.get("desc");
			w->xo = (int) a.num("xo");
			w->ping = a.num("ping", 500) * MS;
			w->wl = (int) a.num("wl", 4);
			w->extra_ok = a.num("xok");
			w->start();
		} else if (k == "job") {
			if (a.num("again")) {
				if (model.open_job(a.get("id"))) { // it has not ended yet
					if (again_tries[&a]++ > 100) return;
					++pending_acts;
					at(now() + 300 * MS, [this, &a]() {
						--pending_acts;
						apply(a);
					});
					return;
				}
				++model.probes["resubmitted"];
				attempts[a.get("id")] = 0;
			}
			Msg m = {"eval", a.get("id")};
			for (auto &h : split_list(a.get("h"))) m.push_back(h);
			m.push_back("");
			for (auto &p : split_list(a.get("p"))) m.push_back(p);
			outcomes[a.get("id")] = split_list(a.get("out"));
			for_clients(m, 2);
		} else if (k == "freeze" || k == "unfreeze") {
			for_clients({k}, 1);
		} else if (k == "stats") {
			for_clients({"get-runtime-stats"}, 1);
		} else if (k == "wcrash") {
			if (Worker *w = wk()) {
				if (healed) return;
				++faults[a.num("power") ? "worker-power-loss" : "worker-crash"];
				w->crash(a.num("power"));
				if (a.a.count("down")) at(now() + a.num("down") * MS, [w]() { w->start(); });
			}
		} else if (k == "wleave") { // shut down for good
			if (Worker *w = wk()) {
				++faults["worker-leave"];
				w->crash(false);
				workers.erase(w->name);
			}
		} else if (k == "wstall") {
			if (Worker *w = wk()) {
				if (healed || !w->up) return;
				++faults["worker-stall"];
				w->stalled = true;
				int l = w->life;
				at(now() + a.num("ms") * MS, [w, l]() {
					if (w->life == l) w->unstall();
				});
			}
		} else if (k == "wreset") {
			if (Worker *w = wk()) {
				if (healed || !w->c) return;
				++faults["connection-reset"];
				net::reset(w->c, a.num("ms", 100) * MS);
			}
		} else if (k == "wpart") {
			if (Worker *w = wk()) {
				if (healed || !w->c) return;
				bool lossy = a.num("lossy");
				++faults[lossy ? "partition-lossy" : "partition-delay"];
				Conn *c = w->c;
				net::hold(c);
				at(now() + a.num("ms", 100) * MS, [c, lossy]() {
					if (c->open) net::release(c, lossy, 50 * MS);
					else if (c->held && !c->on_up) { // the actor gave it up meanwhile
						net::release(c, true, 0);
					}
				});
			}
		} else if (k == "slowlink") {
			if (Worker *w = wk()) {
				if (healed || !w->c) return;
				++faults["slow-link"];
				Conn *c = w->c;
				ns lo = c->lat_min, hi = c->lat_max;
				c->lat_max = a.num("us", 10000) * US;
				c->lat_min = c->lat_max / 4;
				at(now() + a.num("ms", 1000) * MS, [c, lo, hi]() { c->lat_min = lo, c->lat_max = hi; });
			}
		} else if (k == "raw") {
			bool worker = a.get("role", "c") == "w";
			std::string peer = a.get("peer", "rogue");
			Conn *&c = rogues[peer];
			if (!c || !c->open) c = open(peer, worker ? cfg.wport : cfg.cport, true, false, a.get("cid"));
			net::send(c, split_list(a.get("frames")));
			++faults["malformed-or-hostile-message"];
		} else if (k == "wraw") { // an otherwise well-behaved worker sends something odd
			if (Worker *w = wk()) {
				if (!w->c || !w->up) return;
				net::send(w->c, split_list(a.get("frames")));
				++faults["odd-worker-message"];
			}
		} else if (k == "rawclose") {
			auto it = rogues.find(a.get("peer", "rogue"));
			if (it != rogues.end() && it->second) {
				net::close(it->second);
				it->second = nullptr;
			}
		} else if (k == "monraw") {
			net::monitor_send(split_list(a.get("frames")));
			++faults["message-from-monitor"];
		} else if (k == "bcrash") {
			if (healed || !broker_up) return;
			crash_down = a.num("down", 500) * MS;
			if (a.a.count("n")) {
				crash_at = boundary + a.num("n");
			} else {
				++faults["broker-crash"];
				stop_broker();
				at(now() + crash_down, [this]() { start_broker(); });
			}
		} else if (k == "bstall") {
			if (healed) return;
			ns d = a.num("ms") * MS;
			++faults["broker-stall"];
			ns from = now(), to = now() + d;
			if (stall_until > from) from = stall_until;
			if (to <= from) return;
			stall_until = to;
			model.stalls.push_back({from, to});
			trace_event("broker stalled for " + std::to_string(d / MS) + " ms");
		} else if (k == "clock") {
			++faults[a.num("ms") > 0 ? "clock-jump-forward" : "clock-jump-backward"];
			wall_offset += a.num("ms") * MS;
			trace_event("clock jumps by " + a.get("ms") + " ms");
		} else if (k == "mon") {
			if (healed) return;
			++faults[a.num("up") ? "monitor-up" : "monitor-down"];
			net::set_monitor(a.num("up"));
		} else if (k == "fe") {
			if (healed) return;
			frontend.mode = a.get("mode", "up");
			frontend.slow = a.num("slow") * MS;
			frontend.fail_p = atof(a.get("p", "0").c_str());
			++faults["frontend-" + frontend.mode];
			trace_event("frontend mode " + frontend.mode);
		} else if (k == "log") {
			if (healed) return;
			log_fails = a.num("fail");
			++faults["log-disk-full"];
		} else if (k == "flood") {
			start_flood(a);
		} else if (k == "mark") {
			heap_marks.push_back({now(), arena_live_bytes()});
			trace_event("heap mark");
		} else
			fatal("unknown action %s", k.c_str());
	}
	void World::heal()
	{
		if (healed) return;
		healed = true;
		trace_event("faults stop");
		for (auto &p : workers) {
			Worker *w = p.second;
			if (!w->up) w->start();
			w->unstall();
			if (w->c && w->c->held) net::release(w->c, false, 0);
		}
		crash_at = 0;
		if (!net::monitor_up) net::set_monitor(true);
		frontend.mode = "up";
		frontend.fail_p = 0;
		log_fails = false;
	}

	static int log_level_number(const std::string &l)
	{
		if (l == "off") return 6;
		if (l == "emerg" || l == "alert" || l == "critical") return 5;
		if (l == "err") return 4;
		if (l == "warn" || l == "notice") return 3;
		if (l == "info") return 2;
		return l == "debug" ? 1 : 0;
	}

	Result run_world(const Plan &plan, const std::string &scratch)
	{
		auto *w = new World(plan);
		W = w;
		knobs.seed = plan.num("seed", 1);
		knobs.cost_max = plan.num("cost_us", 20) * US;
		knobs.preempt_p = plan.real("preempt_p", 0);
		knobs.preempt_max = plan.num("preempt_us", 0) * US;
		knobs.thread_start_max = plan.num("tstart_us", 0) * US;
		knobs.wake_max = plan.num("wake_us", 50) * US;
		max_steps = plan.num("max_steps", 6000000);
		wall_offset = epoch();
		arena_init(knobs.seed);

		Config &c = w->cfg;
		std::set<std::string> omit;
		for (auto &x : split_list(plan.get("omit"))) omit.insert(x);
		auto num = [&](const char *item, const char *key, int64_t def, int64_t omitted) { return omit.count(item) ? omitted : plan.num(key, def); };
		auto str = [&](const char *item, const char *key, const char *def, const char *omitted) { return omit.count(item) ? std::string(omitted) : plan.get(key, def); };
		c.qm = str("queue_manager", "qm", "single", "single");
		c.L = num("workers.max_liveness", "L", 4, 4);
		c.maxfail = num("workers.max_request_failures", "maxfail", 3, 3);
		c.ping = num("workers.ping_interval", "ping", 1000, 1000) * MS;
		c.cport = (int) plan.num("cport", 9658);
		c.wport = (int) plan.num("wport", 9657);
		c.mport = (int) num("monitor.port", "mport", 7894, 7894);
		c.caddr = str("clients.address", "caddr", "*", "*");
		c.waddr = str("workers.address", "waddr", "*", "*");
		c.maddr = str("monitor.address", "maddr", "127.0.0.1", "127.0.0.1");
		std::string fe = plan.get("fe", "http://frontend.example/v1/broker-reports");
		size_t q = fe.find("://");
		c.fe_scheme = fe.substr(0, q);
		std::string rest = fe.substr(q + 3);
		size_t sl = rest.find('/');
		c.fe_host = sl == std::string::npos ? rest : rest.substr(0, sl);
		c.fe_path = sl == std::string::npos ? "" : rest.substr(sl);
		c.fe_port = (int) num("notifier.port", "fe_port", 8080, c.fe_scheme == "https" ? 443 : 80);
		if (!plan.get("fe_user").empty() || !plan.get("fe_pass").empty()) c.fe_user = plan.get("fe_user") + ":" + plan.get("fe_pass");
		w->model.cfg = c;
		w->model.who = [w](int port, const std::string &id) { return w->who(port, id); };
		net::monitor_port = c.mport;
		observer = w;
		frontend.on_start = [w](Attempt &a) { w->model.on_post_start(a); };
		frontend.on_end = [w](Attempt &a) { w->model.on_post_end(a); };
		frontend.lat_min = plan.num("fe_lat_min_us", 500) * US;
		frontend.lat_max = plan.num("fe_lat_max_us", 5000) * US;
		for (auto &e : split_list(plan.get("busy"))) net::busy_endpoints.insert(e);
		w->expect_exit = plan.num("expect_exit");

		w->scratch = scratch;
		mkdir(scratch.c_str(), 0755);
		for (const char *d : {"/logs/a b", "/logs"}) rmdir((scratch + d).c_str());
		std::string logfile = scratch + "/" + plan.get("logfile", "broker");
		int loglevel = log_level_number(str("logger.level", "loglevel", "debug", "debug"));
		uint64_t logsize = num("logger.max-size", "logsize", 1048576, 1048576), logfiles = num("logger.rotations", "logfiles", 3, 3);
		log_opened = [=](const std::string &path, uint64_t size, uint64_t files) -> int {
			++w->model.probes["log-opened"];
			if (path != logfile && path != logfile + ".log") w->model.viol("C22", "wrong-log-file", "log opened at " + path + ", configured " + logfile);
			if (size != logsize || files != logfiles)
				w->model.viol("C22", "wrong-log-rotation", "log opened with size " + std::to_string(size) + " and " + std::to_string(files) + " rotations, configured " + std::to_string(logsize) + " and " + std::to_string(logfiles));
			if (w->plan.num("log_open_fail")) return ++w->faults["log-open-error"], EACCES;
			size_t sl = path.rfind('/');
			struct stat st;
			return sl == std::string::npos || (!stat(path.substr(0, sl).c_str(), &st) && S_ISDIR(st.st_mode)) ? 0 : ENOENT;
		};
		log_written = [=](int level, const std::string &text) {
			if (level < loglevel) w->model.viol("C22", "wrong-log-level", "line below the configured level in the log: " + text.substr(0, 120));
			if (level <= 2) ++w->model.probes["log-info"];
			if (level == 1) ++w->model.probes["log-debug"];
		};
		w->cfgpath = scratch + "/config.yml";
		unlink(w->cfgpath.c_str());
		if (!plan.num("cfgmissing")) {
			std::string t;
			w->config_text(t);
			std::ofstream(w->cfgpath) << t;
		}
		broker_main = (int (*)(int, char **)) dlsym(broker_library, "_Z19recodex_broker_mainiPPc");
		if (!broker_main) fatal("no broker main: %s", dlerror());
		static std::string a0 = "recodex-broker", a1, a2;
		main_argc = 3;
		a1 = "-c";
		a2 = w->cfgpath;
		switch (plan.num("cli")) {
		case 1: a1 = "--config"; break;
		case 2: a1 = "--config=" + a2, main_argc = 2; break;
		case 3: a1 = "-c" + a2, main_argc = 2; break;
		case 4: a1 = "--unknown-option", main_argc = 2; break; // unusable command lines
		case 5: a1 = "-c", main_argc = 2; break;
		case 6: a1 = "-q"; break;
		default: break;
		}
		main_argv[0] = &a0[0];
		main_argv[1] = &a1[0];
		main_argv[2] = main_argc > 2 ? &a2[0] : nullptr;
		main_argv[3] = nullptr;
		on_death = [w]() { w->died(); };

		w->heal_at = plan.num("heal_ms", 20000) * MS;
		ns work = 0;
		for (auto &a : plan.acts) {
			w->last_act = std::max(w->last_act, a.t);
			if (a.kind == "job")
				for (auto &o : split_list(a.get("out"))) {
					auto f = split(o, ':');
					work += f.size() > 1 ? atoll(f[1].c_str()) * US : 50 * MS;
					work += 3 * plan.num("lat_max_us", 500) * US + 5 * MS;
				}
		}
		ns window = c.L * (c.ping + 120 * MS) + 300 * MS;
		w->deadline = std::max(w->heal_at, w->last_act) + plan.num("grace_ms", 120000) * MS + work + 4 * window;
		for (auto &a : plan.acts) {
			++w->pending_acts;
			at(a.t, [w, &a]() {
				--w->pending_acts;
				w->apply(a);
			});
		}
		at(w->heal_at, [w]() { w->heal(); });
		w->start_broker();

		ns settle = plan.num("settle_ms", 0) * MS;
		if (!settle) settle = window + 1 * SEC;
		ns done_since = -1, next_check = 0;
		bool quiet = run_until([&]() {
			if (w->stop) return true;
			if (now() >= w->deadline && (!w->model.busy() || now() >= w->deadline + 5 * SEC)) return true;
			if (w->model.violations.size() > 40) return true;
			if (now() < next_check) return false;
			next_check = now() + 50 * MS;
			if (w->healed && w->pending_acts == 0 && w->broker_up && w->model.all_done()) {
				if (done_since < 0) done_since = now();
				return now() - done_since >= settle && (!w->model.busy() || now() - done_since >= settle + 5 * SEC);
			}
			done_since = -1;
			return false;
		});
		Result r;
		r.completed = quiet && now() < w->deadline;
		if (!quiet && !w->stop) {
			if (steps() > max_steps) w->model.viol("C13,C00", "livelock", "no end after " + std::to_string(steps()) + " steps, at " + std::to_string(now() / MS) + " ms");
			else
				w->model.viol("C00", "deadlock", "nothing left to happen");
		}
		if (!w->stop) w->model.finish(!r.completed);
		if (w->expect_exit && !w->stop) w->model.viol("C22", "started-anyway", "broker runs although its configuration is unusable (" + plan.get("why") + ")");
		if (!w->expect_exit && w->broker_up && now() - w->up_since > 1 * SEC + 2 * knobs.preempt_max && now() > stall_until + 1 * SEC && !w->stop) {
			std::string ce = "tcp://" + c.caddr + ":" + std::to_string(c.cport), we = "tcp://" + c.waddr + ":" + std::to_string(c.wport), me = "tcp://" + c.maddr + ":" + std::to_string(c.mport);
			auto has = [](const std::vector<std::string> &v, const std::string &x) { return std::count(v.begin(), v.end(), x) == 1; };
			if (!has(w->model.bound, ce) || !has(w->model.bound, we)) w->model.viol("C22", "not-listening", "broker does not listen on " + ce + " and " + we);
			if (w->model.probes.count("log-opened") && !w->model.probes.count("log-info") && loglevel <= 2) w->model.viol("C22", "wrong-log-level", "start-up is not in the log although its level is configured");
			if (!has(w->model.connected, me)) w->model.viol("C22", "not-connected", "broker does not connect to the monitor at " + me);
		}
		// memory: equal situations reached repeatedly must not differ by a growing amount
		if (w->heap_marks.size() >= 6 && !w->stop) {
			auto &m = w->heap_marks;
			size_t n = m.size(), h = n / 2;
			std::string seq;
			for (auto &x : m) seq += (seq.empty() ? "" : " ") + std::to_string(x.second);
			trace_event("heap " + seq);
			// growth between the first mark of the second half and the last one
			int64_t g = (int64_t) m[n - 1].second - (int64_t) m[h].second;
			int64_t lim = plan.num("heap_tol", 3000);
			// equal cycles fill a bounded structure in the first two; something that still grows later, and never shrinks, is not bounded
			int up = 0, late = 0, down = 0;
			for (size_t k = 2; k < n; ++k) {
				if (m[k].second > m[k - 1].second) ++up, late += k > h;
				if (m[k].second < m[k - 1].second) ++down;
			}
			if ((g > lim || (up >= 5 && late >= 3 && !down && n >= 10)) && !w->model.confused) w->model.viol("C21", "memory-grows", "heap in use at equal points of repeated cycles: " + seq + " bytes");
			r.probes["heap-marks"] += n;
		}
		if (!w->stop && plan.num("leak_check", 1)) {
			if (frontend.live_handles > 1) w->model.viol("C21", "handles-leak", std::to_string(frontend.live_handles) + " HTTP handles left open");
		}
		w->model.probes["log-lines"] += log_lines;
		if (log_failures) w->faults["log-write-error"] += log_failures;
		for (auto &x : frontend.fired)
			if (x.first != "up") w->faults["post-" + x.first] += x.second;
		if (n_preempt) w->faults["preemption"] += n_preempt;
		if (net::n_lost_inflight) w->faults["message-lost-in-flight"] += net::n_lost_inflight;
		if (net::n_dropped_unroutable) w->faults["message-unroutable"] += net::n_dropped_unroutable;
		r.violations = w->model.violations;
		r.hash = trace_hash;
		r.steps = steps();
		r.sim_time = now();
		r.faults = w->faults;
		for (auto &p : w->model.probes) r.probes[p.first] += p.second;
		r.states = w->model.states;
		return r;
	}
}

// The log sink of the broker (see shim/spdlog): settings and severity are judged against the configuration (C22).
extern "C" int sim_log_open(const char *path, unsigned long max_size, unsigned long max_files)
{
	sim::Harness h;
	sim::yield_point("open");
	return sim::log_opened ? sim::log_opened(path, max_size, max_files) : 0;
}

extern "C" int sim_log_write(int level, const char *data, unsigned long len)
{
	sim::Harness h;
	sim::yield_point("write");
	++sim::log_lines;
	if (sim::log_written) sim::log_written(level, std::string(data, len));
	if (sim::log_fails) {
		++sim::log_failures;
		return ENOSPC;
	}
	return 0;
}
