// Driver: every run is a forked child of a process that has the library under test loaded but never executed it.
#include "world.h"
#include <algorithm>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <signal.h>
#include <sstream>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace sim;

static std::string scratch_root;
static bool verbose = false;

struct Outcome_ {
	bool ok = false; // the simulator itself worked
	std::string error;
	Result r;
	std::string trace;
};

static std::string serialise(const Result &r)
{
	std::ostringstream o;
	o << "H " << r.hash << " " << r.steps << " " << r.sim_time << " " << r.completed << "\n";
	for (auto &v : r.violations) {
		std::string ps;
		for (auto &p : v.props) ps += (ps.empty() ? "" : ",") + p;
		o << "V " << v.t << " " << ps << " " << v.code << " " << pct_encode(v.text) << "\n";
	}
	for (auto &f : r.faults) o << "F " << f.first << " " << f.second << "\n";
	for (auto &f : r.probes) o << "P " << f.first << " " << f.second << "\n";
	o << "S";
	for (auto s : r.states) o << " " << s;
	o << "\nEND\n";
	return o.str();
}
static bool deserialise(const std::string &t, Result &r)
{
	std::istringstream in(t);
	std::string line;
	bool end = false;
	while (std::getline(in, line)) {
		std::istringstream l(line);
		std::string k;
		l >> k;
		if (k == "H") {
			int c;
			l >> r.hash >> r.steps >> r.sim_time >> c;
			r.completed = c;
		} else if (k == "V") {
			Violation v;
			std::string ps, txt;
			l >> v.t >> ps >> v.code >> txt;
			v.props = split_props(ps);
			v.text = pct_decode(txt);
			r.violations.push_back(v);
		} else if (k == "F" || k == "P") {
			std::string n;
			uint64_t c;
			l >> n >> c;
			(k == "F" ? r.faults : r.probes)[n] += c;
		} else if (k == "S") {
			uint64_t s;
			while (l >> s) r.states.insert(s);
		} else if (k == "END")
			end = true;
	}
	return end;
}

static double wall()
{
	return real_seconds();
}

static Outcome_ run_forked(const Plan &plan, double limit = 60)
{
	Outcome_ out;
	int fd[2];
	if (pipe(fd)) {
		out.error = "pipe";
		return out;
	}
	fflush(stdout);
	fflush(stderr);
	pid_t pid = fork();
	if (pid < 0) {
		out.error = "fork";
		return out;
	}
	if (pid == 0) {
		close(fd[0]);
		if (!verbose) {
			int n = open("/dev/null", O_WRONLY);
			dup2(n, 1);
			dup2(n, 2);
		}
		trace_print = verbose;
		install_signal_handlers();
		std::string scratch = scratch_root;
		Result r = plan.get("kind") == "reactor" ? run_reactor(plan, scratch) : run_world(plan, scratch);
		if (verbose)
			for (auto &l : trace_lines) printf("%s\n", l.c_str());
		std::string s = serialise(r);
		size_t off = 0;
		while (off < s.size()) {
			ssize_t n = write(fd[1], s.data() + off, s.size() - off);
			if (n <= 0) break;
			off += n;
		}
		close(fd[1]);
		fflush(stdout);
		fflush(stderr);
		syscall(231, 0); // exit_group, past the interposed exit
		__builtin_unreachable();
	}
	close(fd[1]);
	std::string data;
	double t0 = wall();
	bool timeout = false;
	for (;;) {
		pollfd p = {fd[0], POLLIN, 0};
		int k = poll(&p, 1, 1000);
		if (k > 0) {
			char buf[65536];
			ssize_t n = read(fd[0], buf, sizeof buf);
			if (n <= 0) break;
			data.append(buf, n);
		} else if (wall() - t0 > limit) {
			timeout = true;
			kill(pid, SIGKILL);
			break;
		}
	}
	close(fd[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	if (timeout) out.error = "run exceeded " + std::to_string(limit) + " s of real time";
	else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
		out.error = "simulator process ended with status " + std::to_string(st);
	else if (!deserialise(data, out.r))
		out.error = "no result";
	else
		out.ok = true;
	return out;
}

static bool matches(const Violation &v, const std::string &prop, const std::string &code)
{
	if (!code.empty() && v.code != code) return false;
	if (prop == "*") return true;
	for (auto &p : v.props)
		if (p == prop || p == "C00") return true;
	return false;
}
static const Violation *find(const Result &r, const std::string &prop, const std::string &code)
{
	for (auto &v : r.violations)
		if (matches(v, prop, code)) return &v;
	return nullptr;
}

static Plan shrink(Plan p, const std::string &prop, const std::string &code, double budget)
{
	double t0 = wall();
	int tries = 0;
	auto bad = [&](const Plan &q) {
		++tries;
		Outcome_ o = run_forked(q, 20);
		return o.ok && find(o.r, prop, code);
	};
	auto left = [&]() { return wall() - t0 < budget; };
	// faults and workload
	size_t chunk = std::max<size_t>(1, p.acts.size() / 2);
	while (left()) {
		bool any = false;
		for (size_t i = 0; i < p.acts.size() && left();) {
			Plan q = p;
			size_t n = std::min(chunk, q.acts.size() - i);
			q.acts.erase(q.acts.begin() + i, q.acts.begin() + i + n);
			if (bad(q)) p = q, any = true;
			else
				i += chunk;
		}
		if (chunk == 1 && !any) break;
		if (chunk > 1) chunk = (chunk + 1) / 2;
	}
	// knobs
	for (const char *k : {"preempt_p", "preempt_us", "tstart_us", "fe_user", "fe_pass", "loglevel", "fe_lat_max_us", "omit", "omit_form", "logfile", "logsize", "logfiles", "lat_max_us", "wake_us", "cost_us", "fe_port", "fe", "mport"}) {
		if (!left() || !p.kv.count(k)) continue;
		Plan q = p;
		q.kv.erase(k);
		if (bad(q)) p = q;
	}
	// arguments of jobs and faults
	for (size_t i = 0; i < p.acts.size() && left(); ++i) {
		for (const char *k : {"cid", "early", "client", "desc", "xo", "xok", "p", "out", "down"}) {
			if (!left() || !p.acts[i].a.count(k)) continue;
			Plan q = p;
			q.acts[i].a.erase(k);
			if (bad(q)) p = q;
		}
	}
	if (left()) {
		// shorter fault phase
		int64_t last = 0;
		for (auto &a : p.acts) last = std::max<int64_t>(last, a.t / MS);
		Plan q = p;
		q.set("heal_ms", last + 1);
		if (last + 1 < p.num("heal_ms") && bad(q)) p = q;
	}
	fprintf(stderr, "minimised to %zu actions in %d runs\n", p.acts.size(), tries);
	return p;
}

static std::string slurp(const std::string &f)
{
	std::ifstream in(f);
	std::stringstream b;
	b << in.rdbuf();
	return b.str();
}

int main(int argc, char **argv)
{
	if (!getenv("SIM_NOASLR")) {
		setenv("SIM_NOASLR", "1", 1);
		if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
	if (argc < 4) {
		fprintf(stderr, "usage: sim LIB SCRATCH run PROFILE FIRST_SEED STRIDE SECONDS TIER [MAXRUNS] | replay FILE [-v] | shrink FILE PROP CODE SECONDS | gen PROFILE SEED TIER\n");
		return 2;
	}
	std::string lib = argv[1], mode = argv[3];
	scratch_root = argv[2];
	std::vector<std::string> args(argv + 4, argv + argc);
	if (mode == "gen") {
		std::cout << generate(args.at(0), strtoull(args.at(1).c_str(), nullptr, 10), args.size() > 2 ? args[2] : "quick").text();
		return 0;
	}
	broker_library = dlopen(lib.c_str(), RTLD_NOW | RTLD_GLOBAL);
	if (!broker_library) {
		fprintf(stderr, "cannot load %s: %s\n", lib.c_str(), dlerror());
		return 2;
	}
	snapshot_library("libbroker");

	if (mode == "run") {
		std::string profile = args.at(0);
		uint64_t first = strtoull(args.at(1).c_str(), nullptr, 10), stride = strtoull(args.at(2).c_str(), nullptr, 10);
		double secs = atof(args.at(3).c_str());
		std::string tier = args.at(4);
		uint64_t maxruns = args.size() > 5 ? strtoull(args[5].c_str(), nullptr, 10) : UINT64_MAX;
		double t0 = wall();
		Result sum;
		std::set<uint64_t> hashes;
		uint64_t runs = 0, nontrivial = 0, errors = 0, incomplete = 0;
		for (uint64_t k = 0; k < maxruns && wall() - t0 < secs; ++k) {
			uint64_t seed = first + k * stride;
			Plan p = generate(profile == "C20" && !dlsym(broker_library, "scn_reactor_main") ? "C12" : profile, seed, tier);
			Outcome_ o = run_forked(p);
			if (!o.ok) {
				++errors;
				std::cout << "E " << seed << " " << o.error << std::endl;
				continue;
			}
			++runs;
			if (hashes.insert(o.r.hash).second && (o.r.probes.count("accepted") || profile == "C20" || profile == "C22")) ++nontrivial;
			if (!o.r.completed) ++incomplete;
			sum.steps += o.r.steps;
			sum.sim_time += o.r.sim_time;
			for (auto &f : o.r.faults) sum.faults[f.first] += f.second;
			for (auto &f : o.r.probes) sum.probes[f.first] += f.second;
			sum.states.insert(o.r.states.begin(), o.r.states.end());
			if (runs <= 2) std::cout << "R " << seed << " " << o.r.hash << std::endl;
			for (auto &v : o.r.violations) {
				std::string ps;
				for (auto &x : v.props) ps += (ps.empty() ? "" : ",") + x;
				std::cout << "V " << seed << " " << ps << " " << v.code << " " << v.t / MS << "ms " << v.text << std::endl;
			}
		}
		std::cout << "T " << runs << " " << nontrivial << " " << errors << " " << incomplete << " " << sum.steps << " " << sum.sim_time << " " << (wall() - t0) << " " << sum.states.size() << std::endl;
		for (auto &f : sum.faults) std::cout << "F " << f.first << " " << f.second << "\n";
		for (auto &f : sum.probes) std::cout << "P " << f.first << " " << f.second << "\n";
		std::cout << "S";
		for (auto s : sum.states) std::cout << " " << s;
		std::cout << std::endl;
		return errors ? 3 : 0;
	}
	if (mode == "replay" || mode == "shrink") {
		Plan p = Plan::parse(slurp(args.at(0)));
		if (mode == "shrink") {
			Plan q = shrink(p, args.at(1), args.at(2), atof(args.at(3).c_str()));
			std::cout << q.text();
			return 0;
		}
		verbose = args.size() > 1 && args[1] == "-v";
		Outcome_ o = run_forked(p, 120);
		if (!o.ok) {
			std::cout << "E " << o.error << "\n";
			return 3;
		}
		std::cout << "H " << o.r.hash << " " << o.r.sim_time / MS << "ms " << o.r.steps << "\n";
		for (auto &v : o.r.violations) {
			std::string ps;
			for (auto &x : v.props) ps += (ps.empty() ? "" : ",") + x;
			std::cout << "V 0 " << ps << " " << v.code << " " << v.t / MS << "ms " << v.text << "\n";
		}
		return o.r.violations.empty() ? 0 : 1;
	}
	fprintf(stderr, "unknown mode\n");
	return 2;
}
