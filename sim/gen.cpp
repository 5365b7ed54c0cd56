// Seeded generator of plans. Every profile is a swarm: each run switches features on or off at random, with odds that
// favour what the property in question depends on.
#include "plan.h"
#include <algorithm>

namespace sim
{
	namespace
	{
		struct Odds {
			double wcrash = .35, wreset = .35, wpart = .35, wstall = .35, ie = .4, fail = .4, crashjob = .35, freeze = .25, stats = .3, raw = .15, wraw = .15, fe = .3, mon = .2, bcrash = .1,
				   bstall = .1, clock = .2, flood = .08, log = .06, slow = .15, preempt = .5, tstart = .5, multi = .5, dup = .2, leave = .15, early = .2, odd_ids = .3, mal = .2, hdr = .25;
			int wmin = 1, wmax = 5, jmin = 3, jmax = 25;
			int64_t hmin = 4000, hmax = 16000;
			double load = .5; // chance of a heavily loaded run
		};
		Odds odds(const std::string &p)
		{
			Odds o;
			if (p == "C01") o.bcrash = 0, o.raw = .05, o.ie = .6, o.crashjob = .5, o.fe = .4, o.jmax = 30;
			else if (p == "C02") o.hdr = .6, o.wmin = 2, o.bcrash = .05, o.wcrash = .5, o.ie = .6, o.leave = .3;
			else if (p == "C03") o.mal = .4, o.dup = .6, o.ie = .6, o.bcrash = .2, o.wraw = .3;
			else if (p == "C04") o.ie = .8, o.load = .9, o.fail = .6, o.bcrash = .25, o.jmax = 30, o.wreset = .5;
			else if (p == "C05") o.wcrash = .7, o.wpart = .6, o.wstall = .5, o.clock = .5, o.flood = .15, o.bstall = .2, o.slow = .1;
			else if (p == "C06") o.wcrash = .3, o.clock = .6, o.wstall = .5, o.wpart = .4, o.bstall = .3, o.flood = .15, o.slow = .4;
			else if (p == "C07") o.ie = .9, o.crashjob = .7, o.wcrash = .5, o.fail = .5, o.bcrash = 0, o.load = .6;
			else if (p == "C08") o.hdr = .6, o.jmin = 10, o.jmax = 40, o.early = .5, o.freeze = .4, o.wcrash = .5, o.leave = .4, o.raw = .2;
			else if (p == "C09") o.freeze = 1, o.ie = .6, o.wcrash = .5, o.stats = .5, o.jmax = 35;
			else if (p == "C10") o.mal = .6, o.raw = 1, o.wraw = .8, o.dup = .6, o.flood = .1, o.early = .4;
			else if (p == "C11") o.mal = .4, o.dup = .5, o.ie = .6, o.crashjob = .5, o.wreset = .6, o.wpart = .6, o.fail = .6, o.fe = .4, o.wraw = .3;
			else if (p == "C12") o.odd_ids = .5, o.fe = 1, o.fail = .8, o.ie = .5, o.tstart = .7, o.bcrash = .1, o.clock = .3, o.log = .15;
			else if (p == "C13") o.fe = .8, o.mon = .5, o.flood = .6, o.log = .2, o.bcrash = 0, o.jmax = 35;
			else if (p == "C14") o.mon = .4, o.wcrash = .6, o.crashjob = .6, o.ie = .5, o.wpart = .4;
			else if (p == "C15") o.odd_ids = .5, o.bcrash = 1, o.ie = .6, o.crashjob = .4, o.fail = .5, o.load = .7;
			else if (p == "C16") o.odd_ids = .9, o.early = .5, o.raw = .4, o.bcrash = .2, o.mon = .3, o.tstart = .6;
			else if (p == "C17") o.load = 1, o.jmin = 12, o.jmax = 45, o.clock = .5, o.wmax = 3, o.ie = .3, o.wcrash = .25, o.multi = .35;
			else if (p == "C18") o.multi = 1, o.wmin = 2, o.jmin = 10, o.jmax = 40, o.bcrash = .1;
			else if (p == "C19") o.stats = 1, o.freeze = .4, o.ie = .6, o.fail = .6, o.jmax = 30;
			return o;
		}
		std::string num(int64_t v) { return std::to_string(v); }
		std::string bytes(Stream &s, int lo, int hi)
		{
			std::string r;
			int n = (int) s.range(lo, hi);
			for (int i = 0; i < n; ++i) r += (char) s.below(256);
			return r;
		}
		std::string text(Stream &s)
		{
			static const std::vector<std::string> v = {"Compilation failed", "a&b=c", "100% CPU + swap", "", "line1\nline2", "\xc5\xbelu\xc5\xa5ou\xc4\x8dk\xc3\xbd k\xc5\xaf\xc5\x88", "status=OK&message=x", "?#/;",
				"no space left on device", "\"quoted\" 'text'", "%41%zz", "a=b", "tab\there", "status", "message", "id", "type", "OK"};
			if (s.chance(.1)) return bytes(s, 1, 40);
			if (s.chance(.03)) return std::string(s.range(500, 4000), 'x');
			return s.pick(v);
		}
		struct W {
			std::string name, hw;
			std::vector<std::string> h;
			int64_t threads;
			std::vector<std::string> envs, extras;
			ns t0;
		};

		std::vector<std::string> hostile_client(Stream &s, int id)
		{
			std::string j = "rogue-job-" + num(id);
			switch (s.below(20)) {
			case 0: return {"eval"};
			case 1: return {"eval", j};
			case 2: return {"eval", j, "hwgroup=g1"};
			case 3: return {"eval", j, "hwgroup=nowhere", ""};
			case 4: return {"eval", j, "hwgroup=g1", "threads=abc", ""};
			case 5: return {"eval", j, "hwgroup=g1|g2|g3", "threads=99999999999999999999999", ""};
			case 6: return {""};
			case 7: return {"", "eval", j, "hwgroup=g1", ""};
			case 8: return {"frobnicate", "x"};
			case 9: return {bytes(s, 1, 30)};
			case 10: return {"eval", "", "hwgroup=g1"};
			case 11: return {"eval", j, "hwgroup", "env", "nowhere=1", ""};
			case 12: return {"EVAL", j, ""};
			case 13: return {"eval", j, "hwgroup=g1|g2|g3", "threads=-1", ""};
			case 14: return {"eval", j, "hwgroup=g1|g2|g3", "threads=", ""};
			case 15: return {"get-runtime-stats", "extra", "frames"};
			case 16: return {"init", "g1"};
			case 17: return {"eval", j, "=", "nowhere=", ""};
			case 18: return {"eval", j, bytes(s, 1, 20), bytes(s, 1, 20), "nowhere=1", ""};
			default: return {"done", j, "OK"};
			}
		}
		std::vector<std::string> hostile_worker(Stream &s, int id, const std::string &hw)
		{
			std::string j = "rogue-job-" + num(id);
			switch (s.below(24)) {
			case 0: return {"init"};
			case 1: return {"init", hw, "threads=many"};
			case 2: return {"init", hw, "threads=99999999999999999999999999"};
			case 3: return {"init", hw, "threads="};
			case 4: return {"init", hw, "noequals", "=", "==", "env=x"};
			case 5: return {"init", hw, "env=x", "", "description", "current_job", "junk", ""};
			case 6: return {"init", hw, "env=x", "", "current_job=" + j};
			case 7: return {"done"};
			case 8: return {"done", j};
			case 9: return {"done", j, "OK"};
			case 10: return {"done", j, "INTERNAL_ERROR", "oops"};
			case 11: return {"done", j, "INTERNAL_ERROR"};
			case 12: return {"done", j, "FAILED"};
			case 13: return {"done", j, "FAILED", "a", "b"};
			case 14: return {"done", j, "WHATEVER", "a"};
			case 15: return {"progress"};
			case 16: return {"ping", "extra"};
			case 17: return {""};
			case 18: return {bytes(s, 1, 30), bytes(s, 0, 30)};
			case 19: return {"eval", j, ""};
			case 20: return {"init", ""};
			case 21: return {"init", hw};
			case 22: return {"init", hw, "hwgroup=" + hw, "threads=4"};
			default: return {"ping"};
			}
		}
		std::vector<std::string> odd_worker(Stream &s, const W &w, const std::vector<std::string> &jobs)
		{
			std::string j = jobs.empty() ? "none" : s.pick(jobs);
			switch (s.below(18)) {
			case 0: return {"done"};
			case 1: return {"done", j};
			case 2: return {"done", "no-such-job", "OK"};
			case 3: return {"done", "no-such-job", "INTERNAL_ERROR", "x"};
			case 4: return {"progress"};
			case 5: return {"unknown-command", j};
			case 6: {
				std::vector<std::string> m = {"init", w.hw};
				for (auto &h : w.h) m.push_back(h);
				return m;
			}
			case 7: return {"ping"};
			case 8: return {""};
			case 9: return {"init"};
			case 10: return {"done", "no-such-job", "FAILED", "x"};
			case 11: return {"done", "", "OK"};
			case 12: return {"progress", "no-such-job", "TASK"};
			case 13: return {"progress", j};
			case 14: return {"progress", j, "TASK", "t", "COMPLETED", "", bytes(s, 0, 30), ""};
			case 15: return {"progress", "no-such-job", "STARTED"};
			default: return {"done", "no-such-job", "STRANGE"};
			}
		}
	}

	static Plan broker_plan(const std::string &profile, uint64_t seed, const std::string &tier)
	{
		Plan p;
		Odds o = odds(profile);
		Stream s(seed, "plan:" + profile);
		p.set("profile", profile);
		p.set("seed", (int64_t) (seed & 0x7fffffffffffffff));
		bool multi = s.chance(o.multi);
		p.set("qm", multi ? "multi" : "single");
		int64_t ping = s.chance(.3) ? 1000 : s.range(3, 10) * 100;
		int64_t L = s.chance(.3) ? 4 : s.range(1, 5);
		int64_t mf = s.chance(.4) ? 3 : s.range(1, 4);
		if (s.chance(profile == "C22" ? .5 : .05)) mf = s.range(5, 20);
		if (profile == "C22" && s.chance(.06)) mf = s.range(100, 300);
		if (s.chance(profile == "C22" ? .3 : .03)) ping = s.range(1, 4) * 100, L = s.range(6, 20);
		p.set("ping", ping);
		p.set("L", L);
		p.set("maxfail", mf);
		p.set("mport", s.chance(.5) ? 7894 : s.range(7000, 7900));
		p.set("fe", s.chance(.5) ? "http://frontend.example/v1/broker-reports" : "https://recodex.example/api/v1/broker-reports");
		p.set("fe_port", s.range(80, 9000));
		if (s.chance(.8)) p.set("fe_user", "rebroker"), p.set("fe_pass", "s3cret:" + num(s.below(1000)));
		p.set("cost_us", s.range(1, 25));
		if (s.chance(o.preempt)) {
			p.set("preempt_p", s.chance(.5) ? "0.02" : "0.005");
			p.set("preempt_us", s.range(100, 3000));
		}
		if (s.chance(o.tstart)) p.set("tstart_us", s.range(10, s.chance(.3) ? 300000 : 5000));
		p.set("wake_us", s.range(1, 200));
		p.set("lat_min_us", s.range(10, 200));
		p.set("lat_max_us", s.range(200, s.chance(.2) ? 20000 : 1500));
		if (s.chance(.15)) p.set("loglevel", "info");
		int64_t H = s.range(o.hmin, o.hmax); // fault phase, ms
		if (tier == "thorough" && s.chance(.3)) H *= 3;
		p.set("heal_ms", H);

		// ---- workers
		int nw = (int) s.range(o.wmin, o.wmax);
		if (s.chance(.02)) nw = (int) s.range(6, 15);
		bool uniform = s.chance(.35);
		std::vector<W> ws;
		bool prefixed = s.chance(.4), f_hdr = s.chance(o.hdr);
		static const std::vector<std::string> extras = {"os=linux", "os=windows", "cuda=11", "cuda=1", "pkg-meta.version=2", "metadata=yes", "mem=", "path=a=b", "path=a", "ENV=java", "env=jav", "threads2=4", "hwgroups=g1"};
		std::vector<std::string> groups = prefixed ? std::vector<std::string>{"g1", "g10", "g"} : std::vector<std::string>{"g1", "g2", "g3"}, envs = {"c-gcc", "java", "python3"};
		bool extra_ok = s.chance(.3);
		for (int i = 0; i < nw; ++i) {
			W w;
			w.name = "w" + num(i + 1);
			w.hw = uniform ? "g1" : s.pick(groups);
			w.threads = uniform ? 4 : s.range(1, 8);
			w.t0 = s.chance(.7) ? s.range(0, 50) * MS : s.range(0, H) * MS;
			if (!uniform && s.chance(.1)) w.threads = s.range(9, 40);
			if (uniform || s.chance(.8)) w.h.push_back("threads=" + num(w.threads));
			else
				w.threads = 0;
			for (auto &e : envs)
				if (uniform || s.chance(.6)) w.h.push_back("env=" + e), w.envs.push_back(e);
			if (f_hdr)
				for (auto &e : extras)
					if (s.chance(.35)) w.h.push_back(e), w.extras.push_back(e);
			ws.push_back(w);
			Action &a = p.add(w.t0, "worker");
			a.a["w"] = w.name;
			a.a["hw"] = w.hw;
			a.a["h"] = join_list(w.h);
			if (s.chance(.5)) a.a["desc"] = s.chance(.8) ? "worker " + num(i + 1) : s.chance(.5) ? "w=" + num(i) + " current_job=x" : "current_job";
			if (s.chance(.3)) a.a["xo"] = num(s.range(1, 3));
			a.a["ping"] = num(std::max<int64_t>(50, ping * s.range(30, 90) / 100));
			a.a["wl"] = num(s.range(3, 6));
			if (extra_ok) a.a["xok"] = "1";
		}

		// ---- jobs
		bool f_ie = s.chance(o.ie), f_fail = s.chance(o.fail), f_crash = s.chance(o.crashjob), f_dup = s.chance(o.dup), f_early = s.chance(o.early), f_odd = s.chance(o.odd_ids), f_mal = s.chance(o.mal), f_wild = f_odd && s.chance(.6), f_again = s.chance(.2), f_raw = s.chance(o.raw);
		std::vector<Action> later;
		int nj = (int) s.range(o.jmin, o.jmax);
		bool heavy = s.chance(o.load);
		int64_t dmax = heavy ? s.range(300, 2500) : s.range(10, 600);
		if (s.chance(profile == "C17" ? .08 : .015) && p.num("maxfail") <= 20) nj = (int) s.range(80, 250), dmax = s.range(5, 60); // a long queue of short jobs
		if (s.chance(profile == "C19" ? .015 : .002) && p.num("maxfail") <= 5) nj = (int) s.range(260, 420), dmax = s.range(3, 8); // totals beyond a byte
		bool aligned = s.chance(.12); // things tend to happen at the same moments
		if (aligned) p.set("cost_us", s.range(10, 100)), p.set("lat_max_us", p.num("lat_min_us") + s.range(1, 300));
		auto round_to = [](int64_t v, int64_t r) { return std::max(r, v / r * r); };
		std::vector<std::string> jobs;
		int nburst = (int) s.range(1, 4);
		std::vector<int64_t> bursts;
		for (int i = 0; i < nburst; ++i) bursts.push_back(s.range(80, H * 2 / 3));
		int clients = s.chance(.6) ? 0 : (int) s.range(1, 3);
		std::string common; // ids that differ only far from their beginning
		if (f_odd && s.chance(.08)) common = std::string(s.range(20, 300), 'L');
		int64_t maxfail = p.num("maxfail");
		for (int i = 0; i < nj; ++i) {
			ns t = s.chance(.5) ? (s.pick(bursts) * MS + s.range(0, s.chance(.5) ? 1500 : 30000) * US) : s.range(60, H * 9 / 10) * MS;
			if (i < 2 && s.chance(.3)) t = s.range(1, 60) * MS; // very early
			if (i + 2 >= nj) t = H * MS + s.range(200, 4000) * MS;  // the system must still work once faults stopped
			if (aligned) t = round_to(t, 50 * MS);
			Action &a = p.add(t, "job");
			std::string id = (s.chance(.5) ? "student_" : "j-") + num(seed % 997) + "-" + num(i);
			if (f_odd && s.chance(.3)) id += std::string("_.") + (char) ('a' + s.below(26)) + std::string(s.below(40), 'Z');
			if (f_wild && s.chance(.4)) {
				static const std::vector<std::string> v = {"=b", "a=b=c", "?x=1", "/sub/id", " with space", "%41%2F", "&status=OK", "#frag", "+plus", "\xc5\xbe", "\"q\"", "..", "\n", ";v=1"};
				id += s.chance(.2) ? bytes(s, 1, 20) : s.pick(v);
			} else if (f_wild && i && s.chance(.3) && jobs.back().size() < 100) {
				id = jobs.back() + num(s.below(10)) + "~" + num(i); // one id is the beginning of another
			}
			// words of the protocols as ids
			if (f_wild && s.chance(.06)) id = s.pick(std::vector<std::string>{"type", "id", "status", "message", "OK", "FAILED", "job-status", "eval", "done", "TERMINATE", "status_notifier", "0"});
			if (!common.empty()) id = common + id;
			if (std::count(jobs.begin(), jobs.end(), id)) id += "~" + num(i); // ids are unique
			a.a["id"] = id;
			jobs.push_back(id);
			std::vector<std::string> h;
			const W &w = s.pick(ws);
			bool bare = s.chance(.03) && !f_raw; // no requirements at all (unless there are peers that pose as workers)
			if (bare) {
			} else if (s.chance(.07)) {
				h.push_back(s.chance(.5) ? "hwgroup=g9" : "hwgroup=" + w.hw);
				if (h[0] != "hwgroup=g9") h.push_back(s.chance(.5) ? "env=cobol" : "threads=" + num(s.range(40, 70000)));
			} else {
				std::string g = w.hw;
				if (s.chance(.4)) g = s.chance(.5) ? w.hw + "|" + s.pick(groups) : s.pick(groups) + "|" + w.hw;
				if (s.chance(.05)) g = "nope|" + g + "|";
				if (s.chance(.06)) { // many alternatives, the right one anywhere
					int n = (int) s.range(2, 6), at = (int) s.below(n);
					g.clear();
					for (int k = 0; k < n; ++k) g += (k ? "|" : "") + (k == at ? w.hw : s.chance(.7) ? "other" + num(k) : s.pick(groups));
				}
				h.push_back("hwgroup=" + g);
				if (w.threads && s.chance(.5)) h.push_back("threads=" + num(s.range(1, w.threads + (s.chance(.1) ? 2 : 0))));
				else if (w.threads && s.chance(.03))
					h.push_back("threads=" + num(s.chance(.5) ? w.threads + (1ll << s.pick(std::vector<int>{8, 16, 31, 32})) : 0));
				if (!w.envs.empty() && s.chance(.6)) h.push_back("env=" + s.pick(w.envs));
				if (s.chance(.1) && w.envs.size() > 1) h.push_back("env=" + s.pick(w.envs));
				if (f_hdr)
					for (uint64_t k = s.below(3); k > 0; --k) h.push_back(!w.extras.empty() && s.chance(.7) ? s.pick(w.extras) : s.pick(extras));
				if (s.chance(.3)) std::reverse(h.begin(), h.end());
			}
			if (s.chance(bare ? .1 : .3)) h.insert(h.begin() + s.below(h.size() + 1), s.chance(.5) ? "meta.author=" + num(i) : s.chance(.5) ? "meta.env=cobol" : "meta.meta.threads=900");
			a.a["h"] = join_list(h);
			std::vector<std::string> pl;
			if (s.chance(bare ? .4 : .8)) pl = {"http://files.example/" + id + ".zip", "http://files.example/results/" + id};
			if (f_odd)
				for (uint64_t k = s.below(4); k > 0; --k) pl.push_back(s.chance(.25) ? "" : s.chance(.1) ? std::string(s.range(300, 3000), 'y') : bytes(s, 1, 40));
			if (f_odd && s.chance(.02)) pl.push_back(std::string(s.range(8000, 140000), 'z'));
			if (f_odd && s.chance(.02))
				for (int64_t k = s.range(20, 200); k > 0; --k) pl.push_back(num(k));
			a.a["p"] = join_list(pl);
			std::vector<std::string> out;
			bool stubborn = f_ie && s.chance(maxfail > 4 ? .3 : .06); // fails however often it is tried
			for (int k = 0; k < maxfail + 2; ++k) {
				if (stubborn) {
					out.push_back("IE:" + num(s.range(2000, 20000)) + ":" + num(s.below(2)) + ":" + pct_encode(text(s)) + ":");
					continue;
				}
				std::string kind = "OK", msg, extra;
				double x = s.unit();
				if (f_ie && x < .3) kind = "IE";
				else if (f_crash && x < .42)
					kind = "CRASH";
				else if (f_fail && x < .6)
					kind = "FAIL";
				if (kind == "CRASH") msg = s.chance(.5) ? "power" : "fin", extra = num(s.range(50, 6000));
				else {
					if (kind != "OK") msg = text(s);
					if (f_dup && s.chance(.3)) kind += s.chance(.7) ? "+D" : "+L";
					else if (f_mal && s.chance(.25))
						kind += s.chance(.7) ? "+M" : "+P", extra = num(s.below(9));
				}
				std::string spec = kind + ":" + num(aligned ? round_to(s.range(2000, dmax * 1000), 50000) : s.range(2000, dmax * 1000)) + ":" + num(s.below(4)) + ":" + pct_encode(msg) + ":" + extra;
				out.push_back(spec);
				if (kind.compare(0, 2, "OK") == 0 || kind.compare(0, 4, "FAIL") == 0) break;
			}
			a.a["out"] = join_list(out);
			if (f_again && s.chance(.2)) { // the same job again, once it has ended
				Action b = a;
				b.t += s.range(100, 4000) * MS;
				b.a["again"] = "1";
				if (s.chance(.5)) b.a["out"] = join_list({(s.chance(.5) ? "OK:" : s.chance(.5) ? "FAIL:" : "IE:") + num(s.range(2000, 200000)) + ":1:again:"});
				b.a.erase("cid");
				later.push_back(b);
			}
			if (clients && s.chance(.6)) a.a["client"] = "frontend" + num(s.below(clients) + 1);
			else {
				if (f_early && s.chance(.4)) a.a["early"] = num(s.range(0, 4000));
				if (f_odd && s.chance(.4)) a.a["cid"] = "c" + num(i) + "_" + bytes(s, 0, s.chance(.1) ? 200 : 12);
			}
		}
		for (auto &b : later) p.acts.push_back(b);
		// ---- commands
		if (s.chance(o.freeze)) {
			int n = (int) s.range(1, 3);
			for (int i = 0; i < n; ++i) {
				int64_t t = s.range(100, H * 8 / 10), d = s.range(1, H / 2);
				if (s.chance(.3)) t = s.pick(bursts);
				p.add(t * MS, "freeze");
				p.add((t + d) * MS, "unfreeze");
				if (s.chance(.4)) p.add((t + s.range(0, d)) * MS, "stats");
			}
			p.add(H * MS + 1 * MS, "unfreeze");
		}
		if (s.chance(o.stats)) {
			int n = (int) s.range(2, 25);
			for (int i = 0; i < n; ++i) p.add(s.chance(.15) ? s.range(0, 200) * MS : s.chance(.3) ? s.pick(bursts) * MS + s.range(0, 300) * MS : s.range(0, H + 3000) * MS, "stats");
		}
		// ---- faults on workers and their connections
		auto each = [&](double odds_, int lo, int hi, std::function<void(const W &, ns)> fn) {
			if (!s.chance(odds_)) return;
			int n = (int) s.range(lo, hi);
			for (int i = 0; i < n; ++i) {
				const W &w = s.pick(ws);
				ns t = s.chance(.4) ? s.pick(bursts) * MS + s.range(0, 600) * MS : s.range(20, H) * MS;
				if (s.chance(.1)) t = w.t0 + s.range(0, 30) * MS; // right after registering
				fn(w, t);
			}
		};
		int64_t window = L * ping;
		each(o.wcrash, 1, 4, [&](const W &w, ns t) {
			Action &a = p.add(t, "wcrash");
			a.a["w"] = w.name;
			a.a["power"] = s.chance(.5) ? "1" : "0";
			if (s.chance(.8)) a.a["down"] = num(s.chance(.4) ? s.range(10, 400) : s.range(100, window * 2 + 2000));
		});
		each(o.wreset, 1, 5, [&](const W &w, ns t) {
			Action &a = p.add(t, "wreset");
			a.a["w"] = w.name;
			a.a["ms"] = num(s.chance(.6) ? s.range(1, 300) : s.range(100, window * 2));
		});
		each(o.wpart, 1, 4, [&](const W &w, ns t) {
			Action &a = p.add(t, "wpart");
			a.a["w"] = w.name;
			a.a["lossy"] = s.chance(.5) ? "1" : "0";
			a.a["ms"] = num(s.chance(.3) ? s.range(10, 300) : s.chance(.5) ? std::max<int64_t>(10, window + s.range(-400, 400)) : s.range(100, window * 2 + 1000));
		});
		each(o.wstall, 1, 4, [&](const W &w, ns t) {
			Action &a = p.add(t, "wstall");
			a.a["w"] = w.name;
			a.a["ms"] = num(s.chance(.4) ? std::max<int64_t>(10, window + s.range(-300, 500)) : s.range(50, window * 2));
		});
		each(o.slow, 1, 3, [&](const W &w, ns t) {
			Action &a = p.add(t, "slowlink");
			a.a["w"] = w.name;
			a.a["us"] = num(s.range(5000, 200000));
			a.a["ms"] = num(s.range(500, 5000));
		});
		each(nw > 1 ? o.leave : 0, 1, 1, [&](const W &w, ns t) {
			Action &a = p.add(t, "wleave");
			a.a["w"] = w.name;
		});
		each(o.wraw, 1, 6, [&](const W &w, ns t) {
			Action &a = p.add(t, "wraw");
			a.a["w"] = w.name;
			a.a["frames"] = join_list(odd_worker(s, w, jobs));
		});
		// ---- hostile peers
		if (f_raw) {
			int n = (int) s.range(2, profile == "C10" ? 25 : 8);
			for (int i = 0; i < n; ++i) {
				ns t = s.chance(.4) ? s.pick(bursts) * MS + s.range(0, 400) * MS : s.range(1, H) * MS;
				Action &a = p.add(t, "raw");
				bool w = s.chance(.6);
				int k = (int) s.below(3);
				a.a["role"] = w ? "w" : "c";
				a.a["peer"] = (w ? "rogue-w" : "rogue-c") + num(k);
				a.a["frames"] = join_list(w ? hostile_worker(s, i, "rogue" + num(k)) : hostile_client(s, i));
				if (s.chance(.1)) {
					Action &b = p.add(t + s.range(1, 200) * MS, "rawclose");
					b.a["peer"] = a.a["peer"];
				}
			}
			if (s.chance(.2)) p.add(s.range(1, H) * MS, "monraw").a["frames"] = join_list({s.chance(.5) ? "hello" : "", bytes(s, 0, 8)});
		}
		// ---- frontend
		if (s.chance(o.fe)) {
			if (s.chance(.4)) {
				Action &a = p.add(0, "fe");
				a.a["mode"] = "up";
				a.a["p"] = s.chance(.5) ? "0.3" : "0.1";
			} else if (profile == "C12" && s.chance(.05)) { // down for minutes
				int64_t t = s.range(0, H / 2), d = s.range(40000, 150000);
				Action &a = p.add(t * MS, "fe");
				a.a["mode"] = s.chance(.5) ? "refuse" : "e503";
				p.add((t + d) * MS, "fe").a["mode"] = "up";
				p.set("heal_ms", std::max(H, t + d + 1));
			} else {
				int n = (int) s.range(1, 3);
				static const std::vector<std::string> modes = {"refuse", "dns", "reset", "hangc", "hang", "slow", "lost", "e500", "e503", "e404", "e401", "noinit", "e400", "e429", "e502", "e599"};
				for (int i = 0; i < n; ++i) {
					std::string m = s.pick(modes);
					int64_t t = s.chance(.3) ? s.range(0, 100) : s.range(0, H), d = s.chance(.6) ? s.range(100, 6000) : s.range(100, 25000);
					if (m == "noinit") d = std::min<int64_t>(d, 2500);
					Action &a = p.add(t * MS, "fe");
					a.a["mode"] = m;
					if (m == "slow") a.a["slow"] = num(s.range(100, 9000));
					p.add((t + d) * MS, "fe").a["mode"] = "up";
				}
			}
		}
		if (s.chance(o.mon)) {
			int64_t t = s.range(0, H);
			p.add(t * MS, "mon").a["up"] = "0";
			if (s.chance(.7)) p.add((t + s.range(50, 8000)) * MS, "mon").a["up"] = "1";
		}
		// ---- broker process and host
		if (s.chance(o.bcrash)) {
			int n = (int) s.range(1, profile == "C15" ? 3 : 2);
			for (int i = 0; i < n; ++i) {
				ns t = s.chance(.5) ? s.pick(bursts) * MS + s.range(0, 1500) * MS : s.range(100, H * 9 / 10) * MS;
				Action &a = p.add(t, "bcrash");
				a.a["down"] = num(s.chance(.5) ? s.range(10, 800) : s.range(100, 5000));
				if (s.chance(.6)) a.a["n"] = num(s.range(1, 40));
			}
		}
		if (s.chance(.15)) { // short ones, after which several messages are waiting
			int n = (int) s.range(2, 12);
			for (int i = 0; i < n; ++i) p.add((s.chance(.5) ? s.pick(bursts) + s.range(0, 300) : s.range(60, H)) * MS, "bstall").a["ms"] = num(s.range(5, 150));
		}
		if (s.chance(o.bstall)) {
			int n = (int) s.range(1, 2);
			for (int i = 0; i < n; ++i) p.add(s.range(100, H) * MS, "bstall").a["ms"] = num(s.chance(.5) ? s.range(50, 600) : s.range(200, window * 2));
		}
		if (s.chance(o.clock)) {
			int n = (int) s.range(1, 6);
			for (int i = 0; i < n; ++i) {
				int64_t j = s.chance(.5) ? s.range(100, 5000) : s.range(1000, 4000000);
				if (s.chance(.5)) j = -j;
				ns t = s.chance(.5) ? s.pick(bursts) * MS + s.range(0, 30000) * US : s.range(50, H + 2000) * MS;
				p.add(t, "clock").a["ms"] = num(j);
			}
		}
		if (s.chance(o.log)) {
			int64_t t = s.range(0, H);
			p.add(t * MS, "log").a["fail"] = "1";
			p.add((t + s.range(10, 8000)) * MS, "log").a["fail"] = "0";
		}
		if (s.chance(o.flood)) {
			int n = (int) s.range(1, 2);
			for (int i = 0; i < n; ++i) {
				Action &a = p.add(s.range(100, H) * MS, "flood");
				a.a["role"] = s.chance(.5) ? "w" : "c";
				a.a["n"] = num(s.range(50, tier == "thorough" ? 6000 : 1500));
				a.a["gap_us"] = num(s.chance(.5) ? s.range(0, 100) : s.range(100, 2000));
				bool w = a.a["role"] == "w";
				a.a["frames"] = join_list(w ? (s.chance(.5) ? std::vector<std::string>{"ping"} : std::vector<std::string>{"progress", "flood", "x"})
											: (s.chance(.5) ? std::vector<std::string>{"get-runtime-stats"} : std::vector<std::string>{"eval", "flooded", "hwgroup=nowhere", ""}));
			}
		}
		std::stable_sort(p.acts.begin(), p.acts.end(), [](const Action &a, const Action &b) { return a.t < b.t; });
		return p;
	}

	Plan churn_plan(uint64_t seed, const std::string &tier);
	Plan config_plan(uint64_t seed, const std::string &tier);
	Plan reactor_plan(uint64_t seed, const std::string &tier);

	Plan generate(const std::string &profile, uint64_t seed, const std::string &tier)
	{
		Plan p;
		if (profile == "C20") p = reactor_plan(seed, tier);
		else if (profile == "C21")
			p = churn_plan(seed, tier);
		else if (profile == "C22")
			p = config_plan(seed, tier);
		else
			p = broker_plan(profile, seed, tier);
		return Plan::parse(p.text());
	}

	// ------------------------------------------------------------------ equal cycles of churn, heap measured after each
	Plan churn_plan(uint64_t seed, const std::string &)
	{
		Plan p;
		Stream s(seed, "churn");
		p.set("profile", "C21");
		p.set("seed", (int64_t) (seed & 0x7fffffffffffffff));
		p.set("qm", s.chance(.5) ? "multi" : "single");
		int64_t ping = s.range(3, 5) * 100, L = s.range(1, 3);
		p.set("ping", ping);
		p.set("L", L);
		p.set("maxfail", s.range(1, 3));
		p.set("cost_us", s.range(1, 15));
		p.set("fe_user", "rebroker");
		p.set("fe_pass", "pw");
		int64_t window = L * (ping + 120) + 400;
		int cycles = 10;
		// features of every cycle
		int gone = (int) s.range(0, 5), jobs = (int) s.range(0, 12), clients = (int) s.range(0, 10), resets = (int) s.range(0, 3), raws = (int) s.range(0, 4), progress = (int) s.range(0, 3);
		int odd = s.chance(.5) ? (int) s.range(1, 5) : 0;
		bool ie = s.chance(.4), fail = s.chance(.4), fe = s.chance(.3), leftover = s.chance(.5), orphan = s.chance(.3), rej = s.chance(.5), fz = s.chance(.3), mon = s.chance(.3);
		int64_t len = window * 2 + 2500 + (fe ? 16000 : 0);
		Stream one(seed, "cycle");
		{
			Action &a = p.add(0, "worker");
			a.a["w"] = "base";
			a.a["hw"] = "g1";
			a.a["h"] = join_list({"threads=4", "env=c"});
			a.a["ping"] = num(ping / 2);
		}
		ns base = 1000 * MS;
		if (mon) p.add(500 * MS, "mon").a["up"] = "0";
		for (int c = 0; c < cycles; ++c) {
			Stream q(seed, "cycle"); // the same draws every time
			ns t0 = base + c * len * MS;
			std::string tag = "k" + num(100 + c);
			for (int i = 0; i < gone; ++i) {
				Action &a = p.add(t0 + q.range(1, 50) * MS, "worker");
				a.a["w"] = tag + "w" + num(i);
				a.a["hw"] = "g2";
				a.a["h"] = join_list({"threads=" + num(q.range(1, 8)), "env=c"});
				a.a["desc"] = "passing " + num(i);
				a.a["ping"] = num(ping / 2);
				Action &b = p.add(t0 + q.range(200, 900) * MS, q.chance(.5) ? "wleave" : "wleave");
				b.a["w"] = tag + "w" + num(i);
			}
			for (int i = 0; i < jobs; ++i) {
				Action &a = p.add(t0 + q.range(60, 700) * MS, "job");
				a.a["id"] = tag + "-" + num(100 + i);
				bool g2 = leftover && gone && q.chance(.4);
				a.a["h"] = join_list({rej && q.chance(.2) ? "hwgroup=none" : g2 ? "hwgroup=g2" : "hwgroup=g1", "env=c"});
				a.a["p"] = join_list({"payload-payload-payload-payload-payload"});
				std::string k = ie && q.chance(.3) ? "IE" : fail && q.chance(.3) ? "FAIL" : "OK";
				a.a["out"] = join_list({k + ":" + num(q.range(2, g2 ? 1500 : 60) * 1000) + ":" + num(progress) + ":message"});
			}
			for (int i = 0; i < clients; ++i) p.add(t0 + q.range(1, 900) * MS, "stats");
			if (fz) p.add(t0 + 20 * MS, "freeze"), p.add(t0 + 40 * MS, "unfreeze");
			for (int i = 0; i < raws; ++i) {
				Action &a = p.add(t0 + q.range(10, 500) * MS, "raw");
				a.a["role"] = "w";
				a.a["peer"] = tag + "r" + num(i);
				a.a["frames"] = join_list(q.chance(.5) ? std::vector<std::string>{"init", "rogue" + num(i), "threads=2", "", "current_job=" + tag + "x" + num(i)} : std::vector<std::string>{"ping"});
				Action &b = p.add(t0 + 600 * MS, "rawclose");
				b.a["peer"] = tag + "r" + num(i);
			}
			if (fe && c % 2 == 0) {
				p.add(t0 + 100 * MS, "fe").a["mode"] = "e500";
				p.add(t0 + 1900 * MS, "fe").a["mode"] = "up";
			}
			if (orphan) {
				Action &a = p.add(t0 + 100 * MS, "raw");
				a.a["role"] = "w";
				a.a["peer"] = tag + "o";
				a.a["frames"] = join_list({"init", "rogue9", "env=x", "", "current_job=" + tag + "-announced"});
				p.add(t0 + 300 * MS, "rawclose").a["peer"] = tag + "o";
			}
			for (int i = 0; i < resets; ++i) {
				Action &a = p.add(t0 + (700 + 40 * i) * MS, "wreset");
				a.a["w"] = "base";
				a.a["ms"] = num(q.range(1, 20));
			}
			for (int i = 0; i < odd; ++i) { // never seen before, every time
				Action &a = p.add(t0 + q.range(10, 900) * MS, "raw");
				bool w = q.chance(.5);
				a.a["role"] = w ? "w" : "c";
				a.a["peer"] = tag + "u" + num(i);
				std::string x = tag + "-unheard-of-" + num(100 + i);
				std::vector<std::vector<std::string>> ms = {{x}, {w ? "done" : "eval", x}, {"done", x, "OK"}, {"progress", x, "y"}, {"eval", x, "hwgroup=g77", ""}, {"init"}, {"ping", x}, {"done", x, "INTERNAL_ERROR", x}};
				a.a["frames"] = join_list(q.pick(ms));
				p.add(t0 + 950 * MS, "rawclose").a["peer"] = tag + "u" + num(i);
			}
			for (int i = 0; i < odd; ++i) {
				Action &a = p.add(t0 + q.range(10, 900) * MS, "wraw");
				a.a["w"] = "base";
				std::string x = tag + "-no-such-job-" + num(100 + i);
				std::vector<std::vector<std::string>> ms = {{x}, {"done", x, "OK"}, {"done", x, "FAILED", "x"}, {"done", x}, {"progress", x, "y"}, {"done", x, "INTERNAL_ERROR", x}};
				a.a["frames"] = join_list(q.pick(ms));
			}
			p.add(t0 + (len - 5) * MS, "mark");
		}
		p.set("heal_ms", base / MS + cycles * len + 10);
		p.set("settle_ms", 300);
		std::stable_sort(p.acts.begin(), p.acts.end(), [](const Action &a, const Action &b) { return a.t < b.t; });
		return p;
	}

	// ------------------------------------------------------------------ configurations
	Plan config_plan(uint64_t seed, const std::string &tier)
	{
		Stream s(seed, "config");
		Plan p;
		if (s.chance(.35)) { // must refuse to start
			p.set("profile", "C22");
			p.set("seed", (int64_t) (seed & 0x7fffffffffffffff));
			p.set("expect_exit", 1);
			p.set("heal_ms", 1500);
			p.set("settle_ms", 500);
			const std::string ok_tail = "logger:\n    file: \"/nonexistent-is-not-reached/x\"\n";
			switch (s.below(15)) {
			case 13: p.set("log_open_fail", 1), p.set("why", "log file cannot be opened"); break;
			case 14: p.set("cli", s.range(4, 6)), p.set("why", "command line"); break;
			case 12: p.set("logfile", "config.yml/sub/broker"), p.set("why", "log directory cannot be made"); break;
			case 0: p.set("cfgmissing", 1), p.set("why", "missing file"); break;
			case 1: p.set("cfgraw", "clients: [1, 2"), p.set("why", "invalid YAML"); break;
			case 2: p.set("cfgraw", "- a\n- b\n"), p.set("why", "not a map"); break;
			case 3: p.set("cfgraw", ""), p.set("why", "empty file"); break;
			case 4: p.set("cfgraw", "clients:\n    port: " + std::string(s.chance(.5) ? "abc" : "\"12x\"") + "\nworkers:\n    port: 9657\n"), p.set("why", "port is not a number"); break;
			case 5: p.set("cfgraw", "clients:\n    port: 9658\nworkers:\n    port: 99999\n"), p.set("why", "port out of range"); break;
			case 6: p.set("qm_name", s.chance(.5) ? "triple" : "Single"), p.set("why", "unknown queue manager"); break;
			case 7: p.set("busy", join_list({"tcp://*:9658"})), p.set("why", "client address in use"); break;
			case 8: p.set("busy", join_list({"tcp://*:9657"})), p.set("why", "worker address in use"); break;
			case 9: p.set("cfgraw", "clients:\n    port: 9658\nworkers:\n    port: 9657\n    max_liveness: many\n"), p.set("why", "max_liveness is not a number"); break;
			case 10: p.set("cfgraw", "clients:\n    port: 9658\nworkers:\n    port: 9657\n    ping_interval: soon\n"), p.set("why", "ping_interval is not a number"); break;
			default: p.set("cfgraw", "clients:\n    port: 9658\nworkers:\n    port: 9657\n    max_request_failures: -x\n"), p.set("why", "max_request_failures is not a number"); break;
			}
			return p;
		}
		p = broker_plan("C22", mix(seed, 77), tier);
		p.set("profile", "C22");
		p.set("cport", s.chance(.5) ? s.range(2000, 2999) : s.range(1, 21000) * 3);
		p.set("wport", s.chance(.5) ? s.range(3000, 3999) : s.range(3000, 21000) * 3 + 1);
		if (s.chance(.5)) p.set("mport", s.range(1, 21000) * 3 + 2);
		if (s.chance(.5)) p.set("fe_port", s.range(1, 65535));
		if (p.num("wport") == p.num("cport")) p.set("wport", p.num("wport") + 1);
		while (p.num("mport") == p.num("cport") || p.num("mport") == p.num("wport")) p.set("mport", p.num("mport") + 1);
		if (s.chance(.06)) p.set("L", s.range(100, 400)), p.set("ping", s.range(50, 150)), p.set("grace_ms", 60000);
		if (s.chance(.06)) p.set("ping", s.range(10000, 100000)), p.set("L", s.range(1, 2)), p.set("grace_ms", 60000);
		p.set("cli", s.below(4));
		if (s.chance(.5)) p.set("caddr", s.chance(.5) ? "127.0.0.1" : "10.1.2.3");
		if (s.chance(.5)) p.set("waddr", s.chance(.5) ? "0.0.0.0" : "10.1.2.4");
		if (s.chance(.5)) p.set("maddr", "10.9.8.7");
		switch (s.below(8)) {
		case 4: p.set("fe_user", "007"), p.set("fe_pass", "true"); break;
		case 5: p.set("fe_user", "u" + std::string(s.range(1, 80), 'u')), p.set("fe_pass", "p" + std::string(s.range(1, 80), 'p')); break;
		case 0: p.set("fe_user", "only-user"), p.kv.erase("fe_pass"); break;
		case 1: p.set("fe_pass", "only-password"), p.kv.erase("fe_user"); break;
		case 2: p.kv.erase("fe_pass"), p.kv.erase("fe_user"); break;
		case 3: p.set("fe_user", "a b@c/d?e#f"), p.set("fe_pass", "p:a:s%41&\xc5\xa5"); break;
		default: break;
		}
		std::vector<std::string> omit;
		for (const char *i : {"clients.address", "workers.address", "workers.max_liveness", "workers.max_request_failures", "workers.ping_interval", "monitor.address", "monitor.port", "queue_manager", "notifier.port", "logger.level", "logger.max-size", "logger.rotations"})
			if (s.chance(.25)) omit.push_back(i);
		p.set("omit", join_list(omit));
		p.set("omit_form", s.below(3));
		p.set("loglevel", s.pick(std::vector<std::string>{"off", "emerg", "alert", "critical", "err", "warn", "notice", "info", "debug", "debug"}));
		if (s.chance(.5)) p.set("logfile", s.pick(std::vector<std::string>{"logs/broker", "logs/a b/the.log", "b", "broker.1"}));
		if (s.chance(.5)) p.set("logsize", s.range(1, 4000000)), p.set("logfiles", s.range(1, 20));
		return p;
	}

	// ------------------------------------------------------------------ reactor scripts
	Plan reactor_plan(uint64_t seed, const std::string &tier)
	{
		Stream s(seed, "reactor");
		Plan p;
		p.set("profile", "C20");
		p.set("kind", "reactor");
		p.set("seed", (int64_t) (seed & 0x7fffffffffffffff));
		p.set("cost_us", s.range(1, 40));
		if (s.chance(.7)) {
			p.set("preempt_p", s.chance(.5) ? "0.05" : "0.01");
			p.set("preempt_us", s.range(50, 3000));
		}
		p.set("tstart_us", s.chance(.7) ? s.range(1, 20000) : 0);
		p.set("wake_us", s.range(1, 300));
		p.set("asyncs", s.range(1, 3));
		p.set("sinks", s.range(1, 2));
		p.set("slow_us", s.chance(.5) ? s.range(0, 200) : s.range(200, 30000)); // processing time of a handler
		p.set("echo", s.below(3));                                             // responses per message
		int n = (int) s.range(1, 40);
		if (s.chance(.08)) n = (int) s.range(2100, tier == "thorough" ? 6000 : 3000); // long backlog
		int64_t span = n > 1000 ? s.range(1, 400) : s.range(1, 3000);
		for (int i = 0; i < n; ++i) {
			Action &a = p.add(s.range(0, span * 1000) * US, "msg");
			a.a["via"] = s.chance(.6) ? "socket" : "sync"; // routed from a socket, or by a handler
			a.a["to"] = num(s.below(3));
			a.a["n"] = num(s.chance(.15) ? 0 : s.range(1, 4)); // data frames
			a.a["len"] = num(s.chance(.1) ? 0 : s.range(1, 20));
		}
		p.set("pre", s.chance(.5) ? s.range(0, 5) : 0); // messages routed before the loop starts
		int64_t tm = s.chance(.12) ? -1 : s.range(1, span + 200); // -1: before the loop starts
		if (tm > 0 && s.chance(.3)) tm = span + 4000 + (int64_t) n * (10 + p.num("slow_us") / 200) * 3; // after everything has settled
		p.set("term_ms", tm);
		if (s.chance(.2)) p.add(s.range(0, span * 1000) * US, "stall").a["ms"] = num(s.range(1, 1500));
		p.set("burst", n > 1000);
		std::stable_sort(p.acts.begin(), p.acts.end(), [](const Action &a, const Action &b) { return a.t < b.t; });
		return p;
	}
}
