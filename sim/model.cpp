#include "model.h"
#include <algorithm>
#include <cstring>

namespace sim
{
	std::string show(const std::string &s)
	{
		std::string r;
		for (unsigned char c : s) {
			if (c >= 32 && c < 127 && c != '\\') r += (char) c;
			else {
				char b[5];
				snprintf(b, sizeof b, "\\x%02x", c);
				r += b;
			}
			if (r.size() > 120) return r + "...";
		}
		return r;
	}
	std::string show(const Msg &m)
	{
		std::string r = "[";
		for (size_t i = 0; i < m.size(); ++i) {
			if (i) r += "|";
			r += show(m[i]);
			if (i > 12) {
				r += "|...";
				break;
			}
		}
		return r + "]";
	}
	static bool has_prop(const std::vector<std::string> &v, const char *p) { return std::find(v.begin(), v.end(), p) != v.end(); }

	void Model::viol(const std::string &props, const std::string &code, const std::string &text, Inst *i)
	{
		if ((confused || muted) && props != "C00") {
			++probes["not-judged"];
			return;
		}
		Violation v;
		for (auto &p : split_props(props)) v.props.push_back(p);
		auto add = [&](const char *p) {
			if (!has_prop(v.props, p)) v.props.push_back(p);
		};
		if (i) {
			bool job_level = has_prop(v.props, "C01") || has_prop(v.props, "C04") || has_prop(v.props, "C07") || has_prop(v.props, "C11");
			if (i->orphan && code != "wrong-verdict") add("C15");
			if (i->frozen_seen && job_level) add("C09");
			if (i->recovering && (has_prop(v.props, "C01") || has_prop(v.props, "C04"))) add("C05");
		}
		v.code = code;
		v.text = text;
		v.t = now();
		std::string ps;
		for (auto &p : v.props) ps += (ps.empty() ? "" : ",") + p;
		trace_event("VIOLATION " + ps + " " + code + ": " + text);
		violations.push_back(v);
	}

	// ------------------------------------------------------------------ time and registration
	ns Model::stalled(ns from, ns to) const
	{
		ns s = 0;
		for (auto &x : stalls) {
			ns a = std::max(from, x.first), b = std::min(to, x.second);
			if (b > a) s += b - a + 120 * MS;
		}
		return s;
	}
	bool Model::alive_certain(const WRec *w) const { return now() - w->last_heard <= cfg.L * cfg.ping - w->slackpre - 20 * MS; }
	bool Model::expired_certain(const WRec *w) const
	{
		return now() - w->last_heard > cfg.L * (cfg.ping + 120 * MS) + 300 * MS + stalled(w->last_heard, now());
	}
	WRec *Model::find(const std::string &id)
	{
		for (WRec *w : regs)
			if (w->id == id) return w;
		return nullptr;
	}
	std::string Model::cap_str(const WRec *w) const
	{
		std::string r = w->name + "{" + w->hwgroup;
		for (auto &h : w->headers) r += " " + h.first + "=" + h.second;
		return r + "}";
	}

	static bool plain_number(const std::string &s)
	{
		if (s.empty() || s.size() > 18) return false;
		for (char c : s)
			if (c < '0' || c > '9') return false;
		return true;
	}
	Tri Model::satisfies(const WRec *w, const Inst *i) const
	{
		Tri res = Tri::yes;
		for (auto &h : i->headers) {
			Tri one = Tri::no;
			if (h.first == "hwgroup") {
				size_t o = 0;
				while (o < h.second.size()) {
					size_t e = h.second.find('|', o);
					if (e == std::string::npos) e = h.second.size();
					if (h.second.substr(o, e - o) == w->hwgroup) one = Tri::yes;
					o = e + 1;
				}
				for (auto &c : w->headers)
					if (c.first == "hwgroup") one = one == Tri::yes ? Tri::yes : Tri::maybe;
			} else {
				for (auto &c : w->headers) {
					if (c.first != h.first) continue;
					if (h.first == "threads") {
						if (!plain_number(c.second) || !plain_number(h.second)) one = one == Tri::yes ? Tri::yes : Tri::maybe;
						else if (atoll(c.second.c_str()) >= atoll(h.second.c_str())) one = Tri::yes;
					} else if (c.second == h.second)
						one = Tri::yes;
				}
			}
			if (one == Tri::no) return Tri::no;
			if (one == Tri::maybe) res = Tri::maybe;
		}
		return i->loose ? Tri::maybe : res;
	}
	bool Model::any_certain_capable(const Inst *i) const
	{
		for (WRec *w : regs)
			if (certain(w) && satisfies(w, i) == Tri::yes) return true;
		return false;
	}
	bool Model::any_possible_capable(const Inst *i) const
	{
		for (WRec *w : regs)
			if (!w->gone && (!expired_certain(w) || w->fuzzy) && satisfies(w, i) != Tri::no) return true;
		return false;
	}

	// ------------------------------------------------------------------ instances
	void Model::set_final(Inst *i, const std::string &status, const std::string &why)
	{
		i->st = Inst::Done;
		i->w = nullptr;
		i->owners.clear();
		i->final_status = status;
		i->final_why = why;
		i->t_final = now();
		i->final_seq = ++finaln;
		++probes["final-" + why];
	}
	// multi-queue: which workers may be the one that has gone longest without being given a job
	void Model::enqueue_owner(Inst *i)
	{
		i->owners.clear();
		i->idle_owners.clear();
		i->lru_deferred = i->lru_pending = false;
		if (cfg.qm != "multi") return;
		commit_all();
		bool vague = i->fuzzy || i->loose;
		for (WRec *w : regs) {
			if (w->gone || satisfies(w, i) == Tri::no) continue;
			if (vague) {
				w->given_hi = ++seqn;
				continue;
			}
			bool beaten = false;
			for (WRec *x : regs)
				if (x != w && certain(x) && satisfies(x, i) == Tri::yes && x->given_hi < w->given_lo) beaten = true;
			if (beaten) continue;
			i->owners.insert(w);
			if (certain(w) && !w->cur) i->idle_owners.insert(w);
		}
		i->lru_pending = !vague;
	}
	void Model::commit_queued(Inst *i) // it was not sent at once, so it is in the queue of a busy candidate
	{
		if (!i->lru_pending) return;
		i->lru_pending = false;
		if (i->idle_owners.size() < i->owners.size())
			for (WRec *w : i->idle_owners) i->owners.erase(w);
		i->idle_owners.clear();
		if (i->owners.size() == 1) {
			WRec *w = *i->owners.begin();
			w->given_lo = w->given_hi = ++seqn;
		} else {
			++seqn;
			for (WRec *w : i->owners) w->given_hi = seqn;
		}
	}
	void Model::commit_all()
	{
		if (cfg.qm != "multi") return;
		for (Inst &i : insts)
			if (i.lru_pending && i.st != Inst::Pending) commit_queued(&i);
	}
	void Model::to_waiting(Inst *i, bool deferred)
	{
		i->st = Inst::Waiting;
		i->w = nullptr;
		i->wait_seq = ++seqn;
		i->wait_event = eventn;
		i->wait_fuzzy = false;
		if (deferred && cfg.qm == "multi") {
			i->owners.clear();
			for (WRec *r : regs)
				if (!r->gone && satisfies(r, i) != Tri::no) i->owners.insert(r);
			i->lru_pending = false;
			i->lru_deferred = true;
		} else
			enqueue_owner(i);
	}

	void Model::expire(WRec *w, const char *how)
	{
		commit_all();
		++probes[std::string("expired-") + how];
		w->gone = true;
		regs.erase(std::remove(regs.begin(), regs.end(), w), regs.end());
		trace_event("model: " + w->name + " given up (" + how + ")");
		Inst *i = w->cur;
		w->cur = nullptr;
		bool window = !strcmp(how, "silence");
		if (i && i->st == Inst::Running && i->w == w) {
			++i->failures;
			i->recovering = true;
			i->untold = !i->fuzzy;
			if (i->orphan) set_final(i, "FAILED", "orphan-lost");
			else if (i->failures >= cfg.maxfail)
				set_final(i, "FAILED", "limit-lost");
			else {
				to_waiting(i, true);
				i->wait_fuzzy = window;
			}
		}
		if (cfg.qm == "multi") {
			for (Inst &x : insts) {
				if (x.st != Inst::Waiting || !x.owners.count(w)) continue;
				bool exact = x.owners.size() == 1 && !x.lru_pending && !x.lru_deferred;
				x.owners.clear();
				for (WRec *r : regs)
					if (!r->gone && satisfies(r, &x) != Tri::no) x.owners.insert(r);
				x.lru_pending = false;
				x.maybe_moved = !exact;
				if (!exact) x.wait_fuzzy = true;
				if (exact) {
					x.recovering = true;
					x.untold = !x.fuzzy;
					x.wait_fuzzy = true; // re-queued in an order that is only known once the monitor is told
					x.lru_deferred = true;
				}
			}
		}
	}

	bool Model::open_job(const std::string &job)
	{
		bool seen = false;
		for (Inst &i : insts) {
			seen |= i.job == job && !i.orphan;
			if (i.job == job && (i.st == Inst::Waiting || i.st == Inst::Running || i.st == Inst::Pending || (i.st == Inst::Done && !i.matched && !i.precrash))) return true;
		}
		return !seen; // its first submission may still be under way
	}
	int Model::open_insts()
	{
		int n = 0;
		for (Inst &i : insts)
			if (i.st == Inst::Waiting || i.st == Inst::Running || i.st == Inst::Pending) ++n;
		return n;
	}

	// ------------------------------------------------------------------ boundary events
	void Model::started()
	{
		flush();
		running = true;
		have_ranges = false;
		last_enter = last_exit = prev_exit = now();
		seg = Seg();
		frozen = false;
		evaluated = failed = 0;
		totals_fuzzy = false;
		curn = nullptr;
		hidden_pending = 0;
		init_failures_seen = frontend.init_failures;
		bound.clear();
		connected.clear();
	}
	void Model::crashed()
	{
		// what the monitor would have been told next is not known
		for (Sent &x : sent) muted |= x.port == cfg.mport && x.f.size() == 2 && (x.f[1] == "ABORTED" || x.f[1] == "FAILED");
		if (!seg.active && !sent.empty()) muted = true;
		int evals = 0;
		for (Sent &x : sent) evals += x.port == cfg.wport && !x.f.empty() && x.f[0] == "eval";
		if (evals > 1) muted = true;
		flush();
		muted = false;
		running = false;
		seg = Seg();
		for (WRec *w : regs) w->gone = true;
		regs.clear();
		for (Inst &i : insts) {
			i.precrash = true;
			i.untold = false;
			if (i.st == Inst::Waiting || i.st == Inst::Running || i.st == Inst::Pending) i.st = Inst::Void, i.w = nullptr;
		}
		for (Notif *n : to_judge) n->judged = true;
		to_judge.clear();
		curn = nullptr;
	}
	void Model::on_bind(const std::string &ep, bool ok)
	{
		trace_event("BIND " + ep + (ok ? "" : " failed"));
		if (ok) bound.push_back(ep);
		if (!check_endpoints) return;
		std::string c = "tcp://" + cfg.caddr + ":" + std::to_string(cfg.cport), w = "tcp://" + cfg.waddr + ":" + std::to_string(cfg.wport);
		if (ep != c && ep != w) viol("C22", "wrong-endpoint", "listening on " + ep + ", configured " + c + " and " + w);
	}
	void Model::on_connect(const std::string &ep)
	{
		trace_event("CONNECT " + ep);
		connected.push_back(ep);
		if (!check_endpoints) return;
		std::string m = "tcp://" + cfg.maddr + ":" + std::to_string(cfg.mport);
		if (ep != m) viol("C22", "wrong-endpoint", "connecting to " + ep + ", configured monitor " + m);
	}
	void Model::on_poll_exit()
	{
		flush();
		prev_exit = last_exit;
		last_exit = now();
		++eventn;
	}
	void Model::on_recv(int port, const std::string &id, const Msg &f, ns arrived)
	{
		finish_segment();
		++eventn;
		Peer p = who(port, id);
		const char *role = port == cfg.cport ? "client" : port == cfg.wport ? "worker" : "monitor";
		trace_event(std::string("RECV ") + role + " " + p.name + " " + show(f));
		++probes[std::string("recv-") + role];
		if (!p.flooding && !relax_latency) {
			ns lat = now() - arrived, lim = 400 * MS + stalled(arrived, now());
			if (lat > lim)
				viol("C13", "late-handling",
					"message " + show(f) + " of " + p.name + " waited " + std::to_string(lat / MS) + " ms for the broker");
		}
		seg = Seg();
		seg.active = true;
		seg.port = port;
		seg.id = id;
		seg.f = f;
		seg.t = now();
		seg.cmd = f.empty() ? "" : f[0];
		seg.rogue = p.rogue;
		if (port == cfg.wport) recv_worker(id, f);
		else if (port == cfg.cport)
			recv_client(id, f);
	}

	void Model::recv_worker(const std::string &id, const Msg &f)
	{
		WRec *w = find(id);
		if (w && !w->gone && !w->fuzzy && expired_certain(w)) {
			expire(w, "silence");
			w = nullptr;
		}
		// a worker that holds a job cannot have been given up without the monitor being told about the job
		bool was_certain = w && (certain(w) || (!w->rogue && !w->fuzzy && w->cur && !w->cur->fuzzy));
		if (w && !was_certain && seg.cmd != "ping") w->fuzzy = true; // whether it is still registered shows later
		seg.w = w;
		bool alive = w && certain(w);
		if (w) {
			w->last_heard = now();
			w->slackpre = now() - prev_exit;
		}
		if (seg.cmd == "ping") {
			seg.ping_certain = alive;
			seg.ping_unknown = !w;
		} else if (seg.cmd == "progress") {
			if (f.size() >= 2) {
				seg.expect_mon.assign(f.begin() + 1, f.end());
				seg.mon_strict = was_certain;
			}
		} else if (seg.cmd == "init") {
			if (f.size() >= 2) recv_init(id, f, w, was_certain);
		} else if (seg.cmd == "done") {
			if (w) recv_done(w, f, was_certain);
			else
				++probes["done-unregistered"];
		}
	}
	static std::pair<std::string, std::string> split_header(const std::string &h)
	{
		size_t p = h.find('=');
		if (p == std::string::npos) return {h, h};
		return {h.substr(0, p), h.substr(p + 1)};
	}
	void Model::recv_init(const std::string &id, const Msg &f, WRec *w, bool was_certain)
	{
		std::string job;
		Headers hs;
		size_t i = 2;
		for (; i < f.size() && !f[i].empty(); ++i) hs.push_back(split_header(f[i]));
		bool has_job = false;
		for (; i < f.size(); ++i) {
			auto h = split_header(f[i]);
			if (h.first == "current_job") job = h.second, has_job = true;
		}
		if (w) {
			auto a = hs, b = w->headers;
			std::sort(a.begin(), a.end());
			std::sort(b.begin(), b.end());
			if (a == b && w->hwgroup == f[1]) {
				++probes["init-repeated"];
				if (was_certain) return;
				// either still registered (no effect) or registered anew
				w->fuzzy = true;
				w->given_lo = 0;
				if (w->cur) w->cur->fuzzy = true;
				if (has_job && (w->rogue || !w->cur || w->cur->job != job)) {
					insts.emplace_back();
					Inst &n = insts.back();
					n.n = (int) insts.size();
					n.job = job;
					n.orphan = n.fuzzy = true;
					n.st = Inst::Void;
				}
				return;
			}
			// contradictory registrations of one peer: out of scope, nothing is judged about this peer any more
			w->rogue = true;
			w->fuzzy = true;
			if (w->cur) w->cur->fuzzy = true;
			++probes["init-contradictory"];
			if (has_job) {
				insts.emplace_back();
				Inst &n = insts.back();
				n.n = (int) insts.size();
				n.job = job;
				n.orphan = n.fuzzy = true;
				n.st = Inst::Void;
			}
			return;
		}
		recs.emplace_back();
		WRec *n = &recs.back();
		Peer p = who(cfg.wport, id);
		n->id = id;
		n->name = p.name;
		n->rogue = p.rogue;
		n->hwgroup = f[1];
		n->headers = hs;
		n->last_heard = now();
		n->slackpre = now() - prev_exit;
		regs.push_back(n);
		++probes["registered"];
		if (has_job) {
			++probes["registered-with-job"];
			insts.emplace_back();
			Inst &x = insts.back();
			x.n = (int) insts.size();
			x.job = job;
			x.orphan = true;
			x.accepted = true;
			x.fuzzy = p.rogue;
			x.st = Inst::Running;
			x.w = n;
			n->cur = &x;
			x.frozen_seen = frozen;
		}
		seg.w = n;
	}
	void Model::recv_done(WRec *w, const Msg &f, bool was_certain)
	{
		Inst *i = w->cur;
		if (f.size() < 3) {
			++probes["done-short"];
			return;
		}
		if (!i) {
			++probes["done-idle"];
			return;
		}
		if (f[1] != i->job) {
			++probes["done-mismatched"];
			return;
		}
		const std::string &st = f[2];
		bool ok = st == "OK";
		bool effective = ok || ((st == "FAILED" || st == "INTERNAL_ERROR") && f.size() == 4);
		if (!effective) {
			++probes["done-ineffective"];
			return;
		}
		if (!was_certain || w->fuzzy || i->fuzzy) {
			// the broker may or may not have given the worker up just before
			++probes["done-uncertain"];
			i->fuzzy = true;
			totals_fuzzy = true;
			if (i->st == Inst::Running && i->w == w) set_final(i, "?", "uncertain");
			if (ok) done_ok_jobs.insert(i->job);
			w->cur = nullptr;
			w->fuzzy = true;
			return;
		}
		w->cur = nullptr;
		if (ok) {
			done_ok_jobs.insert(i->job);
			set_final(i, "OK", "ok");
			i->order_known = true;
			++evaluated;
		} else if (st == "FAILED") {
			set_final(i, "FAILED", "worker-failed");
			i->order_known = true;
			i->final_msg = f[3];
			i->final_msg_known = true;
			++failed;
		} else {
			++failed;
			++i->failures;
			if (i->orphan) {
				set_final(i, "FAILED", "orphan-error");
				i->order_known = true;
			} else if (i->failures >= cfg.maxfail) {
				set_final(i, "FAILED", "limit");
				i->order_known = true;
				seg.limit_inst = i;
				seg.want_mon_failed = true;
			} else {
				++probes["retry"];
				to_waiting(i);
			}
		}
	}

	void Model::recv_client(const std::string &id, const Msg &f)
	{
		(void) id;
		if (seg.cmd == "eval") {
			bool well = f.size() >= 3 && !f[1].empty();
			size_t i = 2;
			Headers hs;
			for (; well && i < f.size() && !f[i].empty(); ++i) {
				if (f[i].find('=') == std::string::npos) well = false;
				else
					hs.push_back(split_header(f[i]));
			}
			if (i >= f.size()) well = false;
			seg.well = well;
			if (f.size() < 2) return;
			insts.emplace_back();
			Inst &x = insts.back();
			x.n = (int) insts.size();
			x.job = f[1];
			x.st = Inst::Pending;
			for (auto &h : hs)
				if (h.first.rfind("meta.", 0) != 0) {
					x.headers.push_back(h);
					if (h.first == "threads" && !plain_number(h.second)) x.loose = true;
				}
			if (well)
				for (size_t k = i + 1; k < f.size(); ++k) x.payload.push_back(f[k]);
			else
				x.fuzzy = x.loose = true;
			seg.inst = &x;
			seg.frozen = frozen;
			seg.must_accept = !frozen && any_certain_capable(&x);
			seg.must_reject = frozen || !any_possible_capable(&x);
			known_jobs.insert(x.job);
		} else if (seg.cmd == "freeze") {
			frozen = true;
			++probes["freeze"];
			for (Inst &x : insts)
				if (x.st == Inst::Waiting || x.st == Inst::Running) x.frozen_seen = true;
		} else if (seg.cmd == "unfreeze") {
			frozen = false;
			++probes["unfreeze"];
		}
	}

	// What the broker sends in reaction to one event is judged together, once it reads or waits again: in which order it
	// tells the monitor that a job left a lost worker and sends that job to the next one is its own affair. The messages
	// to the monitor stay as they are; a job sent elsewhere comes right before the message about it.
	void Model::flush()
	{
		if (sent.empty()) return;
		std::vector<Sent> b;
		b.swap(sent);
		auto aborted = [&](const Sent &x) { return x.port == cfg.mport && x.f.size() == 2 && x.f[1] == "ABORTED"; };
		auto sends = [&](const Sent &x) { return x.port == cfg.wport && x.f.size() >= 2 && x.f[0] == "eval"; };
		std::vector<char> tied(b.size(), 0);
		std::map<size_t, size_t> before; // message to the monitor -> job sent
		std::set<size_t> moved;
		auto abort_after = [&](size_t k) {
			size_t m = k + 1;
			while (m < b.size() && !(aborted(b[m]) && b[m].f[0] == b[k].f[1])) ++m;
			return m;
		};
		auto abort_before = [&](size_t k) {
			for (size_t m = k; m-- > 0;)
				if (!tied[m] && aborted(b[m]) && b[m].f[0] == b[k].f[1]) return m;
			return b.size();
		};
		auto fresh = [&](const Sent &m) { // this may be its first worker, given up right afterwards
			WRec *w = find(m.id);
			if (w && certain(w)) return false;
			for (Inst &x : insts)
				if (x.job == m.f[1] && !x.precrash && (x.st == Inst::Pending || (x.st == Inst::Waiting && x.wait_event == eventn))) return true;
			return false;
		};
		for (size_t k = 0; k < b.size() && !abort_first; ++k)
			if (sends(b[k]) && abort_after(k) == b.size() && abort_before(k) < k) abort_first = true;
		for (size_t k = 0; k < b.size() && !abort_first; ++k) {
			if (!sends(b[k]) || abort_after(k) == b.size()) continue;
			WRec *w = find(b[k].id);
			bool sure = w && certain(w);
			if (sure || (!fresh(b[k]) && abort_before(k) == b.size())) send_first = true;
			else if (!sure && !send_first && abort_before(k) < k)
				confused = true, ++probes["order-unknown"]; // in which of the two orders is not known yet
		}
		if (!abort_first)
			for (size_t k = 0; k + 1 < b.size(); ++k)
				if (sends(b[k]) && aborted(b[k + 1]) && b[k].f[1] == b[k + 1].f[0]) tied[k] = tied[k + 1] = 1;
		for (size_t k = 0; k < b.size(); ++k) {
			if (!sends(b[k]) || tied[k]) continue;
			size_t at = b.size();
			if (abort_first) {
				at = abort_before(k);
			} else {
				at = abort_after(k);
				if (at < b.size() && (tied[at] || fresh(b[k]))) at = b.size();
			}
			if (at == b.size()) continue;
			tied[k] = tied[at] = 1;
			before[at] = k;
			moved.insert(k);
		}
		for (size_t k = 0; k < b.size(); ++k) b[k].moved = tied[k] && sends(b[k]) && !fresh(b[k]);
		if (!moved.empty()) {
			std::vector<Sent> c;
			for (size_t k = 0; k < b.size(); ++k) {
				auto x = before.find(k);
				if (x != before.end()) c.push_back(b[x->second]);
				if (!moved.count(k)) c.push_back(b[k]);
			}
			b.swap(c);
			++probes["reordered"];
		}
		for (Sent &x : b) {
			replay_t = x.t;
			eval_moved = x.moved;
			handle_send(x.port, x.id, x.f);
		}
		replay_t = 0;
	}
	void Model::on_send(int port, const std::string &id, const Msg &f, bool routed)
	{
		Peer p = who(port, id);
		const char *role = port == cfg.cport ? "client" : port == cfg.wport ? "worker" : "monitor";
		trace_event(std::string("SEND ") + role + " " + (p.name.empty() ? show(id) : p.name) + " " + show(f) + (routed ? "" : " (dropped)"));
		++probes[std::string("send-") + role];
		sent.push_back({port, id, f, sim::now(), false});
	}
	void Model::handle_send(int port, const std::string &id, const Msg &f)
	{
		Peer p = who(port, id);
		if (port == cfg.mport) {
			if (id != "recodex-monitor") viol("C14,C16", "wrong-monitor-identity", "message for the monitor sent to '" + show(id) + "'");
			if (!seg.expect_mon.empty() && f == seg.expect_mon && seg.mon_matched == 0) {
				++seg.mon_matched;
				++probes["progress-forwarded"];
				return;
			}
			if (f.size() == 2 && (f[1] == "ABORTED" || f[1] == "FAILED")) {
				monitor_status(f[0], f[1]);
				return;
			}
			if (!seg.rogue) viol("C14,C16", "unexpected-monitor-message", "unexpected message to the monitor " + show(f) + " while handling " + show(seg.f));
			return;
		}
		if (port == cfg.wport) {
			if (f.size() == 1 && (f[0] == "pong" || f[0] == "intro")) {
				if (!seg.active || seg.port != port || seg.id != id || seg.cmd != "ping") {
					viol("C16", "unsolicited-reply", "'" + f[0] + "' sent to " + p.name + " which did not just ping");
					return;
				}
				seg.replies.push_back(f);
				if (f[0] == "intro") {
					if (seg.ping_certain && !seg.rogue)
						viol("C06", "alive-worker-given-up", "ping of registered worker " + p.name + " answered with intro");
					WRec *w = find(id);
					if (w) {
						if (!w->fuzzy && w->cur && !w->cur->fuzzy && !seg.ping_certain)
							viol("C14", "abort-not-told", "worker " + w->name + " was given up without telling the monitor about " + w->cur->job, w->cur);
						expire(w, "intro");
					}
					++probes["intro"];
				} else {
					if (seg.ping_unknown && !seg.rogue)
						viol("C05,C15", "unknown-worker-ponged", "ping of unregistered worker " + p.name + " answered with pong");
					WRec *w = find(id);
					if (w && w->fuzzy && !w->rogue && !w->cur) w->fuzzy = false;
				}
				return;
			}
			if (!f.empty() && f[0] == "eval" && f.size() >= 2) {
				dispatch(id, f);
				return;
			}
			viol("C16" + std::string(seg.cmd == "init" ? ",C15" : ""), "bad-message", "malformed message to worker " + p.name + ": " + show(f));
			return;
		}
		if (port == cfg.cport) {
			if (!seg.active || seg.port != port || seg.id != id) {
				viol("C08,C16", "misdirected-reply", "reply " + show(f) + " sent to " + (p.name.empty() ? show(id) : p.name) + " while handling " + show(seg.f) + " of another peer");
				return;
			}
			seg.replies.push_back(f);
			ns d = now() - seg.t, lim = 400 * MS + stalled(seg.t, now());
			if (d > lim && !relax_latency) viol("C13", "late-reply", "reply " + show(f) + " sent " + std::to_string(d / MS) + " ms after the request was read");
			if (f.size() == 1 && f[0] == "ack") return;
			if (f.size() == 1 && f[0] == "accept" && seg.cmd == "eval") {
				if (seg.inst) {
					Inst *i = seg.inst;
					i->accepted = true;
					i->t_accept = now();
					++accepted_total;
					++probes["accepted"];
					i->frozen_seen |= frozen;
					if (i->st == Inst::Pending) to_waiting(i);
				}
				return;
			}
			if (f.size() == 2 && f[0] == "reject" && seg.cmd == "eval") {
				if (seg.inst) {
					Inst *i = seg.inst;
					++probes[seg.frozen ? "rejected-frozen" : "rejected"];
					if (i->st == Inst::Running && !i->fuzzy) viol("C08", "rejected-but-dispatched", "job " + i->job + " was sent to a worker and then rejected", i);
					i->st = Inst::Rejected;
					if (!seg.frozen) seg.want_mon_failed = true;
					// nobody capable is registered, so uncertain ones are gone
					if (!seg.frozen && !i->loose)
						for (WRec *w : std::vector<WRec *>(regs))
							if (!w->fuzzy && !w->rogue && !alive_certain(w) && satisfies(w, i) == Tri::yes && !w->cur) expire(w, "reject");
				}
				return;
			}
			if (seg.cmd == "get-runtime-stats") {
				check_stats(f);
				return;
			}
			viol("C16,C08", "bad-message", "malformed message to client " + p.name + ": " + show(f) + " while handling " + show(seg.f));
		}
	}

	void Model::dispatch(const std::string &id, const Msg &f)
	{
		++dispatch_total;
		const std::string &job = f[1];
		WRec *w = find(id);
		Peer p = who(cfg.wport, id);
		Inst *i = nullptr;
		if (seg.inst && seg.inst->job == job && (seg.inst->st == Inst::Pending)) i = seg.inst;
		if (!i)
			for (Inst &x : insts)
				if (x.job == job && !x.orphan && (x.st == Inst::Waiting || x.st == Inst::Running)) i = &x;
		if (!i)
			for (Inst &x : insts)
				if (x.job == job && !x.orphan && x.st == Inst::Done && x.fuzzy) i = &x;
		if (!i) {
			Inst *t = nullptr;
			for (Inst &x : insts)
				if (x.job == job && (!t || x.orphan <= t->orphan) && !x.precrash) t = &x;
			if (t && t->st == Inst::Done) {
				bool never = t->final_why.rfind("limit", 0) == 0 || t->final_why == "worker-failed";
				viol(t->orphan ? "C15,C11" : never ? "C07,C11" : "C11", "resent-after-final",
					"job " + job + " (" + t->final_why + ") sent to " + p.name + " again", t);
			} else if (t && t->orphan)
				viol("C15", "announced-job-dispatched", "job " + job + " announced by a worker was sent to " + p.name, t);
			else if (t && t->st == Inst::Rejected)
				viol("C08", "rejected-but-dispatched", "rejected job " + job + " sent to " + p.name, t);
			else
				viol("C16,C11", "unknown-job-dispatched", "unknown job " + show(f) + " sent to " + p.name);
			if (w) w->fuzzy = true;
			return;
		}
		Msg expect = {"eval", job};
		for (auto &x : i->payload) expect.push_back(x);
		if (!i->fuzzy && f != expect)
			viol("C16", "payload-altered", "job sent as " + show(f) + " instead of " + show(expect), i);
		if (i->st == Inst::Running && i->w) {
			WRec *o = i->w;
			if (o == w) {
				viol("C03", "sent-twice", "job " + job + " sent to " + p.name + " which is already running it", i);
				return;
			}
			if (!i->fuzzy && certain(o)) {
				viol("C06,C11", "stolen-job", "job " + job + " running on " + o->name + " (last heard " + std::to_string((now() - o->last_heard) / MS) + " ms ago) sent to " + p.name, i);
				o->fuzzy = true;
				if (o->cur == i) o->cur = nullptr;
				to_waiting(i);
			} else
				expire(o, "reassigned");
			if (i->st == Inst::Done && !i->fuzzy) {
				viol("C07,C11", "limit-exceeded", "job " + job + " sent to " + p.name + " after " + std::to_string(i->failures) + " failed attempts (limit " + std::to_string(cfg.maxfail) + ")", i);
			}
			if (w && w->gone) w = nullptr;
		}
		if (cfg.qm == "multi" && w && i->st == Inst::Waiting && eval_moved) commit_queued(i);
		if (cfg.qm == "multi" && w && i->st == Inst::Waiting && !i->lru_pending && !i->lru_deferred && !i->maybe_moved && !i->owners.empty() && (!i->owners.count(w) || seg.w != w || eval_moved)) {
			// it was waiting for another worker, so that one was given up; the monitor has to be told
			WRec *lost = nullptr;
			int n = 0;
			for (WRec *o : i->owners)
				if (o != w && !certain(o)) lost = o, ++n;
			if (n == 1) expire(lost, "moved");
			else if (n > 1)
				i->maybe_moved = true;
		}
		bool direct = i->st == Inst::Pending || i->wait_event == eventn || i->wait_fuzzy;
		if (!w) {
			viol("C02,C05", "unregistered-worker", "job " + job + " sent to " + (p.name.empty() ? show(id) : p.name) + " which is not registered", i);
		} else {
			if (!w->fuzzy && !w->rogue && expired_certain(w))
				viol("C05,C02", "dead-worker-used", "job " + job + " sent to " + w->name + " silent for " + std::to_string((now() - w->last_heard) / MS) + " ms", i);
			if (!i->fuzzy && satisfies(w, i) == Tri::no) {
				std::string hs;
				for (auto &h : i->headers) hs += " " + h.first + "=" + h.second;
				viol("C02", "incapable-worker", "job " + job + " requiring" + hs + " sent to " + cap_str(w), i);
			}
			if (w->cur && !w->fuzzy) {
				viol(w->cur->orphan ? "C03,C15" : "C03", "double-dispatch", "job " + job + " sent to " + w->name + " which still holds " + w->cur->job, i);
				if (w->cur->st == Inst::Running) w->cur->fuzzy = true;
			}
		}
		if (i->failures >= cfg.maxfail && !i->fuzzy && i->st != Inst::Done)
			viol("C07", "limit-exceeded", "job " + job + " sent to " + p.name + " after " + std::to_string(i->failures) + " failed attempts", i);
		if (cfg.qm == "multi")
			for (Inst &x : insts)
				if (&x != i && x.lru_pending && x.st != Inst::Pending) commit_queued(&x);
		if (cfg.qm == "multi" && w) {
			if (!i->fuzzy && !i->loose && (i->st == Inst::Pending || i->lru_deferred)) enqueue_owner(i);
			if (i->maybe_moved) {
				w->given_hi = ++seqn;
			} else if (i->lru_pending) {
				if (!i->owners.empty() && !i->owners.count(w) && !w->fuzzy && !w->rogue) {
					WRec *o = *i->owners.begin();
					viol("C18", "unfair-choice", "job " + job + " given to " + w->name + " although " + o->name + " has gone longer without one", i);
				}
				w->given_lo = w->given_hi = ++seqn;
				i->lru_pending = false;
			} else {
				if (!i->fuzzy && !i->loose && !i->owners.empty() && !i->owners.count(w) && !w->fuzzy && !w->rogue)
					viol("C18", "unfair-choice", "job " + job + " given to " + w->name + " although " + (*i->owners.begin())->name + " had gone longer without one when it was queued", i);
				if (i->owners.size() != 1) w->given_hi = ++seqn;
			}
		}
		if (!direct && !i->fuzzy && w && !w->fuzzy) {
			++probes["dispatch-queued"];
			for (Inst &x : insts) {
				if (&x == i || x.st != Inst::Waiting || x.fuzzy || x.wait_fuzzy || x.loose) continue;
				if (x.wait_seq >= i->wait_seq || satisfies(w, &x) != Tri::yes) continue;
				if (cfg.qm == "multi" && !(x.owners.size() == 1 && *x.owners.begin() == w && i->owners.size() == 1)) continue;
				viol("C17", "overtaken", "job " + job + " taken from the queue for " + w->name + " before " + x.job + " which waits longer", i);
				break;
			}
		} else
			++probes["dispatch-direct"];
		if (i->st == Inst::Done) i->final_status = "";
		if (i->recovering) ++probes["recovered-elsewhere"];
		i->st = Inst::Running;
		i->owners.clear();
		i->w = w;
		++i->dispatches;
		if (w) w->cur = i;
		else
			i->fuzzy = true;
	}

	void Model::monitor_status(const std::string &job, const std::string &what)
	{
		++probes["monitor-" + what];
		if (seg.inst && seg.inst->job == job && what == "FAILED" && (seg.inst->st == Inst::Rejected || seg.inst->st == Inst::Pending) && !seg.mon_failed) {
			seg.mon_failed = true;
			return;
		}
		if (seg.limit_inst && seg.limit_inst->job == job && what == "FAILED" && !seg.mon_failed) {
			seg.mon_failed = true;
			return;
		}
		std::vector<Inst *> c;
		for (Inst &x : insts)
			if (x.job == job && !x.precrash) c.push_back(&x);
		Inst *i = nullptr;
		// which of the instances of the job is meant: the one this message fits best, then the one silent longest
		int best = 0;
		bool twins = false;
		for (Inst *x : c) {
			bool fails = x->orphan || x->failures + 1 >= cfg.maxfail;
			bool unsure = x->st == Inst::Running && x->w && !certain(x->w) && !(x->w->rogue && alive_certain(x->w));
			int score = 0;
			if (x->untold) score = (what == "FAILED") == (x->st == Inst::Done) ? 90 : 40;
			else if (unsure) {
				if (what == "ABORTED") score = fails ? 30 : 80;
				else
					score = fails ? 80 : any_certain_capable(x) ? 30 : 60;
			} else if (x->st == Inst::Running)
				score = x->maybe_moved && what == "ABORTED" ? 70 : 10;
			else if (x->st == Inst::Waiting) {
				score = 20;
				if (what == "ABORTED" && cfg.qm == "multi") {
					if (x->maybe_moved) score = 70;
					for (WRec *o : x->owners)
						if (!certain(o)) score = std::max(score, 65);
				} else if (what == "FAILED" && !any_certain_capable(x))
					score = 50;
			}
			if (!score) continue;
			if (score == best && unsure && i->w) twins = true;
			if (score > best) twins = false;
			if (score > best || (score == best && unsure && i->w && x->w->last_heard < i->w->last_heard)) best = score, i = x;
		}
		if (twins && best >= 60) confused = true, ++probes["twins"]; // two lost workers with the same job: cannot tell which one is meant
		if (!i) {
			bool any_fuzzy = false, failed_final = false;
			for (Inst *x : c) {
				any_fuzzy |= x->fuzzy;
				failed_final |= x->st == Inst::Done && x->final_status == "FAILED";
			}
			if (what == "ABORTED" && !any_fuzzy && !seg.rogue) viol("C14", "spurious-abort", "monitor told ABORTED for job " + job + " which is not running");
			(void) failed_final;
			return;
		}
		if (i->fuzzy) {
			i->untold = false;
			if (i->st == Inst::Running && i->w && !alive_certain(i->w)) expire(i->w, "monitor");
			i->untold = false;
			return;
		}
		if (i->maybe_moved && i->st == Inst::Running) {
			i->maybe_moved = false;
			return;
		}
		if (!i->untold && i->st == Inst::Running && i->w) {
			if (certain(i->w)) {
				viol("C06,C14", "alive-worker-given-up", "monitor told " + what + " for job " + job + " running on " + i->w->name + " heard " + std::to_string((now() - i->w->last_heard) / MS) + " ms ago", i);
				return;
			}
			expire(i->w, "monitor");
		} else if (!i->untold && !i->maybe_moved && i->st == Inst::Waiting && cfg.qm == "multi" && what == "ABORTED") {
			WRec *lost = nullptr;
			int n = 0;
			for (WRec *o : i->owners)
				if (!certain(o)) lost = o, ++n;
			if (!n && !i->owners.empty()) {
				viol("C14", "spurious-abort", "monitor told ABORTED for job " + job + " waiting for " + (*i->owners.begin())->name, i);
				return;
			}
			if (n == 1) expire(lost, "monitor");
		}
		i->maybe_moved = false;
		bool was_untold = i->untold;
		i->untold = false;
		if (what == "ABORTED") {
			if (i->st == Inst::Done && i->final_status == "FAILED") viol("C14", "abort-instead-of-failed", "monitor told ABORTED for job " + job + " which ended (" + i->final_why + ")", i);
			else if (i->st == Inst::Waiting) {
				if (!was_untold && cfg.qm == "single") viol("C14", "spurious-abort", "monitor told ABORTED for waiting job " + job, i);
				i->wait_seq = ++seqn;
				i->wait_event = eventn;
				i->wait_fuzzy = false;
				enqueue_owner(i); // it may still be sent at once
			}
		} else {
			if (i->st == Inst::Waiting) {
				if (any_certain_capable(i))
					viol("C11,C07,C14", "given-up-too-early", "job " + job + " given up after " + std::to_string(i->failures) + " failures although a capable worker is registered", i);
				set_final(i, "FAILED", "no-worker");
			} else if (i->st == Inst::Running)
				viol("C14", "failed-instead-of-abort", "monitor told FAILED for job " + job + " which goes on on " + (i->w ? i->w->name : "?"), i);
		}
	}

	void Model::check_stats(const Msg &f)
	{
		++probes["stats"];
		if (f.size() % 2) {
			viol("C19,C16", "bad-stats", "odd number of frames in statistics " + show(f));
			return;
		}
		std::map<std::string, std::string> m;
		for (size_t k = 0; k < f.size(); k += 2) {
			if (m.count(f[k])) viol("C19", "bad-stats", "statistic " + f[k] + " reported twice");
			m[f[k]] = f[k + 1];
		}
		// what the broker reports may date from the end of the previous event of the same wake-up
		Ranges r = stat_ranges();
		static const char *keys[6] = {"queued-jobs", "worker-count", "idle-worker-count", "jobs-in-progress", "evaluated-jobs", "failed-jobs"};
		for (int k = 0; k < 6; ++k) {
			if (!m.count(keys[k])) {
				viol("C19", "missing-stat", std::string("statistic ") + keys[k] + " is missing");
				continue;
			}
			const std::string &s = m[keys[k]];
			int64_t v = atoll(s.c_str());
			bool num = !s.empty() && s.find_first_not_of("0123456789") == std::string::npos;
			bool ok = num && v >= r.lo[k] && v <= r.hi[k];
			if (!ok && num && have_ranges && k < 4) ok = v >= last_ranges.lo[k] && v <= last_ranges.hi[k];
			if (!ok)
				viol("C19", "wrong-stat", std::string(keys[k]) + " reported as " + s + ", actually " + std::to_string(r.lo[k]) + (r.hi[k] != r.lo[k] ? ".." + std::to_string(r.hi[k]) : ""));
		}
		if (!m.count("is-frozen")) viol("C19,C09", "missing-stat", "statistic is-frozen is missing");
		else if (m["is-frozen"] != (frozen ? "1" : "0"))
			viol("C19,C09", "wrong-stat", "is-frozen reported as " + m["is-frozen"]);
	}
	Model::Ranges Model::stat_ranges()
	{
		int64_t waiting = 0, vague = 0, wc_min = 0, wc_max = 0, idle_min = 0, idle_max = 0, busy_min = 0, busy_max = 0;
		for (Inst &x : insts) {
			if (x.precrash) continue;
			if (x.st == Inst::Waiting) ++waiting, vague += x.fuzzy;
			else
				vague += x.fuzzy;
		}
		bool vague_w = false;
		for (WRec *w : regs) {
			if (w->fuzzy || w->rogue) vague_w = true;
			bool c = certain(w);
			wc_min += c;
			++wc_max;
			(w->cur ? busy_max : idle_max) += 1;
			(w->cur ? busy_min : idle_min) += c;
		}
		const int64_t big = 1LL << 60;
		bool unsure = wc_min != wc_max;
		Ranges r;
		auto set = [&](int k, bool any, int64_t lo, int64_t hi) {
			r.lo[k] = any ? 0 : lo;
			r.hi[k] = any ? big : hi;
		};
		set(0, vague || unsure || vague_w, waiting, waiting);
		set(1, vague_w, wc_min, wc_max);
		set(2, vague_w || unsure || vague, idle_min, idle_max);
		set(3, vague_w || unsure || vague, busy_min, busy_max);
		set(4, totals_fuzzy, evaluated, evaluated);
		set(5, totals_fuzzy, failed, failed);
		r.frozen = frozen;
		return r;
	}

	void Model::finish_segment()
	{
		flush();
		commit_all();
		if (!seg.active) return;
		Seg s = std::move(seg);
		seg = Seg();
		if (s.port == cfg.cport) {
			if (s.cmd == "eval" && s.well) {
				size_t n = s.replies.size();
				bool shape = n == 2 && s.replies[0] == Msg{"ack"} && (s.replies[1] == Msg{"accept"} || s.replies[1][0] == "reject");
				if (!shape) {
					std::string r;
					for (auto &x : s.replies) r += show(x);
					viol("C08", "wrong-replies", "request " + show(s.f) + " was answered by " + (r.empty() ? "nothing" : r), s.inst);
				} else {
					bool acc = s.replies[1][0] == "accept";
					Inst *i = s.inst;
					if (s.frozen && acc) viol("C09,C08", "accepted-while-frozen", "job " + i->job + " accepted by a frozen broker", i);
					else if (s.must_accept && !acc)
						viol("C08,C09", "wrong-verdict", "job " + i->job + " rejected although a capable worker is registered", i);
					else if (s.must_reject && acc)
						viol("C08,C05", "wrong-verdict", "job " + i->job + " accepted although no capable worker is registered", i);
					if (!acc && s.want_mon_failed && !s.mon_failed)
						viol("C14", "reject-not-told", "monitor not told FAILED about rejected job " + i->job, i);
				}
			} else if (s.cmd == "freeze" || s.cmd == "unfreeze") {
				if (s.replies.size() != 1 || s.replies[0] != Msg{"ack"}) viol("C09", "command-not-acknowledged", s.cmd + " not acknowledged properly");
			} else if (s.cmd == "get-runtime-stats") {
				if (s.replies.size() != 1) viol("C19", "no-stats", "statistics request got " + std::to_string(s.replies.size()) + " replies");
			}
			if (s.inst && s.inst->st == Inst::Pending) {
				s.inst->st = s.inst->fuzzy ? Inst::Rejected : Inst::Void;
			}
		} else if (s.port == cfg.wport) {
			if (s.cmd == "ping" && !s.rogue) {
				if (s.replies.size() != 1)
					viol(s.ping_unknown ? "C15,C05,C13" : "C06,C13", "ping-not-answered", "ping of " + who(s.port, s.id).name + " got " + std::to_string(s.replies.size()) + " replies");
			}
			if (s.cmd == "progress" && s.mon_strict && !s.expect_mon.empty() && s.mon_matched != 1)
				viol("C14", "progress-not-forwarded", "progress " + show(s.expect_mon) + " of a registered worker not forwarded to the monitor");
			if (s.limit_inst && !s.mon_failed)
				viol("C14", "failure-not-told", "monitor not told FAILED about job " + s.limit_inst->job + " which reached the retry limit", s.limit_inst);
		}
	}

	void Model::on_poll_enter(bool dangling)
	{
		finish_segment();
		last_enter = now();
		++eventn;
		if (dangling) {
			if (!dangling_reported) viol("C16,C10", "dangling-message", "the broker waits for input with an incomplete message on a socket");
			dangling_reported = true;
		}
		for (WRec *w : std::vector<WRec *>(regs)) {
			if (!expired_certain(w)) continue;
			if (w->cur && !w->fuzzy && !w->cur->fuzzy && !w->rogue)
				viol("C14,C05", "abort-not-told", "job " + w->cur->job + " of " + w->name + " silent for " + std::to_string((now() - w->last_heard) / MS) + " ms: neither moved nor reported", w->cur);
			Inst *c = w->cur;
			expire(w, "silence");
			if (c) c->untold = false;
		}
		// reports whose processing in the main loop is complete by now
		while (!to_judge.empty()) {
			Notif *n = to_judge.front();
			to_judge.pop_front();
			judge(n);
		}
		for (Inst &i : insts) {
			if (i.precrash) continue;
			if (i.st == Inst::Waiting && !any_possible_capable(&i)) {
				if (!i.fuzzy) viol("C14", "failure-not-told", "monitor not told about waiting job " + i.job + " that no registered worker can run", &i);
				set_final(&i, "FAILED", "no-worker");
				i.untold = false;
			}
			i.maybe_moved = false;
			if (i.untold) {
				if (!i.fuzzy) viol("C14", "abort-not-told", "monitor not told that job " + i.job + " left a lost worker", &i);
				i.untold = false;
			}
		}
		for (WRec *w : regs) {
			if (w->cur || !certain(w)) continue;
			for (Inst &i : insts) {
				if (i.st != Inst::Waiting || i.fuzzy || i.loose) continue;
				if (cfg.qm == "multi") {
					if (i.owners.erase(w) && i.owners.empty()) {
						viol("C04", "idle-worker", w->name + " is idle while job " + i.job + " waits in its queue", &i);
						i.fuzzy = true;
					}
				} else if (satisfies(w, &i) == Tri::yes) {
					viol("C04", "idle-worker", w->name + " is idle while job " + i.job + " it could run is waiting", &i);
					i.fuzzy = true;
				}
			}
		}
		last_ranges = stat_ranges();
		have_ranges = true;
		note_state();
	}
	void Model::note_state()
	{
		uint64_t h = frozen;
		int waiting = 0, running = 0, orphan = 0, idle = 0, busy = 0, unc = 0, retried = 0;
		for (Inst &i : insts) {
			if (i.st == Inst::Waiting) ++waiting, retried += i.failures > 0;
			if (i.st == Inst::Running) ++running, orphan += i.orphan, retried += i.failures > 0;
		}
		for (WRec *w : regs) {
			if (w->cur) ++busy;
			else
				++idle;
			if (!certain(w)) ++unc;
		}
		for (int x : {std::min(waiting, 12), running, orphan, idle, busy, unc, retried, (int) (curn && !curn->attempts.empty() && !frontend.log[curn->attempts.back()].ok)}) h = mix(h, x);
		states.insert(h);
	}

	// ------------------------------------------------------------------ notifications
	void Model::on_post_start(Attempt &a)
	{
		std::string key = a.key();
		bool repeats = false, excess = false;
		int hidden = frontend.init_failures - init_failures_seen;
		init_failures_seen = frontend.init_failures;
		int idx = a.n - 1;
		++probes["post-attempt"];
		if (curn) {
			Attempt &last = frontend.log[curn->attempts.back()];
			int count = (int) curn->attempts.size() + curn->hidden;
			if (!last.finished) {
				viol("C12", "overlapping-posts", "request to the frontend started while another one is in progress");
			} else if (!last.ok) {
				if (key == curn->key && count + hidden < 4) {
					ns gap = a.t0 - last.t1;
					size_t k = curn->attempts.size();
					if (hidden == 0 && stalls.empty()) {
						if (gap > 60 * SEC) viol("C12", "retry-too-late", "delivery retried only after " + std::to_string(gap / MS) + " ms");
						if (gap < 300 * MS) viol("C12", "retry-without-delay", "delivery retried after " + std::to_string(gap / MS) + " ms");
						if (k >= 2 && curn->hidden == 0) {
							ns pg = frontend.log[curn->attempts[k - 1]].t0 - frontend.log[curn->attempts[k - 2]].t1;
							if (gap < pg * 5 / 4) viol("C12", "retry-delay-not-growing", "delays " + std::to_string(pg / MS) + " ms, then " + std::to_string(gap / MS) + " ms");
						}
					}
					curn->attempts.push_back(idx);
					curn->hidden += hidden;
					++probes["post-retry"];
					return;
				}
				if (key == curn->key && hidden == 0) excess = true; // unless it is another notification with the same content
				if (count + hidden < 4) viol("C12", "gave-up-early", "notification for " + curn->job + " given up after " + std::to_string(count) + " attempts");
				hidden = 0;
			} else if (key == curn->key && !curn->error_type) {
				repeats = true;
			}
		}
		notifs.emplace_back();
		Notif *n = &notifs.back();
		n->key = key;
		n->repeats = repeats;
		n->excess = excess;
		n->attempts.push_back(idx);
		n->hidden = hidden;
		curn = n;
		++probes["notification"];
		// address and credentials
		if (a.scheme != cfg.fe_scheme || a.host != cfg.fe_host || a.port != cfg.fe_port || a.path.rfind(cfg.fe_path, 0) != 0 || !a.post)
			viol("C12,C22", "wrong-address", "notification sent to " + a.scheme + "://" + a.host + ":" + std::to_string(a.port) + a.path + (a.post ? "" : " (not POST)"));
		if (a.user != cfg.fe_user) viol("C12,C22", "wrong-credentials", "notification sent with credentials '" + show(a.user) + "'");
		std::string rest = a.path.size() >= cfg.fe_path.size() ? a.path.substr(cfg.fe_path.size()) : a.path;
		if (rest.rfind("/job-status/", 0) == 0) {
			n->job = rest.substr(12);
			size_t js = a.raw_path.rfind("/job-status/");
			if (!a.query.empty() || js == std::string::npos || a.raw_path.find('/', js + 12) != std::string::npos)
				viol("C12", "bad-notification", "job id not intact in the address of a report: " + a.raw_path + a.query);
			n->status = a.params.count("status") ? a.params["status"] : "";
			n->message = a.params.count("message") ? a.params["message"] : "";
			bool ok = n->status == "OK" || n->status == "FAILED";
			for (auto &p : a.params)
				if (p.first != "status" && p.first != "message") ok = false;
			if (!ok) viol("C12", "bad-notification", "notification for " + n->job + " arrives as '" + show(a.body) + "'");
			to_judge.push_back(n);
		} else if (rest.rfind("/error", 0) == 0) {
			n->error_type = true;
			++probes["error-notification"];
		} else
			viol("C12", "wrong-address", "notification sent to path " + a.path);
	}
	void Model::on_post_end(Attempt &) {}

	void Model::judge(Notif *n)
	{
		if (n->judged) return;
		n->judged = true;
		Inst *exact = nullptr, *fuzzy = nullptr, *open = nullptr;
		bool known = false;
		for (Inst &x : insts) {
			if (x.job != n->job || x.st == Inst::Rejected) continue;
			known = true;
			if (x.matched || x.precrash) continue;
			if (x.st == Inst::Done && x.final_status == n->status && !x.fuzzy) {
				if (!exact || x.final_seq < exact->final_seq) exact = &x;
			}
			else if (x.fuzzy && (!fuzzy || (fuzzy->st != Inst::Done && x.st == Inst::Done)))
				fuzzy = &x;
			else if ((x.st == Inst::Running || x.st == Inst::Waiting) && !open)
				open = &x;
		}
		Inst *i = exact ? exact : fuzzy;
		if (!i && open) {
			// reported although no reason was seen
			if (n->status == "OK") {
				viol("C11", "ok-without-result", "frontend told OK for job " + n->job + " without such a result", open);
			} else {
				bool alive = open->st == Inst::Running ? open->w && certain(open->w) : any_certain_capable(open);
				if (alive) viol("C11", "failed-without-reason", "frontend told FAILED for job " + n->job + " which is still " + (open->st == Inst::Running ? "running on " + open->w->name : "waiting"), open);
				else if (open->st == Inst::Running && open->w)
					expire(open->w, "report");
			}
			if (open->st != Inst::Done) set_final(open, n->status, "reported");
			open->fuzzy = true;
			i = open;
		}
		if (!i) {
			Inst *other = nullptr;
			bool vague = false;
			for (Inst &x : insts)
				if (x.job == n->job) {
					if (x.st == Inst::Done) other = &x;
					vague |= x.fuzzy && x.dispatches > 0;
				}
			if (vague) {
				++probes["not-judged-report"];
				return;
			}
			if (!known) viol("C11", "unknown-job-reported", "frontend told " + n->status + " for job '" + show(n->job) + "' that was never accepted");
			else if (other && other->matched && n->excess)
				viol("C12", "too-many-attempts", "notification for " + n->job + " attempted more than four times");
			else if (other && other->matched)
				viol(n->repeats ? "C11,C12" : "C11", "reported-twice", "second final report (" + n->status + ") for job " + n->job, other);
			else if (other)
				viol("C11", "wrong-report", "frontend told " + n->status + " for job " + n->job + " which ended " + other->final_status + " (" + other->final_why + ")", other);
			else
				viol("C11", "unfounded-report", "frontend told " + n->status + " for job " + n->job);
			if (other) other->matched = true;
			return;
		}
		i->matched = true;
		if (i->fuzzy && (i->st == Inst::Waiting || i->st == Inst::Running)) {
			// how far it got is not known exactly, but it was reported
			if (i->w && i->w->cur == i) i->w->cur = nullptr, i->w->fuzzy = true;
			set_final(i, n->status, "reported");
		}
		if (i->final_msg_known && n->message != i->final_msg)
			viol("C12", "message-altered", "message '" + show(i->final_msg) + "' of job " + n->job + " arrives as '" + show(n->message) + "'", i);
		if (i->order_known && !i->precrash) {
			if (last_order > i->final_seq) viol("C12", "out-of-order", "report for " + n->job + " after the later one for " + last_order_job, i);
			last_order = i->final_seq;
			last_order_job = n->job;
		}
	}

	bool Model::all_done()
	{
		if (!sent.empty()) return false;
		for (Inst &i : insts) {
			if (i.precrash) continue;
			if (i.st == Inst::Waiting || i.st == Inst::Running || i.st == Inst::Pending) return false;
			if (i.st == Inst::Done && !i.matched) return false;
		}
		if (frontend.in_flight > 0 || !to_judge.empty()) return false;
		if (curn) {
			Attempt &last = frontend.log[curn->attempts.back()];
			if (!last.ok && (int) curn->attempts.size() + curn->hidden < 4) return false;
		}
		return true;
	}
	void Model::finish(bool)
	{
		finish_segment();
		while (!to_judge.empty()) {
			Notif *n = to_judge.front();
			to_judge.pop_front();
			judge(n);
		}
		for (Inst &i : insts) {
			if (i.precrash) continue;
			if (i.st == Inst::Waiting || i.st == Inst::Running)
				viol("C01", "job-lost", "job " + i.job + " is still " + (i.st == Inst::Waiting ? "waiting" : "assigned to " + (i.w ? i.w->name : std::string("?"))) + " at the end", &i);
			else if (i.st == Inst::Done && !i.matched)
				viol(i.final_why == "uncertain" ? "C01" : "C01,C11,C12", "report-missing", "no final report for job " + i.job + " (" + i.final_why + ")", &i);
		}
		if (curn && running) {
			Attempt &last = frontend.log[curn->attempts.back()];
			if (last.finished && !last.ok && (int) curn->attempts.size() + curn->hidden < 4)
				viol("C12", "gave-up-early", "notification for " + curn->job + " given up after " + std::to_string(curn->attempts.size()) + " attempts");
			if (!last.finished) viol("C12", "stuck-notifier", "notification for " + curn->job + " hangs since " + std::to_string((now() - last.t0) / MS) + " ms");
		}
	}
	std::vector<std::string> split_props(const std::string &s)
	{
		std::vector<std::string> v;
		size_t i = 0;
		while (i <= s.size()) {
			size_t e = s.find(',', i);
			if (e == std::string::npos) e = s.size();
			if (e > i) v.push_back(s.substr(i, e - i));
			i = e + 1;
		}
		return v;
	}
}
