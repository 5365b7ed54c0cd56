// Reference model of the broker, driven only by what crosses the boundary of the process: messages it receives and
// sends on its sockets, its waits for input, and its HTTP requests. All property oracles live here.
#pragma once
#include "curlstub.h"
#include "net.h"
#include <list>
#include <memory>

namespace sim
{
	using Headers = std::vector<std::pair<std::string, std::string>>;
	enum class Tri { no, yes, maybe };

	struct Config {
		std::string qm = "single";
		int64_t L = 4, maxfail = 3;
		ns ping = 1000 * MS;
		int cport = 0, wport = 0, mport = 7894;
		std::string caddr = "*", waddr = "*", maddr = "127.0.0.1";
		std::string fe_scheme = "http", fe_host, fe_path;
		int fe_port = 80;
		std::string fe_user; // user:password
	};

	struct Inst;
	struct WRec { // a registration of a worker
		std::string id, name;
		std::string hwgroup;
		Headers headers;
		bool rogue = false, gone = false, fuzzy = false;
		ns last_heard = 0, slackpre = 0;
		Inst *cur = nullptr;
		uint64_t given_lo = 0, given_hi = 0; // bounds on when it was last given a job (multi-queue; 0: never)
	};
	struct Inst { // an accepted request, or a job announced by a registering worker
		int n = 0;
		std::string job;
		Headers headers;
		Msg payload;
		bool orphan = false, fuzzy = false, loose = false;
		enum St { Pending, Waiting, Running, Done, Rejected, Void } st = Pending;
		WRec *w = nullptr;
		int64_t failures = 0;
		uint64_t wait_seq = 0, wait_event = 0;
		bool wait_fuzzy = false;
		std::set<WRec *> owners, idle_owners; // whose queue it may be in (multi-queue)
		bool lru_pending = false;  // it was enqueued in this event; owners are the candidates
		bool lru_deferred = false; // it will be enqueued again at a moment yet to be seen
		std::string final_status, final_msg, final_why;
		bool final_msg_known = false;
		uint64_t final_seq = 0;
		bool order_known = false; // it ended by a message of its worker
		bool untold = false;      // the monitor has to be told that it left a lost worker
		bool maybe_moved = false; // it may have been waiting for a worker just lost
		bool recovering = false;  // it left a lost worker
		bool frozen_seen = false; // the broker was frozen at some point of its life
		bool accepted = false;
		ns t_accept = 0, t_final = 0;
		int dispatches = 0;
		bool precrash = false, matched = false;
	};
	struct Notif {
		std::string key, job, status, message;
		std::vector<int> attempts; // indices into frontend.log
		int hidden = 0;            // attempts that failed before a request was made
		bool judged = false;
		bool error_type = false;
		bool excess = false;  // the same as the one before it, which failed four times
		bool repeats = false; // the same as the delivered one before it
	};
	struct Violation {
		std::vector<std::string> props;
		std::string code, text;
		ns t;
	};
	struct Peer {
		std::string name;
		bool rogue = false, flooding = false;
	};

	class Model : public Observer
	{
	public:
		Config cfg;
		std::function<Peer(int port, const std::string &identity)> who;
		std::vector<Violation> violations;
		std::map<std::string, uint64_t> probes;
		std::set<uint64_t> states;
		std::vector<std::pair<ns, ns>> stalls; // injected stalls of the whole process
		bool check_endpoints = true;
		bool relax_latency = false;
		bool confused = false; // what happened cannot be told from outside any more; nothing further is judged

		void on_recv(int port, const std::string &identity, const Msg &frames, ns arrived) override;
		void on_send(int port, const std::string &identity, const Msg &frames, bool routed) override;
		void on_poll_enter(bool mid_multipart) override;
		void on_poll_exit() override;
		void on_bind(const std::string &endpoint, bool ok) override;
		void on_connect(const std::string &endpoint) override;
		void on_post_start(Attempt &a);
		void on_post_end(Attempt &a);
		void crashed();   // the process died; all its state is gone
		void started();
		void finish(bool deadline_hit);
		bool busy() const { return seg.active; } // a message is being handled
		bool all_done();  // nothing is outstanding
		ns now() const { return replay_t ? replay_t : sim::now(); }
		void viol(const std::string &props, const std::string &code, const std::string &text, Inst *i = nullptr);
		std::vector<std::string> bound, connected;
		int accepted_total = 0, dispatch_total = 0;
		std::string dump();
		int live_workers() { return (int) regs.size(); }
		int open_insts();
		bool open_job(const std::string &job);

	private:
		struct Seg {
			bool active = false;
			int port = 0;
			std::string id, cmd;
			Msg f;
			ns t = 0;
			std::vector<Msg> replies;
			bool well = false, must_accept = false, must_reject = false, frozen = false;
			Inst *inst = nullptr;
			bool mon_failed = false;
			Msg expect_mon;
			int mon_matched = 0;
			bool mon_strict = false;
			bool want_mon_failed = false;
			Inst *limit_inst = nullptr;
			bool ping_certain = false, ping_unknown = false;
			WRec *w = nullptr;
			bool rogue = false;
		} seg;
		struct Sent {
			int port;
			std::string id;
			Msg f;
			ns t;
			bool moved; // a job that left a lost worker
		};
		bool eval_moved = false;
		std::vector<Sent> sent; // since the broker last read or waited for input
		ns replay_t = 0;
		bool muted = false;
		bool send_first = false;
		bool abort_first = false; // the monitor is told before the job is sent elsewhere
		void flush();
		void handle_send(int port, const std::string &id, const Msg &f);
		std::list<WRec> recs;
		std::vector<WRec *> regs; // registered, as far as known
		std::list<Inst> insts;
		std::list<Notif> notifs;
		Notif *curn = nullptr;
		std::deque<Notif *> to_judge;
		bool frozen = false;
		ns last_enter = 0, last_exit = 0, prev_exit = 0;
		uint64_t seqn = 0, eventn = 0, finaln = 0;
		int64_t evaluated = 0, failed = 0;
		int64_t stat_min_eval = 0, stat_min_fail = 0;
		bool totals_fuzzy = false;
		bool running = false, dangling_reported = false;
		std::map<std::string, std::pair<int, int>> reports; // job -> number of OK / FAILED notifications
		int hidden_pending = 0, init_failures_seen = 0;
		size_t incarnation_first_attempt = 0;
		std::set<std::string> lost_ok; // jobs of a crashed incarnation whose result had been received
		std::set<std::string> known_jobs, done_ok_jobs;
		uint64_t last_order = 0;
		std::string last_order_job;

		WRec *find(const std::string &id);
		ns stalled(ns from, ns to) const;
		bool alive_certain(const WRec *w) const;
		bool expired_certain(const WRec *w) const;
		bool certain(const WRec *w) const { return !w->rogue && !w->fuzzy && !w->gone && alive_certain(w); }
		Tri satisfies(const WRec *w, const Inst *i) const;
		bool any_certain_capable(const Inst *i) const;
		bool any_possible_capable(const Inst *i) const;
		void finish_segment();
		void expire(WRec *w, const char *how);
		void to_waiting(Inst *i, bool deferred = false);
		void set_final(Inst *i, const std::string &status, const std::string &why);
		void enqueue_owner(Inst *i);
		void commit_queued(Inst *i);
		void commit_all();
		void dispatch(const std::string &id, const Msg &f);
		void monitor_status(const std::string &job, const std::string &what);
		void recv_worker(const std::string &id, const Msg &f);
		void recv_client(const std::string &id, const Msg &f);
		void recv_done(WRec *w, const Msg &f, bool was_certain);
		void recv_init(const std::string &id, const Msg &f, WRec *w, bool was_certain);
		void judge(Notif *n);
		struct Ranges { int64_t lo[6], hi[6]; bool frozen; };
		Ranges stat_ranges();
		Ranges last_ranges;
		bool have_ranges = false;
		void check_stats(const Msg &f);
		void note_state();
		std::string cap_str(const WRec *w) const;
	};
	std::vector<std::string> split_props(const std::string &s);
	std::string show(const Msg &m);
	std::string show(const std::string &s);
}
