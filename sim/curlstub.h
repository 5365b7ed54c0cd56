// Simulated libcurl and the frontend's REST endpoint behind it.
#pragma once
#include "kernel.h"

namespace sim
{
	struct Attempt {
		int n = 0;
		ns t0 = 0, t1 = -1;
		std::string scheme, host, path; // path: decoded
		std::string raw_path, query;
		int port = 0;
		std::string user;      // "user:password" as sent, empty if none
		bool post = false;
		std::string body;
		std::map<std::string, std::string> params; // form-decoded
		std::string mode;
		bool applied = false;  // the server processed it
		bool ok = false;       // the client saw success
		bool finished = false;
		std::string key() const;
	};
	struct Frontend {
		std::string mode = "up";
		ns slow = 0;
		ns lat_min = 500 * US, lat_max = 5 * MS;
		double fail_p = 0;      // additional failures drawn per attempt
		std::vector<std::string> fail_kinds = {"refuse", "reset", "e500", "lost"};
		std::deque<Attempt> log; // deque: stable references
		std::function<void(Attempt &)> on_start, on_end;
		int init_calls = 0, init_failures = 0;
		int live_handles = 0;
		std::map<std::string, uint64_t> fired;
		int in_flight = 0;
	};
	extern Frontend frontend;
	void frontend_crashed_client(); // the process under test died: its requests are cut
}
