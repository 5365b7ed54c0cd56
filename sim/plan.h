// A plan is everything that determines one simulated execution: configuration, knobs, seed and the list of actions
// (workload and faults). Its text form is the replay file.
#pragma once
#include "kernel.h"

namespace sim
{
	std::string pct_encode(const std::string &s);
	std::string pct_decode(const std::string &s);
	std::string join_list(const std::vector<std::string> &v); // items percent-encoded, separated by ','
	std::vector<std::string> split_list(const std::string &s);

	struct Action {
		int id = 0;
		ns t = 0;
		std::string kind;
		std::map<std::string, std::string> a;
		std::string get(const std::string &k, const std::string &def = "") const
		{
			auto it = a.find(k);
			return it == a.end() ? def : it->second;
		}
		int64_t num(const std::string &k, int64_t def = 0) const
		{
			auto it = a.find(k);
			return it == a.end() ? def : atoll(it->second.c_str());
		}
	};
	struct Plan {
		std::map<std::string, std::string> kv;
		std::vector<Action> acts;
		std::string get(const std::string &k, const std::string &def = "") const
		{
			auto it = kv.find(k);
			return it == kv.end() ? def : it->second;
		}
		int64_t num(const std::string &k, int64_t def = 0) const
		{
			auto it = kv.find(k);
			return it == kv.end() ? def : atoll(it->second.c_str());
		}
		double real(const std::string &k, double def = 0) const
		{
			auto it = kv.find(k);
			return it == kv.end() ? def : atof(it->second.c_str());
		}
		void set(const std::string &k, const std::string &v) { kv[k] = v; }
		void set(const std::string &k, int64_t v) { kv[k] = std::to_string(v); }
		Action &add(ns t, const std::string &kind);
		std::string text() const;
		static Plan parse(const std::string &text);
	};

	Plan generate(const std::string &profile, uint64_t seed, const std::string &tier);
}
