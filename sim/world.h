// The simulated deployment around the broker: workers, clients, hostile peers, monitor, frontend, and the faults.
#pragma once
#include "model.h"
#include "plan.h"

namespace sim
{
	struct Result {
		std::vector<Violation> violations;
		uint64_t hash = 0, steps = 0;
		ns sim_time = 0;
		std::map<std::string, uint64_t> faults, probes;
		std::set<uint64_t> states;
		bool completed = false;
	};
	extern void *broker_library;
	Result run_world(const Plan &p, const std::string &scratch);   // the whole broker
	Result run_reactor(const Plan &p, const std::string &scratch); // the reactor alone, with scripted handlers
}
