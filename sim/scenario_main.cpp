// Used only if src/broker_core.cpp or src/main.cpp cannot be compiled here (the repository's own test build leaves
// them out): wires the real parts together the way the real entry point does.
#include <iostream>
#include <memory>
#include <string>
#include <yaml-cpp/yaml.h>

#include "broker_connect.h"
#include "config/broker_config.h"
#include "helpers/logger.h"
#include "queuing/multi_queue_manager.h"
#include "queuing/single_queue_manager.h"
#include "worker_registry.h"

int recodex_broker_main(int argc, char **argv)
{
	try {
		std::shared_ptr<broker_config> config;
		try {
			config = std::make_shared<broker_config>(YAML::LoadFile(argc > 2 ? argv[2] : "config.yml"));
		} catch (std::exception &e) {
			std::exit(1);
		}
		auto workers = std::make_shared<worker_registry>();
		auto context = std::make_shared<zmq::context_t>(1);
		std::shared_ptr<queue_manager_interface> queue;
		if (config->get_queue_manager() == "multi") queue = std::make_shared<multi_queue_manager>();
		else if (config->get_queue_manager() == "single")
			queue = std::make_shared<single_queue_manager<>>();
		else
			std::exit(1);
		broker_connect broker(config, context, workers, queue, helpers::create_null_logger());
		broker.start_brokering();
	} catch (...) {
		return 1;
	}
	return 0;
}
