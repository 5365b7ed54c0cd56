// Lets src/broker_core.cpp, written for spdlog 0.x, build against spdlog 1.x inside the simulator. The file sink
// is replaced by one that hands every line to the simulator (which can make the simulated disk fail).
#pragma once
#include_next <spdlog/spdlog.h>
#include <chrono>
#include <functional>
#include <memory>
#include <mutex>
#include <spdlog/sinks/base_sink.h>
#include <string>

extern "C" int sim_log_write(int level, const char *data, unsigned long len); // 0: written, otherwise errno
extern "C" int sim_log_open(const char *path, unsigned long max_size, unsigned long max_files);

namespace spdlog
{
	enum class sim_overflow { block_retry, discard_log_msg };
	struct async_overflow_policy_shim {
		static constexpr sim_overflow block_retry = sim_overflow::block_retry;
		static constexpr sim_overflow discard_log_msg = sim_overflow::discard_log_msg;
	};
#define async_overflow_policy async_overflow_policy_shim
	inline void set_async_mode(std::size_t,
		sim_overflow = sim_overflow::block_retry,
		const std::function<void()> & = nullptr,
		const std::chrono::milliseconds & = std::chrono::milliseconds::zero(),
		const std::function<void()> & = nullptr)
	{
	}

	namespace sinks
	{
		template <typename Mutex> class sim_rotating_file_sink : public base_sink<Mutex>
		{
		public:
			sim_rotating_file_sink(const std::string &path, std::size_t max_size, std::size_t max_files, bool = false)
			{
				int e = sim_log_open(path.c_str(), max_size, max_files);
				if (e) throw spdlog_ex("Failed opening file for writing", e);
			}

		protected:
			void sink_it_(const details::log_msg &msg) override
			{
				memory_buf_t formatted;
				this->formatter_->format(msg, formatted);
				int e = sim_log_write((int) msg.level, formatted.data(), formatted.size());
				if (e) throw spdlog_ex("Failed writing to file", e);
			}
			void flush_() override
			{
			}
		};
#define rotating_file_sink_mt sim_rotating_file_sink<std::mutex>
#define rotating_file_sink_st sim_rotating_file_sink<spdlog::details::null_mutex>
	}

	inline std::shared_ptr<logger> create(const std::string &name, sink_ptr sink)
	{
		auto l = std::make_shared<logger>(name, std::move(sink));
		register_logger(l);
		return l;
	}
}
