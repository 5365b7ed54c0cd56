// Part of the library under test's side: the real reactor with scripted handlers and a plain ROUTER socket wrapper,
// using only the interface that the repository's own reactor tests use. Everything that happens is reported to the
// simulator, which owns the oracle (reactor_world.cpp).
#include <chrono>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "reactor/reactor.h"

extern "C" void sim_scn_event(int kind, int who, const char *key, const char *ident, unsigned long ident_len,
	const char *const *frames, const unsigned long *lens, int n);

struct scn_conf {
	int asyncs, sinks, echo, pre;
	long long slow_us, term_us;
	const char *const *pre_data; // one binary frame per message routed before the loop starts
	const unsigned long *pre_len;
};

namespace
{
	enum { ROUTED = 0, BEGIN = 1, END = 2, RESPONSE = 3, RETURNED = 4, TERMINATE = 5, SYNC = 6, RECEIVED = 7, SENT = 8, GONE = 9 };

	void tell(int kind, int who, const message_container &m = message_container())
	{
		std::vector<const char *> f;
		std::vector<unsigned long> l;
		for (auto &d : m.data) f.push_back(d.data()), l.push_back(d.size());
		sim_scn_event(kind, who, m.key.c_str(), m.identity.data(), m.identity.size(), f.data(), l.data(), (int) f.size());
	}

	class wire : public socket_wrapper_base
	{
	public:
		wire(std::shared_ptr<zmq::context_t> context, const std::string &addr, const std::string &name)
			: socket_wrapper_base(context, zmq::socket_type::router, addr, true), name_(name)
		{
		}
		bool send_message(const message_container &m) override
		{
			tell(SENT, 0, m);
			socket_.send(m.identity.data(), m.identity.size(), m.data.empty() ? 0 : ZMQ_SNDMORE);
			for (size_t i = 0; i < m.data.size(); ++i)
				socket_.send(m.data[i].data(), m.data[i].size(), i + 1 < m.data.size() ? ZMQ_SNDMORE : 0);
			return true;
		}
		bool receive_message(message_container &m) override
		{
			zmq::message_t z;
			socket_.recv(&z, 0);
			m.identity = std::string((char *) z.data(), z.size());
			while (z.more()) {
				socket_.recv(&z, 0);
				m.data.emplace_back((char *) z.data(), z.size());
			}
			message_container copy = m;
			copy.key = name_;
			tell(RECEIVED, 0, copy);
			return true;
		}

	private:
		std::string name_;
	};

	// forwards what peers ask for to an asynchronous handler: frames are [to, uid, n, data ...]
	class forwarder : public handler_interface
	{
	public:
		void on_request(const message_container &m, const response_cb &response) override
		{
			if (m.data.size() < 2) return;
			message_container out("async" + m.data[0], m.data[1], {});
			for (size_t i = 2; i < m.data.size(); ++i) out.data.push_back(m.data[i]);
			tell(ROUTED, 0, out);
			response(out);
		}
	};
	class sink : public handler_interface
	{
	public:
		explicit sink(int i) : i_(i) {}
		void on_request(const message_container &m, const response_cb &) override { tell(SYNC, i_, m); }

	private:
		int i_;
	};
	class scripted : public handler_interface
	{
	public:
		scripted(int i, const scn_conf &c) : i_(i), c_(c) {}
		~scripted() override { tell(GONE, i_); }
		void on_request(const message_container &m, const response_cb &response) override
		{
			tell(BEGIN, i_, m);
			if (c_.slow_us > 0) std::this_thread::sleep_for(std::chrono::microseconds(c_.slow_us));
			bool answer = m.key != "relay";
			for (int e = 0; answer && e < c_.echo; ++e) {
				unsigned k = n_++;
				message_container out;
				std::string uid = "r" + std::to_string(i_) + "." + std::to_string(k);
				switch (k % 4) {
				case 0: out = message_container("out", "peer" + std::to_string(k % 3), {uid, std::string("\0x", 2), ""}); break;
				case 1: out = message_container("back", uid, {}); break;
				case 2: out = message_container("back", uid, m.data); break;
				default: out = message_container("relay", uid, {uid, std::string(1 + k % 7, (char) k)}); break;
				}
				tell(RESPONSE, i_, out);
				response(out);
			}
			tell(END, i_, m);
		}

	private:
		int i_;
		unsigned n_ = 0;
		scn_conf c_;
	};
}

// the "main" of this scenario; returns when the reactor has been stopped and destroyed
extern "C" void scn_reactor_main(const scn_conf *c)
{
	auto context = std::make_shared<zmq::context_t>(1);
	{
		reactor r(context);
		r.add_socket("io", std::make_shared<wire>(context, "tcp://*:7001", "io"));
		r.add_socket("direct", std::make_shared<wire>(context, "tcp://*:7002", "direct"));
		r.add_socket("out", std::make_shared<wire>(context, "tcp://*:7003", "out"));
		r.add_handler({"io"}, std::make_shared<forwarder>());
		for (int i = 0; i < c->sinks; ++i) r.add_handler({"back"}, std::make_shared<sink>(i));
		for (int i = 0; i < c->asyncs; ++i) {
			std::vector<std::string> keys = {"async" + std::to_string(i), "direct"};
			if (i == 0) keys.push_back("relay");
			r.add_async_handler(keys, std::make_shared<scripted>(i, *c));
		}
		for (int i = 0; i < c->pre; ++i) {
			message_container m("async" + std::to_string(i % c->asyncs), "pre" + std::to_string(i), {});
			if (i % 3) m.data.emplace_back(c->pre_data[i], c->pre_len[i]);
			tell(ROUTED, 0, m);
			r.process_message(m);
		}
		if (c->term_us < 0) {
			tell(TERMINATE, 0);
			r.terminate();
			r.start_loop();
			tell(RETURNED, 0);
		} else {
			std::thread t([&]() {
				std::this_thread::sleep_for(std::chrono::microseconds(c->term_us));
				tell(TERMINATE, 0);
				r.terminate();
			});
			r.start_loop();
			tell(RETURNED, 0);
			t.join();
		}
	}
}
