// Simulated network and the libzmq C API on top of it.
#pragma once
#include "kernel.h"
#include <memory>

namespace sim
{
	using Msg = std::vector<std::string>;
	struct Conn;
	struct Socket;

	struct Pipe { // one peer as seen by a socket of the process under test
		uint64_t id = 0;
		std::string identity;
		std::deque<Msg> in;
		std::deque<ns> in_t; // arrival times
		bool closed = false; // peer is gone, remaining messages can still be read
		Conn *conn = nullptr;     // remote peer (an actor)
		Socket *peer = nullptr;   // in-process peer ...
		Pipe *peer_pipe = nullptr; // ... and its end
		Socket *owner = nullptr;
	};

	// A TCP connection between an actor and an endpoint of the process under test.
	struct Conn {
		uint64_t id = 0;
		std::string name;
		int port = 0;
		bool open = true;         // actor still wants it
		bool established = false;
		std::string fixed_identity; // routing id set by the actor; empty: assigned by the router
		std::string identity;     // identity in use on the current connection
		Pipe *pipe = nullptr;
		std::deque<Msg> outq;     // queued by the actor until established
		uint64_t epoch = 0;       // incremented on every reset: in-flight traffic of older epochs is lost
		bool held = false;        // partition: nothing passes
		std::deque<std::function<void()>> held_events;
		ns last_up = 0, last_down = 0; // FIFO delivery per direction
		Stream lat;
		ns lat_min = 50 * US, lat_max = 500 * US;
		std::function<void(const Msg &)> on_msg;
		std::function<void()> on_up, on_down;
		bool is_monitor = false;
		bool connecting = false;
	};

	struct Observer { // what crosses the boundary of the process under test
		virtual ~Observer() = default;
		virtual void on_recv(int port, const std::string &identity, const Msg &frames, ns arrived) = 0;
		virtual void on_send(int port, const std::string &identity, const Msg &frames, bool routed) = 0;
		virtual void on_poll_enter(bool mid_multipart) = 0;
		virtual void on_poll_exit() = 0;
		virtual void on_bind(const std::string &endpoint, bool ok) = 0;
		virtual void on_connect(const std::string &endpoint) = 0;
	};
	extern Observer *observer;

	namespace net
	{
		Conn *connect(const std::string &name, int port, const std::string &fixed_identity = "");
		void send(Conn *c, const Msg &m);
		void close(Conn *c);               // actor closes the connection for good
		void reset(Conn *c, ns reconnect_after); // connection breaks and is re-established by the transport
		void hold(Conn *c);
		void release(Conn *c, bool lossy, ns reconnect_after); // lossy: the connection did not survive
		void process_crashed();
		bool listening(int port);
		int open_sockets();
		extern std::set<std::string> busy_endpoints; // bind() to these fails
		extern bool monitor_up;
		void set_monitor(bool up);
		extern std::function<void(const Msg &)> monitor_rx; // messages that reach the monitor
		extern int monitor_port;
		void monitor_send(const Msg &m);
		extern uint64_t n_dropped_unroutable, n_sent, n_received, n_lost_inflight;
	}
}
