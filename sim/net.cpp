#include "net.h"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <zmq.h>

// Semantics follow libzmq 4.3: ROUTER drops what it cannot route, fair-queues its inbound pipes, and merges
// frames sent after a dangling SNDMORE; in-process connects become visible to the bound side only when that
// side next processes its command mailbox (throttled to about one millisecond on the send path).

namespace sim
{
	Observer *observer = nullptr;

	struct Ctx {
		int nsock = 0;
		bool term = false;
		std::vector<Fiber *> waiters;
	};
	struct Socket {
		Ctx *ctx = nullptr;
		int type = 0;
		uint64_t id = 0;
		bool closed = false;
		std::string routing_id;
		std::vector<std::string> binds, connects;
		std::vector<Pipe *> pipes;
		std::vector<Pipe *> pending; // in-process peers whose "bind" command was not processed yet
		size_t rr = 0;
		ns last_cmd = -1000 * SEC;
		// receive state
		Msg rcv;
		size_t rcv_idx = 0;
		bool rcv_active = false;
		std::string rcv_identity;
		ns rcv_arrived = 0;
		// send state
		bool snd_active = false;
		Msg snd;
		Pipe *snd_pipe = nullptr;
		size_t lb = 0;
		// options
		int sndhwm = 1000, rcvhwm = 1000, rcvtimeo = -1, sndtimeo = -1, linger = -1, mandatory = 0;
		std::vector<Fiber *> waiters;
		int port = -1; // of the TCP endpoint
	};

	static std::vector<Socket *> sockets;
	static std::map<std::string, Socket *> inproc;
	static std::map<int, Socket *> listeners;
	static std::vector<Conn *> conns;
	static uint64_t next_sock = 0, next_pipe = 0, next_conn = 0;
	static uint32_t next_rid = 0;
	static Conn *monitor_conn = nullptr;

	namespace net
	{
		std::set<std::string> busy_endpoints;
		bool monitor_up = true;
		int monitor_port = 0;
		std::function<void(const Msg &)> monitor_rx;
		uint64_t n_dropped_unroutable = 0, n_sent = 0, n_received = 0, n_lost_inflight = 0;

		static void wake_socket(Socket *s)
		{
			for (Fiber *f : s->waiters) wake(f);
			s->waiters.clear();
		}
		static ns latency(Conn *c) { return c->lat.range(c->lat_min, c->lat_max); }
		static void remove_pipe(Socket *s, Pipe *p)
		{
			auto it = std::find(s->pipes.begin(), s->pipes.end(), p);
			if (it == s->pipes.end()) return;
			size_t i = it - s->pipes.begin();
			s->pipes.erase(it);
			if (s->rr > i) --s->rr;
			if (s->snd_pipe == p) s->snd_pipe = nullptr;
		}
		static void up_arrive(Conn *c, uint64_t epoch, const Msg &m)
		{
			if (c->epoch != epoch || !c->established || !c->pipe) {
				++n_lost_inflight;
				return;
			}
			c->pipe->in.push_back(m);
			c->pipe->in_t.push_back(now());
			wake_socket(c->pipe->owner);
		}
		static void transmit_up(Conn *c, const Msg &m)
		{
			ns t = std::max(c->last_up + 1, now() + latency(c));
			c->last_up = t;
			uint64_t e = c->epoch;
			at(t, [c, e, m]() {
				if (c->held && c->epoch == e) {
					c->held_events.push_back([c, e, m]() { up_arrive(c, e, m); });
					return;
				}
				up_arrive(c, e, m);
			});
		}
		static void down_arrive(Conn *c, uint64_t epoch, const Msg &m)
		{
			if (c->epoch != epoch || !c->open || !c->established) {
				++n_lost_inflight;
				return;
			}
			if (c->on_msg) c->on_msg(m);
		}
		static void transmit_down(Conn *c, const Msg &m)
		{
			ns t = std::max(c->last_down + 1, now() + latency(c));
			c->last_down = t;
			uint64_t e = c->epoch;
			at(t, [c, e, m]() {
				if (c->held && c->epoch == e) {
					c->held_events.push_back([c, e, m]() { down_arrive(c, e, m); });
					return;
				}
				down_arrive(c, e, m);
			});
		}
		static void try_establish(Conn *c)
		{
			if (!c->open || c->established || c->connecting) return;
			c->connecting = true;
			uint64_t e = c->epoch;
			at(now() + latency(c) * 2, [c, e]() {
				if (c->epoch != e) return;
				c->connecting = false;
				if (!c->open || c->established) return;
				Socket *s = nullptr;
				if (c->is_monitor) {
					if (net::monitor_up)
						for (Socket *x : sockets)
							if (!x->closed && x->port == c->port && !x->connects.empty()) s = x;
				} else {
					auto it = listeners.find(c->port);
					if (it != listeners.end()) s = it->second;
				}
				if (!s || c->held) {
					at(now() + 100 * MS, [c, e]() {
						if (c->epoch == e) try_establish(c);
					});
					return;
				}
				if (!c->fixed_identity.empty()) {
					for (Pipe *p : s->pipes)
						if (p->identity == c->fixed_identity && !p->closed) { // identity still in use: refused
							at(now() + 100 * MS, [c, e]() {
								if (c->epoch == e) try_establish(c);
							});
							return;
						}
				}
				auto *p = new Pipe;
				p->id = ++next_pipe;
				p->conn = c;
				p->owner = s;
				if (!c->fixed_identity.empty()) {
					p->identity = c->fixed_identity;
				} else {
					uint32_t r = ++next_rid;
					p->identity = std::string(1, '\0') + (char) (r >> 24) + (char) (r >> 16) + (char) (r >> 8) + (char) r;
				}
				c->identity = p->identity;
				c->pipe = p;
				c->established = true;
				s->pipes.push_back(p);
				trace_event("net up " + c->name);
				if (c->on_up) c->on_up();
				while (!c->outq.empty()) {
					transmit_up(c, c->outq.front());
					c->outq.pop_front();
				}
			});
		}
		static void drop(Conn *c, bool broker_side)
		{
			++c->epoch;
			c->connecting = false;
			c->held_events.clear();
			bool was = c->established;
			c->established = false;
			if (c->pipe) {
				Pipe *p = c->pipe;
				c->pipe = nullptr;
				p->conn = nullptr;
				p->closed = true;
				if (p->in.empty() && p->owner) remove_pipe(p->owner, p);
			}
			if (was) trace_event("net down " + c->name);
			if (was && c->on_down) c->on_down();
			(void) broker_side;
		}
		Conn *connect(const std::string &name, int port, const std::string &fixed)
		{
			auto *c = new Conn;
			c->id = ++next_conn;
			c->name = name;
			c->port = port;
			c->fixed_identity = fixed;
			c->lat = Stream(knobs.seed, "lat:" + name);
			conns.push_back(c);
			try_establish(c);
			return c;
		}
		void send(Conn *c, const Msg &m)
		{
			if (!c->open) return;
			if (c->established) transmit_up(c, m);
			else c->outq.push_back(m);
		}
		void close(Conn *c)
		{
			if (!c->open) return;
			c->open = false;
			c->on_msg = nullptr;
			c->on_up = c->on_down = nullptr;
			// what is already in flight still arrives before the FIN
			ns t = std::max(c->last_up + 1, now() + latency(c));
			uint64_t e = c->epoch;
			if (c->established)
				at(t, [c, e]() {
					if (c->epoch == e) drop(c, false);
				});
			else
				drop(c, false);
		}
		void reset(Conn *c, ns reconnect_after)
		{
			if (!c->open) return;
			drop(c, false);
			uint64_t e = c->epoch;
			at(now() + reconnect_after, [c, e]() {
				if (c->epoch == e) try_establish(c);
			});
		}
		void hold(Conn *c) { c->held = true; }
		void release(Conn *c, bool lossy, ns reconnect_after)
		{
			if (!c->held) return;
			c->held = false;
			if (lossy) {
				reset(c, reconnect_after);
				return;
			}
			auto ev = std::move(c->held_events);
			c->held_events.clear();
			uint64_t e = c->epoch;
			for (auto &f : ev) {
				if (c->epoch != e) break;
				f();
			}
		}
		void process_crashed()
		{
			for (Socket *s : sockets) s->closed = true;
			sockets.clear();
			inproc.clear();
			listeners.clear();
			for (Conn *c : conns) {
				if (!c->open && !c->established) continue;
				if (c->pipe) c->pipe->owner = nullptr;
				bool was = c->established || c->connecting;
				drop(c, true);
				if (was && c->open) {
					uint64_t e = c->epoch;
					at(now() + 100 * MS, [c, e]() {
						if (c->epoch == e) try_establish(c);
					});
				}
			}
		}
		bool listening(int port) { return listeners.count(port) > 0; }
		int open_sockets() { return (int) sockets.size(); }
		void set_monitor(bool up)
		{
			monitor_up = up;
			if (!monitor_conn) return;
			if (!up) {
				drop(monitor_conn, false);
				uint64_t e = monitor_conn->epoch;
				at(now() + 100 * MS, [e]() {
					if (monitor_conn->epoch == e) try_establish(monitor_conn);
				});
			}
		}
		void monitor_send(const Msg &m)
		{
			if (monitor_conn && monitor_conn->established) transmit_up(monitor_conn, m);
		}
	}

	// ------------------------------------------------------------------ socket operations
	static void process_commands(Socket *s, bool throttle)
	{
		if (throttle) {
			if (now() - s->last_cmd <= 1 * MS) return;
			s->last_cmd = now();
		}
		for (Pipe *p : s->pending) s->pipes.push_back(p);
		s->pending.clear();
	}
	static bool readable(Socket *s)
	{
		if (s->rcv_active) return true;
		for (Pipe *p : s->pipes)
			if (!p->in.empty()) return true;
		return false;
	}
	static int in_hwm(Socket *to, Socket *from)
	{
		return (to->rcvhwm == 0 || from->sndhwm == 0) ? 0 : to->rcvhwm + from->sndhwm;
	}
	static bool writable_pipe(Socket *s, Pipe *p)
	{
		if (p->closed) return false;
		if (p->peer) {
			int h = in_hwm(p->peer, s);
			return h == 0 || (int) p->peer_pipe->in.size() < h;
		}
		return p->conn != nullptr;
	}
	static bool writable(Socket *s)
	{
		if (s->type == ZMQ_ROUTER) return true;
		for (Pipe *p : s->pipes)
			if (writable_pipe(s, p)) return true;
		return false;
	}
	static bool fetch(Socket *s) // takes the next complete message
	{
		size_t n = s->pipes.size();
		for (size_t k = 0; k < n; ++k) {
			size_t i = (s->rr + k) % n;
			Pipe *p = s->pipes[i];
			if (p->in.empty()) continue;
			s->rcv.clear();
			if (s->type == ZMQ_ROUTER) s->rcv.push_back(p->identity);
			for (auto &f : p->in.front()) s->rcv.push_back(f);
			s->rcv_identity = p->identity;
			s->rcv_arrived = p->in_t.front();
			p->in.pop_front();
			p->in_t.pop_front();
			s->rr = (i + 1) % n;
			if (p->closed && p->in.empty()) net::remove_pipe(s, p);
			if (p->peer) net::wake_socket(p->peer); // space for the sender
			s->rcv_idx = 0;
			s->rcv_active = true;
			return true;
		}
		return false;
	}
	static void complete_send(Socket *s)
	{
		Msg m = std::move(s->snd);
		s->snd.clear();
		Pipe *p = s->snd_pipe;
		s->snd_pipe = nullptr;
		if (s->type == ZMQ_ROUTER) {
			std::string id = m.empty() ? "" : m[0];
			Msg body(m.begin() + (m.empty() ? 0 : 1), m.end());
			bool routed = p && writable_pipe(s, p);
			if (s->port >= 0 && observer) observer->on_send(s->port, id, body, routed);
			if (!routed) {
				++net::n_dropped_unroutable;
				return;
			}
			++net::n_sent;
			if (p->peer) {
				p->peer_pipe->in.push_back(body);
				p->peer_pipe->in_t.push_back(now());
				net::wake_socket(p->peer);
			} else
				net::transmit_down(p->conn, body);
		} else {
			if (!p) return;
			if (p->peer) {
				p->peer_pipe->in.push_back(m);
				p->peer_pipe->in_t.push_back(now());
				net::wake_socket(p->peer);
			} else if (p->conn)
				net::transmit_down(p->conn, m);
		}
	}
	static int do_send(Socket *s, const void *buf, size_t len, int flags)
	{
		Harness h;
		yield_point("zmq_send");
		if (s->closed || s->ctx->term) {
			errno = s->closed ? ENOTSOCK : ETERM;
			return -1;
		}
		process_commands(s, true);
		std::string data((const char *) buf, len);
		bool more = flags & ZMQ_SNDMORE;
		if (s->type == ZMQ_ROUTER) {
			if (!s->snd_active) {
				if (!more) return (int) len; // identity without a body is ignored
				Pipe *found = nullptr;
				for (Pipe *p : s->pipes)
					if (p->identity == data && !p->closed) found = p;
				if (s->mandatory && !found) {
					errno = EHOSTUNREACH;
					return -1;
				}
				s->snd_pipe = found;
			}
		} else if (!s->snd_active) {
			ns deadline = s->sndtimeo < 0 ? -1 : now() + s->sndtimeo * MS;
			for (;;) {
				Pipe *found = nullptr;
				size_t n = s->pipes.size();
				for (size_t k = 0; k < n && !found; ++k) {
					Pipe *p = s->pipes[(s->lb + k) % n];
					if (writable_pipe(s, p)) {
						found = p;
						s->lb = (s->lb + k + 1) % n;
					}
				}
				if (found) {
					s->snd_pipe = found;
					break;
				}
				if (flags & ZMQ_DONTWAIT) {
					errno = EAGAIN;
					return -1;
				}
				s->waiters.push_back(cur);
				bool ok = block(deadline);
				process_commands(s, false);
				if (!ok) {
					errno = EAGAIN;
					return -1;
				}
			}
		}
		s->snd.push_back(std::move(data));
		s->snd_active = more;
		if (!more) complete_send(s);
		return (int) len;
	}
	// next frame into out; 1 ok
	static int do_recv(Socket *s, std::string &out, bool &more, int flags)
	{
		Harness h;
		yield_point("zmq_recv");
		if (s->closed || s->ctx->term) {
			errno = s->closed ? ENOTSOCK : ETERM;
			return -1;
		}
		if (!s->rcv_active) {
			ns deadline = s->rcvtimeo < 0 ? -1 : now() + s->rcvtimeo * MS;
			bool told = false;
			while (!fetch(s)) {
				process_commands(s, false);
				if (fetch(s)) break;
				if (flags & ZMQ_DONTWAIT) {
					errno = EAGAIN;
					return -1;
				}
				if (!told && s->port >= 0 && observer) observer->on_poll_enter(false), told = true;
				s->waiters.push_back(cur);
				bool ok = block(deadline);
				auto &w = s->waiters;
				w.erase(std::remove(w.begin(), w.end(), cur), w.end());
				if (s->closed || s->ctx->term) {
					errno = ETERM;
					return -1;
				}
				if (!ok) {
					errno = EAGAIN;
					return -1;
				}
			}
			if (told && observer) observer->on_poll_exit();
			++net::n_received;
		}
		out = s->rcv[s->rcv_idx++];
		more = s->rcv_idx < s->rcv.size();
		if (!more) {
			s->rcv_active = false;
			if (s->port >= 0 && observer) {
				Msg body = s->rcv;
				std::string id = s->rcv_identity;
				if (s->type == ZMQ_ROUTER) body.erase(body.begin());
				observer->on_recv(s->port, id, body, s->rcv_arrived);
			}
		}
		return 1;
	}
	static int parse_port(const std::string &ep)
	{
		size_t p = ep.rfind(':');
		if (p == std::string::npos) return -1;
		return atoi(ep.c_str() + p + 1);
	}
	static void close_socket(Socket *s)
	{
		s->closed = true;
		for (auto it = inproc.begin(); it != inproc.end();) it = it->second == s ? inproc.erase(it) : std::next(it);
		for (auto it = listeners.begin(); it != listeners.end();) it = it->second == s ? listeners.erase(it) : std::next(it);
		auto pipes = s->pipes;
		for (Pipe *p : s->pending) pipes.push_back(p);
		s->pipes.clear();
		s->pending.clear();
		for (Pipe *p : pipes) {
			p->owner = nullptr;
			if (p->peer) {
				Pipe *q = p->peer_pipe;
				q->closed = true;
				if (q->in.empty()) net::remove_pipe(p->peer, q);
				net::wake_socket(p->peer);
			} else if (p->conn)
				net::reset(p->conn, 100 * MS);
		}
		sockets.erase(std::remove(sockets.begin(), sockets.end(), s), sockets.end());
		net::wake_socket(s);
		if (--s->ctx->nsock == 0) {
			for (Fiber *f : s->ctx->waiters) wake(f);
			s->ctx->waiters.clear();
		}
	}
}

using namespace sim;

// ====================================================================== C API
struct FakeMsg {
	char *data;
	size_t size;
	int more;
	uint32_t magic;
	int *refs;
	zmq_free_fn *ffn;
	void *hint;
};
static_assert(sizeof(FakeMsg) <= sizeof(zmq_msg_t), "");
static FakeMsg *fm(zmq_msg_t *m) { return (FakeMsg *) m; }
static const FakeMsg *fm(const zmq_msg_t *m) { return (const FakeMsg *) m; }
constexpr uint32_t MSGMAGIC = 0x5a5a1234;

extern "C" {
int zmq_errno(void) { return errno; }
const char *zmq_strerror(int e)
{
	Harness h;
	switch (e) {
	case ETERM: return "Context was terminated";
	case EFSM: return "Operation cannot be accomplished in current state";
	default: return strerror(e);
	}
}
void zmq_version(int *a, int *b, int *c) { *a = 4, *b = 3, *c = 5; }
int zmq_has(const char *) { return 0; }
void zmq_sleep(int sec)
{
	struct timespec t = {sec, 0};
	nanosleep(&t, nullptr);
}
void *zmq_stopwatch_start(void) { return new ns(now()); }
unsigned long zmq_stopwatch_intermediate(void *w) { return (unsigned long) ((now() - *(ns *) w) / US); }
unsigned long zmq_stopwatch_stop(void *w)
{
	unsigned long r = zmq_stopwatch_intermediate(w);
	delete (ns *) w;
	return r;
}

void *zmq_ctx_new(void)
{
	Harness h;
	return new Ctx;
}
void *zmq_init(int) { return zmq_ctx_new(); }
int zmq_ctx_set(void *, int, int) { return 0; }
int zmq_ctx_get(void *, int) { return 1; }
int zmq_ctx_term(void *c)
{
	Harness h;
	auto *x = (Ctx *) c;
	x->term = true;
	for (Socket *s : std::vector<Socket *>(sockets))
		if (s->ctx == x) net::wake_socket(s);
	while (x->nsock > 0) {
		x->waiters.push_back(cur);
		block(-1);
	}
	return 0;
}
int zmq_ctx_destroy(void *c) { return zmq_ctx_term(c); }
int zmq_term(void *c) { return zmq_ctx_term(c); }
int zmq_ctx_shutdown(void *c)
{
	Harness h;
	((Ctx *) c)->term = true;
	for (Socket *s : std::vector<Socket *>(sockets)) net::wake_socket(s);
	return 0;
}

void *zmq_socket(void *c, int type)
{
	Harness h;
	yield_point("zmq_socket");
	if (type != ZMQ_ROUTER && type != ZMQ_DEALER && type != ZMQ_PAIR) fatal("socket type %d not simulated", type);
	auto *s = new Socket;
	s->ctx = (Ctx *) c;
	s->type = type;
	s->id = ++next_sock;
	++s->ctx->nsock;
	sockets.push_back(s);
	return s;
}
int zmq_close(void *p)
{
	Harness h;
	auto *s = (Socket *) p;
	if (!s || s->closed) {
		errno = ENOTSOCK;
		return -1;
	}
	yield_point("zmq_close");
	close_socket(s);
	return 0;
}
int zmq_bind(void *p, const char *ep_)
{
	Harness h;
	yield_point("zmq_bind");
	auto *s = (Socket *) p;
	std::string ep = ep_;
	process_commands(s, false);
	if (ep.rfind("inproc://", 0) == 0) {
		if (inproc.count(ep)) {
			errno = EADDRINUSE;
			return -1;
		}
		inproc[ep] = s;
		s->binds.push_back(ep);
		return 0;
	}
	if (ep.rfind("tcp://", 0) != 0) {
		errno = EPROTONOSUPPORT;
		return -1;
	}
	int port = parse_port(ep);
	std::string host = ep.substr(6, ep.rfind(':') - 6);
	if (host.empty() || port < 0) {
		if (observer) observer->on_bind(ep, false);
		errno = EINVAL;
		return -1;
	}
	if (net::busy_endpoints.count(ep) || net::busy_endpoints.count(std::to_string(port)) || (port && listeners.count(port))) {
		if (observer) observer->on_bind(ep, false);
		errno = EADDRINUSE;
		return -1;
	}
	s->port = port;
	listeners[port] = s;
	s->binds.push_back(ep);
	if (observer) observer->on_bind(ep, true);
	return 0;
}
int zmq_unbind(void *p, const char *ep)
{
	Harness h;
	auto *s = (Socket *) p;
	listeners.erase(parse_port(ep));
	inproc.erase(ep);
	(void) s;
	return 0;
}
int zmq_connect(void *p, const char *ep_)
{
	Harness h;
	yield_point("zmq_connect");
	auto *s = (Socket *) p;
	std::string ep = ep_;
	process_commands(s, false);
	if (ep.rfind("inproc://", 0) == 0) {
		auto it = inproc.find(ep);
		if (it == inproc.end()) {
			// libzmq >= 4 queues the connection until the endpoint is bound
			fatal("in-process connect before bind is not simulated: %s", ep_);
		}
		Socket *b = it->second;
		auto *mine = new Pipe, *theirs = new Pipe;
		mine->id = ++next_pipe, theirs->id = ++next_pipe;
		mine->owner = s, theirs->owner = b;
		mine->peer = b, theirs->peer = s;
		mine->peer_pipe = theirs, theirs->peer_pipe = mine;
		uint32_t r = ++next_rid;
		auto rid = [&r]() { return std::string(1, '\0') + (char) (r >> 24) + (char) (r >> 16) + (char) (r >> 8) + (char) r; };
		theirs->identity = s->routing_id.empty() ? rid() : s->routing_id;
		r = ++next_rid;
		mine->identity = b->routing_id.empty() ? rid() : b->routing_id;
		s->pipes.push_back(mine);
		s->connects.push_back(ep);
		b->pending.push_back(theirs);
		net::wake_socket(b);
		return 0;
	}
	if (ep.rfind("tcp://", 0) != 0) {
		errno = EPROTONOSUPPORT;
		return -1;
	}
	int port = parse_port(ep);
	s->port = port;
	s->connects.push_back(ep);
	if (observer) observer->on_connect(ep);
	if (port == net::monitor_port) {
		if (!monitor_conn) {
			monitor_conn = new Conn;
			monitor_conn->id = ++next_conn;
			monitor_conn->name = "monitor";
			monitor_conn->is_monitor = true;
			monitor_conn->fixed_identity = "recodex-monitor";
			monitor_conn->lat = Stream(knobs.seed, "lat:monitor");
			monitor_conn->on_msg = [](const Msg &m) {
				if (net::monitor_rx) net::monitor_rx(m);
			};
			conns.push_back(monitor_conn);
		}
		monitor_conn->port = port;
		net::try_establish(monitor_conn);
	}
	return 0;
}
int zmq_disconnect(void *p, const char *ep)
{
	Harness h;
	auto *s = (Socket *) p;
	auto &v = s->connects;
	v.erase(std::remove(v.begin(), v.end(), std::string(ep)), v.end());
	if (monitor_conn && monitor_conn->pipe && monitor_conn->pipe->owner == s) net::drop(monitor_conn, true);
	return 0;
}
int zmq_setsockopt(void *p, int opt, const void *val, size_t len)
{
	Harness h;
	auto *s = (Socket *) p;
	auto i = [&]() { return len >= sizeof(int) ? *(const int *) val : 0; };
	switch (opt) {
	case ZMQ_ROUTING_ID: s->routing_id.assign((const char *) val, len); break;
	case ZMQ_LINGER: s->linger = i(); break;
	case ZMQ_SNDHWM: s->sndhwm = i(); break;
	case ZMQ_RCVHWM: s->rcvhwm = i(); break;
	case ZMQ_RCVTIMEO: s->rcvtimeo = i(); break;
	case ZMQ_SNDTIMEO: s->sndtimeo = i(); break;
	case ZMQ_ROUTER_MANDATORY: s->mandatory = i(); break;
	default: break; // no effect on the simulated semantics
	}
	return 0;
}
int zmq_getsockopt(void *p, int opt, void *val, size_t *len)
{
	Harness h;
	auto *s = (Socket *) p;
	yield_point("zmq_getsockopt");
	switch (opt) {
	case ZMQ_EVENTS:
		process_commands(s, false);
		*(int *) val = (readable(s) ? ZMQ_POLLIN : 0) | (writable(s) ? ZMQ_POLLOUT : 0);
		*len = sizeof(int);
		return 0;
	case ZMQ_RCVMORE:
		*(int *) val = s->rcv_active ? 1 : 0;
		*len = sizeof(int);
		return 0;
	case ZMQ_TYPE:
		*(int *) val = s->type;
		*len = sizeof(int);
		return 0;
	case ZMQ_LINGER:
		*(int *) val = s->linger;
		*len = sizeof(int);
		return 0;
	case ZMQ_SNDHWM:
		*(int *) val = s->sndhwm;
		*len = sizeof(int);
		return 0;
	case ZMQ_RCVHWM:
		*(int *) val = s->rcvhwm;
		*len = sizeof(int);
		return 0;
	case ZMQ_ROUTING_ID:
		memcpy(val, s->routing_id.data(), std::min(*len, s->routing_id.size()));
		*len = s->routing_id.size();
		return 0;
	default:
		errno = EINVAL;
		return -1;
	}
}

int zmq_send(void *s, const void *buf, size_t len, int flags) { return do_send((Socket *) s, buf, len, flags); }
int zmq_send_const(void *s, const void *buf, size_t len, int flags) { return do_send((Socket *) s, buf, len, flags); }
int zmq_recv(void *s, void *buf, size_t len, int flags)
{
	std::string *out;
	int r;
	bool more;
	{
		Harness h;
		out = new std::string;
		r = do_recv((Socket *) s, *out, more, flags);
		if (r < 0) {
			delete out;
			return -1;
		}
		memcpy(buf, out->data(), std::min(len, out->size()));
		r = (int) out->size();
		delete out;
	}
	return r;
}

int zmq_msg_init(zmq_msg_t *m)
{
	memset(m, 0, sizeof *m);
	fm(m)->magic = MSGMAGIC;
	return 0;
}
int zmq_msg_init_size(zmq_msg_t *m, size_t n)
{
	Harness h;
	zmq_msg_init(m);
	fm(m)->data = (char *) malloc(n ? n : 1);
	fm(m)->size = n;
	fm(m)->refs = new int(1);
	return 0;
}
int zmq_msg_init_buffer(zmq_msg_t *m, const void *d, size_t n)
{
	zmq_msg_init_size(m, n);
	if (n) memcpy(fm(m)->data, d, n);
	return 0;
}
int zmq_msg_init_data(zmq_msg_t *m, void *d, size_t n, zmq_free_fn *ffn, void *hint)
{
	Harness h;
	zmq_msg_init(m);
	fm(m)->data = (char *) d;
	fm(m)->size = n;
	fm(m)->ffn = ffn;
	fm(m)->hint = hint;
	fm(m)->refs = new int(1);
	return 0;
}
int zmq_msg_close(zmq_msg_t *m)
{
	FakeMsg *f = fm(m);
	if (f->magic != MSGMAGIC) {
		errno = EFAULT;
		return -1;
	}
	if (f->refs && --*f->refs == 0) {
		if (f->ffn) f->ffn(f->data, f->hint);
		else free(f->data);
		Harness h;
		delete f->refs;
	}
	f->data = nullptr;
	f->refs = nullptr;
	f->size = 0;
	f->magic = 0;
	return 0;
}
void *zmq_msg_data(zmq_msg_t *m) { return fm(m)->data ? fm(m)->data : (char *) m; }
size_t zmq_msg_size(const zmq_msg_t *m) { return fm(m)->size; }
int zmq_msg_more(const zmq_msg_t *m) { return fm(m)->more; }
int zmq_msg_get(const zmq_msg_t *m, int prop) { return prop == ZMQ_MORE ? fm(m)->more : -1; }
int zmq_msg_set(zmq_msg_t *, int, int) { return -1; }
const char *zmq_msg_gets(const zmq_msg_t *, const char *) { return nullptr; }
int zmq_msg_move(zmq_msg_t *dst, zmq_msg_t *src)
{
	if (dst == src) return 0;
	zmq_msg_close(dst);
	memcpy(dst, src, sizeof *dst);
	zmq_msg_init(src);
	return 0;
}
int zmq_msg_copy(zmq_msg_t *dst, zmq_msg_t *src)
{
	if (dst == src) return 0;
	zmq_msg_close(dst);
	memcpy(dst, src, sizeof *dst);
	if (fm(dst)->refs) ++*fm(dst)->refs;
	return 0;
}
int zmq_msg_send(zmq_msg_t *m, void *s, int flags)
{
	int r = do_send((Socket *) s, zmq_msg_data(m), fm(m)->size, flags);
	if (r >= 0) {
		zmq_msg_close(m);
		zmq_msg_init(m);
	}
	return r;
}
int zmq_sendmsg(void *s, zmq_msg_t *m, int flags) { return zmq_msg_send(m, s, flags); }
int zmq_msg_recv(zmq_msg_t *m, void *s, int flags)
{
	Harness h;
	std::string out;
	bool more = false;
	int r = do_recv((Socket *) s, out, more, flags);
	if (r < 0) return -1;
	zmq_msg_close(m);
	zmq_msg_init_buffer(m, out.data(), out.size());
	fm(m)->more = more;
	return (int) out.size();
}
int zmq_recvmsg(void *s, zmq_msg_t *m, int flags) { return zmq_msg_recv(m, s, flags); }

int zmq_poll(zmq_pollitem_t *items, int n, long timeout)
{
	Harness h;
	bool tcp = false, dangling = false;
	for (int i = 0; i < n; ++i) {
		auto *s = (Socket *) items[i].socket;
		if (!s) fatal("polling file descriptors is not simulated");
		if (s->port >= 0) {
			tcp = true;
			if (s->snd_active) dangling = true;
		}
	}
	if (tcp && observer) observer->on_poll_enter(dangling);
	yield_point("zmq_poll");
	ns deadline = timeout < 0 ? -1 : now() + timeout * MS;
	for (;;) {
		int ready = 0;
		for (int i = 0; i < n; ++i) {
			auto *s = (Socket *) items[i].socket;
			items[i].revents = 0;
			if (s->closed) {
				errno = ENOTSOCK;
				return -1;
			}
			if (s->ctx->term) {
				errno = ETERM;
				return -1;
			}
			process_commands(s, false);
			if ((items[i].events & ZMQ_POLLIN) && readable(s)) items[i].revents |= ZMQ_POLLIN;
			if ((items[i].events & ZMQ_POLLOUT) && writable(s)) items[i].revents |= ZMQ_POLLOUT;
			if (items[i].revents) ++ready;
		}
		if (ready || timeout == 0 || (deadline >= 0 && now() >= deadline)) {
			if (tcp && observer) observer->on_poll_exit();
			return ready;
		}
		for (int i = 0; i < n; ++i) ((Socket *) items[i].socket)->waiters.push_back(cur);
		block(deadline);
		for (int i = 0; i < n; ++i) {
			auto &w = ((Socket *) items[i].socket)->waiters;
			w.erase(std::remove(w.begin(), w.end(), cur), w.end());
		}
	}
}
int zmq_socket_monitor(void *, const char *, int) { return -1; }
int zmq_proxy(void *, void *, void *) { fatal("zmq_proxy is not simulated"); }
int zmq_proxy_steerable(void *, void *, void *, void *) { fatal("zmq_proxy is not simulated"); }
}
