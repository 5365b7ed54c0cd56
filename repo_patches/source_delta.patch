From cbeea5ff947084d450d3ec3556790fc65ef70f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:26 +0000
Subject: [PATCH 01/21] fix: ignore a 'done' message from a worker that has no
 job

---
 src/handlers/broker_handler.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index f84f791..60e8bf7 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -280,6 +280,13 @@ void broker_handler::process_worker_done(
 
 	request_ptr current = queue_->get_current_request(worker);
 
+	if (current == nullptr) {
+		logger_->error("Got 'done' message for job {} from worker {} that has no job assigned",
+			message.at(1),
+			worker->get_description());
+		return;
+	}
+
 	if (message.at(1) != current->data.get_job_id()) {
 		logger_->error("Got 'done' message from worker {} with mismatched job id - {} (message) vs. {} (worker)",
 			worker->get_description(),
-- 
2.43.0


From 4c5a890ba3fb18bd1bb17f848f3c1252b807504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:26 +0000
Subject: [PATCH 02/21] fix: do not read past the end of a truncated 'eval'
 message

---
 src/handlers/broker_handler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 60e8bf7..6b17bbb 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -92,6 +92,12 @@ void broker_handler::process_client_eval(
 	// Then let client know that we are alive and well
 	respond(message_container(broker_connect::KEY_CLIENTS, identity, {"ack"}));
 
+	// There must be a job id and at least the empty frame that terminates the headers
+	if (message.size() < 3) {
+		logger_->warn("Unexpected end of message from frontend. Skipped.");
+		return;
+	}
+
 	// Get job identification and parse headers
 	std::string job_id = message.at(1);
 	request::headers_t headers;
-- 
2.43.0


From 060f93d1f5d78bb4a2fcda356ddd6145f7039443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:26 +0000
Subject: [PATCH 03/21] fix: a 'threads' header that is not a number must not
 throw

---
 src/worker.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/worker.cpp b/src/worker.cpp
index 1935cbb..a59eac7 100644
--- a/src/worker.cpp
+++ b/src/worker.cpp
@@ -1,5 +1,6 @@
 #include "worker.h"
 #include "helpers/string_to_hex.h"
+#include <stdexcept>
 
 bool header_matcher::match(const std::string &value)
 {
@@ -69,10 +70,15 @@ private:
 public:
 	/**
 	 * Constructor.
-	 * @param my_value Base value for comparison. Will be converted to @a std::size_t type using std::stoul.
+	 * @param my_value Base value for comparison. Will be converted to @a std::size_t type using std::stoul
+	 * (a value that is not a number counts as zero).
 	 */
-	count_matcher(std::string my_value) : header_matcher(my_value), my_count_(std::stoul(my_value))
+	count_matcher(std::string my_value) : header_matcher(my_value), my_count_(0)
 	{
+		try {
+			my_count_ = std::stoul(my_value);
+		} catch (const std::logic_error &) {
+		}
 	}
 
 	/** Destructor. */
@@ -81,7 +87,7 @@ public:
 	/**
 	 * Check if given value is >= to inner preset value.
 	 * @param value Value to be checked. Before comparison, the value is converted to @a std::size_t type using
-	 * std::stoul.
+	 * std::stoul. A value that is not a number does not match.
 	 * @return @a true if value matches, @a false otherwise.
 	 */
 	bool match(const std::string &value) override;
@@ -89,7 +95,11 @@ public:
 
 bool count_matcher::match(const std::string &value)
 {
-	return my_count_ >= std::stoul(value);
+	try {
+		return my_count_ >= std::stoul(value);
+	} catch (const std::logic_error &) {
+		return false;
+	}
 }
 
 worker::worker(
-- 
2.43.0


From 100ab409962b1adc08e0f3066a08f958633c2696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:26 +0000
Subject: [PATCH 04/21] fix: start a new worker with full liveness so that it
 can expire

---
 src/handlers/broker_handler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 6b17bbb..3f9029b 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -227,6 +227,7 @@ void broker_handler::process_worker_init(
 
 	// Create a new worker with the basic information
 	auto new_worker = std::make_shared<worker>(identity, hwgroup, headers);
+	new_worker->liveness = config_->get_max_worker_liveness();
 	std::shared_ptr<request> current_request = nullptr;
 
 	// Load additional information
-- 
2.43.0


From e46d024f72b380a366c1440c5388eb8945bd4d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:26 +0000
Subject: [PATCH 05/21] fix: do not hand a worker's announced job back as a new
 assignment

---
 src/queuing/single_queue_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/queuing/single_queue_manager.h b/src/queuing/single_queue_manager.h
index 1d4d87c..a3f71d7 100644
--- a/src/queuing/single_queue_manager.h
+++ b/src/queuing/single_queue_manager.h
@@ -81,7 +81,7 @@ public:
         workers_.push_back(worker);
 
         if (current_request != nullptr) {
-            return current_request;
+            return nullptr;
         }
 
         return assign_request(worker);
-- 
2.43.0


From 1779a4e0852cf95f6f9f2acdf5c4b82a0d71b0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:26 +0000
Subject: [PATCH 06/21] fix: never leave a multipart message unfinished when
 there is no data

---
 src/reactor/reactor.cpp               | 5 +++--
 src/reactor/router_socket_wrapper.cpp | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 95b8dd1..5f8b2be 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -170,7 +170,8 @@ void asynchronous_handler_wrapper::operator()(const message_container &message)
 {
 	reactor_socket_.send(unique_id_.data(), unique_id_.size(), ZMQ_SNDMORE);
 	reactor_socket_.send(message.key.data(), message.key.size(), ZMQ_SNDMORE);
-	reactor_socket_.send(message.identity.data(), message.identity.size(), ZMQ_SNDMORE);
+	reactor_socket_.send(
+		message.identity.data(), message.identity.size(), message.data.empty() ? 0 : ZMQ_SNDMORE);
 
 	for (auto it = std::begin(message.data); it != std::end(message.data); ++it) {
 		reactor_socket_.send(it->c_str(), it->size(), std::next(it) != std::end(message.data) ? ZMQ_SNDMORE : 0);
@@ -214,7 +215,7 @@ void asynchronous_handler_wrapper::handler_thread()
 void asynchronous_handler_wrapper::send_response(zmq::socket_t &socket, const message_container &message)
 {
 	socket.send(message.key.data(), message.key.size(), ZMQ_SNDMORE);
-	socket.send(message.identity.data(), message.identity.size(), ZMQ_SNDMORE);
+	socket.send(message.identity.data(), message.identity.size(), message.data.empty() ? 0 : ZMQ_SNDMORE);
 
 	for (auto it = std::begin(message.data); it != std::end(message.data); ++it) {
 		socket.send(it->c_str(), it->size(), std::next(it) != std::end(message.data) ? ZMQ_SNDMORE : 0);
diff --git a/src/reactor/router_socket_wrapper.cpp b/src/reactor/router_socket_wrapper.cpp
index 91c4d3c..f8facd0 100644
--- a/src/reactor/router_socket_wrapper.cpp
+++ b/src/reactor/router_socket_wrapper.cpp
@@ -8,6 +8,10 @@ router_socket_wrapper::router_socket_wrapper(
 
 bool router_socket_wrapper::send_message(const message_container &source)
 {
+	// An identity frame with nothing after it would become a part of the next message
+	if (source.data.empty()) {
+		return false;
+	}
 
 	try {
 		socket_.send(source.identity.c_str(), source.identity.size(), ZMQ_SNDMORE);
-- 
2.43.0


From cda5a42a3fd328cb69c77eda0bcaae2a3f6d391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:26 +0000
Subject: [PATCH 07/21] fix: give the next job to a worker whose failed job
 went elsewhere

---
 src/handlers/broker_handler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 3f9029b..12091d7 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -330,7 +330,10 @@ void broker_handler::process_worker_done(
 				failed_request->data.get_job_id(), "Job failed with '" + message.at(3) + "' and cannot be reassigned");
 		} else if (check_failure_count(failed_request, status_notifier, respond, message.at(3))) {
 			reassign_request(failed_request, respond);
-		} else {
+		}
+
+		// unless the worker got a job during the reassignment, give it the next one
+		if (queue_->get_current_request(worker) == nullptr) {
 			auto new_request = queue_->assign_request(worker);
 			if (new_request) {
 				send_request(worker, new_request, respond);
-- 
2.43.0


From de9736c654a6a0d9a8d5372947dbcfcd77cdc765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:26 +0000
Subject: [PATCH 08/21] fix: measure elapsed time with a steady clock and do
 not lose any of it

---
 src/reactor/reactor.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 5f8b2be..909548a 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -74,12 +74,10 @@ void reactor::start_loop()
 	termination_flag_.store(false);
 
 	// Enter the poll loop
+	auto last_tick = std::chrono::steady_clock::now();
+
 	while (!termination_flag_.load()) {
-		auto time_before_poll = std::chrono::system_clock::now();
 		zmq::poll(pollitems, std::chrono::milliseconds(100));
-		auto time_after_poll = std::chrono::system_clock::now();
-
-		auto elapsed_time = std::chrono::duration_cast<std::chrono::milliseconds>(time_after_poll - time_before_poll);
 
 		std::size_t i = 0;
 		for (auto item : pollitems) {
@@ -119,6 +117,11 @@ void reactor::start_loop()
 			++i;
 		}
 
+		// Time spent in the whole iteration, the part shorter than a millisecond is left for the next one
+		auto elapsed_time = std::chrono::duration_cast<std::chrono::milliseconds>(
+			std::chrono::steady_clock::now() - last_tick);
+		last_tick += elapsed_time;
+
 		message_container timer_msg;
 		timer_msg.key = KEY_TIMER;
 		timer_msg.data.push_back(std::to_string(elapsed_time.count()));
-- 
2.43.0


From 03ed07a6d7ee93b7d7c549599f159c12dd1fadbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:26 +0000
Subject: [PATCH 09/21] fix: keep first come first served order for jobs that
 arrive at once

---
 src/queuing/single_queue_manager.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/queuing/single_queue_manager.h b/src/queuing/single_queue_manager.h
index a3f71d7..9b0b41f 100644
--- a/src/queuing/single_queue_manager.h
+++ b/src/queuing/single_queue_manager.h
@@ -90,7 +90,7 @@ public:
     request_ptr assign_request(worker_ptr worker) override
     {
         worker_jobs_[worker] = nullptr;
-        std::sort(jobs_.begin(), jobs_.end(), [this, worker] (const request_entry &a, const request_entry &b) {
+        std::stable_sort(jobs_.begin(), jobs_.end(), [this, worker] (const request_entry &a, const request_entry &b) {
             return comparator_->compare(a, b, worker);
         });
 
@@ -152,7 +152,7 @@ public:
             jobs_.push_back(request_entry{
                 .request = request,
                 .arrived_at = std::chrono::duration_cast<std::chrono::milliseconds>(
-                    std::chrono::system_clock::now().time_since_epoch()
+                    std::chrono::steady_clock::now().time_since_epoch()
                 ),
             });
         }
-- 
2.43.0


From 066f8ca33e5345f1a1d92c7dcbe50584fffc2244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:26 +0000
Subject: [PATCH 10/21] fix: connect an asynchronous handler before messages
 can be sent to it

---
 src/reactor/reactor.cpp | 13 +++++++++----
 src/reactor/reactor.h   |  6 ++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 909548a..f8a700a 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -154,8 +154,15 @@ asynchronous_handler_wrapper::asynchronous_handler_wrapper(zmq::context_t &conte
 	reactor &reactor_ref,
 	std::shared_ptr<handler_interface> handler)
 	: handler_wrapper(reactor_ref, handler), context_(context), reactor_socket_(async_handler_socket),
-	  unique_id_(std::to_string((uintptr_t) this))
+	  handler_socket_(context, zmq::socket_type::dealer), unique_id_(std::to_string((uintptr_t) this))
 {
+	// Connect before anything can be sent to the handler, the reactor socket drops messages for unknown peers
+	handler_socket_.setsockopt(ZMQ_IDENTITY, unique_id_.data(), unique_id_.size());
+	handler_socket_.connect("inproc://" + reactor_.unique_id);
+
+	// Make the reactor socket process the new connection
+	reactor_socket_.getsockopt<int>(ZMQ_EVENTS);
+
 	worker_ = std::thread([this]() { handler_thread(); });
 }
 
@@ -183,9 +190,7 @@ void asynchronous_handler_wrapper::operator()(const message_container &message)
 
 void asynchronous_handler_wrapper::handler_thread()
 {
-	zmq::socket_t socket(context_, zmq::socket_type::dealer);
-	socket.setsockopt(ZMQ_IDENTITY, unique_id_.data(), unique_id_.size());
-	socket.connect("inproc://" + reactor_.unique_id);
+	zmq::socket_t &socket = handler_socket_;
 
 	while (true) {
 		message_container request;
diff --git a/src/reactor/reactor.h b/src/reactor/reactor.h
index 0117860..c9de376 100644
--- a/src/reactor/reactor.h
+++ b/src/reactor/reactor.h
@@ -94,6 +94,12 @@ private:
 	 */
 	zmq::socket_t &reactor_socket_;
 
+	/**
+	 * The worker thread's end of the connection to the reactor.
+	 * It can only be used by the worker thread once it is running.
+	 */
+	zmq::socket_t handler_socket_;
+
 	/**
 	 * A reference to the worker thread
 	 */
-- 
2.43.0


From a974758115d4848b44f84d3f8103183323f1f6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:26 +0000
Subject: [PATCH 11/21] fix: drop the timer of an expired worker

---
 src/handlers/broker_handler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 12091d7..7f70733 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -426,6 +426,7 @@ void broker_handler::process_timer(const message_container &message, const handl
 		logger_->info("Worker {} expired", worker->get_description());
 
 		workers_->remove_worker(worker);
+		worker_timers_.erase(worker);
 		if (queue_->get_current_request(worker) != nullptr) {
 			queue_->get_current_request(worker)->failure_count += 1;
 		}
-- 
2.43.0


From 9beddacf08832ce02aa85890947e56889ffa537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:26 +0000
Subject: [PATCH 12/21] fix: encode parameters of HTTP requests

---
 src/helpers/curl.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/helpers/curl.cpp b/src/helpers/curl.cpp
index f223391..5e3d29a 100644
--- a/src/helpers/curl.cpp
+++ b/src/helpers/curl.cpp
@@ -7,6 +7,31 @@
 #endif
 
 
+/**
+ * Percent-encode a string so that it can be used as a part of an URL query or a form body.
+ * @param value string to be encoded
+ * @return encoded string
+ */
+static std::string url_encode(const std::string &value)
+{
+	static const std::string unreserved =
+		"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~";
+	static const char *digits = "0123456789ABCDEF";
+	std::string result;
+
+	for (unsigned char c : value) {
+		if (unreserved.find(c) != std::string::npos) {
+			result += c;
+		} else {
+			result += '%';
+			result += digits[c >> 4];
+			result += digits[c & 15];
+		}
+	}
+
+	return result;
+}
+
 std::string helpers::get_http_query(const curl_params &params)
 {
 	std::string result;
@@ -16,7 +41,7 @@ std::string helpers::get_http_query(const curl_params &params)
 			result += "&";
 		}
 
-		result += par.first + "=" + par.second;
+		result += url_encode(par.first) + "=" + url_encode(par.second);
 	}
 
 	return result;
-- 
2.43.0


From c78dd47054b3f8512bbf702b9899111bef359c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:26 +0000
Subject: [PATCH 13/21] fix: report a failed initialization of curl so that the
 request is retried

---
 src/helpers/curl.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/helpers/curl.cpp b/src/helpers/curl.cpp
index 5e3d29a..1010fc8 100644
--- a/src/helpers/curl.cpp
+++ b/src/helpers/curl.cpp
@@ -77,7 +77,9 @@ std::string helpers::curl_get(const std::string &url,
 
 	// get curl handle
 	std::unique_ptr<CURL, decltype(&curl_easy_cleanup)> curl = {curl_easy_init(), curl_easy_cleanup};
-	if (curl.get()) {
+	if (!curl.get()) {
+		throw curl_exception("Cannot initialize curl");
+	} else {
 		// destination address
 		curl_easy_setopt(curl.get(), CURLOPT_URL, url_query.c_str());
 
@@ -135,7 +137,9 @@ std::string helpers::curl_post(const std::string &url,
 
 	// get curl handle
 	std::unique_ptr<CURL, decltype(&curl_easy_cleanup)> curl = {curl_easy_init(), curl_easy_cleanup};
-	if (curl.get()) {
+	if (!curl.get()) {
+		throw curl_exception("Cannot initialize curl");
+	} else {
 		// destination address
 		curl_easy_setopt(curl.get(), CURLOPT_URL, url.c_str());
 
-- 
2.43.0


From e41a1a0759dd70dc2cad822e57ba5d404db0e300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:26 +0000
Subject: [PATCH 14/21] fix: limit the time of a HTTP request

---
 src/helpers/curl.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/helpers/curl.cpp b/src/helpers/curl.cpp
index 1010fc8..159cb87 100644
--- a/src/helpers/curl.cpp
+++ b/src/helpers/curl.cpp
@@ -105,6 +105,11 @@ std::string helpers::curl_get(const std::string &url,
 			curl_easy_setopt(curl.get(), CURLOPT_USERPWD, (username + ":" + passwd).c_str());
 		}
 
+		// A server that does not respond must not block us forever
+		curl_easy_setopt(curl.get(), CURLOPT_NOSIGNAL, 1L);
+		curl_easy_setopt(curl.get(), CURLOPT_CONNECTTIMEOUT, 10L);
+		curl_easy_setopt(curl.get(), CURLOPT_TIMEOUT, 30L);
+
 		// Enable verbose for easier tracing
 		// curl_easy_setopt(curl, CURLOPT_VERBOSE, 1L);
 
@@ -168,6 +173,11 @@ std::string helpers::curl_post(const std::string &url,
 			curl_easy_setopt(curl.get(), CURLOPT_USERPWD, (username + ":" + passwd).c_str());
 		}
 
+		// A server that does not respond must not block us forever
+		curl_easy_setopt(curl.get(), CURLOPT_NOSIGNAL, 1L);
+		curl_easy_setopt(curl.get(), CURLOPT_CONNECTTIMEOUT, 10L);
+		curl_easy_setopt(curl.get(), CURLOPT_TIMEOUT, 30L);
+
 		// Enable verbose for easier tracing
 		// curl_easy_setopt(curl, CURLOPT_VERBOSE, 1L);
 
-- 
2.43.0


From 021ee41880969d006c2ccac705764ed2f464ae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:26 +0000
Subject: [PATCH 15/21] fix: do not forget a termination requested before the
 loop starts

---
 src/reactor/reactor.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index f8a700a..5cd7c00 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -6,7 +6,7 @@ const std::string reactor::KEY_TIMER = "timer";
 
 reactor::reactor(std::shared_ptr<zmq::context_t> context)
 	: unique_id("reactor_" + std::to_string((uintptr_t) this)), context_(context),
-	  async_handler_socket_(*context, zmq::socket_type::router)
+	  async_handler_socket_(*context, zmq::socket_type::router), termination_flag_(false)
 {
 	async_handler_socket_.bind("inproc://" + unique_id);
 }
@@ -71,8 +71,6 @@ void reactor::start_loop()
 	pollitems.push_back(
 		zmq_pollitem_t{.socket = (void *) async_handler_socket_, .fd = 0, .events = ZMQ_POLLIN, .revents = 0});
 
-	termination_flag_.store(false);
-
 	// Enter the poll loop
 	auto last_tick = std::chrono::steady_clock::now();
 
-- 
2.43.0


From d420a8313919f5dfcc670238b6af4c9bb769991b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:26 +0000
Subject: [PATCH 16/21] fix: always include jobs-in-progress in runtime stats

---
 src/handlers/broker_handler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 7f70733..76bb32f 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -16,6 +16,7 @@ broker_handler::broker_handler(std::shared_ptr<const broker_config> config,
 
 	runtime_stats_.emplace(STATS_QUEUED_JOBS, 0);
 	runtime_stats_.emplace(STATS_EVALUATED_JOBS, 0);
+	runtime_stats_.emplace(STATS_JOBS_IN_PROGRESS, 0);
 	runtime_stats_.emplace(STATS_FAILED_JOBS, 0);
 	runtime_stats_.emplace(STATS_WORKER_COUNT, 0);
 	runtime_stats_.emplace(STATS_IDLE_WORKER_COUNT, 0);
-- 
2.43.0


From bbaf6843a17027ad8833b03da64f98958d39c00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:26 +0000
Subject: [PATCH 17/21] fix: do not drop messages for an asynchronous handler
 that is behind

---
 src/reactor/reactor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 5cd7c00..a1e8255 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -8,6 +8,9 @@ reactor::reactor(std::shared_ptr<zmq::context_t> context)
 	: unique_id("reactor_" + std::to_string((uintptr_t) this)), context_(context),
 	  async_handler_socket_(*context, zmq::socket_type::router), termination_flag_(false)
 {
+	// Messages for a handler that is behind must wait, not get lost (or block the handler)
+	async_handler_socket_.setsockopt(ZMQ_SNDHWM, 0);
+	async_handler_socket_.setsockopt(ZMQ_RCVHWM, 0);
 	async_handler_socket_.bind("inproc://" + unique_id);
 }
 
-- 
2.43.0


From 13a63d686f105baf6d5ab2fbb80486c922d97067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:14 +0000
Subject: [PATCH 18/21] fix: destroy asynchronous handlers of a reactor before
 the socket they need

---
 src/reactor/reactor.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/reactor/reactor.h b/src/reactor/reactor.h
index c9de376..0316587 100644
--- a/src/reactor/reactor.h
+++ b/src/reactor/reactor.h
@@ -204,11 +204,6 @@ private:
 	 */
 	std::map<std::string, std::shared_ptr<socket_wrapper_base>> sockets_;
 
-	/**
-	 * Handlers indexed by the keys of all the events they are subscribed to
-	 */
-	std::multimap<std::string, std::shared_ptr<handler_wrapper>> handlers_;
-
 	/**
 	 * A ZeroMQ context
 	 */
@@ -219,6 +214,12 @@ private:
 	 */
 	zmq::socket_t async_handler_socket_;
 
+	/**
+	 * Handlers indexed by the keys of all the events they are subscribed to
+	 * (asynchronous handlers need the socket above to terminate, so they must be destroyed before it)
+	 */
+	std::multimap<std::string, std::shared_ptr<handler_wrapper>> handlers_;
+
 	/**
 	 * Flag used to tell the reactor to terminate the main loop
 	 */
-- 
2.43.0


From 5dba6ce199457cadbc67eee58310a5a4bbfbfe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:36 +0000
Subject: [PATCH 19/21] fix: encode the job id in the address of a status
 report

---
 src/handlers/status_notifier_handler.cpp | 2 +-
 src/helpers/curl.cpp                     | 7 +------
 src/helpers/curl.h                       | 7 +++++++
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/handlers/status_notifier_handler.cpp b/src/handlers/status_notifier_handler.cpp
index 1cc7ab4..ff924b4 100644
--- a/src/handlers/status_notifier_handler.cpp
+++ b/src/handlers/status_notifier_handler.cpp
@@ -47,7 +47,7 @@ void status_notifier_handler::on_request(
 	}
 
 	if (id != "") {
-		ss << "/" << id;
+		ss << "/" << helpers::url_encode(id);
 	}
 
 	std::size_t retries = 4; // we come by this value using digital suction
diff --git a/src/helpers/curl.cpp b/src/helpers/curl.cpp
index 159cb87..6dd60c4 100644
--- a/src/helpers/curl.cpp
+++ b/src/helpers/curl.cpp
@@ -7,12 +7,7 @@
 #endif
 
 
-/**
- * Percent-encode a string so that it can be used as a part of an URL query or a form body.
- * @param value string to be encoded
- * @return encoded string
- */
-static std::string url_encode(const std::string &value)
+std::string helpers::url_encode(const std::string &value)
 {
 	static const std::string unreserved =
 		"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~";
diff --git a/src/helpers/curl.h b/src/helpers/curl.h
index fe40cc4..640f5f2 100644
--- a/src/helpers/curl.h
+++ b/src/helpers/curl.h
@@ -12,6 +12,13 @@ namespace helpers
 	 */
 	using curl_params = std::map<std::string, std::string>;
 
+	/**
+	 * Percent-encode a string so that it can be used as a part of an URL (of its path or query) or a form body.
+	 * @param value string to be encoded
+	 * @return encoded string
+	 */
+	std::string url_encode(const std::string &value);
+
 	/**
 	 * Construct standard http query and return it.
 	 * @note Leading question mark is not included in returned string.
-- 
2.43.0


From a2ce090a453bbfd8d90da7a50a252475980a461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:18 +0000
Subject: [PATCH 20/21] fix: do not use an uninitialised frontend port when
 none is configured

---
 src/config/notifier_config.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config/notifier_config.h b/src/config/notifier_config.h
index 48b906b..60e6531 100644
--- a/src/config/notifier_config.h
+++ b/src/config/notifier_config.h
@@ -15,9 +15,9 @@ public:
 	 */
 	std::string address;
 	/**
-	 * Port on which frontend runs.
+	 * Port on which frontend runs (0 means the default port of the scheme used in the address).
 	 */
-	std::uint16_t port;
+	std::uint16_t port = 0;
 
 	/**
 	 * Username which is used in HTTP authentication.
-- 
2.43.0


From 80a78a6353f096c15019198d6e836845beef54f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:18 +0000
Subject: [PATCH 21/21] fix: honour the documented log levels emerg, alert and
 notice

They were treated as unknown and made the broker log everything.
---
 src/helpers/logger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helpers/logger.cpp b/src/helpers/logger.cpp
index ec3f6e8..32e2ed3 100644
--- a/src/helpers/logger.cpp
+++ b/src/helpers/logger.cpp
@@ -13,11 +13,11 @@ spdlog::level::level_enum helpers::get_log_level(const std::string &lev)
 {
 	if (lev == "off") {
 		return spdlog::level::off;
-	} else if (lev == "critical") {
+	} else if (lev == "emerg" || lev == "alert" || lev == "critical") {
 		return spdlog::level::critical;
 	} else if (lev == "err") {
 		return spdlog::level::err;
-	} else if (lev == "warn") {
+	} else if (lev == "warn" || lev == "notice") {
 		return spdlog::level::warn;
 	} else if (lev == "info") {
 		return spdlog::level::info;
-- 
2.43.0

