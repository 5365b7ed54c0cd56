#include "curlstub.h"
#include <cstdarg>
#include <cstring>
#include <curl/curl.h>
#undef curl_easy_setopt
#undef curl_easy_getinfo

namespace sim
{
	Frontend frontend;
	std::string Attempt::key() const
	{
		return scheme + "://" + host + ":" + std::to_string(port) + path + " " + user + " " + body;
	}
	void frontend_crashed_client()
	{
		frontend.in_flight = 0;
		frontend.live_handles = 0;
		for (auto &a : frontend.log)
			if (!a.finished) {
				a.finished = true;
				a.t1 = now();
				a.ok = false;
				if (a.mode == "up" && (mix(knobs.seed, a.n) & 1)) a.applied = true;
			}
	}

	struct Easy {
		std::string url, userpwd, user, pass, custom;
		const char *postfields = nullptr;
		std::string copied;
		bool have_copied = false;
		long postsize = -1, port = 0, failonerror = 0, post = 0, httpget = 0;
		ns timeout = 0, connect_timeout = 0, low_speed_time = 0;
		long low_speed_limit = 0;
		long httpauth = CURLAUTH_BASIC;
		curl_write_callback wf = nullptr;
		void *wd = nullptr;
		long response = 0;
		char *errbuf = nullptr;
	};

	static std::string pct_decode(const std::string &s, bool plus)
	{
		std::string r;
		auto hex = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
		for (size_t i = 0; i < s.size(); ++i) {
			if (s[i] == '%' && i + 2 < s.size() + 0 && hex(s[i + 1]) >= 0 && hex(s[i + 2]) >= 0) {
				r += (char) (hex(s[i + 1]) * 16 + hex(s[i + 2]));
				i += 2;
			} else if (plus && s[i] == '+')
				r += ' ';
			else
				r += s[i];
		}
		return r;
	}
	static void parse_form(const std::string &b, std::map<std::string, std::string> &out)
	{
		size_t i = 0;
		while (i <= b.size()) {
			size_t e = b.find('&', i);
			if (e == std::string::npos) e = b.size();
			std::string kv = b.substr(i, e - i);
			if (!kv.empty()) {
				size_t q = kv.find('=');
				std::string k = q == std::string::npos ? kv : kv.substr(0, q);
				std::string v = q == std::string::npos ? "" : kv.substr(q + 1);
				out[pct_decode(k, true)] = pct_decode(v, true);
			}
			i = e + 1;
		}
	}
	static CURLcode perform(Easy *e)
	{
		frontend.log.emplace_back();
		Attempt &a = frontend.log.back();
		a.n = (int) frontend.log.size();
		a.t0 = now();
		Stream d(knobs.seed, "post:" + std::to_string(a.n));
		std::string u = e->url;
		size_t p = u.find("://");
		a.scheme = p == std::string::npos ? "http" : u.substr(0, p);
		if (p != std::string::npos) u = u.substr(p + 3);
		size_t sl = u.find_first_of("/?#");
		std::string hp = sl == std::string::npos ? u : u.substr(0, sl);
		std::string path = sl == std::string::npos ? "" : u.substr(sl);
		size_t hash = path.find('#');
		if (hash != std::string::npos) path = path.substr(0, hash);
		size_t qm = path.find('?');
		if (qm != std::string::npos) a.query = path.substr(qm), path = path.substr(0, qm);
		a.raw_path = path;
		a.path = pct_decode(path, false);
		size_t at_ = hp.rfind('@');
		if (at_ != std::string::npos) a.user = hp.substr(0, at_), hp = hp.substr(at_ + 1);
		size_t c = hp.rfind(':');
		int uport = c == std::string::npos ? 0 : atoi(hp.c_str() + c + 1);
		a.host = c == std::string::npos ? hp : hp.substr(0, c);
		a.port = e->port ? (int) e->port : uport ? uport : a.scheme == "https" ? 443 : 80;
		if (!e->userpwd.empty()) a.user = e->userpwd;
		else if (!e->user.empty() || !e->pass.empty()) a.user = e->user + ":" + e->pass;
		if (e->httpauth && !(e->httpauth & CURLAUTH_BASIC)) a.user.clear(); // they would not be sent
		a.post = e->have_copied || e->postfields || e->post;
		if (!e->custom.empty()) a.post = e->custom == "POST";
		if (e->have_copied) a.body = e->copied;
		else if (e->postfields) a.body = e->postsize >= 0 ? std::string(e->postfields, e->postsize) : std::string(e->postfields);
		parse_form(a.body, a.params);
		a.mode = frontend.mode;
		if (a.mode == "up" && frontend.fail_p > 0 && d.chance(frontend.fail_p)) a.mode = d.pick(frontend.fail_kinds);
		ns slow = frontend.slow;
		++frontend.fired[a.mode];
		++frontend.in_flight;
		trace_event("POST> " + a.path + " " + a.body + " [" + a.mode + "]");
		if (frontend.on_start) frontend.on_start(a);
		ns lat = d.range(frontend.lat_min, frontend.lat_max);
		CURLcode rc = CURLE_OK;
		e->response = 0;
		const ns forever = 100000 * SEC;
		ns tmo = e->timeout > 0 ? e->timeout : forever;
		ns ctmo = e->connect_timeout > 0 ? e->connect_timeout : 130 * SEC;
		auto wait = [&](ns want, ns limit) -> bool { // true if completed before the limit
			ns w = std::min(want, limit);
			if (w >= forever) {
				block(-1);
				fatal("woken from an endless request");
			}
			sleep_until(a.t0 + w);
			return want <= limit;
		};
		bool valid = !e->url.empty() && e->url.find(' ') == std::string::npos && e->url.find('\n') == std::string::npos;
		if (!valid) {
			rc = CURLE_URL_MALFORMAT;
		} else if (a.mode == "refuse") {
			wait(lat, tmo);
			rc = CURLE_COULDNT_CONNECT;
		} else if (a.mode == "dns") {
			wait(lat, tmo);
			rc = CURLE_COULDNT_RESOLVE_HOST;
		} else if (a.mode == "reset") {
			wait(lat, tmo);
			rc = CURLE_RECV_ERROR;
		} else if (a.mode == "hangc") { // connection attempt is not answered
			wait(forever, std::min(tmo, ctmo));
			rc = CURLE_OPERATION_TIMEDOUT;
		} else if (a.mode == "hang") { // connected, no response ever
			ns lim = tmo;
			if (e->low_speed_time > 0 && e->low_speed_limit > 0) lim = std::min(lim, e->low_speed_time);
			wait(forever, lim);
			rc = CURLE_OPERATION_TIMEDOUT;
		} else {
			ns dur = lat + (a.mode == "slow" ? slow : 0);
			bool done = wait(dur, tmo);
			if (!done) {
				rc = CURLE_OPERATION_TIMEDOUT;
				a.applied = (d.u64() & 1);
			} else if (a.mode == "lost") {
				a.applied = true;
				rc = CURLE_GOT_NOTHING;
			} else if (a.mode[0] == 'e') {
				e->response = atoi(a.mode.c_str() + 1);
				rc = e->failonerror ? CURLE_HTTP_RETURNED_ERROR : CURLE_OK;
			} else {
				a.applied = true;
				static const std::vector<long> codes = {200, 200, 200, 201, 202, 204};
				e->response = d.pick(codes);
			}
		}
		a.t1 = now();
		a.finished = true;
		// what the client can know: an error status is a failure whether or not it chose to look at it
		a.ok = rc == CURLE_OK && e->response >= 200 && e->response < 400;
		--frontend.in_flight;
		trace_event("POST< " + a.path + " rc=" + std::to_string(rc) + " http=" + std::to_string(e->response));
		if (rc == CURLE_OK && e->response != 204 && e->wf) {
			// the body arrives in pieces; a client that does not take them fails its own request
			std::string body = d.chance(.3) ? "{}" : d.chance(.3) ? "" : "{\"code\":" + std::to_string(e->response) + ",\"payload\":\"" + std::string(d.range(0, d.chance(.1) ? 40000 : 300), 'b') + "\"}";
			for (size_t o = 0; o < body.size();) {
				size_t n = std::min<size_t>(body.size() - o, d.range(1, 16384));
				int sv = cur->harness;
				cur->harness = 0;
				size_t took = e->wf(&body[o], 1, n, e->wd);
				cur->harness = sv;
				if (took != n) {
					rc = CURLE_WRITE_ERROR;
					break;
				}
				o += n;
			}
		}
		if (frontend.on_end) frontend.on_end(a);
		yield_point("curl_easy_perform");
		return rc;
	}
}
using namespace sim;

extern "C" {
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup(void) {}
CURL *curl_easy_init(void)
{
	Harness h;
	yield_point("curl_easy_init");
	++frontend.init_calls;
	if (frontend.mode == "noinit") {
		++frontend.init_failures;
		++frontend.fired["noinit"];
		return nullptr;
	}
	++frontend.live_handles;
	return (CURL *) new Easy;
}
void curl_easy_cleanup(CURL *c)
{
	Harness h;
	if (!c) return;
	--frontend.live_handles;
	delete (Easy *) c;
}
void curl_easy_reset(CURL *c)
{
	Harness h;
	*(Easy *) c = Easy();
}
CURLcode curl_easy_setopt(CURL *c, CURLoption opt, ...)
{
	Harness h;
	va_list ap;
	va_start(ap, opt);
	auto *e = (Easy *) c;
	auto str = [](const char *s) { return std::string(s ? s : ""); };
	switch ((int) opt) {
	case CURLOPT_URL: e->url = str(va_arg(ap, const char *)); break;
	case CURLOPT_PORT: e->port = va_arg(ap, long); break;
	case CURLOPT_POSTFIELDS: e->postfields = va_arg(ap, const char *); e->have_copied = false; break;
	case CURLOPT_COPYPOSTFIELDS: {
		const char *s = va_arg(ap, const char *);
		e->copied = e->postsize >= 0 ? std::string(s, e->postsize) : str(s);
		e->have_copied = true;
		break;
	}
	case CURLOPT_POSTFIELDSIZE: e->postsize = va_arg(ap, long); break;
	case CURLOPT_POSTFIELDSIZE_LARGE: e->postsize = (long) va_arg(ap, curl_off_t); break;
	case CURLOPT_POST: e->post = va_arg(ap, long); break;
	case CURLOPT_HTTPGET: e->httpget = va_arg(ap, long); break;
	case CURLOPT_CUSTOMREQUEST: e->custom = str(va_arg(ap, const char *)); break;
	case CURLOPT_FAILONERROR: e->failonerror = va_arg(ap, long); break;
	case CURLOPT_USERPWD: e->userpwd = str(va_arg(ap, const char *)); break;
	case CURLOPT_USERNAME: e->user = str(va_arg(ap, const char *)); break;
	case CURLOPT_PASSWORD: e->pass = str(va_arg(ap, const char *)); break;
	case CURLOPT_HTTPAUTH: e->httpauth = va_arg(ap, long); break;
	case CURLOPT_TIMEOUT: e->timeout = va_arg(ap, long) * SEC; break;
	case CURLOPT_TIMEOUT_MS: e->timeout = va_arg(ap, long) * MS; break;
	case CURLOPT_CONNECTTIMEOUT: e->connect_timeout = va_arg(ap, long) * SEC; break;
	case CURLOPT_CONNECTTIMEOUT_MS: e->connect_timeout = va_arg(ap, long) * MS; break;
	case CURLOPT_LOW_SPEED_TIME: e->low_speed_time = va_arg(ap, long) * SEC; break;
	case CURLOPT_LOW_SPEED_LIMIT: e->low_speed_limit = va_arg(ap, long); break;
	case CURLOPT_WRITEFUNCTION: e->wf = va_arg(ap, curl_write_callback); break;
	case CURLOPT_WRITEDATA: e->wd = va_arg(ap, void *); break;
	default: break;
	}
	va_end(ap);
	return CURLE_OK;
}
CURLcode curl_easy_perform(CURL *c)
{
	Harness h;
	return perform((Easy *) c);
}
CURLcode curl_easy_getinfo(CURL *c, CURLINFO info, ...)
{
	Harness h;
	va_list ap;
	va_start(ap, info);
	void *out = va_arg(ap, void *);
	va_end(ap);
	if (info == CURLINFO_RESPONSE_CODE) *(long *) out = ((Easy *) c)->response;
	else if (((int) info & CURLINFO_TYPEMASK) == CURLINFO_LONG) *(long *) out = 0;
	else if (((int) info & CURLINFO_TYPEMASK) == CURLINFO_DOUBLE) *(double *) out = 0;
	else *(const char **) out = nullptr;
	return CURLE_OK;
}
const char *curl_easy_strerror(CURLcode c)
{
	switch (c) {
	case CURLE_COULDNT_CONNECT: return "Couldn't connect to server";
	case CURLE_OPERATION_TIMEDOUT: return "Timeout was reached";
	case CURLE_HTTP_RETURNED_ERROR: return "HTTP response code said error";
	default: return "simulated transfer error";
	}
}
static char *escape(const char *s, int len)
{
	std::string r;
	if (len == 0) len = (int) strlen(s);
	for (int i = 0; i < len; ++i) {
		unsigned char c = s[i];
		if (isalnum(c) || strchr("-._~", c)) {
			if (c) { r += (char) c; continue; }
		}
		char b[4];
		snprintf(b, sizeof b, "%%%02X", c);
		r += b;
	}
	return strdup(r.c_str());
}
char *curl_easy_escape(CURL *, const char *s, int len)
{
	Harness h;
	return escape(s, len);
}
char *curl_escape(const char *s, int len)
{
	Harness h;
	return escape(s, len);
}
char *curl_easy_unescape(CURL *, const char *s, int len, int *out)
{
	Harness h;
	std::string r = pct_decode(len ? std::string(s, len) : std::string(s), false);
	if (out) *out = (int) r.size();
	auto *p = (char *) malloc(r.size() + 1);
	memcpy(p, r.c_str(), r.size() + 1);
	return p;
}
char *curl_unescape(const char *s, int len) { return curl_easy_unescape(nullptr, s, len, nullptr); }
CURL *curl_easy_duphandle(CURL *c)
{
	Harness h;
	++frontend.live_handles;
	return (CURL *) new Easy(*(Easy *) c);
}
CURLcode curl_easy_pause(CURL *, int) { return CURLE_OK; }
CURLcode curl_global_init_mem(long, curl_malloc_callback, curl_free_callback, curl_realloc_callback, curl_strdup_callback, curl_calloc_callback) { return CURLE_OK; }
void curl_free(void *p) { free(p); }
struct curl_slist *curl_slist_append(struct curl_slist *l, const char *s)
{
	Harness h;
	auto *n = (curl_slist *) malloc(sizeof(curl_slist));
	n->data = strdup(s);
	n->next = nullptr;
	if (!l) return n;
	auto *t = l;
	while (t->next) t = t->next;
	t->next = n;
	return l;
}
void curl_slist_free_all(struct curl_slist *l)
{
	while (l) {
		auto *n = l->next;
		free(l->data);
		free(l);
		l = n;
	}
}
char *curl_version(void)
{
	static char v[] = "libcurl/simulated";
	return v;
}
}
