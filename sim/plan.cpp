#include "plan.h"
#include <cstring>
#include <sstream>

namespace sim
{
	std::string pct_encode(const std::string &s)
	{
		std::string r;
		for (unsigned char c : s) {
			if (isalnum(c) || (c && strchr("-_.:/*@+", c))) r += (char) c;
			else {
				char b[4];
				snprintf(b, sizeof b, "%%%02x", c);
				r += b;
			}
		}
		return r;
	}
	std::string pct_decode(const std::string &s)
	{
		std::string r;
		for (size_t i = 0; i < s.size(); ++i) {
			if (s[i] == '%' && i + 2 < s.size() + 0) {
				r += (char) strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
				i += 2;
			} else
				r += s[i];
		}
		return r;
	}
	// a list is written with a leading ',' per item so that the empty list and one empty item differ
	std::string join_list(const std::vector<std::string> &v)
	{
		std::string r;
		for (auto &x : v) r += "," + pct_encode(x);
		return r;
	}
	std::vector<std::string> split_list(const std::string &s)
	{
		std::vector<std::string> v;
		size_t i = 0;
		while (i < s.size()) {
			size_t e = s.find(',', i + 1);
			if (e == std::string::npos) e = s.size();
			v.push_back(pct_decode(s.substr(i + 1, e - i - 1)));
			i = e;
		}
		return v;
	}
	Action &Plan::add(ns t, const std::string &kind)
	{
		Action x;
		x.id = acts.empty() ? 1 : acts.back().id + 1;
		x.t = t;
		x.kind = kind;
		acts.push_back(x);
		return acts.back();
	}
	std::string Plan::text() const
	{
		std::ostringstream o;
		for (auto &p : kv) o << "set " << p.first << " " << pct_encode(p.second) << "\n";
		for (auto &x : acts) {
			o << "act " << x.id << " " << x.t / 1000 << " " << x.kind;
			for (auto &p : x.a) o << " " << p.first << "=" << pct_encode(p.second);
			o << "\n";
		}
		return o.str();
	}
	Plan Plan::parse(const std::string &text)
	{
		Plan p;
		std::istringstream in(text);
		std::string line;
		while (std::getline(in, line)) {
			std::istringstream l(line);
			std::string w;
			l >> w;
			if (w == "set") {
				std::string k, v;
				l >> k >> v;
				p.kv[k] = pct_decode(v);
			} else if (w == "act") {
				Action x;
				long long us;
				l >> x.id >> us >> x.kind;
				x.t = us * 1000;
				std::string kv;
				while (l >> kv) {
					size_t q = kv.find('=');
					x.a[kv.substr(0, q)] = pct_decode(kv.substr(q + 1));
				}
				p.acts.push_back(x);
			}
		}
		return p;
	}
}
