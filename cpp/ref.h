// Independent reference implementations used as oracles.
#pragma once
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <ctype.h>
#include <string.h>

namespace ref
{
inline std::string lower(std::string s) { for (auto& c : s) c = (char)tolower((unsigned char)c); return s; }
inline bool wild_char(char p, char c) { return p == '?' || (p == '#' && c >= '0' && c <= '9') || (p != '*' && tolower((unsigned char)p) == tolower((unsigned char)c)); }
// * any characters, ? one character, # one digit, other characters case-insensitively
inline bool wild(const std::string& m, const std::string& t)
{
	std::vector<char> d(t.size() + 1, 0); d[0] = 1; // dynamic programming over the mask
	for (char p : m)
	{
		std::vector<char> e(t.size() + 1, 0);
		if (p == '*') { bool on = false; for (size_t i = 0; i <= t.size(); i++) { on = on || d[i]; e[i] = on; } }
		else for (size_t i = 0; i < t.size(); i++) if (d[i] && wild_char(p, t[i])) e[i + 1] = 1;
		d.swap(e);
	}
	return d[t.size()];
}
// the wildcard groups of a mask: runs of '*', and runs of '?' and '#'
struct Piece { int kind; std::string s; }; // 0 literal, 1 star, 2 fixed wildcards
inline std::vector<Piece> pieces(const std::string& m)
{
	std::vector<Piece> r;
	for (char c : m)
	{
		int k = c == '*' ? 1 : c == '?' || c == '#' ? 2 : 0;
		if (r.empty() || r.back().kind != k) r.push_back({k, ""});
		r.back().s += c;
	}
	return r;
}
// is "pos" (start, length of each group) a way in which the mask covers the text?
inline bool covers(const std::string& m, const std::string& t, const std::vector<std::pair<int, int>>& pos)
{
	size_t at = 0, g = 0;
	for (auto& p : pieces(m))
	{
		size_t len = p.s.size();
		if (p.kind) { if (g >= pos.size() || pos[g].first != (int)at || pos[g].second < 0) return false; if (p.kind == 1) len = pos[g].second; else if (pos[g].second != (int)len) return false; g++; }
		if (at + len > t.size()) return false;
		if (p.kind != 1) for (size_t i = 0; i < len; i++) if (!wild_char(p.s[i], t[at + i])) return false;
		at += len;
	}
	return at == t.size() && g == pos.size();
}
// all value lists the groups can take (bounded)
inline void captures(const std::string& m, const std::string& t, std::set<std::vector<std::string>>& out, size_t max = 400)
{
	auto ps = pieces(m);
	std::vector<std::string> cur;
	std::function<void(size_t, size_t)> go = [&](size_t k, size_t at)
	{
		if (out.size() >= max) return;
		if (k == ps.size()) { if (at == t.size()) out.insert(cur); return; }
		auto& p = ps[k];
		if (p.kind == 1) { for (size_t e = at; e <= t.size(); e++) { cur.push_back(t.substr(at, e - at)); go(k + 1, e); cur.pop_back(); } return; }
		if (at + p.s.size() > t.size()) return;
		for (size_t i = 0; i < p.s.size(); i++) if (!wild_char(p.s[i], t[at + i])) return;
		if (p.kind) cur.push_back(t.substr(at, p.s.size()));
		go(k + 1, at + p.s.size());
		if (p.kind) cur.pop_back();
	};
	go(0, 0);
}
inline std::vector<std::string> split(const std::string& s, const std::string& sep)
{
	std::vector<std::string> r; std::string c;
	for (char x : s) if (sep.find(x) != std::string::npos) { if (c.size()) r.push_back(c); c.clear(); } else c += x;
	if (c.size()) r.push_back(c);
	return r;
}
inline std::string trim(const std::string& s)
{
	const char* ws = " \t\r\n"; size_t a = s.find_first_not_of(ws); if (a == std::string::npos) return "";
	return s.substr(a, s.find_last_not_of(ws) - a + 1);
}
}
