// Property-based testing on choice sequences (see DESIGN.md).  A harness defines
//   void pbt_setup();                       once per process
//   void pbt_case(pbt::Src& s, pbt::Info& i);   one case; pbt::fail(...) when the property is broken
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <stdexcept>
#include <algorithm>
#include <functional>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <time.h>

namespace pbt
{

struct Failure { std::string msg; };
struct KnownHit { std::string key; };

struct Shared
{
	volatile uint64_t index;      // case being run
	volatile uint32_t len;        // recorded choices
	volatile uint32_t nspan;
	uint64_t rec[1 << 17];
	uint32_t span[1 << 15][2];
	char msg[16384];
};

inline Shared*& shm() { static Shared* s = nullptr; return s; }
inline std::set<std::string>& known() { static std::set<std::string> k; return k; }

inline uint64_t splitmix(uint64_t& x)
{
	uint64_t z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

class Src
{
public:
	Src(uint64_t seed) : m_mode(0), m_rng(seed) { start(); }
	Src(const std::vector<uint64_t>& pre) : m_mode(1), m_pre(pre) { start(); }
	Src(const uint8_t* d, size_t n) : m_mode(2), m_data(d), m_left(n) { start(); }

	// integer 0..bound; 0 is the simplest
	uint64_t n(uint64_t bound)
	{
		uint64_t v = 0;
		if (m_mode == 0) v = bound == UINT64_MAX ? splitmix(m_rng) : splitmix(m_rng) % (bound + 1);
		else if (m_mode == 1) v = m_pos < m_pre.size() ? std::min(m_pre[m_pos], bound) : 0;
		else
		{
			int nb = bound < 256 ? 1 : bound < 65536 ? 2 : bound < (1ull << 32) ? 4 : 8;
			for (int i = 0; i < nb && m_left > 0; i++, m_left--) v |= (uint64_t)*m_data++ << (8 * i);
			if (bound != UINT64_MAX) v %= bound + 1;
		}
		if (Shared* h = shm()) if (m_pos < sizeof(h->rec) / 8) { h->rec[m_pos] = v; h->len = m_pos + 1; }
		m_pos++;
		return v;
	}
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)n((uint64_t)(hi - lo)); }
	// true with the given per-mille; false is simplest
	bool b(int permille = 500) { return n(999) >= (uint64_t)(1000 - permille); }
	template <class T> const T& choice(const std::vector<T>& v) { return v[n(v.size() - 1)]; }
	const char* pick(std::initializer_list<const char*> l) { return *(l.begin() + n(l.size() - 1)); }
	int64_t num(std::initializer_list<int64_t> l) { return *(l.begin() + n(l.size() - 1)); }
	int weighted(std::initializer_list<int> w)
	{
		int tot = 0; for (int x : w) tot += x;
		int x = (int)n(tot - 1), i = 0;
		for (int y : w) { if (x < y) return i; x -= y; i++; }
		return 0;
	}
	// a size, often small or near one of the borders
	int64_t size(int64_t lo, int64_t hi, std::initializer_list<int64_t> borders = {})
	{
		switch (n(3))
		{
			case 0: return range(lo, std::min(hi, lo + 8));
			case 1: if (borders.size()) return std::max(lo, std::min(hi, *(borders.begin() + n(borders.size() - 1)) + range(0, 4) - 2));
				return range(lo, std::min(hi, std::max(lo, hi / 16)));
			case 2: return range(lo, std::min(hi, std::max(lo, hi / 16)));
			default: return range(lo, hi);
		}
	}
	// repeats f while the source says so; each round is one span for shrinking
	void repeat(int lo, int hi, int permille, const std::function<void()>& f)
	{
		for (int i = 0; i < hi; i++)
		{
			uint32_t a = m_pos;
			if (i >= lo && !b(permille)) break;
			f();
			span(a);
		}
	}
	uint32_t mark() { return m_pos; }
	void span(uint32_t a)
	{
		if (Shared* h = shm()) if (h->nspan < sizeof(h->span) / 8 && m_pos < sizeof(h->rec) / 8) { h->span[h->nspan][0] = a; h->span[h->nspan][1] = m_pos; h->nspan = h->nspan + 1; }
	}
	// pseudo-random bytes named by one draw; kind selects the distribution
	std::string blob(size_t size)
	{
		if (m_mode == 2)
		{
			size_t k = std::min(size, m_left);
			std::string r((const char*)m_data, k); m_data += k; m_left -= k;
			r.resize(size); return r;
		}
		uint64_t k = n(0xffff);
		std::string r(size, 0);
		if (k == 0) { for (size_t i = 0; i < size; i++) r[i] = (char)(i * 7 + i / 251); return r; }
		uint64_t x = k * 7919 + 13;
		static const unsigned char crit[] = {0xd6, 0xe0, 0xe3, 0x13, 0x04, 0x14, 0xd7, 0xdf, 0x00, 0x61};
		for (size_t i = 0; i < size; i++)
		{
			uint64_t z = splitmix(x);
			r[i] = k % 4 == 0 ? (char)crit[z % 10] : k % 4 == 1 ? ((z >> 32) % 3 ? (char)z : (char)crit[z % 10]) : (char)z;
		}
		return r;
	}
	std::string text(const char* alphabet, int lo, int hi)
	{
		std::string r; int l = (int)range(lo, hi); size_t m = strlen(alphabet);
		for (int i = 0; i < l; i++) r += alphabet[n(m - 1)];
		return r;
	}
	std::string bytes(int lo, int hi) // every byte a choice (shrinks well)
	{
		std::string r; int l = (int)range(lo, hi);
		for (int i = 0; i < l; i++) r += (char)n(255);
		return r;
	}
	template <class T> void shuffle(std::vector<T>& v)
	{
		for (size_t i = 0; i + 1 < v.size(); i++) std::swap(v[i], v[i + n(v.size() - 1 - i)]);
	}
	size_t used() { return m_pos; }
	size_t left() { return m_left; }
	std::string rest() { std::string r((const char*)m_data, m_left); m_left = 0; return r; }
	bool fuzzing() { return m_mode == 2; }

private:
	int m_mode;
	uint64_t m_rng = 0;
	std::vector<uint64_t> m_pre;
	const uint8_t* m_data = nullptr;
	size_t m_left = 0;
	uint32_t m_pos = 0;
	void start() { if (Shared* h = shm()) { h->len = 0; h->nspan = 0; h->msg[0] = 0; } }
};

struct Info
{
	bool nontrivial = false;
	uint64_t steps = 0;
	std::vector<std::string> labels;
	std::string sample;
	void label(const std::string& l) { labels.push_back(l); }
};

inline std::string vfmt(const char* f, va_list ap)
{
	va_list b; va_copy(b, ap);
	int k = vsnprintf(nullptr, 0, f, b); va_end(b);
	std::string r(k + 1, 0); vsnprintf(&r[0], k + 1, f, ap); r.resize(k); return r;
}
inline std::string fmt(const char* f, ...) { va_list ap; va_start(ap, f); std::string r = vfmt(f, ap); va_end(ap); return r; }
inline std::string show(const std::string& s, size_t max = 200)
{
	std::string r = "\"";
	for (size_t i = 0; i < s.size() && i < max; i++)
	{
		unsigned char c = s[i];
		if (c >= 32 && c < 127 && c != '"' && c != '\\') r += c; else r += fmt("\\x%02x", c);
	}
	return r + "\"" + (s.size() > max ? fmt("...(%d bytes)", (int)s.size()) : "");
}
inline void fail(const std::string& msg) { throw Failure{msg}; }
inline void failk(const std::string& key, const std::string& msg)
{
	if (known().count(key)) throw KnownHit{key};
	throw Failure{msg};
}
#define PBT_CHECK(cond, ...) do { if (!(cond)) pbt::fail(pbt::fmt("%s:%d: ", __FILE__, __LINE__) + pbt::fmt(__VA_ARGS__)); } while (0)

}

void pbt_setup();
void pbt_case(pbt::Src& s, pbt::Info& i);

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerInitialize(int*, char***)
{
	if (const char* k = getenv("PBT_KNOWN")) { std::string t; for (const char* p = k; ; p++) { if (!*p || *p == ',') { if (t.size()) pbt::known().insert(t); t.clear(); if (!*p) break; } else t += *p; } }
	pbt_setup(); return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n)
{
	pbt::Src s(d, n); pbt::Info i;
	try { pbt_case(s, i); }
	catch (pbt::Failure& f) { fprintf(stderr, "PROPERTY BROKEN: %s\n", f.msg.c_str()); abort(); }
	catch (pbt::KnownHit&) {}
	return 0;
}
#else

namespace pbt
{
inline std::string jstr(const std::string& s)
{
	std::string r = "\"";
	for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c >= 127) r += fmt("\\u%04x", c); else r += c; }
	return r + "\"";
}
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline void set_alarm(int sec) { struct itimerval v = {{0, 0}, {sec, 0}}; setitimer(ITIMER_REAL, &v, nullptr); }

struct Stats
{
	uint64_t evals = 0, steps = 0;
	std::set<uint64_t> nontrivial;
	std::map<std::string, uint64_t> labels, hits;
	std::vector<std::string> samples;
};

inline void run_one(Src& s, Stats* st)
{
	Info i;
	try
	{
		pbt_case(s, i);
	}
	catch (KnownHit& k) { if (st) st->hits[k.key]++; }
	if (!st) return;
	st->evals++; st->steps += i.steps;
	for (auto& l : i.labels) st->labels[l]++;
	if (i.nontrivial)
	{
		uint64_t h = 1469598103934665603ull;
		for (uint32_t k = 0; k < shm()->len; k++) h = (h ^ shm()->rec[k]) * 1099511628211ull;
		if (st->nontrivial.insert(h).second && st->samples.size() < 3 && i.sample.size())
			st->samples.push_back(i.sample.substr(0, 1500));
	}
}

inline void write_stats(Stats& st, const char* path)
{
	FILE* f = fopen(path, "ab");
	fprintf(f, "{\"evals\":%llu,\"steps\":%llu,\"labels\":{", (unsigned long long)st.evals, (unsigned long long)st.steps);
	bool c = false;
	for (auto& l : st.labels) { fprintf(f, "%s%s:%llu", c ? "," : "", jstr(l.first).c_str(), (unsigned long long)l.second); c = true; }
	fprintf(f, "},\"hits\":{"); c = false;
	for (auto& l : st.hits) { fprintf(f, "%s%s:%llu", c ? "," : "", jstr(l.first).c_str(), (unsigned long long)l.second); c = true; }
	fprintf(f, "},\"samples\":["); c = false;
	for (auto& l : st.samples) { fprintf(f, "%s%s", c ? "," : "", jstr(l).c_str()); c = true; }
	fprintf(f, "],\"nontrivial\":["); c = false;
	for (auto& l : st.nontrivial) { fprintf(f, "%s%llu", c ? "," : "", (unsigned long long)(l & 0x1fffffffffffffull)); c = true; }
	fprintf(f, "]}\n");
	fclose(f);
}

inline std::string read_tail(const std::string& p, size_t n)
{
	FILE* f = fopen(p.c_str(), "rb"); if (!f) return "";
	std::string r; char b[4096]; size_t k;
	while ((k = fread(b, 1, sizeof b, f)) > 0) r.append(b, k);
	fclose(f);
	size_t a = r.find("ERROR: AddressSanitizer");
	if (a == std::string::npos) a = r.find("runtime error");
	if (a != std::string::npos) return r.substr(a, n);
	return r.size() > n ? r.substr(r.size() - n) : r;
}

// runs body in a child; returns "" when it succeeded, else what happened
inline std::string in_child(const std::function<void()>& body, const std::string& dir, int limit)
{
	std::string errf = dir + "/stderr";
	shm()->msg[0] = 0;
	fflush(nullptr);
	pid_t p = fork();
	if (p == 0)
	{
		setpgid(0, 0);
		int fd = open(errf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
		dup2(fd, 2); dup2(fd, 1);
		(void)limit;
		try { body(); }
		catch (Failure& f) { strncpy(shm()->msg, f.msg.c_str(), sizeof(shm()->msg) - 1); _exit(77); }
		catch (std::exception& e) { snprintf(shm()->msg, sizeof(shm()->msg), "exception: %s", e.what()); _exit(77); }
		_exit(0);
	}
	int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	kill(-p, SIGKILL);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
	if (WIFEXITED(st) && WEXITSTATUS(st) == 77) return shm()->msg;
	if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) return fmt("does not end (time limit %d s)", limit);
	return (WIFSIGNALED(st) ? fmt("killed by signal %d\n", WTERMSIG(st)) : fmt("ended with code %d\n", WEXITSTATUS(st))) + read_tail(errf, 3000);
}

inline std::string run_choices(const std::vector<uint64_t>& c, const std::string& dir, int limit, std::vector<uint64_t>* rec, std::vector<std::pair<uint32_t, uint32_t>>* spans)
{
	std::string r = in_child([&] { pbt_setup(); set_alarm(limit); Src s(c); run_one(s, nullptr); }, dir, limit);
	if (rec) { rec->assign(shm()->rec, shm()->rec + shm()->len); }
	if (spans) { spans->clear(); for (uint32_t i = 0; i < shm()->nspan; i++) spans->push_back({shm()->span[i][0], shm()->span[i][1]}); }
	return r;
}

inline bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
{
	if (a.size() != b.size()) return a.size() < b.size();
	return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
}

inline std::string shrink(std::vector<uint64_t>& best, std::string msg, const std::string& dir, double budget, int limit, int& tries)
{
	double end = now() + budget;
	std::vector<std::pair<uint32_t, uint32_t>> spans;
	std::vector<uint64_t> rec;
	std::string m0 = run_choices(best, dir, limit, &rec, &spans);
	if (m0.size()) { msg = m0; if (rec.size() <= best.size()) best = rec; }
	auto attempt = [&](std::vector<uint64_t> c) -> bool
	{
		while (!c.empty() && c.back() == 0) c.pop_back();
		std::vector<uint64_t> b = best; while (!b.empty() && b.back() == 0) b.pop_back();
		if (!simpler(c, b)) return false;
		tries++;
		std::vector<std::pair<uint32_t, uint32_t>> sp; std::vector<uint64_t> rc;
		std::string m = run_choices(c, dir, limit, &rc, &sp);
		if (m.empty()) return false;
		while (!rc.empty() && rc.back() == 0) rc.pop_back();
		best = simpler(rc, c) ? rc : c; msg = m; spans = sp;
		return true;
	};
	bool progress = true;
	while (progress && now() < end)
	{
		progress = false;
		std::sort(spans.begin(), spans.end(), [](auto& a, auto& b) { return a.second - a.first > b.second - b.first; });
		for (size_t i = 0; i < spans.size() && now() < end; i++)
		{
			auto sp = spans[i];
			if (sp.second > best.size()) sp.second = best.size();
			if (sp.first >= sp.second) continue;
			std::vector<uint64_t> c(best); c.erase(c.begin() + sp.first, c.begin() + sp.second);
			if (attempt(c)) { progress = true; break; }
		}
		if (progress) continue;
		for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1 && now() < end; k /= 2)
		{
			for (size_t a = 0; a < best.size() && now() < end; )
			{
				std::vector<uint64_t> c(best); c.erase(c.begin() + a, c.begin() + std::min(a + k, c.size()));
				if (attempt(c)) { progress = true; continue; }
				c = best; for (size_t i = a; i < std::min(a + k, c.size()); i++) c[i] = 0;
				if (attempt(c)) progress = true;
				a += k;
			}
		}
		for (size_t i = 0; i < best.size() && now() < end; i++)
		{
			uint64_t lo = 0;
			while (i < best.size() && lo < best[i] && now() < end)
			{
				std::vector<uint64_t> c(best); uint64_t mid = lo + (best[i] - lo) / 2; c[i] = mid;
				if (attempt(c)) progress = true; else lo = mid + 1;
			}
		}
	}
	return msg;
}
}

int main(int argc, char** argv)
{
	using namespace pbt;
	std::map<std::string, std::string> a;
	for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
	std::string dir = a["--dir"];
	int limit = a.count("--limit") ? atoi(a["--limit"].c_str()) : 60;
	for (size_t p = 0; p < a["--known"].size(); )
	{
		size_t q = a["--known"].find(',', p); if (q == std::string::npos) q = a["--known"].size();
		known().insert(a["--known"].substr(p, q - p)); p = q + 1;
	}
	shm() = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (a.count("--replay"))
	{
		std::vector<uint64_t> c; FILE* f = fopen(a["--replay"].c_str(), "r"); unsigned long long v;
		while (f && fscanf(f, "%llu", &v) == 1) c.push_back(v);
		std::string m = run_choices(c, dir, limit, nullptr, nullptr);
		if (m.size()) { printf("%s\n", m.c_str()); return 1; }
		return 0;
	}
	uint64_t seed = strtoull(a["--seed"].c_str(), nullptr, 10), cases = strtoull(a["--cases"].c_str(), nullptr, 10);
	uint64_t w = strtoull(a["--worker"].c_str(), nullptr, 10), nw = strtoull(a["--workers"].c_str(), nullptr, 10);
	double end = now() + atof(a["--cap"].c_str());
	std::string stats = a["--out"] + ".stats", res = a["--out"];
	uint64_t next = w;
	int unrep = 0;
	FILE* f = fopen(res.c_str(), "w");
	while (next < cases && now() < end)
	{
		std::string m = in_child([&]
		{
			pbt_setup();
			Stats st;
			uint64_t k = 0;
			for (uint64_t i = next; i < cases && now() < end; i += nw)
			{
				shm()->index = i;
				uint64_t x = seed * 1000003 + i; uint64_t sd = splitmix(x);
				Src s(sd);
				set_alarm(limit);
				try { run_one(s, &st); }
				catch (...) { set_alarm(0); write_stats(st, stats.c_str()); throw; }
				set_alarm(0);
				if (++k % 512 == 0) { write_stats(st, stats.c_str()); st = Stats(); }
			}
			write_stats(st, stats.c_str());
		}, dir, limit);
		if (m.empty()) break;
		uint64_t at = shm()->index;
		std::vector<uint64_t> c(shm()->rec, shm()->rec + shm()->len);
		bool again = false;
		for (int k = 0; k < 3 && !again; k++) { std::string m2 = run_choices(c, dir, limit * 2, nullptr, nullptr); if (m2.size()) { again = true; m = m2; } }
		if (!again)
		{
			unrep++; fprintf(f, "UNREP %llu %s\n", (unsigned long long)at, jstr(m.substr(0, 1500)).c_str()); fflush(f);
			next = at + nw;
			if (unrep > 5) break;
			continue;
		}
		int tries = 0;
		m = shrink(c, m, dir, atof(a["--shrink"].c_str()), limit, tries);
		fprintf(f, "FAIL %llu %d %s", (unsigned long long)at, tries, jstr(m).c_str());
		for (uint64_t v : c) fprintf(f, " %llu", (unsigned long long)v);
		fprintf(f, "\n");
		fclose(f);
		return 0;
	}
	fclose(f);
	return 0;
}
#endif
