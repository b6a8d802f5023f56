// C16: feed filters mean what the documentation (nzbget.conf, "Feed1.Filter") says.
#include "world.h"
#include "FeedFilter.h"
#include "FeedInfo.h"
#include "pbt.h"
#include "ref.h"
#include <regex.h>
#include <math.h>

static time_t g_now = 1500000000;
extern "C" time_t __wrap_time(time_t* t) { if (t) *t = g_now; return g_now; }
void pbt_setup() { new World({"InfoTarget=none", "WarningTarget=none", "ErrorTarget=none", "DetailTarget=none"}); }

using std::string; using std::vector;
static const char* SEP = " !\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~";

struct Helper : FeedFilterHelper
{
	std::unique_ptr<RegEx> re[4]; string status;
	std::unique_ptr<RegEx>& GetRegEx(int id) override { return re[id]; }
	void CalcDupeStatus(const char*, const char*, char* b, int n) override { snprintf(b, n, "%s", status.c_str()); }
};

struct Item // what the reference knows about the item
{
	string title, filename, category, url, description, season, episode, dupeKey, dupeStatus, addCategory;
	int64_t size = 0, age = 0; int imdb = 0, rage = 0, tvdb = 0, tvmaze = 0, prio = 0, score = 0; bool pause = false; int mode = 0;
	std::map<string, string> attr;
	int seasonNum = 0, episodeNum = 0;
};

static bool dig(char c) { return c >= '0' && c <= '9'; }
// season and episode written in the title: (s)NNeMM or NNxMM, with an optional second episode, as a separate word
static void parseTitle(Item& it)
{
	const string& t = it.title;
	auto at = [&](size_t i) { return i < t.size() ? t[i] : '\0'; };
	for (size_t i = 0; i < t.size(); i++)
	{
		if (isalnum((unsigned char)t[i])) continue;
		size_t j = i + 1; if (tolower(at(j)) == 's') j++;
		size_t a = j; while (dig(at(j))) j++;
		if (j == a || (tolower(at(j)) != 'e' && tolower(at(j)) != 'x')) continue;
		size_t b = ++j; while (dig(at(j))) j++;
		if (j == b) continue;
		size_t k = j, e = 0; if (at(k) == '-') k++;
		if (tolower(at(k)) == 'e') { size_t c = ++k; while (dig(at(k))) k++; if (k > c && k < t.size() && !isalnum((unsigned char)t[k])) e = k; }
		if (!e && j < t.size() && !isalnum((unsigned char)t[j])) e = j;
		if (!e) continue;
		char buf[64]; snprintf(buf, sizeof buf, "S%02d", atoi(t.substr(a, 9).c_str())); it.season = buf; it.seasonNum = atoi(t.substr(a, 9).c_str());
		string ep; for (char c : t.substr(b, e - b)) if (c != '-') ep += (char)toupper(c);
		it.episode = "E" + ep; it.episodeNum = atoi(ep.c_str()); return;
	}
}

enum { TEXT, REGEX, EQ, LT, LE, GT, GE };
typedef std::set<vector<string>> Caps;
struct Term
{
	int group = 0;               // 0 term, 1 all of, 2 one of
	vector<Term> kids;
	bool neg = false; string field, param; int cmd = TEXT; int64_t num = 0; double dnum = 0; bool flt = false;
	string src;
};

static int textMatch(const string& p, const string& v, Caps* caps)
{
	bool whole = p.size() >= 2 && p[0] == '*' && p.back() == '*';
	for (char c : p) if (strchr(SEP, c) && c != '*' && c != '?' && c != '#') whole = true;
	if (!whole)
	{
		bool m = false;
		for (auto& w : ref::split(v, SEP)) if (ref::wild(p, w)) { m = true; if (caps) ref::captures(p, w, *caps); }
		return m;
	}
	if (!ref::wild("*" + p + "*", v)) return 0;
	if (caps)
	{
		string q = p; bool lead = q[0] == '*', trail = q.back() == '*';
		Caps c; ref::captures((lead ? "" : "*") + q + (trail ? "" : "*"), v, c, 5000);
		for (auto l : c) { if (!lead) l.erase(l.begin()); if (!trail) l.pop_back(); caps->insert(l); }
	}
	return 1;
}
static bool cmp(int cmd, double a, double b) { return cmd == EQ ? a == b : cmd == LT ? a < b : cmd == LE ? a <= b : cmd == GT ? a > b : a >= b; }

// 1 matches, 0 does not, -1 not defined by the documentation
static int evalLeaf(const Term& t, Item& it, Caps* caps)
{
	string f = ref::lower(t.field); const string* s = nullptr; int64_t n = 0; bool missing = false;
	if (f.empty() || f == "title") s = &it.title; else if (f == "filename") s = &it.filename; else if (f == "category") s = &it.category;
	else if (f == "link" || f == "url") s = &it.url; else if (f == "description") s = &it.description; else if (f == "dupekey") { s = &it.dupeKey; missing = s->empty(); } else if (f == "dupestatus") s = &it.dupeStatus;
	else if (f == "size") n = it.size; else if (f == "age") n = it.age; else if (f == "imdbid") n = it.imdb; else if (f == "rageid") n = it.rage; else if (f == "tvdbid") n = it.tvdb; else if (f == "tvmazeid") n = it.tvmaze;
	else if (f == "season") n = it.seasonNum; else if (f == "episode") n = it.episodeNum; else if (f == "priority") n = it.prio; else if (f == "dupescore") n = it.score;
	else if (f.substr(0, 5) == "attr-") { auto a = it.attr.find(f.substr(5)); if (a == it.attr.end()) missing = true; else s = &a->second; }
	auto one = [&](const string* s) -> int
	{
		if (t.cmd == TEXT) return s ? textMatch(t.param, *s, caps) : textMatch(t.param, std::to_string(n), caps);
		if (t.cmd == REGEX)
		{
			string v = s ? *s : std::to_string(n);
			regex_t re; if (regcomp(&re, t.param.c_str(), REG_EXTENDED | REG_ICASE)) return 0;
			regmatch_t m[10]; int r = regexec(&re, v.c_str(), 10, m, 0) == 0;
			if (r && caps) { vector<string> l; for (int i = 1; i < 10 && m[i].rm_so >= 0; i++) l.push_back(v.substr(m[i].rm_so, m[i].rm_eo - m[i].rm_so)); caps->insert(l); }
			regfree(&re); return r;
		}
		double v = s ? atof(s->c_str()) : (double)n;
		if (f == "size" && t.num != v && fabs(v - t.num) <= 1) return -1; // rounding of fractions of units is not specified
		if (!t.flt && v != floor(v)) return -1;
		return cmp(t.cmd, v, t.flt ? t.dnum : (double)t.num);
	};
	int r;
	if (missing) { string z = "0", e = ""; r = one(&z); int q = one(&e); if (q != r) return -1; }
	else r = one(s);
	if (r < 0) return r;
	return t.neg ? !r : r;
}
static int eval(const Term& t, Item& it, vector<Caps>* caps)
{
	if (t.group == 0) { Caps c; bool want = caps && !t.neg; int r = evalLeaf(t, it, want ? &c : nullptr); if (want && r == 1 && c.size()) caps->push_back(c); return r; }
	int res = t.group == 1;
	for (auto& k : t.kids) { int r = eval(k, it, caps); if (r < 0) return -1; if (t.group == 1) res = res && r; else res = res || r; }
	return res;
}

static string mixCase(pbt::Src& s, string w) { switch (s.n(3)) { case 1: for (auto& c : w) c = (char)toupper(c); break; case 2: w = ref::lower(w); break; } return w; }
static string word(pbt::Src& s) { return s.pick({"Game", "of", "Clowns", "S02E06", "1080p", "HDTV", "x264", "WEB", "DL", "Group", "5", "02x07", "s1e2-e3", "S10E01E02", "2019", "mp3", "a", "Uber"}); }
static string title(pbt::Src& s)
{
	string r; if (s.b(100)) r = s.pick({".", "[", " "});
	s.repeat(1, 7, 800, [&] { if (r.size()) r += s.pick({".", " ", "-", "_", " - ", "[", "] "}); r += mixCase(s, word(s)); });
	if (s.b(200)) r += s.pick({"]", ".", " ", "-"});
	return r;
}
static string mask(pbt::Src& s, const string& from) // a text parameter related to the given field content
{
	string p;
	auto ws = ref::split(from, SEP);
	switch (s.weighted({5, 3, 3, 2, 1}))
	{
		case 0: p = ws.size() ? ws[s.n(ws.size() - 1)] : "x"; break;
		case 1: p = word(s); break;
		case 2: { size_t a = from.size() ? s.n(from.size() - 1) : 0; p = from.substr(a, s.range(1, 14)); break; }
		case 3: p = word(s) + s.pick({".", "-", "*", "?"}) + word(s); break;
		default: p = s.pick({"*", "?", "#", "**", "S##E##", "*a*", "####p", "*?", "?*", "#*", "*#*"}); break;
	}
	s.repeat(0, 3, 450, [&]
	{
		size_t i = p.size() ? s.n(p.size() - 1) : 0;
		switch (s.n(5))
		{
			case 0: p += "*"; break; case 1: p = "*" + p; break; case 2: p = "*" + p + "*"; break;
			case 3: if (p.size()) p[i] = s.b() ? '?' : '#'; break;
			case 4: if (p.size()) p.replace(i, s.range(1, 4), "*"); break;
			default: for (auto& c : p) if (dig(c)) c = '#'; break;
		}
	});
	string q; for (char c : p) if (c != ' ' && c != '%' && c != ':') q += c;
	while (q.size() && strchr("@$=<>+-()|", q[0])) q.erase(0, 1);
	return q.empty() ? "game" : mixCase(s, q);
}
static Term leaf(pbt::Src& s, const Item& it)
{
	Term t; string f;
	if (s.b(600))
	{
		f = s.b(600) ? "" : s.pick({"title", "filename", "category", "link", "url", "description", "dupekey", "dupestatus", "attr-genre", "attr-none", "rageid"});
		const string& from = f == "filename" ? it.filename : f == "category" ? it.category : f == "link" || f == "url" ? it.url : f == "description" ? it.description : f == "dupekey" ? it.dupeKey : f == "attr-genre" && it.attr.count("genre") ? it.attr.at("genre") : it.title;
		if (s.b(200))
		{
			t.cmd = REGEX;
			switch (s.n(3))
			{
				case 0: t.param = s.pick({"game.*of", "^game", "group$", "s([0-9]+)e([0-9]+)", "(game|hdtv)", "[0-9]{3,4}p", ".", "^$", "x264|WEB", "(.+)s0", "[", "(", "[^a-z]of[^a-z]"}); break;
				default: { for (char c : mask(s, from)) { if (c == '*') t.param += ".*"; else if (c == '?') t.param += "."; else if (c == '#') t.param += "[0-9]"; else if (isalnum((unsigned char)c)) t.param += c; else t.param += "[" + string(c == '^' || c == '[' || c == ']' || c == '\\' ? "." : string(1, c)) + "]"; } break; }
			}
		}
		else t.param = mask(s, from);
		t.field = mixCase(s, f);
		t.src = (f.size() ? t.field + ":" : "") + (t.cmd == REGEX ? "$" : s.b(200) || (f.empty() && s.b(50)) ? "@" : "") + t.param;
	}
	else
	{
		f = s.pick({"size", "age", "imdbid", "rageid", "tvdbid", "tvmazeid", "season", "episode", "priority", "dupescore", "attr-rating"});
		t.cmd = (int)s.range(EQ, GE); t.field = mixCase(s, f);
		string op = t.cmd == EQ ? "=" : t.cmd == LT ? "<" : t.cmd == LE ? "<=" : t.cmd == GT ? ">" : ">=";
		string num;
		if (f == "size" || f == "age")
		{
			int q = (int)s.range(0, 40); int frac = (int)s.num({0, 0, 0, 25, 5, 75, 8, 1});
			num = std::to_string(q); if (frac) num += "." + std::to_string(frac);
			double v = atof(num.c_str()); string suf; double mul = 1;
			if (f == "size") { static const std::pair<const char*, double> u[] = {{"", 1}, {"K", 1024}, {"KB", 1024}, {"M", 1048576}, {"MB", 1048576}, {"G", 1073741824}, {"GB", 1073741824}}; auto& x = u[s.n(6)]; suf = x.first; mul = x.second; }
			else { static const std::pair<const char*, double> u[] = {{"", 86400}, {"m", 60}, {"h", 3600}, {"d", 86400}}; auto& x = u[s.n(3)]; suf = x.first; mul = x.second; }
			if (f == "size" && suf.empty() && s.b(700)) { num = std::to_string(it.size + s.range(-2, 2)); if (num[0] == '-') num = "0"; v = atof(num.c_str()); }
			t.num = (int64_t)(v * mul + (f == "age" ? 1e-6 : 0)); num += mixCase(s, suf);
		}
		else
		{
			int64_t base = s.b() ? s.range(-3, 12) : f == "imdbid" ? it.imdb : f == "rageid" ? it.rage : f == "tvdbid" ? it.tvdb : f == "tvmazeid" ? it.tvmaze : f == "season" ? it.seasonNum : f == "episode" ? it.episodeNum : f == "priority" ? it.prio : it.score;
			t.num = base + s.range(-1, 1); num = std::to_string(t.num);
			if (s.b(150)) { num += s.b() ? ".5" : ".0"; t.flt = true; t.dnum = atof(num.c_str()); }
		}
		t.param = num; t.src = t.field + ":" + op + num;
	}
	if (s.b(200)) { t.neg = true; t.src = "-" + t.src; } else if (s.b(80)) t.src = "+" + t.src;
	return t;
}
static string sp(pbt::Src& s) { return s.b(100) ? "  " : " "; }
static Term expr(pbt::Src& s, const Item& it, int depth, bool top)
{
	if (!top && (depth <= 0 || s.b(650))) return leaf(s, it);
	Term g; g.group = top ? (s.b(120) ? 2 : 1) : s.b(700) ? 2 : 1;
	s.repeat(1, 4, top ? 550 : 700, [&] { g.kids.push_back(expr(s, it, depth - 1, false)); });
	for (size_t i = 0; i < g.kids.size(); i++) { if (i) g.src += sp(s) + (g.group == 2 ? "|" + sp(s) : ""); g.src += g.kids[i].src; }
	if (!top) g.src = "(" + sp(s) + g.src + sp(s) + ")";
	return g;
}

struct Opts
{
	bool hasCat = false, hasPause = false, pause = false, hasPrio = false, hasAddPrio = false, hasScore = false, hasAddScore = false, hasKey = false, hasAddKey = false, hasMode = false, build = false;
	string cat, key, addKey, rage, tvdb, tvmaze, series; int prio = 0, addPrio = 0, score = 0, addScore = 0, mode = 0; string src;
};
static Opts options(pbt::Src& s, const string& pat, bool& used)
{
	Opts o; used = false;
	auto add = [&](const string& n, const string& v) { if (o.src.size()) o.src += s.pick({", ", ",", " , "}); o.src += mixCase(s, n) + (v.size() ? string(":") + (s.b(200) ? " " : "") + v : string()); };
	auto num = [&](int& v) { v = (int)s.range(-100, 1000); return (v >= 0 && s.b(100) ? "+" : "") + std::to_string(v); };
	auto str = [&] { if (pat.size() && s.b(600)) { used = true; return pat; } return string(s.pick({"my series", "Movies", "a:b", "x-${season}-${episode}", "tv/hd", "ünï", "1080p"})); };
	if (s.b(400)) { o.hasCat = true; o.cat = str(); add(s.pick({"category", "cat", "c"}), o.cat); }
	if (s.b(250)) { o.hasPause = true; o.pause = s.b(); string v = o.pause ? s.pick({"yes", "y", "YES", ""}) : s.pick({"no", "n", "No"}); if (s.b(150)) add(o.pause ? "paused" : "unpaused", ""); else add(s.pick({"pause", "p"}), v); }
	if (s.b(250)) { o.hasPrio = true; string v = num(o.prio); if (s.b(150)) { if (o.src.size()) o.src += ","; o.src += v; } else add(s.pick({"priority", "pr", "r"}), v); }
	if (s.b(200)) { o.hasAddPrio = true; string v = num(o.addPrio); add(s.pick({"priority+", "pr+", "r+"}), v); }
	if (s.b(250)) { o.hasScore = true; string v = num(o.score); add(s.pick({"dupescore", "ds", "s"}), v); }
	if (s.b(200)) { o.hasAddScore = true; string v = num(o.addScore); add(s.pick({"dupescore+", "ds+", "s+"}), v); }
	if (s.b(200)) { o.build = true; switch (s.n(3)) { case 0: o.rage = std::to_string(s.range(0, 9)); add("rageid", o.rage); break; case 1: o.series = "show"; add("series", o.series); break; case 2: o.tvdb = std::to_string(s.range(1, 9)); add("tvdbid", o.tvdb); break; default: o.tvmaze = "77"; add("tvmazeid", o.tvmaze); } }
	else if (s.b(250)) { o.hasKey = true; o.key = str(); add(s.pick({"dupekey", "dk", "k"}), o.key); }
	if (s.b(200)) { o.hasAddKey = true; o.addKey = str(); add(s.pick({"dupekey+", "dk+", "k+"}), o.addKey); }
	if (s.b(200)) { o.hasMode = true; o.mode = (int)s.n(2); string v = o.mode == 0 ? s.pick({"score", "s"}) : o.mode == 1 ? s.pick({"all", "a"}) : s.pick({"force", "F"}); add(s.pick({"dupemode", "dm", "m"}), v); }
	return o;
}
struct Rule { char cmd; bool valid = true; Term e; Opts o; bool hasOpts = false, pat = false; string src; };

// all texts the pattern can expand to
static std::set<string> expand(const string& v, const vector<Caps>& caps, const Item& it)
{
	std::set<string> out;
	vector<vector<string>> lists = {{}};
	for (auto& c : caps) { vector<vector<string>> n; for (auto& l : lists) for (auto& k : c) { auto x = l; x.insert(x.end(), k.begin(), k.end()); n.push_back(x); if (n.size() > 3000) break; } lists = n; }
	for (auto& l : lists)
	{
		string r; bool ok = true;
		for (size_t i = 0; i < v.size(); )
		{
			if (v.compare(i, 2, "${")) { r += v[i++]; continue; }
			size_t e = v.find('}', i); string n = v.substr(i + 2, e - i - 2); i = e + 1;
			if (n == "season") r += it.season; else if (n == "episode") r += it.episode;
			else { size_t k = atoi(n.c_str()) - 1; if (k < l.size()) r += l[k]; else ok = false; }
		}
		if (ok) out.insert(r);
	}
	return out;
}

void pbt_case(pbt::Src& s, pbt::Info& info)
{
	Item it; Helper h;
	it.title = title(s); it.filename = s.b() ? it.title : title(s); it.url = s.pick({"http://a.b/x.nzb", "https://indexer.example/getnzb/Game.nzb?id=5"});
	it.category = s.pick({"", "TV > HD", "Movies", "tv"}); it.description = s.pick({"", "a good game, of 5"});
	it.size = s.num({0, 1, 1024, 1500, 1048576, 700000000, 1610612736, 5368709120ll, 1073741824}) + s.range(0, 2);
	it.age = s.num({0, 60, 59, 3600, 54000, 86400, 86399, 172800, 864000, 3456000});
	if (s.b(300)) it.imdb = (int)s.range(1, 9); if (s.b(300)) it.rage = (int)s.range(1, 123456); if (s.b(300)) it.tvdb = (int)s.range(1, 9); if (s.b(300)) it.tvmaze = (int)s.range(1, 9);
	if (s.b(400)) it.attr["genre"] = s.pick({"action", "sci-fi drama", ""}); if (s.b(400)) it.attr["rating"] = std::to_string(s.range(-2, 9)) + (s.b(200) ? ".5" : "");
	it.prio = (int)s.num({0, 50, -100}); it.dupeStatus = s.pick({"", "SUCCESS", "QUEUED,FAILURE"}); h.status = it.dupeStatus; it.addCategory = s.pick({"", "feedcat"}); it.pause = s.b();
	if (s.b(150)) it.dupeKey = "imdb=5";
	bool declared = s.b(350);

	FeedItemInfo fi; fi.SetFeedFilterHelper(&h);
	fi.SetTitle(it.title.c_str()); fi.SetFilename(it.filename.c_str()); fi.SetUrl(it.url.c_str()); fi.SetCategory(it.category.c_str()); fi.SetDescription(it.description.c_str());
	fi.SetSize(it.size); fi.SetTime(g_now - it.age); fi.SetImdbId(it.imdb); fi.SetRageId(it.rage); fi.SetTvdbId(it.tvdb); fi.SetTvmazeId(it.tvmaze);
	for (auto& a : it.attr) fi.GetAttributes()->emplace_back(mixCase(s, a.first).c_str(), a.second.c_str());
	fi.SetPriority(it.prio); fi.SetAddCategory(it.addCategory.c_str()); fi.SetPauseNzb(it.pause); if (it.dupeKey.size()) fi.SetDupeKey(it.dupeKey.c_str());
	if (declared) { it.season = s.pick({"S02", "2", "S10", "0"}); it.episode = s.pick({"E06", "7", "E01E02"}); it.seasonNum = atoi(it.season.c_str() + !dig(it.season[0])); it.episodeNum = atoi(it.episode.c_str() + !dig(it.episode[0])); fi.SetSeason(it.season.c_str()); fi.SetEpisode(it.episode.c_str()); }
	else parseTitle(it);

	if (s.b(150)) // any text at all
	{
		string f; s.repeat(0, 60, 950, [&] { f += s.b(600) ? string(s.pick({"A(", "A:", "O(", "R:", "Q:", "#", "%", "(", ")", "|", " ", ":", ",", "${1}", "${", "}", "$", "@", "<", ">=", "size:", "age:", "priority:", "dupekey:", "season:", "attr-", "pause", "k:", "c:", "-", "+", "*", "?", "1.5G", "( ", " )", " | ", "title", "dupestatus:", "series:", "rageid:"})) : s.b(300) ? string(1, (char)s.range(1, 255)) : word(s); });
		info.sample = "item " + pbt::show(it.title) + " filter " + pbt::show(f); info.label("arbitrary text"); info.nontrivial = f.size() > 3;
		FeedFilter ff(f.c_str()); ff.Match(fi); ff.Match(fi); return;
	}

	vector<Rule> rules; string filter;
	int steps = 0;
	s.repeat(1, 5, 650, [&]
	{
		Rule r; r.e = expr(s, it, 2, true);
		int kind = s.weighted({5, 4, 3, 4, 1, 1, 1});
		string e = r.e.src;
		string l = s.b(150) ? " " : "", c = s.b(700) ? " " : "";
		// a pattern for ${n}: only where the numbering is defined, i.e. positive terms joined by "and"
		string pat; if (s.b(500)) { pat = s.pick({"k-${1}", "${1}", "${1}+${2}", "<${2}.${1}>", "s=${season}", "${1}${3}"}); }
		bool used = false;
		switch (kind)
		{
			case 0: { r.cmd = 'A'; string k = s.pick({"", "", "A:", "Accept:", "a:", "ACCEPT:"}); if (k.empty() && e[0] == '#') k = "A:"; r.src = k + c + e; break; }
			case 1: r.cmd = 'A'; r.hasOpts = true; r.o = options(s, pat, used); r.pat = used; if (r.o.src.empty()) { r.o.hasCat = true; r.o.cat = "z"; r.o.src = "c:z"; } r.src = string(s.pick({"A(", "Accept("})) + r.o.src + (s.b(200) ? ") " : "):") + c + e; break;
			case 2: r.cmd = 'R'; r.src = string(s.pick({"R:", "Reject:"})) + c + e; break;
			case 3: r.cmd = 'O'; r.hasOpts = true; r.o = options(s, pat, used); r.pat = used; if (r.o.src.empty()) { r.o.hasScore = true; r.o.score = 7; r.o.src = "s:7"; } r.src = string(s.pick({"O(", "Options("})) + r.o.src + "):" + c + e; break;
			case 4: r.cmd = 'Q'; r.src = string(s.pick({"Q:", "Require:"})) + c + e; break;
			case 5: r.cmd = '#'; r.src = "#" + c + e; break;
			default: r.cmd = 'A'; r.valid = false; r.src = s.pick({"", "A: badfield:game", "size:<5XB", "age:>3w", "A(pause:maybe): game", "A(dupemode:none): game", "A(priority:high): game", "A(c:x: game", "R: season:>x", "A:", "game size:", "-", "title:"}); break;
		}
		// where references are used, keep the numbering defined
		if (r.pat)
		{
			bool ok = r.e.group == 1; int open = 0;
			for (auto& k : r.e.kids) { if (k.group) ok = false; else if (!k.neg && k.cmd <= REGEX) { string p = k.param; bool whole = p.size() >= 2 && p[0] == '*' && p.back() == '*'; bool sepc = false; for (char ch : p) if (strchr(SEP, ch) && ch != '*' && ch != '?' && ch != '#') sepc = true; if (open) ok = false; if (k.cmd == TEXT && sepc && !whole && p.back() != '*') open = 1; } }
			if (!ok) r.pat = false;
		}
		else used = false;
		if (used && !r.pat) r.cmd = 'X';
		r.src = l + r.src + (s.b(100) ? " " : "");
		rules.push_back(r); steps++;
	});
	for (size_t i = 0; i < rules.size(); i++) filter += (i ? "%" : "") + rules[i].src;
	string what = "item " + pbt::show(it.title) + pbt::fmt(" size %lld age %lld season '%s' episode '%s' filter ", (long long)it.size, (long long)it.age, it.season.c_str(), it.episode.c_str()) + pbt::show(filter, 600);
	info.sample = what; info.steps = steps;

	// the reference verdict
	int status = FeedItemInfo::msIgnored, rule = 0; bool undefined = false;
	std::set<string> cats = {it.addCategory}, keys = {it.dupeKey};
	auto single = [](const std::set<string>& x) { return x.size() == 1 ? *x.begin() : string(); };
	for (size_t i = 0; i < rules.size() && !undefined; i++)
	{
		Rule& r = rules[i];
		if (!r.valid || r.cmd == '#') continue;
		it.dupeKey = single(keys);
		vector<Caps> caps; int m = eval(r.e, it, &caps);
		if (m < 0 || (keys.size() > 1)) { undefined = true; break; }
		if (r.cmd == 'X') { if (m) { undefined = true; break; } continue; } // (not applied: no difference unless it matches)
		if (r.cmd == 'R' && m) { status = FeedItemInfo::msRejected; rule = (int)i + 1; break; }
		if (r.cmd == 'Q' && !m) { status = FeedItemInfo::msRejected; rule = (int)i + 1; break; }
		if ((r.cmd == 'A' || r.cmd == 'O') && m)
		{
			if (r.hasOpts)
			{
				auto& o = r.o;
				auto ex = [&](const string& v) { std::set<string> x; if (v.find("${") == string::npos) x.insert(v); else { x = expand(v, caps, it); if (x.empty()) undefined = true; } return x; };
				if (o.hasPause) it.pause = o.pause;
				if (o.hasCat) cats = ex(o.cat);
				if (o.hasPrio) it.prio = o.prio; if (o.hasAddPrio) it.prio += o.addPrio;
				if (o.hasScore) it.score = o.score; if (o.hasAddScore) it.score += o.addScore;
				if (o.build)
				{
					bool se = it.seasonNum && it.episodeNum; string t = "-" + it.season + "-" + it.episode, k;
					int rage = o.rage.size() ? atoi(o.rage.c_str()) : it.rage, tvdb = o.tvdb.size() ? atoi(o.tvdb.c_str()) : it.tvdb, tvm = o.tvmaze.size() ? atoi(o.tvmaze.c_str()) : it.tvmaze;
					if (it.imdb) k = "imdb=" + std::to_string(it.imdb); else if (o.series.size() && se) k = "series=" + o.series + t; else if (rage && se) k = "rageid=" + std::to_string(rage) + t; else if (tvdb && se) k = "tvdbid=" + std::to_string(tvdb) + t; else if (tvm && se) k = "tvmazeid=" + std::to_string(tvm) + t;
					keys = {k};
				}
				if (o.hasKey) keys = ex(o.key);
				if (o.hasAddKey) { std::set<string> a = ex(o.addKey), n; for (auto& k : keys) for (auto& x : a) n.insert(k.size() && x.size() ? k + "-" + x : k); keys = n; }
				if (o.hasMode) it.mode = o.mode;
			}
			if (r.cmd == 'A') { status = FeedItemInfo::msAccepted; rule = (int)i + 1; break; }
		}
	}

	FeedFilter ff(filter.c_str());
	fi.SetMatchStatus(FeedItemInfo::msAccepted); fi.SetMatchRule(99);
	ff.Match(fi);
	if (undefined) { info.label("not defined by the documentation"); return; }
	static const char* N[] = {"ignored", "accepted", "rejected"};
	PBT_CHECK(fi.GetMatchStatus() == status && fi.GetMatchRule() == rule, "%s: %s by rule %d, should be %s by rule %d", what.c_str(), N[fi.GetMatchStatus()], fi.GetMatchRule(), N[status], rule);
	auto check = [&](const char* n, const std::set<string>& ok, const string& got) { if (!ok.count(got)) pbt::fail(what + ": " + n + " is " + pbt::show(got) + ", should be " + (ok.empty() ? "nothing" : pbt::show(*ok.begin())) + (ok.size() > 1 ? " or similar" : "")); };
	check("category", cats, fi.GetAddCategory()); check("dupe key", keys, fi.GetDupeKey() ? fi.GetDupeKey() : "");
	PBT_CHECK(fi.GetPauseNzb() == it.pause && fi.GetPriority() == it.prio && fi.GetDupeScore() == it.score && (int)fi.GetDupeMode() == it.mode, "%s: pause %d priority %d score %d mode %d, should be %d %d %d %d", what.c_str(),
		fi.GetPauseNzb(), fi.GetPriority(), fi.GetDupeScore(), (int)fi.GetDupeMode(), it.pause, it.prio, it.score, it.mode);
	info.label(N[status]); bool pats = false; for (auto& r : rules) pats = pats || r.pat; if (pats) info.label("references");
	info.nontrivial = filter.size() > 3;
}
