// C28: options are read, substituted, saved and reported faithfully.
#include "world.h"
#include "pbt.h"
#include <map>
#include <set>
#include <cctype>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
using std::string; using std::vector; using std::map;

static Options* g_base; static string g_dir; static map<string, string> g_defaults, g_names; // lower name -> value, name
static FILE* g_out;

static string low(string s) { for (char& c : s) c = (char)tolower((unsigned char)c); return s; }

enum Type { kBool, kEnum, kInt, kText, kDir };
struct Def { const char* name; Type type; std::function<string(Options&)> get; vector<vector<string>> names; int dirParent; };
#define TEXT(N, G) {N, kText, [](Options& o) { const char* v = o.G(); return string(v ? v : ""); }, {}, 0}
#define BOOL(N, G) {N, kBool, [](Options& o) { return string(o.G() ? "yes" : "no"); }, {{"yes", "on", "true", "1", "enable", "enabled"}, {"no", "off", "false", "0", "disable", "disabled"}}, 0}
#define INT(N, G, F) {N, kInt, [](Options& o) { return pbt::fmt("%lld", (long long)o.G()); }, {}, F}
#define DIR_(N, G, P) {N, kDir, [](Options& o) { const char* v = o.G(); return string(v ? v : ""); }, {}, P}
#define TARGET(N, G) {N, kEnum, [](Options& o) { const char* n[] = {"none", "screen", "log", "both"}; return string(n[o.G()]); }, {{"screen"}, {"log"}, {"both"}, {"none"}}, 0}
// values of kInt's last field: what the getter returns for a configured number (see num())
enum { iPlain, iKilo, iMinutes, iCorr, iOct, iCache };
static vector<Def> g_defs;
static void defs()
{
	const char* nm; (void)nm;
	g_defs = {
		TEXT("ControlIP", GetControlIp), TEXT("ControlUsername", GetControlUsername), TEXT("ControlPassword", GetControlPassword), TEXT("RestrictedUsername", GetRestrictedUsername),
		TEXT("RestrictedPassword", GetRestrictedPassword), TEXT("AddUsername", GetAddUsername), TEXT("AddPassword", GetAddPassword), TEXT("SecureCert", GetSecureCert), TEXT("SecureKey", GetSecureKey),
		TEXT("CertStore", GetCertStore), TEXT("AuthorizedIP", GetAuthorizedIp), TEXT("LockFile", GetLockFile), TEXT("DaemonUsername", GetDaemonUsername), TEXT("LogFile", GetLogFile),
		TEXT("UnrarCmd", GetUnrarCmd), TEXT("SevenZipCmd", GetSevenZipCmd), TEXT("ExtCleanupDisk", GetExtCleanupDisk), TEXT("ParIgnoreExt", GetParIgnoreExt), TEXT("UnpackIgnoreExt", GetUnpackIgnoreExt),
		TEXT("ShellOverride", GetShellOverride), TEXT("Extensions", GetExtensions), TEXT("ScriptOrder", GetScriptOrder), TEXT("RequiredDir", GetRequiredDir),
		BOOL("NzbLog", GetNzbLog), BOOL("AppendCategoryDir", GetAppendCategoryDir), BOOL("ContinuePartial", GetContinuePartial), BOOL("FlushQueue", GetFlushQueue), BOOL("DupeCheck", GetDupeCheck),
		BOOL("ParRepair", GetParRepair), BOOL("ParQuick", GetParQuick), BOOL("ParRename", GetParRename), BOOL("RarRename", GetRarRename), BOOL("CursesNzbName", GetCursesNzbName), BOOL("CursesTime", GetCursesTime),
		BOOL("CursesGroup", GetCursesGroup), BOOL("CrcCheck", GetCrcCheck), BOOL("CrashTrace", GetCrashTrace), BOOL("CrashDump", GetCrashDump), BOOL("ParPauseQueue", GetParPauseQueue),
		BOOL("ScriptPauseQueue", GetScriptPauseQueue), BOOL("NzbCleanupDisk", GetNzbCleanupDisk), BOOL("FormAuth", GetFormAuth), BOOL("SecureControl", GetSecureControl), BOOL("Unpack", GetUnpack),
		BOOL("DirectUnpack", GetDirectUnpack), BOOL("UnpackCleanupDisk", GetUnpackCleanupDisk), BOOL("UnpackPauseQueue", GetUnpackPauseQueue), BOOL("UrlForce", GetUrlForce), BOOL("ReorderFiles", GetReorderFiles),
		BOOL("RawArticle", GetRawArticle), BOOL("SkipWrite", GetSkipWrite), BOOL("DirectWrite", GetDirectWrite), BOOL("DirectRename", GetDirectRename), BOOL("CertCheck", GetCertCheck),
		INT("DownloadRate", GetDownloadRate, iKilo), INT("ArticleTimeout", GetArticleTimeout, 0), INT("UrlTimeout", GetUrlTimeout, 0), INT("RemoteTimeout", GetRemoteTimeout, 0), INT("ArticleRetries", GetArticleRetries, 0),
		INT("ArticleInterval", GetArticleInterval, 0), INT("UrlRetries", GetUrlRetries, 0), INT("UrlInterval", GetUrlInterval, 0), INT("ControlPort", GetControlPort, 0), INT("SecurePort", GetSecurePort, 0),
		INT("UrlConnections", GetUrlConnections, 0), INT("LogBuffer", GetLogBuffer, 0), INT("RotateLog", GetRotateLog, 0), INT("UMask", GetUMask, iOct), INT("UpdateInterval", GetUpdateInterval, 0),
		INT("WriteBuffer", GetWriteBuffer, 0), INT("NzbDirInterval", GetNzbDirInterval, 0), INT("NzbDirFileAge", GetNzbDirFileAge, 0), INT("DiskSpace", GetDiskSpace, 0), INT("ParTimeLimit", GetParTimeLimit, 0),
		INT("KeepHistory", GetKeepHistory, 0), INT("FeedHistory", GetFeedHistory, 0), INT("TimeCorrection", GetTimeCorrection, iCorr), INT("PropagationDelay", GetPropagationDelay, iMinutes),
		INT("ArticleCache", GetArticleCache, iCache), INT("EventInterval", GetEventInterval, 0), INT("ParBuffer", GetParBuffer, 0), INT("ParThreads", GetParThreads, 0), INT("MonthlyQuota", GetMonthlyQuota, 0),
		INT("QuotaStartDay", GetQuotaStartDay, 0), INT("DailyQuota", GetDailyQuota, 0),
		{"ParCheck", kEnum, [](Options& o) { switch (o.GetParCheck()) { case Options::pcAuto: return "auto"; case Options::pcAlways: return "always"; case Options::pcForce: return "force"; default: return "manual"; } }, {{"auto"}, {"always"}, {"force"}, {"manual"}}, 0},
		{"ParScan", kEnum, [](Options& o) { switch (o.GetParScan()) { case Options::psLimited: return "limited"; case Options::psExtended: return "extended"; case Options::psFull: return "full"; default: return "dupe"; } }, {{"limited"}, {"extended"}, {"full"}, {"dupe"}}, 0},
		{"PostStrategy", kEnum, [](Options& o) { switch (o.GetPostStrategy()) { case Options::ppSequential: return "sequential"; case Options::ppBalanced: return "balanced"; case Options::ppAggressive: return "aggressive"; default: return "rocket"; } }, {{"sequential"}, {"balanced"}, {"aggressive"}, {"rocket"}}, 0},
		{"FileNaming", kEnum, [](Options& o) { switch (o.GetFileNaming()) { case Options::nfAuto: return "auto"; case Options::nfArticle: return "article"; default: return "nzb"; } }, {{"auto"}, {"article"}, {"nzb"}}, 0},
		{"HealthCheck", kEnum, [](Options& o) { switch (o.GetHealthCheck()) { case Options::hcPause: return "pause"; case Options::hcDelete: return "delete"; case Options::hcPark: return "park"; default: return "none"; } }, {{"pause"}, {"delete"}, {"park"}, {"none"}}, 0},
		{"OutputMode", kEnum, [](Options& o) { switch (o.GetOutputMode()) { case Options::omLoggable: return "loggable"; case Options::omColored: return "colored"; default: return "ncurses"; } }, {{"loggable", "logable", "log"}, {"colored", "color"}, {"ncurses", "curses"}}, 0},
		{"WriteLog", kEnum, [](Options& o) { switch (o.GetWriteLog()) { case Options::wlNone: return "none"; case Options::wlAppend: return "append"; case Options::wlReset: return "reset"; default: return "rotate"; } }, {{"none"}, {"append"}, {"reset"}, {"rotate"}}, 0},
		TARGET("InfoTarget", GetInfoTarget), TARGET("WarningTarget", GetWarningTarget), TARGET("ErrorTarget", GetErrorTarget), TARGET("DebugTarget", GetDebugTarget), TARGET("DetailTarget", GetDetailTarget),
		DIR_("DestDir", GetDestDir, 1), DIR_("InterDir", GetInterDir, 1), DIR_("TempDir", GetTempDir, 1), DIR_("QueueDir", GetQueueDir, 1), DIR_("NzbDir", GetNzbDir, 1), DIR_("ScriptDir", GetScriptDir, 1), DIR_("WebDir", GetWebDir, 0),
	};
}

struct Ext : public Options::Extender
{
	vector<string> servers, feeds;
	static string t(const char* s) { return s ? s : ""; }
	void AddNewsServer(int id, bool active, const char* name, const char* host, int port, int ipv, const char* user, const char* pass, bool join, bool tls, const char* cipher, int conn, int ret, int level, int group, bool optional) override
	{
		servers.push_back(pbt::fmt("%d|%d|%s|%s|%d|%d|%s|%s|%d|%d|%s|%d|%d|%d|%d|%d", id, active, t(name).c_str(), t(host).c_str(), port, ipv, t(user).c_str(), t(pass).c_str(), join, tls, t(cipher).c_str(), conn, ret, level, group, optional));
	}
	void AddFeed(int id, const char* name, const char* url, int interval, const char* filter, bool backlog, bool pause, const char* cat, int prio, const char* ext) override
	{
		feeds.push_back(pbt::fmt("%d|%s|%s|%d|%s|%d|%d|%s|%d|%s", id, t(name).c_str(), t(url).c_str(), interval, t(filter).c_str(), backlog, pause, t(cat).c_str(), prio, t(ext).c_str()));
	}
};

static void write(const string& path, const string& text) { std::ofstream f(path, std::ios::binary | std::ios::trunc); f << text; }
static string read(const string& path) { std::ifstream f(path, std::ios::binary); std::stringstream b; b << f.rdbuf(); return b.str(); }
static void clearOut() { fflush(stdout); if (ftruncate(fileno(stdout), 0)) {} lseek(fileno(stdout), 0, SEEK_SET); }

void pbt_setup()
{
	char cwd[900]; if (!getcwd(cwd, sizeof cwd)) abort(); g_dir = cwd;
	mkdir((g_dir + "/home").c_str(), 0700); setenv("HOME", (g_dir + "/home").c_str(), 1);
	new World({"InfoTarget=none", "WarningTarget=none", "ErrorTarget=none", "DetailTarget=none"}); g_base = g_Options; defs();
	if (!freopen((g_dir + "/out").c_str(), "w+", stdout)) abort();
	write(g_dir + "/empty.conf", "# nothing\n");
	Options o((g_dir + "/bin/nzbget").c_str(), (g_dir + "/empty.conf").c_str(), false, nullptr, nullptr);
	for (Options::OptEntry& e : *o.GuardOptEntries()) { g_defaults[low(e.GetName())] = e.GetValue() ? e.GetValue() : ""; g_names[low(e.GetName())] = e.GetName(); }
	g_defaults["outputmode"] = "curses"; // as before the name of the value is unified
	g_Options = g_base;
}

// ---- generation ----
static string cased(pbt::Src& s, const string& n)
{
	switch (s.weighted({6, 1, 1, 1}))
	{
		case 0: return n;
		case 1: return low(n);
		case 2: { string r = n; for (char& c : r) c = (char)toupper((unsigned char)c); return r; }
		default: { string r = n; for (char& c : r) if (s.b(300)) c = (char)(isupper((unsigned char)c) ? tolower(c) : toupper(c)); return r; }
	}
}
static const vector<string> EXTRA = {"notify.py:Send To", "a/b.sh:x", "Very long extension name to have more than one hundred characters in the name of the option.py:TheOption", "Ünï.py:Ö"};
static string refName(pbt::Src& s)
{
	switch (s.weighted({5, 3, 3, 1, 1}))
	{
		case 0: return cased(s, s.pick({"ControlUsername", "ControlPassword", "LogFile", "UnrarCmd", "Extensions"}));
		case 1: return cased(s, s.pick({"MainDir", "DestDir", "AppDir", "AppBin", "ConfigFile", "Version"}));
		case 2: return cased(s, s.choice(EXTRA));
		case 3: return s.pick({"Unknown", "", " ", "MainDir ", "Server9.Host"});
		default: return cased(s, s.choice(g_defs).name);
	}
}
static string text(pbt::Src& s)
{
	string v;
	if (s.b(80)) v += s.pick({"~/", "~", "/"});
	s.repeat(0, 5, 600, [&]
	{
		switch (s.weighted({6, 3, 3, 2, 1}))
		{
			case 0: v += s.pick({"a", "bc", "Name", "x y", "/p/q", "123"}); break;
			case 1: v += "${" + refName(s) + "}"; break;
			case 2: v += s.pick({"=", "#", ";", ",", "\"", "'", "\\", "$", "{", "}", "%s", "%n", "  ", "\t", "<>", "&"}); break;
			case 3: v += s.pick({"ä", "日本", "\xff\xfe", "\x01", "Ω"}); break;
			default: v += s.pick({"${", "${}", "$}", "${MainDir", "$${", "${${"}); break;
		}
	});
	while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) v.pop_back();
	return v;
}
static string number(pbt::Src& s, int kind)
{
	switch (s.weighted({5, 2, 1}))
	{
		case 0: return pbt::fmt("%lld", (long long)(kind == iOct ? s.n(7) * 10 + s.n(7) : s.n(500)));
		case 1: return s.pick({"0", "1", "-1", "7", "24", "25", "-24", "-25", "1000000"});
		default: return s.pick({"x", "1x", "10k", "0x10", "1,5", "1.5", "--1", "99999999999", "-99999999999", "9223372036854775808", "${Unknown}", "ten"});
	}
}

// ---- the model ----
struct Item { string name, value; };
struct Model
{
	map<string, string> v; vector<string> errors; string home, dir;
	map<string, bool> known; // options having a default
	bool has(const string& n) { return v.count(low(n)); }
	string expand(const string& in)
	{
		string s = in;
		if (s.compare(0, 2, "~/") == 0) s = home + "/" + s.substr(2);
		string out; size_t p = 0;
		for (;;)
		{
			size_t d = s.find("${", p); if (d == string::npos) break;
			size_t e = s.find('}', d); if (e == string::npos) break;
			string n = s.substr(d + 2, e - d - 2);
			if (!n.empty() && has(n)) { out += s.substr(p, d - p) + v[low(n)]; p = e + 1; }
			else { out += s.substr(p, d + 2 - p); p = d + 2; }
		}
		return out + s.substr(p);
	}
	void old(string& n, string& val)
	{
		static const map<string, string> ren = {{"$maindir", "MainDir"}, {"serverip", "ControlIP"}, {"serverport", "ControlPort"}, {"serverpassword", "ControlPassword"}, {"postpausequeue", "ScriptPauseQueue"}, {"defscript", "Extensions"},
			{"postscript", "Extensions"}, {"connectiontimeout", "ArticleTimeout"}, {"retries", "ArticleRetries"}, {"retryinterval", "ArticleInterval"}, {"dumpcore", "CrashDump"}, {"logbuffersize", "LogBuffer"}};
		string l = low(n), w = low(val);
		auto it = ren.find(l); if (it != ren.end()) n = it->second;
		if (l == "parcheck" && w == "yes") val = "always"; if (l == "parcheck" && w == "no") val = "auto";
		if (l == "parscan" && w == "auto") val = "extended";
		if (l == "decode") { n = "RawArticle"; val = w == "no" ? "yes" : "no"; }
	}
	bool valid(const string& n)
	{
		string l = low(n);
		if (l == "configfile" || l == "appbin" || l == "appdir" || l == "version") return false;
		if (has(n)) return true;
		static const map<string, std::set<string>> multi = {{"server", {"active", "name", "level", "host", "port", "username", "password", "joingroup", "encryption", "connections", "cipher", "group", "retention", "optional", "notes", "ipversion"}},
			{"category", {"name", "destdir", "extensions", "unpack", "aliases"}}, {"feed", {"name", "url", "interval", "filter", "backlog", "pausenzb", "category", "priority", "extensions"}}, {"task", {"time", "weekdays", "command", "param", "downloadrate", "process"}}};
		for (auto& m : multi)
		{
			if (l.compare(0, m.first.size(), m.first)) continue;
			size_t p = m.first.size(); while (p < l.size() && isdigit((unsigned char)l[p])) p++;
			if (p < l.size() && l[p] == '.' && m.second.count(l.substr(p + 1))) return true;
		}
		return l.find(':') != string::npos;
	}
	void set(const string& line)
	{
		size_t e = line.find('=');
		if (e == string::npos || e == 0) { errors.push_back("Invalid option \"" + line + "\""); return; }
		string n = line.substr(0, e), val = line.substr(e + 1); old(n, val);
		if (!valid(n)) { errors.push_back("Invalid option \"" + n + "\""); return; }
		string x = expand(val);
		v[low(n)] = x;
	}
	string text(const string& n) { auto it = v.find(low(n)); return it == v.end() ? "" : it->second; }
	bool flag(const string& n, bool def)
	{
		if (!has(n)) return def;
		string w = low(text(n)); bool yes = w == "yes" || w == "on" || w == "true" || w == "1" || w == "enable" || w == "enabled";
		v[low(n)] = yes ? "yes" : "no"; return yes;
	}
};

static string line(pbt::Src& s, vector<string>& feats)
{
	string name, value;
	switch (s.weighted({20, 3, 4, 4, 3, 2, 2, 1}))
	{
		case 0:
		{
			const Def& d = s.choice(g_defs); name = d.name;
			switch (d.type)
			{
				case kText: value = text(s); break;
				case kInt: value = number(s, d.dirParent); break;
				case kDir: value = s.pick({"sub", "a/b/", "./c", "${MainDir}/d", "${destdir}/in", "~/h", "x y", "${Unknown}/e", "deep/${ControlUsername}z"}); if (string(d.name) == "InterDir" || string(d.name) == "WebDir") if (s.b(200)) value = ""; break;
				default:
				{
					const vector<string>& g = s.choice(d.names); value = cased(s, s.choice(g));
					if (s.b(120)) value = s.pick({"maybe", "", "ye", "yess", "autoo", "${Unknown}", "yes,no", "2"});
				}
			}
			break;
		}
		case 1: name = s.choice(EXTRA); value = text(s); break;
		case 2:
		{
			name = pbt::fmt("Server%d.", (int)s.range(1, 3));
			switch (s.n(8))
			{
				case 0: name += "Host"; value = s.pick({"news.example.com", "::1", "${ControlIP}", ""}); break;
				case 1: name += "Port"; value = s.pick({"119", "563", "0"}); break;
				case 2: name += "Connections"; value = s.pick({"1", "20", "0"}); break;
				case 3: name += s.pick({"Username", "Password", "Name", "Cipher"}); value = text(s); break;
				case 4: name += s.pick({"Active", "Encryption", "JoinGroup", "Optional"}); value = s.pick({"yes", "no", "YES", "off"}); break;
				case 5: name += s.pick({"Level", "Group", "Retention"}); value = s.pick({"0", "1", "99", "3000"}); break;
				case 6: name += "IpVersion"; value = s.pick({"auto", "ipv4", "IPv6"}); break;
				default: name += "Notes"; value = text(s);
			}
			break;
		}
		case 3:
			name = pbt::fmt("Category%d.", (int)s.range(1, 3));
			switch (s.n(4))
			{
				case 0: case 1: name += "Name"; value = s.pick({"Movies", "TV", "Série ${Unknown}", "a=b", "My Cat", ""}); break;
				case 2: name += s.pick({"Unpack"}); value = s.pick({"yes", "No"}); break;
				case 3: name += "DestDir"; value = s.pick({"", "cat", "${MainDir}/c/", "~/c"}); break;
				default: name += s.pick({"Extensions", "Aliases"}); value = s.pick({"", "a, b", "TV HD;tv*", "x.py"}); break;
			}
			break;
		case 4:
			name = pbt::fmt("Feed%d.", (int)s.range(1, 2));
			switch (s.n(4))
			{
				case 0: case 1: name += "URL"; value = s.pick({"http://a/b?x=1&y=2", "https://h/${ControlPassword}#f", ""}); break;
				case 2: name += s.pick({"Name", "Filter", "Category", "Extensions"}); value = text(s); break;
				case 3: name += s.pick({"Backlog", "PauseNzb"}); value = s.pick({"yes", "NO"}); break;
				default: name += s.pick({"Interval", "Priority"}); value = s.pick({"0", "15", "-50"}); break;
			}
			break;
		case 5:
			switch (s.n(5))
			{
				case 0: name = s.pick({"$MAINDIR"}); value = "${MainDir}"; break;
				case 1: name = s.pick({"ServerIP", "ServerPassword", "DefScript", "PostScript"}); value = text(s); break;
				case 2: name = s.pick({"ServerPort", "ConnectionTimeout", "Retries", "RetryInterval", "LogBufferSize"}); value = number(s, 0); break;
				case 3: name = s.pick({"PostPauseQueue", "DumpCore", "Decode"}); value = s.pick({"yes", "no"}); break;
				case 4: name = "ParCheck"; value = s.pick({"yes", "no"}); break;
				default: name = "ParScan"; value = "auto";
			}
			break;
		case 6:
			feats.push_back("invalid-line");
			switch (s.n(5))
			{
				case 0: return s.pick({"noequals", "=value", "==", " =x", "[section]"});
				case 1: name = s.pick({"Unknown", "DestDir ", " DestDir", "Server1.Foo", "Serverx.Host", "Category1Name", "Feed.1.URL", "Task1.", "Server1", "Main Dir"}); value = "1"; break;
				default: name = cased(s, s.pick({"ConfigFile", "AppBin", "AppDir", "Version"})); value = "/tmp/evil"; break;
			}
			break;
		default: return s.pick({"#DestDir=/x", "# comment", "", "   ", "### x = y", "#"});
	}
	if (value.find("${") != string::npos) feats.push_back("reference");
	return cased(s, name) + "=" + value;
}

static string show(const string& a) { return a.size() > 300 ? a.substr(0, 300) + "..." : a; }

void pbt_case(pbt::Src& s, pbt::Info& info)
{
	string conf = g_dir + "/nzbget.conf", main = g_dir + "/m";
	vector<string> lines, cmd, feats; bool maindir = s.b(800);
	if (maindir) lines.push_back("MainDir=" + main);
	s.repeat(0, 25, 850, [&] { lines.push_back(line(s, feats)); });
	s.repeat(0, 4, 400, [&] { string l = line(s, feats); if (!l.empty()) cmd.push_back(l); });
	bool crlf = s.b(200), lastEol = s.b(700);
	string file; for (size_t i = 0; i < lines.size(); i++) { file += lines[i]; if (i + 1 < lines.size() || lastEol) file += crlf ? "\r\n" : "\n"; }
	write(conf, file);

	// the model
	Model m; m.v = g_defaults; m.home = g_dir + "/home"; m.v["configfile"] = conf;
	for (string& l : lines) if (!l.empty() && l[0] != '#' && l.find_first_not_of(' ') != string::npos) m.set(l);
	for (string& l : cmd) m.set(l);
	map<string, string> want; // name -> what the getter must return
	string md = m.text("maindir");
	for (const Def& d : g_defs) if (d.type == kDir)
	{
		string val = m.text(d.name), r = val;
		if (r.size() && r.back() == '/') r.pop_back();
		if (r.empty()) { if (string(d.name) != "InterDir" && string(d.name) != "WebDir" && string(d.name) != "ScriptDir") m.errors.push_back(string("\"") + d.name + "\""); }
		else if (d.dirParent && r[0] != '/' && !md.empty() && r.find("${") == string::npos) { r = md + "/" + r; m.v[low(d.name)] = r; }
		else if (d.dirParent && r[0] != '/') { r = md + "/" + r; m.v[low(d.name)] = m.expand(r); }
		want[d.name] = r;
	}
	for (const Def& d : g_defs)
	{
		string val = m.text(d.name);
		switch (d.type)
		{
			case kText: want[d.name] = val; break;
			case kInt:
			{
				char* e; errno = 0; long x = strtol(val.c_str(), &e, d.dirParent == iOct ? 8 : 10);
				if (*e || errno || x != (int)x) { m.errors.push_back(string("Invalid value for option \"") + d.name + "\": \"" + val + "\""); m.v[low(d.name)] = val = g_defaults[low(d.name)]; x = strtol(val.c_str(), &e, d.dirParent == iOct ? 8 : 10); }
				switch (d.dirParent)
				{
					case iKilo: x *= 1024; break;
					case iMinutes: x *= 60; break;
					case iCorr: if (x >= -24 && x <= 24) x *= 60; x *= 60; break;
					case iCache: if (x < 0) x = 0; break;
				}
				want[d.name] = pbt::fmt("%ld", x);
				break;
			}
			case kBool: case kEnum:
			{
				const string* r = nullptr;
				for (int k = 0; k < 2 && !r; k++)
				{
					if (k) { m.errors.push_back(string("Invalid value for option \"") + d.name + "\": \"" + val + "\""); val = g_defaults[low(d.name)]; }
					for (auto& g : d.names) for (auto& n : g) if (low(val) == n) r = &g[0];
				}
				m.v[low(d.name)] = want[d.name] = *r;
				break;
			}
			default: break;
		}
	}
	if (want["CertCheck"] == "yes" && m.text("certstore").empty()) { want["CertCheck"] = "no"; m.errors.push_back("\"CertCheck\" requires"); }
	if (want["RawArticle"] == "yes") want["DirectWrite"] = "no";
	if (want["SkipWrite"] == "yes") want["DirectRename"] = "no";
	vector<string> servers, feeds, cats;
	for (int n = 1; ; n++)
	{
		string p = pbt::fmt("Server%d.", n); bool any = false;
		for (const char* x : {"Active", "Name", "Level", "Group", "Host", "Port", "Optional", "Username", "Password", "Connections", "JoinGroup", "Encryption", "Cipher", "Retention"}) any |= m.has(p + x);
		string ip = low(m.text(p + "IpVersion")); int ipv = ip == "ipv4" ? 4 : ip == "ipv6" ? 6 : 0; if (m.has(p + "IpVersion")) m.v[low(p + "IpVersion")] = ip;
		if (!any) break;
		bool act = m.flag(p + "Active", true), join = m.flag(p + "JoinGroup", false), opt = m.flag(p + "Optional", false), tls = m.flag(p + "Encryption", false);
		auto num = [&](const char* x) { return atoi(m.text(p + x).c_str()); };
		if (m.has(p + "Host") && m.has(p + "Port") && m.has(p + "Connections"))
			servers.push_back(pbt::fmt("%d|%d|%s|%s|%d|%d|%s|%s|%d|%d|%s|%d|%d|%d|%d|%d", n, act, m.text(p + "Name").c_str(), m.text(p + "Host").c_str(), num("Port"), ipv, m.text(p + "Username").c_str(), m.text(p + "Password").c_str(),
				join, tls, m.text(p + "Cipher").c_str(), num("Connections"), num("Retention"), num("Level"), num("Group"), opt));
		else m.errors.push_back(pbt::fmt("\"Server%d\"", n));
	}
	for (int n = 1; ; n++)
	{
		string p = pbt::fmt("Category%d.", n); bool any = false;
		for (const char* x : {"Name", "DestDir", "Unpack", "Extensions", "Aliases"}) any |= m.has(p + x);
		if (!any) break;
		bool unpack = m.flag(p + "Unpack", true);
		if (m.text(p + "Name").empty()) { m.errors.push_back(pbt::fmt("\"Category%d\"", n)); continue; }
		string dd = m.text(p + "DestDir"), r = dd;
		if (!r.empty()) { if (r.back() == '/') r.pop_back(); if (r[0] != '/') { r = want["DestDir"] + "/" + r; m.v[low(p + "DestDir")] = m.expand(r); } }
		cats.push_back(pbt::fmt("%s|%s|%d|%s", m.text(p + "Name").c_str(), r.c_str(), unpack, m.text(p + "Extensions").c_str()));
	}
	for (int n = 1; ; n++)
	{
		string p = pbt::fmt("Feed%d.", n); bool any = false;
		for (const char* x : {"Name", "URL", "Filter", "Category", "Backlog", "PauseNzb", "Interval", "Priority", "Extensions"}) any |= m.has(p + x);
		if (!any) break;
		bool back = m.flag(p + "Backlog", true), pause = m.flag(p + "PauseNzb", false);
		if (m.has(p + "URL"))
			feeds.push_back(pbt::fmt("%d|%s|%s|%d|%s|%d|%d|%s|%d|%s", n, m.text(p + "Name").c_str(), m.text(p + "URL").c_str(), atoi(m.text(p + "Interval").c_str()), m.text(p + "Filter").c_str(), back, pause, m.text(p + "Category").c_str(),
				atoi(m.text(p + "Priority").c_str()), m.text(p + "Extensions").c_str()));
		else m.errors.push_back(pbt::fmt("\"Feed%d\"", n));
	}

	// the real thing
	clearOut();
	Options::CmdOptList list; for (string& l : cmd) list.push_back(l.c_str());
	Ext ext;
	struct Restore { ~Restore() { g_Options = g_base; } } restore;
	string bin = g_dir + "/bin/nzbget";
	struct Own { Options* o; ~Own() { delete o; g_Options = g_base; } } own{new Options(bin.c_str(), conf.c_str(), false, &list, &ext)};
	Options& o = *own.o;
	fflush(stdout); string out = read(g_dir + "/out");
	info.sample = (show(file) + (cmd.empty() ? "" : " / command line: " + [&] { string r; for (auto& c : cmd) r += c + " "; return r; }()));
	for (auto& f : feats) info.label(f);
	if (!m.errors.empty()) info.label("errors"); if (!cmd.empty()) info.label("command-line"); if (!servers.empty()) info.label("server"); if (!cats.empty()) info.label("category"); if (!feeds.empty()) info.label("feed");
	info.nontrivial = lines.size() + cmd.size() >= 4; info.steps = (int)(lines.size() + cmd.size());
	auto ctx = [&] { return pbt::fmt("\n--- file ---\n%s\n--- command line ---\n", file.c_str()) + [&] { string r; for (auto& c : cmd) r += c + "\n"; return r; }(); };

	PBT_CHECK(!o.GetFatalError(), "fatal error when loading%s", ctx().c_str());
	for (const Def& d : g_defs)
	{
		string got = d.get(o);
		PBT_CHECK(got == want[d.name], "option %s is in effect as \"%s\", expected \"%s\"%s", d.name, got.c_str(), want[d.name].c_str(), ctx().c_str());
	}
	auto entries = [&] { map<string, string> e; for (Options::OptEntry& x : *o.GuardOptEntries()) { string n = low(x.GetName()); PBT_CHECK(!e.count(n), "option %s is reported twice%s", x.GetName(), ctx().c_str()); e[n] = x.GetValue() ? x.GetValue() : ""; } return e; };
	map<string, string> e = entries(), raw = e;
	for (auto& x : m.v)
	{
		PBT_CHECK(e.count(x.first), "option %s is not reported%s", x.first.c_str(), ctx().c_str());
		for (const Def& d : g_defs) if (low(d.name) == x.first) for (auto& g : d.names) for (auto& n : g) if (low(e[x.first]) == n) e[x.first] = g[0]; // another name of the same value
		PBT_CHECK(e[x.first] == x.second, "option %s is reported as \"%s\", expected \"%s\"%s", x.first.c_str(), e[x.first].c_str(), x.second.c_str(), ctx().c_str());
	}
	for (auto& x : e) PBT_CHECK(m.v.count(x.first), "option %s is reported but was not set%s", x.first.c_str(), ctx().c_str());
	auto join = [](const vector<string>& v) { string r; for (auto& x : v) r += "  " + x + "\n"; return r; };
	PBT_CHECK(join(ext.servers) == join(servers), "servers in effect:\n%sexpected:\n%s%s", join(ext.servers).c_str(), join(servers).c_str(), ctx().c_str());
	PBT_CHECK(join(ext.feeds) == join(feeds), "feeds in effect:\n%sexpected:\n%s%s", join(ext.feeds).c_str(), join(feeds).c_str(), ctx().c_str());
	vector<string> gotCats; for (Options::Category& c : *o.GetCategories()) gotCats.push_back(pbt::fmt("%s|%s|%d|%s", c.GetName(), c.GetDestDir() ? c.GetDestDir() : "", c.GetUnpack(), c.GetExtensions() ? c.GetExtensions() : ""));
	PBT_CHECK(join(gotCats) == join(cats), "categories in effect:\n%sexpected:\n%s%s", join(gotCats).c_str(), join(cats).c_str(), ctx().c_str());
	PBT_CHECK(o.GetConfigErrors() == !m.errors.empty(), "errors %s, expected %d: %s%s", o.GetConfigErrors() ? "reported" : "not reported", (int)m.errors.size(), m.errors.empty() ? out.c_str() : m.errors[0].c_str(), ctx().c_str());
	for (auto& x : m.errors) PBT_CHECK(x.size() > 700 || out.find(x) != string::npos, "not reported: %s, reported: %s%s", x.c_str(), out.c_str(), ctx().c_str());

	// saving and loading back
	vector<Item> save; std::set<string> used;
	s.repeat(1, 12, 800, [&]
	{
		Item it; 
		if (s.b(700)) { string l = line(s, feats); size_t q = l.find('='); if (q == string::npos || q == 0 || l[0] == '#') return; it.name = l.substr(0, q); it.value = l.substr(q + 1); }
		else { it.name = s.choice(EXTRA); it.value = text(s); }
		string a = it.name, b = it.value; m.old(a, b); if (a != it.name || b != it.value) return; // old names are converted
		if (low(it.name) == "maindir") it.value = main;
		if (!used.insert(low(it.name)).second || it.name[0] == ' ') return;
		save.push_back(it);
	});
	if (save.empty()) return;
	info.label("saved");
	map<string, string> wantSave; Options::OptEntries se; string list2;
	for (Item& it : save) { se.emplace_back(it.name.c_str(), it.value.c_str()); wantSave[it.name] = it.value; list2 += it.name + "=" + it.value + "\n"; }
	PBT_CHECK(g_ScriptConfig->SaveConfig(&se), "saving failed%s", ctx().c_str());
	Options::OptEntries le;
	PBT_CHECK(g_ScriptConfig->LoadConfig(&le), "loading of the saved configuration failed%s", ctx().c_str());
	map<string, string> got; for (Options::OptEntry& x : le) { string v = x.GetValue() ? x.GetValue() : ""; PBT_CHECK(!got.count(x.GetName()) || got[x.GetName()] == v, "%s loaded twice with different values", x.GetName()); got[x.GetName()] = v; }
	string saved = read(conf);
	string sctx = "\n--- saved options ---\n" + list2 + "--- file afterwards ---\n" + saved + ctx();
	for (auto& x : wantSave)
	{
		PBT_CHECK(got.count(x.first), "saved option %s is not there when loaded%s", x.first.c_str(), sctx.c_str());
		PBT_CHECK(got[x.first] == x.second, "saved option %s has \"%s\" when loaded, expected \"%s\"%s", x.first.c_str(), got[x.first].c_str(), x.second.c_str(), sctx.c_str());
	}
	for (auto& x : got) PBT_CHECK(wantSave.count(x.first), "option %s is there when loaded, but was not saved%s", x.first.c_str(), sctx.c_str());
	// comments stay
	size_t at = 0;
	for (string& l : lines) if (l.size() && l[0] == '#')
	{
		size_t p = saved.find(l, at);
		PBT_CHECK(p != string::npos, "comment \"%s\" lost when saving%s", l.c_str(), sctx.c_str());
		at = p + l.size();
	}
	PBT_CHECK(entries() == raw, "saving changed the options in effect%s", sctx.c_str());
	// and what the program makes of the saved file
	Own own2{new Options(bin.c_str(), conf.c_str(), false, nullptr, nullptr)};
	map<string, string> e2; for (Options::OptEntry& x : *own2.o->GuardOptEntries()) e2[low(x.GetName())] = x.GetValue() ? x.GetValue() : "";
	for (const Def& d : g_defs) if (d.type == kText) for (Item& it : save) if (low(it.name) == low(d.name) && it.value.find("${") == string::npos && it.value.compare(0, 2, "~/"))
		PBT_CHECK(e2[low(d.name)] == it.value, "saved option %s=%s is in effect as \"%s\" after the restart%s", it.name.c_str(), it.value.c_str(), e2[low(d.name)].c_str(), sctx.c_str());
}
