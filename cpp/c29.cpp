// C29: scheduled tasks run exactly when due.
#include "world.h"
#include "state.h"
#include "Scheduler.h"
#include "Observer.h"
#include <sys/stat.h>

static time_t g_now = 1500000000;
extern "C" time_t __wrap_time(time_t* t) { if (t) *t = g_now; return g_now; }

struct Sched : public Scheduler { void work() { ServiceWork(); } int interval() { return ServiceInterval(); } };
struct Ext : public Options::Extender
{
	Sched* s = nullptr;
	void AddNewsServer(int, bool, const char*, const char*, int, int, const char*, const char*, bool, bool, const char*, int, int, int, int, bool) override {}
	void AddTask(int id, int h, int m, int w, Options::ESchedulerCommand c, const char* p) override { s->AddTask(std::make_unique<Scheduler::Task>(id, h, m, w, (Scheduler::ECommand)c, p)); }
};
struct Rec : public Observer { vector<int> got; bool on = false; void Update(Subject*, void*) override { int v = g_WorkState->GetSpeedLimit(); if (on && v) { got.push_back(v / 1024); g_WorkState->SetSpeedLimit(0); } } };
extern char* (*g_EnvironmentVariables)[]; extern char** environ;
static Rec* g_rec; static Queue* g_q; static Options* g_base; static string g_out;
struct QL : public Queue { static void load() { Loaded(); } };
static const char* NAMES[] = {"one", "2nd", "three", "1x", "Two Words"};

void pbt_setup()
{
	new World({"InfoTarget=none", "WarningTarget=none", "ErrorTarget=none", "DetailTarget=none"});
	g_base = g_Options; g_rec = new Rec; g_WorkState->Attach(g_rec); g_q = new Queue; Queue::use(g_q); QL::load();
	for (int i = 0; i < 5; i++) g_ServerPool->AddServer(std::make_unique<NewsServer>(i + 1, true, NAMES[i], "127.0.0.1", 1, 0, "", "", false, false, "", 1, 0, 0, 0, false));
	g_EnvironmentVariables = (char* (*)[])environ;
	char cwd[900]; if (!getcwd(cwd, sizeof cwd)) abort(); g_out = string(cwd) + "/ran";
	freopen("/dev/null", "w", stdout);
}

enum Kind { kRate, kPause, kPost, kScan, kServer, kProcess };
struct At { int h, m; }; // h -1: every hour, -2: at start
struct T { int id; Kind kind; bool value; int rate; vector<int> servers; vector<At> at; int days; string text; };

static void gen(pbt::Src& s, T& t, vector<string>& opts, bool proc, const vector<int>& hot)
{
	string time;
	s.repeat(1, 4, 350, [&]
	{
		At a; a.m = s.b(700) ? hot[s.n(hot.size() - 1)] % 60 : (int)s.n(59); string one;
		switch (s.weighted({8, 2, 1}))
		{
			case 0: a.h = s.b(700) ? hot[s.n(hot.size() - 1)] / 60 : (int)s.n(23); one = pbt::fmt(s.b(800) ? "%02d:%02d" : "%d:%d", a.h, a.m); break;
			case 1: a.h = -1; one = pbt::fmt("*:%02d", a.m); break;
			default: a.h = -2; a.m = 0; one = "*"; break;
		}
		bool dup = false; for (At& x : t.at) dup |= x.m == a.m && (x.h == a.h || x.h == -1 || a.h == -1) && x.h != -2 && a.h != -2;
		if (dup) return; // the same time given twice
		t.at.push_back(a); if (!time.empty()) time += s.pick({",", ";", ", "}); time += one;
	});
	string days; t.days = 0;
	if (s.b(400))
		s.repeat(1, 3, 400, [&]
		{
			if (!days.empty()) days += s.pick({",", ", "});
			int a = (int)s.range(1, 7);
			if (a < 7 && s.b(400)) { int b = (int)s.range(a + 1, 7); days += pbt::fmt(s.b() ? "%d-%d" : "%d - %d", a, b); for (int i = a; i <= b; i++) t.days |= 1 << (i - 1); }
			else { days += pbt::fmt("%d", a); t.days |= 1 << (a - 1); }
		});
	string cmd, param;
	t.kind = proc && s.b(500) ? kProcess : (Kind)s.n(4); t.value = s.b(); t.rate = t.id;
	switch (t.kind)
	{
		case kRate: cmd = s.pick({"DownloadRate", "downloadrate", "SetDownloadRate"}); param = pbt::fmt("%d", t.rate); break;
		case kPause: cmd = t.value ? s.pick({"PauseDownload", "Pause"}) : s.pick({"UnpauseDownload", "ResumeDownload", "Unpause"}); break;
		case kPost: cmd = t.value ? s.pick({"PausePostProcess", "PausePost"}) : s.pick({"UnpausePostProcess", "ResumePostProcess"}); break;
		case kScan: cmd = t.value ? "PauseScan" : s.pick({"UnpauseScan", "ResumeScan"}); break;
		case kServer:
			cmd = t.value ? s.pick({"ActivateServer", "ActivateServers"}) : s.pick({"DeactivateServer", "deactivateserver"});
			s.repeat(1, 3, 400, [&] { int i = (int)s.n(4); t.servers.push_back(i); if (!param.empty()) param += s.pick({",", ", ", ";"}); param += s.b() ? pbt::fmt("%d", i + 1) : string(NAMES[i]); });
			break;
		default: cmd = s.pick({"Process", "process"}); param = pbt::fmt("/bin/sh -c 'echo %d >> %s'", t.id, g_out.c_str()); break;
	}
	string p = pbt::fmt("Task%d.", t.id);
	opts.push_back(p + "Time=" + time); if (!days.empty()) opts.push_back(p + "WeekDays=" + days); opts.push_back(p + "Command=" + cmd);
	if (!param.empty()) opts.push_back(p + (t.kind == kRate && s.b(200) ? "DownloadRate=" : t.kind == kProcess && s.b(200) ? "Process=" : "Param=") + param);
	t.text = pbt::fmt("Task%d %s [%s] %s %s; ", t.id, time.c_str(), days.c_str(), cmd.c_str(), param.c_str());
}

void pbt_case(pbt::Src& s, pbt::Info& info)
{
	bool proc = s.b(8); unlink(g_out.c_str());
	int off = (int)(s.range(-12, 14) * 3600 + s.num({0, 0, 1800, 900})); g_rec->on = false;
	g_WorkState->SetLocalTimeOffset(off);
	// some times of day, so that several tasks and the clock meet
	vector<int> hot; for (int i = 0; i < 3; i++) hot.push_back(s.b(300) ? (int)s.num({0, 1439, 1, 60, 720}) : (int)s.n(1439));
	g_now = 1500000000 + s.n(86400ll * 730);
	auto snap = [&](time_t t) { time_t d = (t + off) - ((t + off) % 86400); return d + hot[s.n(hot.size() - 1)] * 60 - off; };
	if (s.b()) g_now = snap(g_now) + s.num({-1, 0, 1, 59, -61});
	vector<T> tasks; vector<string> opts = {"OutputMode=log", "WriteLog=none", "InfoTarget=none", "WarningTarget=none", "ErrorTarget=none", "DetailTarget=none"}; string log = pbt::fmt("offset %d ", off);
	s.repeat(1, 8, 750, [&] { T t; t.id = (int)tasks.size() + 1; gen(s, t, opts, proc, hot); tasks.push_back(t); log += t.text; });
	Sched sched; Ext ext; ext.s = &sched; Options::CmdOptList list; for (auto& o : opts) list.push_back(o.c_str());
	{ Options o(&list, &ext); if (o.GetConfigErrors()) { g_Options = g_base; pbt::fail("valid tasks are refused: " + log); } }
	g_Options = g_base;
	g_WorkState->SetPauseDownload(false); g_WorkState->SetPausePostProcess(false); g_WorkState->SetPauseScan(false); g_WorkState->SetSpeedLimit(0); g_WorkState->SetResumeTime(0);
	for (NewsServer* n : g_ServerPool->GetServers()) n->SetActive(true);
	bool flag[3] = {false, false, false}, active[5] = {true, true, true, true, true}; 
	bool first = true; time_t last = 0, resume = 0; int ran = 0, procs = 0; std::map<int, int> want;
	int checks = (int)s.size(1, 12);
	for (int c = 0; c < checks; c++)
	{
		if (!first)
		{
			switch (s.weighted({10, 4, 2, 2, 2, 3}))
			{
				case 0: g_now += sched.interval(); break; // as the program does it
				case 1: g_now += s.range(1, 120); break;
				case 2: g_now += s.size(1, 5405, {5400, 3600}); break;
				case 3: g_now += s.size(5395, 86400 * 9, {86400, 86400 * 7, 5400}); break;
				case 4: g_now -= s.size(1, 86400 * 2, {3600, 86400}); break;
				default: { time_t t = snap(g_now); if (t <= g_now) t += 86400; g_now = t + s.num({-1, 0, 1, 30}); break; }
			}
			// summer time begins; in a repeated hour it is open whether tasks run again
			if (s.b(30)) { off += 3600; g_WorkState->SetLocalTimeOffset(off); log += pbt::fmt("offset %d ", off); }
			// the user changes something in the meantime
			if (s.b(150)) { flag[0] = s.b(); g_WorkState->SetPauseDownload(flag[0]); }
			if (s.b(100)) { flag[2] = s.b(); g_WorkState->SetPauseScan(flag[2]); }
			if (s.b(80)) { resume = g_now + s.range(-100, 4000); g_WorkState->SetResumeTime(resume); log += pbt::fmt("resume at %lld ", (long long)resume); }
		}
		log += pbt::fmt("check %lld ", (long long)g_now);
		g_rec->got.clear(); g_rec->on = true; sched.work(); g_rec->on = false;
		// the model
		bool step = first || g_now - last > 5400 || g_now < last;
		time_t from = (step ? g_now - 7 * 86400 : last) + off, to = g_now + off;
		struct Ev { time_t t; T* task; }; vector<Ev> ev, start;
		for (T& t : tasks)
			for (At& a : t.at)
			{
				if (a.h == -2) { if (first) start.push_back({0, &t}); continue; }
				for (time_t d = from / 86400; d <= to / 86400; d++)
				{
					if (t.days && !(t.days >> ((d + 3) % 7) & 1)) continue;
					for (int h = a.h == -1 ? 0 : a.h; h <= (a.h == -1 ? 23 : a.h); h++)
					{
						time_t x = d * 86400 + h * 3600 + a.m * 60;
						if (from < x && x <= to) ev.push_back({x, &t});
					}
				}
			}
		std::stable_sort(ev.begin(), ev.end(), [](const Ev& a, const Ev& b) { return a.t < b.t; });
		if (!step) ran += (int)ev.size();
		if (step) info.label(first ? "start" : "clock step"); if (!step && ev.size()) info.label("due"); if (!step && ev.size() > 1 && ev.front().t != ev.back().t) info.label("several due");
		// speeds: one observation for each run, in order of time; the order among tasks of the same minute is open, tasks of the start come at any time
		{
			vector<int> got = g_rec->got; string text; for (int v : got) text += pbt::fmt(" %d", v);
			string exp; for (auto& e : start) if (e.task->kind == kRate) exp += pbt::fmt(" (start %d)", e.task->rate); for (auto& e : ev) if (e.task->kind == kRate) exp += pbt::fmt(" %d", e.task->rate);
			std::multiset<int> open; for (auto& e : start) if (e.task->kind == kRate) open.insert(e.task->rate);
			size_t i = 0; bool bad = false; vector<Ev> re; for (auto& e : ev) if (e.task->kind == kRate) re.push_back(e);
			std::multiset<int> group; 
			auto refill = [&] { if (group.empty() && i < re.size()) { time_t t = re[i].t; while (i < re.size() && re[i].t == t) group.insert(re[i++].task->rate); } };
			for (int v : got)
			{
				refill();
				if (group.count(v)) group.erase(group.find(v));
				else if (open.count(v)) open.erase(open.find(v));
				else { bad = true; break; }
			}
			if (bad || !group.empty() || i < re.size() || !open.empty()) pbt::fail(pbt::fmt("%s: speeds set are%s, expected%s", log.c_str(), text.c_str(), exp.c_str()));
		}
		// states: the last one counts
		auto last_ = [&](const std::function<bool(T&)>& is, bool now)
		{
			std::set<bool> ok; bool any = false;
			for (auto& e : ev) if (is(*e.task)) { if (!any || true) { time_t t = e.t; bool later = false; for (auto& f : ev) if (is(*f.task) && f.t > t) later = true; if (!later) ok.insert(e.task->value); any = true; } }
			if (!any) ok.insert(now);
			for (auto& e : start) if (is(*e.task)) { ok.insert(e.task->value); }
			if (!any && !start.empty()) { bool st = false; for (auto& e : start) st |= is(*e.task); if (st) ok.erase(now), ok.insert(start.back().task->value); for (auto& e : start) if (is(*e.task)) ok.insert(e.task->value); }
			return ok;
		};
		bool resumed = resume && g_now >= resume && !first; if (resumed) resume = 0;
		for (int k = 0; k < 3; k++)
		{
			bool got = k == 0 ? g_WorkState->GetPauseDownload() : k == 1 ? g_WorkState->GetPausePostProcess() : g_WorkState->GetPauseScan();
			auto ok = last_([&](T& t) { return t.kind == (Kind)(kPause + k); }, flag[k]); if (resumed) ok = {false};
			if (!ok.count(got)) pbt::fail(pbt::fmt("%s: %s is %s", log.c_str(), k == 0 ? "pause of download" : k == 1 ? "pause of post-processing" : "pause of scan", got ? "on" : "off"));
			flag[k] = got;
		}
		int idx = 0;
		for (NewsServer* n : g_ServerPool->GetServers())
		{
			auto ok = last_([&](T& t) { return t.kind == kServer && std::count(t.servers.begin(), t.servers.end(), idx); }, active[idx]);
			if (!ok.count(n->GetActive())) pbt::fail(pbt::fmt("%s: server %d (%s) is %s", log.c_str(), idx + 1, NAMES[idx], n->GetActive() ? "active" : "not active"));
			active[idx++] = n->GetActive();
		}
		// programs: not for times before the start or in a step of the clock
		if (proc)
		{
			for (auto& e : start) if (e.task->kind == kProcess) want[e.task->id]++, procs++;
			if (!step) for (auto& e : ev) if (e.task->kind == kProcess) want[e.task->id]++, procs++;
		}
		if (!first)
		{
			int iv = sched.interval();
			if (iv < 1 || iv > 60 || (g_now + iv) % 60) pbt::fail(pbt::fmt("%s: the next check is in %d seconds", log.c_str(), iv));
		}
		first = false; last = g_now;
	}
	if (proc)
	{
		std::map<int, int> got; int sum = 0, exp = 0; for (auto& w : want) exp += w.second;
		for (int i = 0; i < 400; i++)
		{
			got.clear(); sum = 0;
			if (FILE* f = fopen(g_out.c_str(), "r")) { int v; while (fscanf(f, "%d", &v) == 1) { got[v]++; sum++; } fclose(f); }
			if (!Thread::GetThreadCount() && (sum >= exp || i > 100)) break;
			usleep(5000);
		}
		if (got != want) { string a, b; for (auto& x : got) a += pbt::fmt(" Task%d x%d", x.first, x.second); for (auto& x : want) b += pbt::fmt(" Task%d x%d", x.first, x.second); pbt::fail(log + ": programs run are" + a + ", expected" + b); }
		if (procs) info.label("programs");
	}
	info.nontrivial = ran > 0; info.steps = checks; info.sample = log;
}
