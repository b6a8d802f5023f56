// C30: traffic volumes and quotas are counted exactly.
#include "world.h"
#include "state.h"
#include <sys/stat.h>

static time_t g_now = 1500000000;
extern "C" time_t __wrap_time(time_t* t) { if (t) *t = g_now; return g_now; }
static string g_dir; static Queue* g_q;

void pbt_setup()
{
	char cwd[900]; if (!getcwd(cwd, sizeof cwd)) abort(); g_dir = string(cwd) + "/queue"; mkdir(g_dir.c_str(), 0777);
	new World({"InfoTarget=none", "WarningTarget=none", "ErrorTarget=none", "DetailTarget=none"});
	g_q = new Queue; Queue::use(g_q);
	for (int i = 0; i < 3; i++) g_ServerPool->AddServer(std::make_unique<NewsServer>(i + 1, true, pbt::fmt("s%d", i).c_str(), "127.0.0.1", i + 1, 0, "", "", false, false, "", 1, 0, 0, 0, false));
}

struct Ev { int64 t; int64 bytes; int era; }; // local time, and how often the clock had been set back before
struct Vol { vector<Ev> ev; int64 custom = 0; time_t customTime = 0; };
struct Date { int y, m, d; };
static Date civil(int64 z) { z += 719468; int64 era = z / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; int d = (int)(doy - (153 * mp + 2) / 5 + 1), m = (int)(mp < 10 ? mp + 3 : mp - 9); return {(int)(yoe + era * 400 + (m <= 2)), m, d}; }
static int64 days(int y, int m, int d) { y -= m <= 2; int64 era = y / 400, yoe = y - era * 400, doy = (153 * (m > 2 ? m - 3 : m + 9) + 2) / 5 + d - 1; return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468; }
static int mdays(int y, int m) { return (int)(days(m == 12 ? y + 1 : y, m == 12 ? 1 : m + 1, 1) - days(y, m, 1)); }

void pbt_case(pbt::Src& s, pbt::Info& info)
{
	unlink((g_dir + "/stats").c_str());
	int zone = (int)(s.num({0, 3600, -18000, 19800, 46800, -39600, 20700})), corr = (int)s.num({0, 0, 0, 60, -120, 7}); // TimeCorrection is in minutes, up to 24 in hours
	string tz = pbt::fmt("XXX%s%d:%02d", zone > 0 ? "-" : "", abs(zone) / 3600, abs(zone) / 60 % 60); setenv("TZ", tz.c_str(), 1); tzset();
	int dq = s.b(700) ? (int)s.size(1, 3000) : 0, mq = s.b(700) ? (int)s.size(1, 20000) : 0, qday = s.b() ? (int)s.num({1, 28, 29, 30, 31}) : (int)s.range(1, 31);
	bool far = s.b(20); // a clock far off: nothing is said about the days then
	g_now = far ? s.num({1000, 86400, 2147483000, 4102444800, 1356990000}) + s.n(100000) : 1420070400 + s.n(86400ll * 365 * 10);
	vector<string> opts = {"OutputMode=log", "WriteLog=none", "InfoTarget=none", "WarningTarget=none", "ErrorTarget=none", "DetailTarget=none", "QueueDir=" + g_dir, pbt::fmt("DailyQuota=%d", dq), pbt::fmt("MonthlyQuota=%d", mq), pbt::fmt("QuotaStartDay=%d", qday), pbt::fmt("TimeCorrection=%d", corr)};
	Options::CmdOptList list; for (auto& o : opts) list.push_back(o.c_str());
	Options* base = g_Options; Options o(&list, nullptr); o.SetServerMode(true); g_Options = &o;
	struct Restore { Options* b; ~Restore() { g_Options = b; } } restore{base};
	g_WorkState->SetQuotaReached(false);
	int off = zone + (-24 <= corr && corr <= 24 ? corr * 3600 : corr * 60);
	auto st = std::make_unique<StatMeter>(); st->Init(); bool pm; st->Load(&pm);
	string log = pbt::fmt("zone %d correction %d daily %d monthly %d from day %d; at %lld; ", zone, corr, dq, mq, qday, (long long)g_now);
	if (g_WorkState->GetLocalTimeOffset() != off) pbt::fail(pbt::fmt("%s: the local time differs by %d, expected %d", log.c_str(), g_WorkState->GetLocalTimeOffset(), off));
	Vol v[4]; for (auto& x : v) x.customTime = g_now; int era = 0; int ops = 0; bool rolled = false, reached = false;
	int64 firstDay = 0;
	auto look = [&]
	{
		GuardedServerVolumes vols = st->GuardServerVolumes(); int64 now = g_now + off;
		if (vols->size() != 4) pbt::fail("number of volumes");
		for (int i = 0; i < 4; i++)
		{
			ServerVolume& g = vols->at(i); Vol& m = v[i]; int64 total = 0;
			for (Ev& e : m.ev) total += e.bytes;
			if (g.GetTotalBytes() != total) pbt::fail(pbt::fmt("%s: total of volume %d is %lld, counted %lld", log.c_str(), i, (long long)g.GetTotalBytes(), (long long)total));
			if (g.GetCustomBytes() != m.custom || g.GetCustomTime() != m.customTime) pbt::fail(pbt::fmt("%s: custom counter of volume %d is %lld since %lld, counted %lld since %lld", log.c_str(), i, (long long)g.GetCustomBytes(), (long long)g.GetCustomTime(), (long long)m.custom, (long long)m.customTime));
			if (now < 0) continue;
			auto window = [&](const char* name, std::vector<int64>* slots, int cur, int n, int64 unit)
			{
				if ((int)slots->size() != n) pbt::fail("size of the window");
				int want = (int)(now / unit % n);
				if (cur != want) pbt::fail(pbt::fmt("%s: volume %d: current %s slot is %d, expected %d", log.c_str(), i, name, cur, want));
				for (int k = 0; k < n; k++)
				{
					int64 t = now / unit - k, lo = 0, hi = 0; int slot = (want - k + n) % n;
					if (t < 0) continue;
					for (Ev& e : m.ev) if (e.t / unit == t) { hi += e.bytes; if (e.era == era) lo += e.bytes; }
					int64 got = (*slots)[slot];
					if (got < lo || got > hi) pbt::fail(pbt::fmt("%s: volume %d: %d %ss ago there were %lld bytes, counted %lld%s", log.c_str(), i, k, name, (long long)got, (long long)lo, hi > lo ? pbt::fmt(" to %lld", (long long)hi).c_str() : ""));
				}
			};
			window("second", g.BytesPerSeconds(), g.GetSecSlot(), 60, 1); window("minute", g.BytesPerMinutes(), g.GetMinSlot(), 60, 60); window("hour", g.BytesPerHours(), g.GetHourSlot(), 24, 3600);
			if (far) continue;
			std::map<int64, int64> d; for (Ev& e : m.ev) if (e.bytes) d[e.t / 86400] += e.bytes;
			std::map<int64, int64> got; for (size_t k = 0; k < g.BytesPerDays()->size(); k++) if (g.BytesPerDays()->at(k)) got[g.GetFirstDay() + (int)k] = g.BytesPerDays()->at(k);
			if (g.GetFirstDay() + g.GetDaySlot() != now / 86400) pbt::fail(pbt::fmt("%s: volume %d: slot of the day is %d from %d, today is %d", log.c_str(), i, g.GetDaySlot(), g.GetFirstDay(), (int)(now / 86400)));
			if (got != d)
			{
				string a, b; for (auto& x : got) a += pbt::fmt(" %d:%lld", (int)x.first, (long long)x.second); for (auto& x : d) b += pbt::fmt(" %d:%lld", (int)x.first, (long long)x.second);
				pbt::fail(pbt::fmt("%s: volume %d: days are%s, counted%s", log.c_str(), i, a.c_str(), b.c_str()));
			}
		}
	};
	auto quota = [&]
	{
		if (far) return;
		int64 today = (g_now + off) / 86400, day = 0, month = 0; Date c = civil(today);
		int64 from;
		if (c.d >= qday) from = days(c.y, c.m, qday);
		else { int y = c.m == 1 ? c.y - 1 : c.y, m = c.m == 1 ? 12 : c.m - 1; from = qday <= mdays(y, m) ? days(y, m, qday) : days(c.y, c.m, 1); }
		for (Ev& e : v[0].ev) { int64 d = e.t / 86400; if (d == today) day += e.bytes; if (from <= d && d <= today) month += e.bytes; }
		int64 gm, gd; st->CalcQuotaUsage(gm, gd);
		if (gd != day) pbt::fail(pbt::fmt("%s: volume of the day is %lld, counted %lld", log.c_str(), (long long)gd, (long long)day));
		if (gm != month) pbt::fail(pbt::fmt("%s: volume of the month is %lld, counted %lld since day %d", log.c_str(), (long long)gm, (long long)month, (int)from));
		bool want = (dq && day >= (int64)dq * 1048576) || (mq && month >= (int64)mq * 1048576); reached |= want;
		if (g_WorkState->GetQuotaReached() != want) pbt::fail(pbt::fmt("%s: day %lld month %lld: quota is %s", log.c_str(), (long long)day, (long long)month, want ? "not reached" : "reached"));
	};
	int steps = (int)s.size(2, 60);
	for (int k = 0; k < steps; k++)
	{
		uint32_t a = s.mark(); ops++;
		switch (s.weighted({10, 8, 3, 1, 1, 2}))
		{
			case 0:
			{
				int id = (int)s.range(1, 3); int b = (int)s.size(1, 2000000000, {1048576, 100 * 1048576}); st->AddServerData(b, id); log += pbt::fmt("+%d@%d ", b, id);
				for (int i : {0, id}) { v[i].ev.push_back({g_now + off, b, era}); v[i].custom += b; }
				break;
			}
			case 1:
			{
				int64 d;
				switch (s.weighted({4, 4, 3, 3, 2, far ? 0 : 2}))
				{
					case 0: d = s.num({1, 0, 2, 59, 60, 61, 119, 120}); break;
					case 1: d = s.n(7200); break;
					case 2: { int64 u = s.num({60, 3600, 86400}); d = u - (g_now + off) % u + s.num({-1, 0, 1, 30}); if (d < 0) d = 0; break; } // about the next border
					case 3: d = s.num({3599, 3600, 3601, 7199, 7200, 86399, 86400, 86401}); break;
					case 4: d = (int64)s.n(40) * 86400 + s.n(86400); break;
					default: d = -(int64)s.size(1, 86400 * 3, {60, 3600, 86400}); break;
				}
				if (!far && (g_now + d > 1980000000 || g_now + d < 1380000000)) break;
				if (d < 0) { era++; info.label("clock set back"); } if (d >= 60) rolled = true;
				g_now += d; log += pbt::fmt("%+lld ", (long long)d); break;
			}
			case 2: log += "look "; look(); break;
			case 3:
			{
				int i = (int)s.n(3); log += pbt::fmt("reset %d ", i); st->GuardServerVolumes()->at(i).ResetCustom(); v[i].custom = 0; v[i].customTime = g_now; break;
			}
			case 4:
				if (far) break; // times are saved with 32 bits
				log += "restart "; info.label("restart"); st->Save(); st = std::make_unique<StatMeter>(); st->Init();
				if (!st->Load(&pm) || !pm) pbt::fail(log + ": the statistics could not be loaded");
				break;
			default: log += "check "; st->IntervalCheck(); if (dq || mq) quota(); break;
		}
		s.span(a);
	}
	look(); st->IntervalCheck(); if (dq || mq) quota();
	if (rolled) info.label("beyond a minute"); if (reached) info.label("quota reached"); if (far) info.label("clock far off");
	info.nontrivial = v[0].ev.size() > 0 && rolled; info.steps = ops; info.sample = log;
	(void)firstDay;
}
