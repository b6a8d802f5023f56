// C07: the connection pool respects limits, levels, groups and blocks.
#include "world.h"
#include "pbt.h"

static time_t g_now = 1500000000;
extern "C" time_t __wrap_time(time_t* t) { if (t) *t = g_now; return g_now; }

void pbt_setup() { new World({"InfoTarget=none", "WarningTarget=none", "ErrorTarget=none", "DetailTarget=none"}); }

struct Peek : public Connection { using Connection::Connection; static void set(Connection* c, int st) { (c->*(&Peek::m_status)) = (EStatus)st; } };

struct MServer { bool active; int level, group, maxConn; bool optional; time_t block; int norm; int pool; bool maybe; };
struct MConn { int server; NntpConnection* c; };

void pbt_case(pbt::Src& s, pbt::Info& info)
{
	g_now = 1500000000; srand((unsigned)s.n(1000));
	ServerPool pool; pool.SetTimeout(1);
	int retry = (int)s.num({10, 0, 1, 3600}); pool.SetRetryInterval(retry);
	std::vector<MServer> ms;
	int n = (int)s.range(1, 5);
	std::string what;
	for (int i = 0; i < n; i++)
	{
		MServer m; m.active = !s.b(200); m.level = (int)s.num({0, 0, 1, 1, 2, 5, 99}); m.group = (int)s.num({0, 0, 1, 1, 2}); m.maxConn = (int)s.range(0, 3); m.optional = s.b(300);
		m.block = 0; m.norm = -1; m.pool = 0; m.maybe = false; ms.push_back(m);
		pool.AddServer(std::make_unique<NewsServer>(i + 1, m.active, "", "127.0.0.1", 1, 0, "", "", false, false, "", m.maxConn, 0, m.level, m.group, m.optional));
		what += pbt::fmt("[%d: %s level %d group %d max %d%s] ", i + 1, m.active ? "active" : "off", m.level, m.group, m.maxConn, m.optional ? " optional" : "");
	}
	NewsServer* sv[8]; for (int i = 0; i < n; i++) sv[i] = pool.GetServers()->at(i).get();
	std::vector<MConn> used; std::map<NntpConnection*, int> seen; // returned connections that still exist, and their server
	auto inUse = [&](int i) { int k = 0; for (auto& u : used) if (u.server == i) k++; return k; };
	auto init = [&]
	{
		int minLevel = ms[0].level; for (auto& m : ms) minLevel = std::min(minLevel, m.level);
		std::set<int> lv; for (auto& m : ms) if ((m.active && m.maxConn > 0) || m.level == minLevel) lv.insert(m.level);
		int maxNorm = 0;
		for (auto& m : ms)
		{
			m.block = 0;
			m.norm = (m.active && m.maxConn > 0) || m.level == minLevel ? (int)std::distance(lv.begin(), lv.find(m.level)) : -1;
			maxNorm = std::max(maxNorm, m.norm);
			if (m.norm >= 0 && m.active) m.pool = std::max(m.pool, m.maxConn);
		}
		PBT_CHECK(pool.GetMaxNormLevel() == maxNorm, "%s: highest level %d, should be %d", what.c_str(), pool.GetMaxNormLevel(), maxNorm);
		for (int i = 0; i < n; i++) PBT_CHECK(sv[i]->GetNormLevel() == ms[i].norm, "%s: server %d has level %d, should be %d", what.c_str(), i + 1, sv[i]->GetNormLevel(), ms[i].norm);
	};
	pool.InitConnections(); init();
	auto blocked = [&](int i) { return ms[i].block != 0 && ms[i].block <= g_now && g_now < ms[i].block + retry; };
	auto closeUnused = [&]
	{
		for (int i = 0; i < n; i++) if (!ms[i].active || ms[i].norm < 0) ms[i].pool = inUse(i);
		for (auto it = seen.begin(); it != seen.end(); ) if (!ms[it->second].active || ms[it->second].norm < 0) it = seen.erase(it); else ++it;
	};
	int steps = 0, got = 0, refused = 0;
	std::string log;
	s.repeat(3, 40, 950, [&]
	{
		steps++;
		switch (s.weighted({10, 6, 3, 3, 3, 2, 1}))
		{
			case 0:
			{
				int level = (int)s.range(0, 3);
				int want = s.b(250) ? (int)s.n(n - 1) : -1;
				ServerPool::RawServerList ign; std::set<int> ig;
				if (s.b(400)) s.repeat(1, 3, 500, [&] { int k = (int)s.n(n - 1); ign.push_back(sv[k]); ig.insert(k); });
				log += pbt::fmt(" get(level %d want %d ignore", level, want + 1); for (int k : ig) log += pbt::fmt(" %d", k + 1); log += ")";
				// which servers could serve the request at a level, according to the statement
				auto levelOk = [&](int i, int lv) { return ms[i].active && ms[i].norm == lv && (want < 0 || i == want || (ms[want].group > 0 && ms[want].group == ms[i].group)); };
				auto ignored = [&](int i) { if (want >= 0) return false; for (int k : ig) if (k == i || (ms[k].group > 0 && ms[k].group == ms[i].group && ms[k].norm == ms[i].norm)) return true; return false; };
				std::vector<int> idleConn(n, 0), idle(n, 0);
				for (int i = 0; i < n; i++) idle[i] = ms[i].pool - inUse(i);
				for (auto& c : seen) if (c.first->GetStatus() == Connection::csConnected) idleConn[c.second]++;
				std::set<NntpConnection*> wasConnected; for (auto& c : seen) if (c.first->GetStatus() == Connection::csConnected) wasConnected.insert(c.first);
				std::set<int> allowed, fallback; bool eligible = false;
				int maxNorm = pool.GetMaxNormLevel();
				bool more = true;
				for (int lv = level; lv <= maxNorm && more; lv++)
				{
					for (int i = 0; i < n; i++)
						if (levelOk(i, lv) && idle[i] > 0 && (idleConn[i] > 0 || !blocked(i)))
							if (!ignored(i)) { allowed.insert(i); if (lv == level) eligible = true; }
					if (!allowed.empty()) break;
					for (int i = 0; i < n; i++) if (ms[i].active && ms[i].norm == lv && !(ms[i].optional && blocked(i))) more = false;
				}
				NntpConnection* c = pool.GetConnection(level, want >= 0 ? sv[want] : nullptr, s.b() || !ign.empty() ? &ign : nullptr);
				if (c)
				{
					got++;
					int i = -1; for (int k = 0; k < n; k++) if (c->GetNewsServer() == sv[k]) i = k;
					PBT_CHECK(i >= 0, "connection of an unknown server");
					for (auto& u : used) PBT_CHECK(u.c != c, "%s%s: a connection of server %d was handed out twice", what.c_str(), log.c_str(), i + 1);
					PBT_CHECK(inUse(i) < std::max(ms[i].maxConn, ms[i].pool) && inUse(i) < ms[i].maxConn, "%s%s: server %d has %d connections in use, limit %d", what.c_str(), log.c_str(), i + 1, inUse(i) + 1, ms[i].maxConn);
					PBT_CHECK(allowed.count(i), "%s%s: got a connection of server %d (level %d, active %d, blocked %d, ignored %d), which the request does not allow", what.c_str(), log.c_str(), i + 1, ms[i].norm, ms[i].active, blocked(i), ignored(i));
					bool conn = wasConnected.count(c);
					PBT_CHECK(conn || !blocked(i) || idleConn[i] > 0, "%s%s: got a new connection of blocked server %d", what.c_str(), log.c_str(), i + 1);
					used.push_back({i, c}); seen.erase(c);
					log += pbt::fmt("=%d", i + 1);
				}
				else
				{
					refused++;
					PBT_CHECK(!eligible, "%s%s: request refused although server %d has a free connection", what.c_str(), log.c_str(), *allowed.begin() + 1);
					log += "=no";
				}
				// a server found usable while looking may lose its block
				for (int i = 0; i < n; i++) if (idleConn[i] > 0 || !blocked(i)) ms[i].maybe = true;
				break;
			}
			case 1:
				if (!used.empty())
				{
					size_t k = s.n(used.size() - 1); bool u = s.b();
					if (s.b(300)) { bool on = s.b(); Peek::set(used[k].c, on ? Connection::csConnected : Connection::csDisconnected); log += on ? " connected" : " disconnected"; }
					seen[used[k].c] = used[k].server;
					log += pbt::fmt(" free(%d)", used[k].server + 1);
					pool.FreeConnection(used[k].c, u); used.erase(used.begin() + k);
				}
				break;
			case 2:
			{
				int i = (int)s.n(n - 1); pool.BlockServer(sv[i]); ms[i].block = g_now; ms[i].maybe = false; log += pbt::fmt(" block(%d)", i + 1);
				PBT_CHECK(pool.IsServerBlocked(sv[i]) == (retry > 0), "server %d just blocked for %d s: blocked=%d", i + 1, retry, pool.IsServerBlocked(sv[i]));
				break;
			}
			case 3: { int64_t d = s.num({1, 4, 6, 9, 10, 11, 3600, -1, -20}); g_now += d; log += pbt::fmt(" time%+d", (int)d); break; }
			case 4: { int i = (int)s.n(n - 1); bool on = s.b(); sv[i]->SetActive(on); ms[i].active = on; log += pbt::fmt(" active(%d)=%d", i + 1, on);
				pool.Changed(); init(); closeUnused();
				break; }
			case 5: pool.CloseUnusedConnections(); closeUnused(); log += " close"; break;
			default: pool.InitConnections(); init(); log += " init"; break;
		}
		for (int i = 0; i < n; i++)
		{
			bool b = pool.IsServerBlocked(sv[i]);
			if (blocked(i) && ms[i].maybe && !b) ms[i].block = 0;
			PBT_CHECK(b == blocked(i), "%s%s: server %d blocked=%d, should be %d", what.c_str(), log.c_str(), i + 1, b, blocked(i));
		}
	});
	info.label(got ? "handed out" : "nothing handed out"); if (refused) info.label("refused");
	info.nontrivial = got > 0 && steps >= 4; info.steps = steps; info.sample = what + log;
}
