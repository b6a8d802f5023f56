// C10: a crash or an error while saving never loses the previous state.
// Every file operation of the program goes through the functions below, which can stop the "program" at any of them,
// let any of them fail, and know what of the data is certainly on the disk.
#include "state.h"
#include <sys/stat.h>
#include <dirent.h>

struct Crash {};
namespace disk
{
enum Kind { kNone, kKill, kPower, kFailOnce, kFailFrom };
struct Inode { string data; size_t synced = 0; string path; };
struct Op { char type; string a, b; int inode; }; // c(reate) r(ename) u(nlink)
static vector<Inode> inodes; static vector<Op> journal; static size_t dirSynced; // journal entries certainly on disk
struct Stream { int inode; string buf; bool error = false; };
static std::map<FILE*, Stream> streams; static std::map<int, FILE*> fds;
static std::map<string, int> names; // current name -> inode
static Kind kind; static int left; static bool dead, hit; static pbt::Src* src; static string where;
static int count;

static void arm(Kind k, int n, pbt::Src* s) { kind = k; left = n; src = s; hit = false; where = ""; count = 0; }
// true: this operation fails
static bool fault(const char* what, const string& path)
{
	count++;
	if (kind == kNone) return false;
	if (left-- == 0 || (hit && kind == kFailFrom))
	{
		if (!hit) where = pbt::fmt("%s %s", what, path.substr(path.rfind('/') + 1).c_str());
		hit = true;
		if (kind == kFailOnce || kind == kFailFrom) { errno = strcmp(what, "write") ? EIO : ENOSPC; return true; }
		dead = true; throw Crash();
	}
	return false;
}
}
using namespace disk;

extern "C"
{
FILE* __real_fopen(const char* p, const char* m); FILE* __real_fopen64(const char* p, const char* m);
int __real_fclose(FILE* f); size_t __real_fwrite(const void* p, size_t s, size_t n, FILE* f); int __real_fflush(FILE* f); int __real_ferror(FILE* f);
int __real_rename(const char* a, const char* b); int __real_remove(const char* a); int __real_unlink(const char* a); int __real_fsync(int fd); int __real_fdatasync(int fd);
}
static void flush(FILE* f, Stream& st, bool all)
{
	while (!st.buf.empty() && (all || st.buf.size() >= 4096))
	{
		size_t n = std::min<size_t>(st.buf.size(), 4096), part = n;
		string d = st.buf.substr(0, n); st.buf.erase(0, n);
		bool bad = false, crash = false;
		try { bad = fault("write", inodes[st.inode].path); } catch (Crash&) { crash = true; }
		if (bad || crash) part = src ? src->n(n) : 0;
		if (write(fileno(f), d.data(), part) != (ssize_t)part) abort();
		inodes[st.inode].data += d.substr(0, part);
		if (crash) { st.buf.clear(); throw Crash(); }
		if (bad) { st.error = true; st.buf.clear(); errno = ENOSPC; return; }
	}
}
static FILE* open_(const char* p, const char* m)
{
	if (!strchr(m, 'w')) return __real_fopen(p, m);
	if (dead) return nullptr;
	if (fault("open", p)) return nullptr;
	FILE* f = __real_fopen(p, "wb"); if (!f) return f;
	inodes.push_back({}); inodes.back().path = p; int i = (int)inodes.size() - 1;
	journal.push_back({'c', p, "", i}); names[p] = i; streams[f] = {i, "", false}; fds[fileno(f)] = f;
	return f;
}
extern "C"
{
FILE* __wrap_fopen(const char* p, const char* m) { return open_(p, m); }
FILE* __wrap_fopen64(const char* p, const char* m) { return open_(p, m); }
size_t __wrap_fwrite(const void* p, size_t s, size_t n, FILE* f)
{
	auto it = streams.find(f); if (it == streams.end()) return __real_fwrite(p, s, n, f);
	if (dead) return n;
	if (it->second.error) return 0;
	it->second.buf.append((const char*)p, s * n); flush(f, it->second, false);
	return it->second.error ? 0 : n;
}
int __wrap_fflush(FILE* f) { auto it = streams.find(f); if (it == streams.end()) return __real_fflush(f); if (dead) return 0; flush(f, it->second, true); return it->second.error ? EOF : 0; }
int __wrap_ferror(FILE* f) { auto it = streams.find(f); if (it == streams.end()) return __real_ferror(f); return it->second.error; }
int __wrap_fclose(FILE* f)
{
	auto it = streams.find(f); if (it == streams.end()) return __real_fclose(f);
	bool bad = false;
	if (!dead) { try { flush(f, it->second, true); } catch (Crash&) { fds.erase(fileno(f)); streams.erase(it); __real_fclose(f); throw; } bad = it->second.error; }
	fds.erase(fileno(f)); streams.erase(it); __real_fclose(f);
	return bad ? EOF : 0;
}
int __wrap_rename(const char* a, const char* b)
{
	if (dead) return -1;
	if (fault("rename", b)) return -1;
	int r = __real_rename(a, b);
	if (!r) { int i = names.count(a) ? names[a] : -1; journal.push_back({'r', a, b, i}); names.erase(a); if (i >= 0) names[b] = i; }
	return r;
}
static int del(const char* a)
{
	if (dead) return -1;
	struct stat st; if (lstat(a, &st)) { errno = ENOENT; return -1; }
	bool errors = kind == kFailOnce || kind == kFailFrom; // deletions aren't made to fail
	if (!errors && fault("delete", a)) return -1;
	int r = __real_unlink(a); if (!r) { journal.push_back({'u', a, "", -1}); names.erase(a); }
	return r;
}
int __wrap_remove(const char* a) { return del(a); }
int __wrap_unlink(const char* a) { return del(a); }
static int sync_(int fd)
{
	if (dead) return -1;
	auto it = fds.find(fd);
	if (it == fds.end()) { if (fault("sync", "(directory)")) { dirSynced = journal.size(); return -1; } dirSynced = journal.size(); return 0; }
	Stream& st = streams[it->second];
	bool bad = fault("sync", inodes[st.inode].path); // a failing flush is taken as not supported, not as loss of data: the program only warns
	inodes[st.inode].synced = inodes[st.inode].data.size(); return bad ? -1 : 0;
}
int __wrap_fsync(int fd) { return sync_(fd); }
int __wrap_fdatasync(int fd) { return sync_(fd); }
}

static string g_dir, g_tmp;
static bool g_setup;
void pbt_setup()
{
	char cwd[900]; if (!getcwd(cwd, sizeof cwd)) abort();
	g_dir = string(cwd) + "/queue"; g_tmp = string(cwd) + "/tmp";
	mkdir(g_dir.c_str(), 0777); mkdir(g_tmp.c_str(), 0777);
	new World({"QueueDir=" + g_dir, "TempDir=" + g_tmp, "InfoTarget=none", "WarningTarget=none", "ErrorTarget=none", "DetailTarget=none", "ContinuePartial=yes", "DirectWrite=no", "FlushQueue=yes"});
	if (g_dir != g_Options->GetQueueDir() || !g_Options->GetFlushQueue()) abort();
}
static void wipe() { DIR* d = opendir(g_dir.c_str()); while (dirent* e = readdir(d)) if (e->d_name[0] != '.') __real_unlink((g_dir + "/" + e->d_name).c_str()); closedir(d); }
static void reset() { wipe(); inodes.clear(); journal.clear(); dirSynced = 0; streams.clear(); fds.clear(); names.clear(); dead = false; arm(kNone, 0, nullptr); }

// the computer loses power: names are as at some moment since the last flush of the directory, data not flushed may be missing
static void powerLoss(pbt::Src& s)
{
	size_t m = dirSynced + s.n(journal.size() - dirSynced);
	if (s.b(300)) m = journal.size();
	std::map<string, int> ns; 
	for (size_t i = 0; i < m; i++)
	{
		Op& o = journal[i];
		if (o.type == 'c') ns[o.a] = o.inode;
		else if (o.type == 'r') { if (ns.count(o.a)) { int k = ns[o.a]; ns.erase(o.a); ns[o.b] = k; } }
		else ns.erase(o.a);
	}
	wipe();
	vector<Inode> ni; vector<Op> nj; std::map<string, int> nn;
	for (auto& x : ns)
	{
		Inode& in = inodes[x.second]; string name = x.first.substr(x.first.rfind('/') + 1);
		// files of single downloads are not covered by FlushQueue
		size_t keep = isdigit(name[0]) ? in.data.size() : in.synced + (in.data.size() > in.synced ? (s.b() ? 0 : s.n(in.data.size() - in.synced)) : 0);
		string d = in.data.substr(0, keep);
		FILE* f = __real_fopen(x.first.c_str(), "wb"); if (!f) abort(); __real_fwrite(d.data(), 1, d.size(), f); __real_fclose(f);
		Inode n; n.data = d; n.synced = d.size(); n.path = x.first; ni.push_back(n); nj.push_back({'c', x.first, "", (int)ni.size() - 1}); nn[x.first] = (int)ni.size() - 1;
	}
	inodes = ni; journal = nj; names = nn; dirSynced = journal.size();
}

struct Ctx
{
	pbt::Src& s; pbt::Info& info; string log; int faults = 0, ops = 0; bool noPower = false, power = false;
	Ctx(pbt::Src& s_, pbt::Info& i) : s(s_), info(i) {}
	// runs a saving operation, possibly interrupted; returns 0 saved, 1 reported as failed, 2 the program is gone
	int run(const char* what, bool faulty, const std::function<bool()>& f, int span = 14)
	{
		ops++; log += string(" ") + what;
		Kind k = faulty && noPower ? (Kind)s.num({kKill, kKill, kFailOnce, kFailFrom}) : faulty ? s.choice<Kind>({kKill, kKill, kPower, kPower, kFailOnce, kFailFrom}) : kNone;
		arm(k, faulty ? (int)s.n(span) : 0, &s);
		int r;
		try { r = f() ? 0 : 1; } catch (Crash&) { r = 2; }
		if (hit)
		{
			faults++; static const char* n[] = {"", "killed at", "power lost at", "error at", "errors from"};
			log += pbt::fmt("[%s %s]", n[k], where.c_str()); info.label(string(n[k]) + " " + where.substr(0, where.find(' ')));
		}
		if (k == kPower && !hit) { r = 2; log += "[power lost afterwards]"; dead = true; faults++; info.label("power lost afterwards"); }
		if (r == 2)
		{
			while (!streams.empty()) { FILE* f = streams.begin()->first; fds.erase(fileno(f)); streams.erase(streams.begin()); __real_fclose(f); }
			if (k == kPower) { power = true; powerLoss(s); }
			dead = false;
		}
		bool h = hit; arm(kNone, 0, nullptr); hit = h;
		return r;
	}
};
struct Allowed : vector<Dump> { using vector<Dump>::vector; vector<Dump> unsynced; /* before a deletion, which isn't flushed: may come back when the power is lost */ };
// what a program finds on its start stays there (the system has written it in the meantime)
static void settle() { dirSynced = journal.size(); for (Inode& i : inodes) i.synced = i.data.size(); }
static void judge(Ctx& c, const char* what, Allowed& a, Dump& got)
{
	if (c.power) a.insert(a.end(), a.unsynced.begin(), a.unsynced.end());
	for (auto& d : a) if (d == got) { a = Allowed{got}; return; }
	string m;
	for (auto& d : a)
	{
		size_t i = 0; while (i < d.size() && i < got.size() && d[i] == got[i]) i++;
		m += pbt::fmt(" saved state of %d lines differs at %d: %s <> %s;", (int)d.size(), (int)i, pbt::show(i < d.size() ? d[i].substr(0, 80) : "(end)").c_str(), pbt::show(i < got.size() ? got[i].substr(0, 80) : "(end)").c_str());
	}
	pbt::fail(pbt::fmt("after%s the %s loaded is none of the %d states it may be:%s", c.log.c_str(), what, (int)a.size(), m.c_str()));
}
static void add(Allowed& a, int r, const Dump& d, bool deletion = false)
{
	if (r == 0) { vector<Dump> u; if (deletion) { u = a.unsynced; u.insert(u.end(), a.begin(), a.end()); } a = Allowed{d}; a.unsynced = u; }
	else if (a.empty() || a.back() != d) a.push_back(d);
}

static Dump dumpQueue(Queue& q, bool expect)
{
	Out o{{}, false, "", expect};
	for (NzbInfo* n : q.GetQueue()) { n->UpdateCurrentStats(); nzb(o, n, nullptr); }
	return o.d;
}
static Dump dumpHistory(Queue& q, bool expect) { Out o{{}, false, "", expect}; for (HistoryInfo* h : q.GetHistory()) history(o, h, nullptr); return o.d; }

static void queueCase(pbt::Src& s, pbt::Info& info)
{
	reset(); Ctx c(s, info);
	NzbInfo::ResetGenId(false); FileInfo::ResetGenId(false);
	// queue and history belong together: an item moved from one to the other must not be lost or doubled
	auto both = [](Dump& q, Dump& h) { Dump d = q; d.push_back("--- history ---"); d.insert(d.end(), h.begin(), h.end()); return d; };
	Allowed P{{"--- history ---"}}; // empty at first
	Servers none_;
	int lives = (int)s.size(1, 4), loaded = 0;
	for (int life = 0; life <= lives; life++)
	{
		settle(); Queue q; Queue::use(&q);
		if (g_DiskState->DownloadQueueExists())
		{
			PBT_CHECK(g_DiskState->LoadDownloadQueue(&q, &none_), "after%s the queue could not be loaded", c.log.c_str());
			loaded++;
		}
		c.log += " start";
		Dump dq = dumpQueue(q, false), dh = dumpHistory(q, false);
		Dump got = both(dq, dh); judge(c, "queue and history", P, got); c.power = false;
		if (life == lives) break;
		bool historyChanged = false, unsaved = false; // after a failed saving of the queue progress isn't saved here
		auto save = [&](bool faulty)
		{
			bool hc = historyChanged; bool deletion = !hc && q.GetQueue()->empty(); // a deletion is not flushed on its own
			int r = c.run(hc ? "save+history" : "save", faulty, [&] { return g_DiskState->SaveDownloadQueue(&q, hc); }, 20);
			for (NzbInfo* n : q.GetQueue()) n->SetChanged(false);
			unsaved = r == 1;
			Dump nq = dumpQueue(q, true), nh = dumpHistory(q, true);
			bool lost = r == 2 && c.log.size() > 23 && c.log.rfind("[power lost afterwards]") == c.log.size() - 23;
			add(P, lost && !deletion ? 0 : r, both(nq, nh), deletion);
			if (r != 1) historyChanged = false;
			return r;
		};
		bool gone = false;
		auto change = [&](NzbInfo* n) { n->SetPriority((int)s.n(100)); n->SetName(txt(s, false).c_str()); if (s.b(300)) n->SetDupeKey(txt(s).c_str()); n->GetParameters()->SetParameter("P", txt(s, false).c_str()); };
		int steps = (int)s.size(1, 6);
		for (int i = 0; i < steps && !gone; i++)
		{
			bool faulty = i == steps - 1 ? s.b(900) : s.b(100); int r = 0;
			int n = (int)q.GetQueue()->size();
			switch (s.weighted({4, 3, 4, 4, 2, 1}))
			{
				case 0: // new item
				{
					auto x = std::make_unique<NzbInfo>(); fillNzb(s, x.get(), 0, s.b(300)); x->SetUrlStatus(NzbInfo::lsNone);
					s.repeat(0, 3, 600, [&] { auto f = genFile(s, x.get(), 0); g_DiskState->SaveFile(f.get()); x->GetFileList()->Add(std::move(f)); });
					q.GetQueue()->Add(std::move(x)); c.log += " add"; r = save(faulty); break;
				}
				case 1: // change
					if (n) { change(q.GetQueue()->at(s.n(n - 1)).get()); c.log += " edit"; }
					r = save(faulty); break;
				case 2: // progress
					if (n && !unsaved)
					{
						NzbInfo* x = q.GetQueue()->at(s.n(n - 1)).get(); change(x); x->SetChanged(true);
						r = c.run("progress", faulty, [&] { return g_DiskState->SaveDownloadProgress(&q); });
						bool lost = r == 2 && c.log.rfind("[power lost afterwards]") == c.log.size() - 23 && c.log.size() > 23;
						Dump nq = dumpQueue(q, true), nh = dumpHistory(q, true); add(P, lost ? 0 : r, both(nq, nh));
					}
					break;
				case 3: // finished
					if (n)
					{
						NzbInfo* x = q.GetQueue()->at(s.n(n - 1)).get(); c.log += " finish";
						auto o = q.GetQueue()->Remove(x); o->LeavePostProcess(); vector<int> ids; for (FileInfo* f : o->GetFileList()) ids.push_back(f->GetId());
						o->GetFileList()->clear(); o->UpdateCurrentStats();
						auto h = std::make_unique<HistoryInfo>(std::move(o)); h->SetTime(tm_(s)); q.GetHistory()->Add(std::move(h), true); historyChanged = true;
						r = save(faulty);
					}
					break;
				case 4: // history removed
					if (q.GetHistory()->size()) { q.GetHistory()->erase(q.GetHistory()->begin() + s.n(q.GetHistory()->size() - 1)); historyChanged = true; c.log += " forget"; r = save(faulty); }
					break;
				default: // all gone
					if (s.b(400)) { q.GetHistory()->clear(); historyChanged = true; }
					q.GetQueue()->clear(); c.log += " clear"; r = save(faulty); break;
			}
			gone = r == 2;
		}
	}
	Queue::unuse();
	info.label("queue and history"); info.nontrivial = c.faults > 0; info.steps = c.ops; info.sample = c.log;
}

static void fileCase(pbt::Src& s, pbt::Info& info)
{
	reset(); Ctx c(s, info); c.noPower = true; // these files are not flushed
	NzbInfo::ResetGenId(false); FileInfo::ResetGenId(false);
	Servers none_; 
	Queue q; Queue::use(&q);
	auto x = std::make_unique<NzbInfo>(); NzbInfo* n = x.get(); n->SetName("n");
	s.repeat(1, 3, 600, [&] { auto f = genFile(s, n, 0); g_DiskState->SaveFile(f.get()); n->GetFileList()->Add(std::move(f)); });
	q.GetQueue()->Add(std::move(x));
	if (!g_DiskState->SaveDownloadQueue(&q, true)) pbt::fail("queue not saved");
	std::map<int, Allowed> S, I; std::map<int, bool> comp;
	auto dumpState = [](FileInfo* f, bool expect) { Out o{{}, false, "", expect}; fileState(o, f, nullptr); articles(o, f, true); return o.d; };
	auto dumpInfo = [](FileInfo* f, bool expect) { Out o{{}, false, "", expect}; o.t("subject", f->GetSubject()); o.t("filename", f->GetFilename()); o.e("orig", f->GetOrigname()); o.i("size", f->GetSize()); for (CString& g : f->GetGroups()) o.t("group", g); return o.d; };
	for (FileInfo* f : n->GetFileList()) { I[f->GetId()] = {dumpInfo(f, true)}; comp[f->GetId()] = s.b(300); }
	bool hibernated = s.b(300);
	if (hibernated) { int r = c.run("summary", s.b(300), [&] { return g_DiskState->SaveAllFileInfos(&q); }); (void)r; }
	int steps = (int)s.size(1, 5);
	for (int i = 0; i < steps; i++)
	{
		FileInfo* f = n->GetFileList()->at(s.n(n->GetFileList()->size() - 1)).get(); bool faulty = i == steps - 1 ? s.b(900) : s.b(100); int r;
		if (s.b(700))
		{
			bool k = comp[f->GetId()]; string fn = f->GetFilename(); bool par = f->GetParFile();
			genState(s, f, 0, k); f->SetFilename(fn.c_str()); f->SetParFile(par);
			r = c.run(k ? "final state" : "state", faulty, [&] { return g_DiskState->SaveFileState(f, k); });
			if (!S.count(f->GetId())) S[f->GetId()] = {{}}; // no state yet
			add(S[f->GetId()], r, dumpState(f, true));
		}
		else
		{
			f->SetFilename(txt(s, false).c_str()); f->SetOrigname(s.b() ? "orig" : nullptr);
			S.erase(f->GetId()); g_DiskState->DiscardFile(f->GetId(), false, true, true);
			r = c.run("rename", faulty, [&] { return g_DiskState->SaveFile(f); });
			add(I[f->GetId()], r, dumpInfo(f, true));
		}
		if (r == 2) break;
	}
	Queue q2; Queue::use(&q2);
	PBT_CHECK(g_DiskState->LoadDownloadQueue(&q2, &none_), "after%s the queue could not be loaded", c.log.c_str());
	PBT_CHECK(q2.GetQueue()->size() == 1 && q2.GetQueue()->at(0)->GetFileList()->size() == n->GetFileList()->size(), "after%s items or files are missing", c.log.c_str());
	for (FileInfo* f : q2.GetQueue()->at(0)->GetFileList())
	{
		int id = f->GetId();
		if (!S.count(id)) { Dump d = dumpInfo(f, false); judge(c, "file information", I[id], d); }
		PBT_CHECK(g_DiskState->LoadArticles(f), "after%s the articles of a file could not be loaded", c.log.c_str());
		if (S.count(id))
		{
			bool have = f->GetPartialState() != FileInfo::psNone;
			Dump d;
			if (have) { PBT_CHECK(g_DiskState->LoadFileState(f, &none_, comp[id]), "after%s an article state could not be loaded", c.log.c_str()); d = dumpState(f, false); }
			judge(c, "article state", S[id], d);
		}
	}
	Queue::unuse();
	info.label("files"); info.nontrivial = c.faults > 0; info.steps = c.ops; info.sample = c.log;
}

static void otherCase(pbt::Src& s, pbt::Info& info, bool feeds)
{
	reset(); Ctx c(s, info);
	Allowed A{{}}; int lives = (int)s.size(1, 3);
	Servers sv; sv.push_back(server(1, "one", "host1", 119, "")); sv.push_back(server(2, "two", "host2", 119, ""));
	auto gen = [&](FeedHistory& fh, ServerVolumes& v)
	{
		if (feeds) { if (s.b(200)) fh.clear(); s.repeat(0, 5, 700, [&] { fh.emplace_back(txt(s).c_str(), (FeedHistoryInfo::EStatus)s.n(2), tm_(s)); }); }
		else for (auto& x : v) { x.SetTotalBytes(llabs(big(s))); x.SetFirstDay((int)s.n(10000)); x.BytesPerDays()->resize(s.n(20)); for (auto& b : *x.BytesPerDays()) b = s.n(1000000); }
	};
	auto dump = [&](FeedHistory& fh, ServerVolumes& v, bool expect)
	{
		Out o{{}, false, "", expect};
		if (feeds) for (FeedHistoryInfo& h : fh) { o.t("item", h.GetUrl()); o.i("status", h.GetStatus()); o.i("seen", h.GetLastSeen()); }
		else { bool any = false; for (auto& x : v) { any |= x.GetTotalBytes() || x.GetFirstDay() || x.BytesPerDays()->size(); } if (any) for (auto& x : v) { o.i("total", x.GetTotalBytes()); o.i("first", x.GetFirstDay()); o.i("days", x.BytesPerDays()->size()); for (auto b : *x.BytesPerDays()) o.i("day", b); } }
		return o.d;
	};
	for (int life = 0; life <= lives; life++)
	{
		settle(); FeedHistory fh; ServerVolumes v(3); Feeds fs; bool perfect;
		for (auto& x : sv) x->SetStateId(0);
		if (feeds) { PBT_CHECK(g_DiskState->LoadFeeds(&fs, &fh), "after%s the feeds could not be loaded", c.log.c_str()); }
		else PBT_CHECK(g_DiskState->LoadStats(&sv, &v, &perfect), "after%s the statistics could not be loaded", c.log.c_str());
		c.log += " start"; Dump d = dump(fh, v, false); judge(c, feeds ? "feed history" : "statistics", A, d); c.power = false;
		if (life == lives) break;
		int steps = (int)s.size(1, 4); int r = 0;
		for (int i = 0; i < steps && r != 2; i++)
		{
			gen(fh, v); bool empty = feeds && fh.empty();
			r = c.run("save", i == steps - 1 ? s.b(900) : s.b(100), [&] { return feeds ? g_DiskState->SaveFeeds(&fs, &fh) : g_DiskState->SaveStats(&sv, &v); });
			bool lost = r == 2 && c.log.size() > 23 && c.log.rfind("[power lost afterwards]") == c.log.size() - 23;
			add(A, lost && !empty ? 0 : r, dump(fh, v, true), empty);
		}
	}
	info.label(feeds ? "feeds" : "statistics"); info.nontrivial = c.faults > 0; info.steps = c.ops; info.sample = c.log;
}

void pbt_case(pbt::Src& s, pbt::Info& info)
{
	switch (s.weighted({8, 4, 1, 1}))
	{
		case 0: queueCase(s, info); break;
		case 1: fileCase(s, info); break;
		case 2: otherCase(s, info, true); break;
		default: otherCase(s, info, false); break;
	}
}
