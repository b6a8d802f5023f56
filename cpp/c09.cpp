// C09: queue, history, feed and statistics state survives save and reload.
#include "state.h"

static string g_dir, g_tmp;
void pbt_setup()
{
	char cwd[900]; if (!getcwd(cwd, sizeof cwd)) abort();
	g_dir = string(cwd) + "/queue"; g_tmp = string(cwd) + "/tmp";
	FileSystem::CreateDirectory(g_dir.c_str()); FileSystem::CreateDirectory(g_tmp.c_str());
	new World({"QueueDir=" + g_dir, "TempDir=" + g_tmp, "InfoTarget=none", "WarningTarget=none", "ErrorTarget=none", "DetailTarget=none", "ContinuePartial=yes", "DirectWrite=no"});
	if (g_dir != g_Options->GetQueueDir()) abort();
}
static void clean() { DirBrowser d(g_dir.c_str()); while (const char* f = d.Next()) FileSystem::DeleteFile((g_dir + "/" + f).c_str()); }

static void queueCase(pbt::Src& s, pbt::Info& info)
{
	clean();
	Queue q; Queue::use(&q);
	Servers servers, servers2; int ns = (int)s.n(3); IdMap ids;
	for (int i = 1; i <= ns; i++) { servers.push_back(server(i, "s" + std::to_string(i), "h", i, "")); }
	{
		vector<int> perm; for (int i = 1; i <= ns; i++) perm.push_back(i);
		bool same = s.b(600); if (!same) s.shuffle(perm);
		int keep = same ? ns : (int)s.n(ns);
		for (int i = 0; i < keep; i++) { auto v = server(i + 1, "", "h", 1, ""); v->SetStateId(perm[i]); ids[perm[i]] = i + 1; servers2.push_back(std::move(v)); }
	}
	int nq = (int)s.size(0, 4), nh = (int)s.size(0, 3), nfiles = 0;
	for (int i = 0; i < nq; i++)
	{
		auto n = std::make_unique<NzbInfo>(); fillNzb(s, n.get(), ns, true);
		s.repeat(0, 4, 600, [&] { n->GetFileList()->Add(genFile(s, n.get(), ns)); nfiles++; });
		q.GetQueue()->Add(std::move(n));
	}
	for (int i = 0; i < nh; i++)
	{
		std::unique_ptr<HistoryInfo> h;
		if (s.b(300))
		{
			auto d = std::make_unique<DupInfo>(); d->SetId(NzbInfo::GenerateId()); d->SetName(txt(s).c_str()); d->SetDupeKey(txt(s).c_str()); d->SetDupeScore(num(s)); d->SetDupeMode((EDupeMode)s.n(2));
			d->SetSize(big(s)); d->SetFullContentHash(u32(s)); d->SetFilteredContentHash(u32(s)); d->SetStatus((DupInfo::EStatus)s.n(6));
			h = std::make_unique<HistoryInfo>(std::move(d));
		}
		else
		{
			auto n = std::make_unique<NzbInfo>(); fillNzb(s, n.get(), ns, false);
			n->UpdateCurrentStats();
			h = std::make_unique<HistoryInfo>(std::move(n));
		}
		h->SetTime(tm_(s)); q.GetHistory()->Add(std::move(h));
	}
	for (NzbInfo* n : q.GetQueue()) for (FileInfo* f : n->GetFileList()) PBT_CHECK(g_DiskState->SaveFile(f), "file information %d not saved", f->GetId());
	bool progress = s.b(300), hibernate = s.b(250);
	PBT_CHECK(g_DiskState->SaveDownloadQueue(&q, true), "queue not saved");
	if (progress)
		for (NzbInfo* n : q.GetQueue()) if (s.b())
		{
			// some progress: files finish, settings change
			n->SetChanged(true);
			if (s.b()) { n->SetPriority(num(s)); n->SetName(txt(s, false).c_str()); n->GetParameters()->SetParameter("Par", s.b() ? "x" : ""); n->SetDownloadedSize(big(s)); }
			if (!n->GetFileList()->empty() && s.b())
			{
				FileInfo* f = n->GetFileList()->at(s.n(n->GetFileList()->size() - 1)).get();
				n->GetCompletedFiles()->emplace_back(f->GetId(), f->GetFilename(), nullptr, CompletedFile::cfSuccess, 1, false, nullptr, nullptr);
				g_DiskState->DiscardFile(f->GetId(), true, true, true); n->GetFileList()->Remove(f);
			}
			if (!n->GetFileList()->empty() && s.b(300)) n->GetFileList()->at(0)->SetDeleted(true);
			if (n->GetPostInfo() && s.b(300)) n->LeavePostProcess(); else if (!n->GetPostInfo() && s.b(300)) n->EnterPostProcess();
			genStats(s, n->GetServerStats(), ns);
		}
	// article states
	struct St { int id; bool completed; }; vector<St> states;
	for (NzbInfo* n : q.GetQueue()) for (FileInfo* f : n->GetFileList()) if (!f->GetDeleted() && s.b(300))
	{
		bool c = s.b(300); genState(s, f, ns, c); states.push_back({f->GetId(), c});
		PBT_CHECK(g_DiskState->SaveFileState(f, c), "article state not saved");
	}
	if (progress) { PBT_CHECK(g_DiskState->SaveDownloadProgress(&q), "progress not saved"); }
	if (hibernate)
	{
		// done when the program ends, just after saving the queue
		if (!progress && s.b()) PBT_CHECK(g_DiskState->SaveDownloadQueue(&q, true), "queue not saved");
		PBT_CHECK(g_DiskState->SaveAllFileInfos(&q), "file informations not saved");
	}
	Out a{{}, false, "", true}; int deleted = 0;
	for (NzbInfo* n : q.GetQueue())
	{
		for (bool again = true; again; ) { again = false; for (FileInfo* f : n->GetFileList()) if (f->GetDeleted()) { n->GetFileList()->Remove(f); deleted++; again = true; break; } }
		n->UpdateCurrentStats(); nzb(a, n, &ids);
		for (FileInfo* f : n->GetFileList()) for (auto& st : states) if (st.id == f->GetId()) fileState(a, f, &ids);
	}
	for (HistoryInfo* h : q.GetHistory()) history(a, h, &ids);

	int maxNzb = 0; for (NzbInfo* n : q.GetQueue()) maxNzb = std::max(maxNzb, n->GetId());
	int maxFile = 0; for (NzbInfo* n : q.GetQueue()) for (FileInfo* f : n->GetFileList()) maxFile = std::max(maxFile, f->GetId());
	{
		Queue q2; Queue::use(&q2);
		PBT_CHECK(g_DiskState->LoadDownloadQueue(&q2, &servers2), "saved queue could not be loaded (%d items, %d files, %d in history)", nq, nfiles, nh);
		Out b{{}, false, "", false};
		for (NzbInfo* n : q2.GetQueue())
		{
			nzb(b, n, nullptr);
			for (FileInfo* f : n->GetFileList()) for (auto& st : states) if (st.id == f->GetId()) fileState(b, f, nullptr);
		}
		for (HistoryInfo* h : q2.GetHistory()) history(b, h, nullptr);
		compare(progress ? "queue with progress" : "queue", a.d, b.d);
		// the articles, which are loaded on demand
		for (NzbInfo* n : q2.GetQueue()) for (FileInfo* f2 : n->GetFileList())
		{
			FileInfo* f = nullptr; for (NzbInfo* m : q.GetQueue()) if (FileInfo* x = m->GetFileList()->Find(f2->GetId())) f = x;
			PBT_CHECK(f, "file %d appeared", f2->GetId());
			bool st = false, comp = false; for (auto& x : states) if (x.id == f->GetId()) { st = true; comp = x.completed; }
			PBT_CHECK(g_DiskState->LoadArticles(f2), "articles of file %d could not be loaded", f2->GetId());
			if (st) PBT_CHECK(g_DiskState->LoadFileState(f2, &servers2, comp), "article states of file %d could not be loaded", f2->GetId());
			Out x{{}, false, "", true}, y{{}, false, "", false};
			articles(x, f, st); articles(y, f2, st); compare("articles", x.d, y.d);
		}
		// new items get new numbers
		int id = NzbInfo::GenerateId(); PBT_CHECK(id > maxNzb, "item number %d given twice", id);
		FileInfo fresh; PBT_CHECK(fresh.GetId() > maxFile, "file number %d given twice", fresh.GetId());
		Queue::use(&q2);
		NzbInfo::ResetGenId(false); FileInfo::ResetGenId(false);
		Queue::unuse();
	}
	info.label("queue"); if (progress) info.label("progress"); if (hibernate) info.label("file summary"); if (!states.empty()) info.label("article states"); if (nh) info.label("history");
	info.nontrivial = nq + nh > 0; info.steps = nq + nh + nfiles;
	info.sample = pbt::fmt("%d queued items with %d files, %d in history, %d article states, %d servers%s%s", nq, nfiles, nh, (int)states.size(), ns, progress ? ", progress" : "", hibernate ? ", file summary" : "");
}

static void feedCase(pbt::Src& s, pbt::Info& info)
{
	clean();
	struct F { string url, filter; int last; }; vector<F> fs; std::set<string> seen;
	s.repeat(0, 4, 600, [&] { F f{txt(s), txt(s), tm_(s)}; if (seen.insert(norm(f.url.c_str()) + "\1" + f.filter).second) fs.push_back(f); });
	Feeds feeds, feeds2; FeedHistory fh, fh2; int id = 0;
	for (auto& f : fs)
	{
		++id; string url = f.url; std::replace(url.begin(), url.end(), '\n', ' '); std::replace(url.begin(), url.end(), '\r', ' '); // urls are options, which have no line breaks
		auto a = std::make_unique<FeedInfo>(id, "n", url.c_str(), true, 1, f.filter.c_str(), false, "", 0, ""), b = std::make_unique<FeedInfo>(id, "n", url.c_str(), true, 1, f.filter.c_str(), false, "", 0, "");
		a->SetLastUpdate(f.last); feeds.push_back(std::move(a)); feeds2.push_back(std::move(b));
	}
	if (s.b(200)) std::reverse(feeds2.begin(), feeds2.end());
	s.repeat(0, 6, 700, [&] { fh.emplace_back(txt(s).c_str(), (FeedHistoryInfo::EStatus)s.n(2), tm_(s)); });
	PBT_CHECK(g_DiskState->SaveFeeds(&feeds, &fh), "feeds not saved");
	PBT_CHECK(g_DiskState->LoadFeeds(&feeds2, &fh2), "saved feeds could not be loaded (%d feeds, %d items)", (int)feeds.size(), (int)fh.size());
	Out a{{}, false, "", true}, b{{}, false, "", false};
	for (auto& f : feeds) { a.i("feed", f->GetId()); a.i("last", f->GetLastUpdate()); for (auto& g : feeds2) if (g->GetId() == f->GetId()) { b.i("feed", g->GetId()); b.i("last", g->GetLastUpdate()); } }
	for (FeedHistoryInfo& h : fh) { a.t("item", h.GetUrl()); a.i("status", h.GetStatus()); a.i("seen", h.GetLastSeen()); }
	for (FeedHistoryInfo& h : fh2) { b.t("item", h.GetUrl()); b.i("status", h.GetStatus()); b.i("seen", h.GetLastSeen()); }
	compare("feeds", a.d, b.d);
	info.label("feeds"); info.nontrivial = !feeds.empty() || !fh.empty(); info.sample = pbt::fmt("%d feeds, %d feed items", (int)feeds.size(), (int)fh.size());
}

static void statCase(pbt::Src& s, pbt::Info& info)
{
	clean();
	struct S { string name, host, user; int port; }; vector<S> ss; std::set<string> names;
	s.repeat(1, 4, 600, [&] { S x{txt(s, false), txt(s, false), txt(s), (int)s.n(65535)}; for (string* t : {&x.name, &x.host, &x.user}) { std::replace(t->begin(), t->end(), '\n', ' '); std::replace(t->begin(), t->end(), '\r', ' '); }
		string k = x.host; for (auto& c : k) c = tolower(c); if (names.insert(k).second) ss.push_back(x); });
	Servers sv, sv2; ServerVolumes vol(ss.size() + 1), vol2;
	int id = 0; for (auto& x : ss) sv.push_back(server(++id, x.name, x.host, x.port, x.user));
	for (auto& v : vol)
	{
		v.SetFirstDay((int)s.n(20000)); v.SetDataTime(tm_(s)); v.SetCustomTime(tm_(s)); v.SetTotalBytes(big(s)); v.SetCustomBytes(big(s));
		v.BytesPerDays()->resize(s.n(40));
		for (auto* a : {v.BytesPerSeconds(), v.BytesPerMinutes(), v.BytesPerHours(), v.BytesPerDays()}) for (auto& x : *a) if (s.b(100)) x = big(s);
	}
	// afterwards the servers may be arranged differently
	vector<int> order; for (size_t i = 0; i < ss.size(); i++) order.push_back((int)i);
	bool arranged = s.b(300); if (arranged) s.shuffle(order);
	bool removed = arranged && order.size() > 1 && s.b(300); if (removed) order.pop_back();
	id = 0; for (int o : order) sv2.push_back(server(++id, ss[o].name, ss[o].host, ss[o].port, ss[o].user));
	vol2.resize(order.size() + 1);
	PBT_CHECK(g_DiskState->SaveStats(&sv, &vol), "statistics not saved");
	bool perfect = false;
	PBT_CHECK(g_DiskState->LoadStats(&sv2, &vol2, &perfect), "saved statistics could not be loaded");
	string sl; for (auto& x : ss) sl += pbt::show(x.name) + "@" + pbt::show(x.host) + ":" + std::to_string(x.port) + "/" + pbt::show(x.user) + " ";
	PBT_CHECK(perfect == !removed, "servers %s are%s the same, but reported as%s", sl.c_str(), removed ? " not" : "", perfect ? " same" : " changed");
	auto dump = [](Out& o, ServerVolume& v) {
		o.i("first day", v.GetFirstDay()); o.i("data time", v.GetDataTime()); o.i("custom time", v.GetCustomTime()); o.i("total", v.GetTotalBytes()); o.i("custom", v.GetCustomBytes());
		for (auto* a : {v.BytesPerSeconds(), v.BytesPerMinutes(), v.BytesPerHours(), v.BytesPerDays()}) { o.i("slots", a->size()); for (auto& x : *a) o.i("bytes", x); }
	};
	Out a{{}, false, "", true}, b{{}, false, "", false};
	dump(a, vol[0]); dump(b, vol2[0]);
	for (size_t i = 0; i < order.size(); i++) { a.i("server", i + 1); b.i("server", i + 1); dump(a, vol[order[i] + 1]); dump(b, vol2[i + 1]); }
	compare("statistics", a.d, b.d);
	info.label("statistics"); if (arranged) info.label("servers rearranged"); info.nontrivial = true; info.sample = pbt::fmt("%d servers%s", (int)ss.size(), arranged ? ", rearranged" : "");
}

static void logCase(pbt::Src& s, pbt::Info& info)
{
	clean();
	struct M { int k; string t; }; vector<M> ms;
	int id = (int)s.range(1, 100000);
	s.repeat(0, 6, 700, [&] { string t = txt(s); if (t.size() > 1000) t.resize(1000); ms.push_back({(int)s.n(4), t}); });
	for (auto& m : ms) g_DiskState->AppendNzbMessage(id, (Message::EKind)m.k, m.t.c_str());
	MessageList l; g_DiskState->LoadNzbMessages(id, &l);
	Out a{{}, false, "", false}, b{{}, false, "", false}; int k = 0;
	auto trim = [](string t) { for (auto& c : t) if (c == '\n' || c == '\r' || c == '\t') c = ' '; while (!t.empty() && strchr(" \t\r\n", t.back())) t.pop_back(); return t; };
	for (auto& m : ms) { a.i("message", ++k); a.i("kind", m.k); a.t("text", trim(m.t).c_str()); }
	for (Message& m : l) { b.i("message", m.GetId()); b.i("kind", m.GetKind()); b.t("text", trim(m.GetText()).c_str()); }
	compare("item log", a.d, b.d);
	info.label("item log"); info.nontrivial = !ms.empty(); info.sample = pbt::fmt("%d messages", (int)ms.size());
}

void pbt_case(pbt::Src& s, pbt::Info& info)
{
	switch (s.weighted({10, 2, 2, 1}))
	{
		case 0: queueCase(s, info); break;
		case 1: feedCase(s, info); break;
		case 2: statCase(s, info); break;
		default: logCase(s, info); break;
	}
}
