// Queue, history, feeds and statistics: generators and textual dumps (C09, C10).
#pragma once
#include "world.h"
#include "pbt.h"
using std::string; using std::vector;
typedef vector<string> Dump;

struct Queue : public DownloadQueue
{
	bool EditEntry(int, EEditAction, const char*) override { return false; }
	bool EditList(IdList*, NameList*, EMatchMode, EEditAction, const char*) override { return false; }
	void HistoryChanged() override {}
	void Save() override {}
	void SaveChanged() override {}
	static void use(Queue* q) { Init(q); }
	static void unuse() { Final(); }
};
// line-based files: line breaks in text come back as blanks
static string norm(const char* t) { if (!t) return "(null)"; string r; for (; *t; t++) r += *t == '\n' || *t == '\r' ? ' ' : *t; return r; }
static const char* raw(const char* t) { return t ? t : "(null)"; }

struct Out
{
	Dump d; bool keep; string pre; bool expect;
	void i(const char* n, long long v) { d.push_back(pre + n + " " + std::to_string(v)); }
	void t(const char* n, const char* v) { d.push_back(pre + n + " " + (expect ? norm(v) : string(raw(v)))); }
	void e(const char* n, const char* v) { t(n, v ? v : ""); } // null and empty are the same
};

typedef std::map<int, int> IdMap; // server id when saved -> after loading (0: gone)
static void stats(Out& o, const char* n, ServerStatList* l, const IdMap* m)
{
	std::map<int, std::pair<int, int>> r;
	for (ServerStat& s : l) { int id = s.GetServerId(); if (m) { auto it = m->find(id); id = it == m->end() ? 0 : it->second; } if (id) r[id] = {s.GetSuccessArticles(), s.GetFailedArticles()}; }
	for (auto& x : r) o.d.push_back(o.pre + n + pbt::fmt(" server %d: %d %d", x.first, x.second.first, x.second.second));
}
static void file(Out& o, FileInfo* f, bool state)
{
	o.i("file", f->GetId()); o.t("subject", f->GetSubject()); o.t("filename", f->GetFilename()); o.e("origname", f->GetOrigname());
	o.i("confirmed", f->GetFilenameConfirmed()); o.i("time", f->GetTime()); o.i("size", f->GetSize()); o.i("missed size", f->GetMissedSize());
	o.i("remaining", f->GetRemainingSize());
	o.i("par", f->GetParFile()); o.i("articles", f->GetTotalArticles()); o.i("missed articles", f->GetMissedArticles());
	o.i("paused", f->GetPaused()); o.i("extra priority", f->GetExtraPriority());
	for (CString& g : f->GetGroups()) o.t("group", g);
}
static void fileState(Out& o, FileInfo* f, const IdMap* m)
{
	o.i("state of", f->GetId()); o.i("success articles", f->GetSuccessArticles()); o.i("failed articles", f->GetFailedArticles()); o.i("remaining", f->GetRemainingSize());
	o.i("success size", f->GetSuccessSize()); o.i("failed size", f->GetFailedSize()); o.t("filename", f->GetFilename()); o.e("hash16k", f->GetHash16k()); o.e("set id", f->GetParSetId()); o.i("par", f->GetParFile());
	stats(o, "file", f->GetServerStats(), m);
}
static void nzb(Out& o, NzbInfo* n, const IdMap* m, bool files = true)
{
	o.i("nzb", n->GetId()); o.i("kind", n->GetKind()); o.t("url", n->GetUrl()); o.t("filename", n->GetFilename()); o.t("destdir", n->GetDestDir()); o.t("finaldir", n->GetFinalDir());
	o.t("queued", n->GetQueuedFilename()); o.t("name", n->GetName()); o.t("category", n->GetCategory()); o.i("priority", n->GetPriority());
	o.i("stage", n->GetPostInfo() ? (int)n->GetPostInfo()->GetStage() : -1);
	if (n->GetPostInfo()) { o.i("force par full", n->GetPostInfo()->GetForceParFull()); o.i("force repair", n->GetPostInfo()->GetForceRepair()); }
	o.i("delete paused", n->GetDeletePaused()); o.i("many dupe files", n->GetManyDupeFiles()); o.i("feed", n->GetFeedId());
	o.i("par status", n->GetParStatus()); o.i("unpack", n->GetUnpackStatus()); o.i("move", n->GetMoveStatus()); o.i("par rename", n->GetParRenameStatus()); o.i("rar rename", n->GetRarRenameStatus());
	o.i("direct rename", n->GetDirectRenameStatus()); o.i("delete", n->GetDeleteStatus()); o.i("mark", n->GetMarkStatus());
	int us = n->GetUrlStatus(); if (o.expect && n->GetKind() == NzbInfo::nkUrl && us < NzbInfo::lsFailed) us = 0; // an interrupted URL download starts again
	o.i("url status", us);
	o.i("cleaned up", n->GetUnpackCleanedUpDisk()); o.i("health paused", n->GetHealthPaused()); o.i("add url paused", n->GetAddUrlPaused());
	o.i("files", n->GetFileCount()); o.i("parked", n->GetParkedFileCount()); o.i("messages", n->GetMessageCount()); o.i("min time", n->GetMinTime()); o.i("max time", n->GetMaxTime());
	o.i("par full", n->GetParFull()); o.i("extra blocks", n->GetExtraParBlocks()); o.i("full hash", n->GetFullContentHash()); o.i("filtered hash", n->GetFilteredContentHash());
	o.i("size", n->GetSize()); o.i("success", n->GetSuccessSize()); o.i("failed", n->GetFailedSize()); o.i("par size", n->GetParSize()); o.i("par success", n->GetParSuccessSize()); o.i("par failed", n->GetParFailedSize());
	o.i("articles", n->GetTotalArticles()); o.i("success articles", n->GetSuccessArticles()); o.i("failed articles", n->GetFailedArticles());
	o.t("dupe key", n->GetDupeKey()); o.i("dupe mode", n->GetDupeMode()); o.i("dupe score", n->GetDupeScore()); o.i("dupe hint", n->GetDupeHint());
	o.i("downloaded", n->GetDownloadedSize()); o.i("download sec", n->GetDownloadSec()); o.i("post sec", n->GetPostTotalSec()); o.i("par sec", n->GetParSec()); o.i("repair sec", n->GetRepairSec()); o.i("unpack sec", n->GetUnpackSec());
	for (CompletedFile& c : n->GetCompletedFiles())
	{
		o.i("completed", c.GetId()); o.t(" name", c.GetFilename()); o.e(" orig", c.GetOrigname()); o.i(" status", c.GetStatus()); o.i(" crc", c.GetCrc()); o.i(" par", c.GetParFile());
		o.e(" hash", c.GetHash16k()); o.e(" set", c.GetParSetId());
	}
	for (NzbParameter& p : n->GetParameters()) { o.t("param", p.GetName()); o.t(" value", p.GetValue()); }
	for (ScriptStatus& s : n->GetScriptStatuses()) { o.t("script", s.GetName()); o.i(" status", s.GetStatus()); }
	stats(o, "stat", n->GetServerStats(), m);
	// totals
	o.i("remaining", n->GetRemainingSize()); o.i("paused files", n->GetPausedFileCount()); o.i("paused size", n->GetPausedSize()); o.i("remaining par", n->GetRemainingParCount());
	o.i("current success articles", n->GetCurrentSuccessArticles()); o.i("current failed articles", n->GetCurrentFailedArticles()); o.i("current success size", n->GetCurrentSuccessSize()); o.i("current failed size", n->GetCurrentFailedSize());
	o.i("par current success", n->GetParCurrentSuccessSize()); o.i("par current failed", n->GetParCurrentFailedSize()); o.i("extra", n->GetExtraPriority());
	stats(o, "current stat", n->GetCurrentServerStats(), m);
	if (files) for (FileInfo* f : n->GetFileList()) if (!o.expect || !f->GetDeleted()) file(o, f, true);
}
static void history(Out& o, HistoryInfo* h, const IdMap* m)
{
	o.i("history", h->GetKind()); o.i("time", h->GetTime()); o.i("id", h->GetId());
	if (h->GetKind() == HistoryInfo::hkDup)
	{
		DupInfo* d = h->GetDupInfo(); o.t("name", d->GetName()); o.t("dupe key", d->GetDupeKey()); o.i("score", d->GetDupeScore()); o.i("mode", d->GetDupeMode()); o.i("size", d->GetSize());
		o.i("full", d->GetFullContentHash()); o.i("filtered", d->GetFilteredContentHash()); o.i("status", d->GetStatus());
	}
	else
	{
		NzbInfo* n = h->GetNzbInfo(); nzb(o, n, m, false);
		for (FileInfo* f : n->GetFileList()) { o.i("hfile", f->GetId()); o.i(" paused", f->GetPaused()); o.i(" extra", f->GetExtraPriority()); }
	}
}
static void compare(const char* what, Dump& a, Dump& b)
{
	for (size_t i = 0; i < std::max(a.size(), b.size()); i++)
	{
		string x = i < a.size() ? a[i] : "(nothing)", y = i < b.size() ? b[i] : "(nothing)";
		if (x != y)
		{
			string ctx; for (size_t k = i > 4 ? i - 4 : 0; k < i; k++) ctx += a[k].substr(0, 60) + "; ";
			pbt::fail(pbt::fmt("%s: saved %s (length %d), loaded %s (length %d), after: %s", what, pbt::show(x.substr(0, 300)).c_str(), (int)x.size(), pbt::show(y.substr(0, 300)).c_str(), (int)y.size(), pbt::show(ctx).c_str()));
		}
	}
}

static string txt(pbt::Src& s, bool empty = true)
{
	switch (s.weighted({8, 3, 1, 1, 1, 1}))
	{
		case 0: return s.text("abcXYZ019 ._-", empty ? 0 : 1, 20);
		case 1: return s.text("ab%sn,=:;\"'\\<>&\t/#[](){}$@!~`^*?|+\x01\x1f\x7f", empty ? 0 : 1, 30);
		case 2: return s.text("a\n\r b", 1, 12);
		case 3: return s.text("\xc3\xa4\xe4\xff\x80x", 1, 20);
		case 4: return string(s.num({100, 127, 128, 199, 200, 255, 1000, 1021, 1022, 1023, 1024, 1025, 2047, 3000}), 'z') + s.text("q\n%", 0, 3);
		default: return s.pick({" ", "  x ", "%s%n", "0", "-1", "=", ",", "1,2,3", "nzbget diskstate file version 62", "a=b=c"});
	}
}
static long long big(pbt::Src& s) { return s.num({0, 1, 4096, 0x7fffffffLL, 0x80000000LL, 0xffffffffLL, 0x100000000LL, 0x123456789abLL, 5000000000000LL, -1, (long long)s.n(1000000)}); }
static int num(pbt::Src& s) { return (int)s.num({0, 1, 2, 100, 0x7fffffff, -1, -100, (long long)s.n(100000)}); }
static int tm_(pbt::Src& s) { return (int)s.num({0, 1, 1500000000, 0x7fffffff, 1700000000}); }
static uint32 u32(pbt::Src& s) { return (uint32)s.num({0, 1, 0x7fffffff, 0x80000000LL, 0xffffffffLL, (long long)s.n(0xffffffff)}); }
static string hex(pbt::Src& s) { return s.b() ? "" : s.text("0123456789abcdef", 32, 32); }

static void genStats(pbt::Src& s, ServerStatList* l, int servers) { for (int i = 1; i <= servers; i++) if (s.b(500)) l->StatOp(i, num(s), num(s), ServerStatList::soSet); }

static void fillNzb(pbt::Src& s, NzbInfo* n, int servers, bool queue)
{
	n->SetKind(s.b(150) ? NzbInfo::nkUrl : NzbInfo::nkNzb);
	if (s.b(300)) n->SetUrl(txt(s).c_str());
	n->SetFilename(txt(s).c_str()); n->SetName(txt(s, false).c_str()); n->SetDestDir(txt(s).c_str()); n->SetFinalDir(txt(s).c_str()); n->SetQueuedFilename(txt(s).c_str()); n->SetCategory(txt(s).c_str());
	n->SetPriority(num(s)); n->SetDeletePaused(s.b()); n->SetManyDupeFiles(s.b()); n->SetFeedId(num(s));
	if (queue && s.b(300)) { n->EnterPostProcess(); n->GetPostInfo()->SetStage((PostInfo::EStage)s.n(PostInfo::ptFinished)); n->GetPostInfo()->SetForceParFull(s.b()); n->GetPostInfo()->SetForceRepair(s.b()); }
	n->SetParStatus((NzbInfo::EParStatus)s.n(5)); n->SetUnpackStatus((NzbInfo::EPostUnpackStatus)s.n(5)); n->SetMoveStatus((NzbInfo::EMoveStatus)s.n(2)); n->SetParRenameStatus((NzbInfo::EPostRenameStatus)s.n(3));
	n->SetRarRenameStatus((NzbInfo::EPostRenameStatus)s.n(3)); n->SetDirectRenameStatus((NzbInfo::EDirectRenameStatus)s.n(3)); n->SetDeleteStatus((NzbInfo::EDeleteStatus)s.n(7)); n->SetMarkStatus((NzbInfo::EMarkStatus)s.n(3));
	n->SetUrlStatus((NzbInfo::EUrlStatus)s.n(6)); n->SetUnpackCleanedUpDisk(s.b()); n->SetHealthPaused(s.b()); n->SetAddUrlPaused(s.b()); n->SetFileCount(num(s)); n->SetParkedFileCount(num(s)); n->SetMessageCount(num(s));
	n->SetMinTime(tm_(s)); n->SetMaxTime(tm_(s)); n->SetParFull(s.b()); n->SetExtraParBlocks(num(s)); n->SetFullContentHash(u32(s)); n->SetFilteredContentHash(u32(s));
	n->SetSize(big(s)); n->SetSuccessSize(big(s)); n->SetFailedSize(big(s)); n->SetParSize(big(s)); n->SetParSuccessSize(big(s)); n->SetParFailedSize(big(s));
	n->SetTotalArticles(num(s)); n->SetSuccessArticles(num(s)); n->SetFailedArticles(num(s)); n->SetDupeKey(txt(s).c_str()); n->SetDupeMode((EDupeMode)s.n(2)); n->SetDupeScore(num(s)); n->SetDupeHint((NzbInfo::EDupeHint)s.n(2));
	n->SetDownloadedSize(big(s)); n->SetDownloadSec(num(s)); n->SetPostTotalSec(num(s)); n->SetParSec(num(s)); n->SetRepairSec(num(s)); n->SetUnpackSec(num(s));
	s.repeat(0, 3, 500, [&] {
		string o = s.b() ? txt(s) : "", h = hex(s), p = hex(s);
		n->GetCompletedFiles()->emplace_back((int)s.n(100000), txt(s).c_str(), o.empty() ? nullptr : o.c_str(), (CompletedFile::EStatus)s.n(3), u32(s), s.b(), h.empty() ? nullptr : h.c_str(), p.empty() ? nullptr : p.c_str());
	});
	s.repeat(0, 3, 500, [&] { string k = txt(s, false), v = txt(s, false); for (auto& c : k) if (c == '=' || c == '\n' || c == '\r') c = '-'; n->GetParameters()->SetParameter(k.c_str(), v.c_str()); });
	s.repeat(0, 2, 500, [&] { n->GetScriptStatuses()->emplace_back(txt(s, false).c_str(), (ScriptStatus::EStatus)s.n(2)); });
	genStats(s, n->GetServerStats(), servers);
}
static std::unique_ptr<FileInfo> genFile(pbt::Src& s, NzbInfo* n, int servers)
{
	auto f = std::make_unique<FileInfo>();
	f->SetSubject(txt(s).c_str()); f->SetFilename(txt(s).c_str()); string o = s.b() ? txt(s, false) : ""; f->SetOrigname(o.empty() ? nullptr : o.c_str());
	f->SetFilenameConfirmed(s.b()); f->SetTime(tm_(s)); f->SetSize(big(s)); f->SetMissedSize(s.n(100000)); f->SetRemainingSize(f->GetSize() - f->GetMissedSize());
	f->SetParFile(s.b(300)); f->SetTotalArticles(num(s)); f->SetMissedArticles(num(s));
	s.repeat(0, 3, 500, [&] { f->GetGroups()->push_back(txt(s).c_str()); });
	int k = 0;
	s.repeat(0, 5, 700, [&] { auto a = std::make_unique<ArticleInfo>(); a->SetPartNumber(s.b(800) ? ++k : num(s)); a->SetSize(num(s)); a->SetMessageId(txt(s).c_str()); f->GetArticles()->push_back(std::move(a)); });
	f->SetNzbInfo(n); f->SetPaused(s.b(300)); f->SetExtraPriority(s.b(300));
	return f;
}
// what a partly downloaded file has in addition
static void genState(pbt::Src& s, FileInfo* f, int servers, bool completed)
{
	f->SetSuccessArticles((int)s.n(1000)); f->SetFailedArticles((int)s.n(1000)); f->SetRemainingSize(big(s)); f->SetSuccessSize(big(s)); f->SetFailedSize(big(s));
	string h = hex(s), p = hex(s); f->SetHash16k(h.empty() ? nullptr : h.c_str()); f->SetParSetId(p.empty() ? nullptr : p.c_str());
	genStats(s, f->GetServerStats(), servers);
	if (s.b(200)) f->SetFilename(txt(s).c_str());
	if (s.b(200)) f->SetParFile(s.b());
	size_t open = completed || f->GetArticles()->empty() ? SIZE_MAX : s.n(f->GetArticles()->size() - 1), i = 0;
	for (auto& a : *f->GetArticles())
	{
		a->SetStatus((ArticleInfo::EStatus)s.n(3)); if (i++ == open) a->SetStatus(ArticleInfo::aiUndefined);
		a->SetSegmentOffset(llabs(big(s))); a->SetSegmentSize((int)s.n(1000000)); a->SetCrc(u32(s));
	}
}
static void articles(Out& o, FileInfo* f, bool state)
{
	for (auto& a : *f->GetArticles())
	{
		o.i("article", a->GetPartNumber()); o.i(" size", a->GetSize()); o.t(" id", a->GetMessageId());
		if (state)
		{
			o.i(" status", a->GetStatus() == ArticleInfo::aiRunning ? ArticleInfo::aiUndefined : a->GetStatus());
			o.i(" offset", a->GetSegmentOffset()); o.i(" segment", a->GetSegmentSize()); o.i(" crc", a->GetCrc());
		}
	}
}

static std::unique_ptr<NewsServer> server(int id, const string& name, const string& host, int port, const string& user)
{
	return std::make_unique<NewsServer>(id, true, name.c_str(), host.c_str(), port, 0, user.c_str(), "", false, false, "", 1, 0, 0, 0, false);
}

