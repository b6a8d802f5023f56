// C08: NZB files are read faithfully and hostile ones are harmless.
#include "world.h"
#include "NzbFile.h"
#include "pbt.h"
#include "ref.h"
using std::string; using std::vector;

void pbt_setup() { new World({"InfoTarget=none", "WarningTarget=none", "ErrorTarget=none", "DetailTarget=none", "ParIgnoreExt=.sfv, .nzb, .nfo"}); }

struct Seg { int64_t num, bytes; string id; };
struct File { bool hasSubject = true; string subject, quoted, date; vector<string> groups; vector<Seg> segs; };

static string esc(pbt::Src& s, const string& t, bool attr)
{
	string r;
	for (unsigned char c : t)
	{
		if (c == '<') r += s.b() ? "&#60;" : "&lt;";
		else if (c == '&') r += s.b() ? "&#x26;" : "&amp;";
		else if (c == '"' || c == '\'') r += c == '"' ? (s.b() ? "&quot;" : "&#34;") : "&apos;";
		else if (c == '>') r += "&gt;";
		else if (attr && (c == '\t' || c == '\n')) r += pbt::fmt("&#%d;", c);
		else if (c > 32 && c < 127 && s.b(20)) r += pbt::fmt(s.b() ? "&#%d;" : "&#x%x;", c);
		else r += (char)c;
	}
	return r;
}
static string content(pbt::Src& s, const string& t)
{
	if (s.b(60) && t.find("]]>") == string::npos) return "<![CDATA[" + t + "]]>";
	string r = esc(s, t, false);
	if (s.b(60)) r = s.pick({" ", "\n\t", "\r\n  "}) + r;
	if (s.b(60)) r += s.pick({" ", "\n", "\t\t"});
	return r;
}
static string attrs(pbt::Src& s, vector<std::pair<string, string>> a)
{
	if (s.b(100)) a.push_back({s.pick({"posted", "x", "xml:lang"}), s.text("ab <@\"&", 0, 6)});
	if (s.b(200)) s.shuffle(a);
	string r;
	for (auto& x : a)
	{
		char q = s.b(100) ? '\'' : '"';
		r += (s.b(50) ? "\n " : " ") + x.first + "=" + q + esc(s, x.second, true) + q;
	}
	return r;
}
static string ws(pbt::Src& s) { return s.b(100) ? "<!-- <segment number=\"1\"> -->\n" : s.b(300) ? s.pick({"", " ", "\r\n", "\n\n\t"}) : "\n"; }

static string render(pbt::Src& s, const vector<File>& files, const string& password)
{
	string r;
	if (!s.b(150)) r += s.pick({"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0'?>", "<?xml version=\"1.0\" encoding=\"utf-8\" ?>\r\n"});
	if (s.b(400)) r += "<!DOCTYPE nzb PUBLIC \"-//newzBin//DTD NZB 1.1//EN\" \"http://www.newzbin.com/DTD/nzb/nzb-1.1.dtd\">\n";
	r += s.b(300) ? "<nzb>" : "<nzb xmlns=\"http://www.newzbin.com/DTD/2003/nzb\">";
	r += ws(s);
	if (password.size() || s.b(200))
	{
		r += "<head>" + ws(s);
		if (s.b(300)) r += "<meta type=\"title\">" + content(s, "A &title") + "</meta>";
		if (password.size()) { string p; for (char c : password) p += c == '<' ? "&lt;" : c == '&' ? "&amp;" : c == '>' ? "&gt;" : string(1, c); r += "<meta type=\"password\">" + p + "</meta>"; }
		if (s.b(300)) r += "<meta type=\"category\">TV</meta>" + ws(s);
		r += "</head>" + ws(s);
	}
	for (auto& f : files)
	{
		vector<std::pair<string, string>> a;
		a.push_back({"poster", "Me &lt; <me@x>"});
		if (f.date.size()) a.push_back({"date", f.date});
		if (f.hasSubject) a.push_back({"subject", f.subject});
		r += "<file" + attrs(s, a) + ">" + ws(s);
		string g = "<groups>" + ws(s), e = "<segments>" + ws(s);
		for (auto& x : f.groups) g += "<group>" + content(s, x) + "</group>" + ws(s);
		for (auto& x : f.segs) e += "<segment" + attrs(s, {{"bytes", std::to_string(x.bytes)}, {"number", std::to_string(x.num)}}) + ">" + content(s, x.id) + "</segment>" + ws(s);
		g += "</groups>" + ws(s); e += "</segments>" + ws(s);
		r += s.b(150) ? e + g : g + e;
		r += "</file>" + ws(s);
	}
	return r + "</nzb>" + (s.b() ? "\n" : "");
}

static string sanitize(string n)
{
	for (auto& c : n) if (strchr("\"*:<>?|/\\", c) || (unsigned char)c < 32) c = '_';
	while (n.size() && (n.back() == '.' || n.back() == ' ')) n.pop_back();
	for (const char* d : {"CON", "PRN", "AUX", "NUL", "COM1", "COM2", "COM3", "COM4", "COM5", "COM6", "COM7", "COM8", "COM9", "LPT1", "LPT2", "LPT3", "LPT4", "LPT5", "LPT6", "LPT7", "LPT8", "LPT9"})
	{
		string l = ref::lower(n), k = ref::lower(d);
		if (l == k || l.compare(0, k.size() + 1, k + ".") == 0) return "_" + n;
	}
	return n;
}

static bool parseDoc(const string& doc, std::unique_ptr<NzbInfo>& out, string* password = nullptr)
{
	FILE* f = fopen("c08.nzb", "wb"); fwrite(doc.data(), 1, doc.size(), f); fclose(f);
	NzbFile nf("c08.nzb", "");
	bool ok = nf.Parse();
	if (password) *password = nf.GetPassword() ? nf.GetPassword() : "";
	out = nf.DetachNzbInfo();
	return ok;
}

// what must hold for any accepted document
static void consistent(NzbInfo* n, const string& doc)
{
	auto d = [&] { return pbt::show(doc, 3000); };
	PBT_CHECK(!n->GetFileList()->empty(), "accepted without files: %s", d().c_str());
	int64_t size = 0, rem = 0, failed = 0, par = 0, parFailed = 0; int tot = 0, miss = 0, pars = 0;
	for (FileInfo* f : n->GetFileList())
	{
		string fn = f->GetFilename() ? f->GetFilename() : "";
		PBT_CHECK(fn.size() && fn != "." && fn != "..", "unusable file name %s from subject %s in %s", pbt::show(fn).c_str(), pbt::show(f->GetSubject()).c_str(), d().c_str());
		for (char c : fn) PBT_CHECK(!strchr("\"*:<>?|/\\", c) && (unsigned char)c >= 32, "reserved character in file name %s in %s", pbt::show(fn).c_str(), d().c_str());
		PBT_CHECK(!f->GetArticles()->empty(), "file without articles kept: %s", d().c_str());
		int64_t sum = 0; int last = 0, cnt = 0;
		for (ArticleInfo* a : f->GetArticles())
		{
			PBT_CHECK(a && a->GetMessageId(), "article without message id: %s", d().c_str());
			PBT_CHECK(a->GetSize() >= 0, "negative article size: %s", d().c_str());
			PBT_CHECK(a->GetPartNumber() > last, "articles out of order: %s", d().c_str());
			last = a->GetPartNumber(); cnt++; sum += a->GetSize();
		}
		PBT_CHECK(f->GetTotalArticles() == last && f->GetMissedArticles() == last - cnt, "articles total %d missed %d, highest part %d, present %d: %s",
			f->GetTotalArticles(), f->GetMissedArticles(), last, cnt, d().c_str());
		PBT_CHECK(f->GetRemainingSize() == sum && f->GetSize() == sum + f->GetMissedSize() && f->GetMissedSize() >= 0, "file sizes %lld %lld %lld sum %lld: %s",
			(long long)f->GetSize(), (long long)f->GetRemainingSize(), (long long)f->GetMissedSize(), (long long)sum, d().c_str());
		bool isPar = ref::lower(fn).find(".par2") != string::npos;
		if (fn.size() > 1000) isPar = f->GetParFile();
		PBT_CHECK(f->GetParFile() == isPar, "par flag of %s", fn.c_str());
		size += f->GetSize(); rem += sum; failed += f->GetMissedSize(); tot += last; miss += last - cnt;
		if (isPar) { par += f->GetSize(); parFailed += f->GetMissedSize(); pars++; }
	}
	PBT_CHECK(n->GetFileCount() == (int)n->GetFileList()->size() && n->GetTotalArticles() == tot && n->GetFailedArticles() == miss && n->GetCurrentFailedArticles() == miss &&
		n->GetSize() == size && n->GetRemainingSize() == rem && n->GetFailedSize() == failed && n->GetCurrentFailedSize() == failed && n->GetParSize() == par &&
		n->GetParFailedSize() == parFailed && n->GetParCurrentFailedSize() == parFailed && n->GetRemainingParCount() == pars,
		"item totals do not agree with the files (files %d articles %d failed %d size %lld remaining %lld failed %lld par %lld parfailed %lld parcount %d): %s", n->GetFileCount(), n->GetTotalArticles(), n->GetFailedArticles(),
		(long long)n->GetSize(), (long long)n->GetRemainingSize(), (long long)n->GetFailedSize(), (long long)n->GetParSize(), (long long)n->GetParFailedSize(), n->GetRemainingParCount(), d().c_str());
}

static string utf8(pbt::Src& s) { return s.pick({"\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xd0\x96", "\xe4\xb8\xad"}); }
static string fname(pbt::Src& s)
{
	string r;
	switch (s.weighted({6, 2, 1}))
	{
		case 0: r = s.pick({"movie", "My.Show.S01E02", "a", "file 1", "vol", "x-y_z"}); break;
		case 1: r = s.text("abcXYZ019.-_ ()[]+&'<", 1, 20); break;
		case 2: s.repeat(1, 6, 600, [&] { r += s.b() ? utf8(s) : s.pick({"a", "..", "/", "\\", ":", "*", "CON", "nul", " ", "%", "\x01""b"}); }); if (r.find('\x01') != string::npos) r = "b"; break;
	}
	if (!s.b(80)) r += s.pick({".rar", ".r00", ".part01.rar", ".par2", ".vol03+04.PAR2", ".nfo", ".sfv", ".nzb", ".mkv", ".7z.001"});
	return r;
}
static File genFile(pbt::Src& s, int idx)
{
	File f;
	string n = fname(s); int k = (int)s.range(1, 99);
	switch (s.weighted({8, 2, 2, 2, 1, 1}))
	{
		case 0: f.quoted = n; f.subject = pbt::fmt("%s\"%s\"%s yEnc (%d/%d)", s.pick({"", "[12/34] - ", "Some.Post (1/2) ", "title "}), n.c_str(), s.pick({"", " - 1.5 MB", " [x]"}), 1, k); break;
		case 1: f.subject = n + pbt::fmt(" (%d/%d)", 1, k); break;
		case 2: f.subject = "[" + n + "] " + s.pick({"\"part\"", "\"a b.c d\"", "\"\"", "\""}) + " yEnc (1/" + std::to_string(k) + ")"; break;
		case 3: s.repeat(0, 12, 850, [&] { f.subject += s.pick({"\"", " ", ".", "a", "yEnc (1/2)", "(1/2)", ")", "/", "1", "\"x.y\"", "  ", "\t", ".rar", "..", "\xc3\xa4"}); }); break;
		case 4: f.hasSubject = false; break;
		case 5: f.subject = string(s.range(1000, 1100), 'a') + " \"" + n + "\" yEnc (1/3)"; break;
	}
	if (f.hasSubject && s.b(200)) { f.subject = std::to_string(idx) + " " + f.subject; if (f.quoted.empty() == false && f.quoted[0] == '.') f.quoted.clear(); }
	if (f.subject.empty()) f.hasSubject = false;
	if (!s.b(60)) f.date = std::to_string(s.num({1500000000, 0, 1, 1234567890, 2147483647}));
	s.repeat(0, 4, 600, [&] { f.groups.push_back(s.b(100) ? s.text("ab. &<", 1, 8) : "alt.binaries." + s.text("abc.-", 1, 8)); });
	for (auto& g : f.groups) { while (g.size() && g[0] == ' ') g.erase(0, 1); while (g.size() && g.back() == ' ') g.pop_back(); if (g.empty()) g = "x"; }
	int parts = (int)s.size(1, 40); int64_t base = s.num({500000, 1, 700001, 2000000000, 0});
	for (int i = 1; i <= parts; i++)
	{
		if (s.b(80)) continue; // absent
		Seg g; g.num = i; g.bytes = i == parts && base > 1 ? base / 2 : s.b(50) ? (int64_t)s.n(800000) : base;
		g.id = s.b(900) ? pbt::fmt("%d.%d.%x@host", idx, i, (unsigned)s.n(0xffff)) : s.text("ab$&<>\"'@.%{}", 1, 20) + pbt::fmt("%d.%d", idx, i);
		if (s.b(5)) g.id += string(s.range(280, 900), 'q');
		f.segs.push_back(g);
	}
	if (s.b(40)) f.segs.push_back({s.num({0, -1, -5}), 100, "zero@x"});
	if (s.b(20)) f.segs.push_back({(int64_t)s.range(41, 20000), 1000, "far@x"});
	if (s.b(200)) s.shuffle(f.segs);
	return f;
}

static uint32_t prefixHash(NzbInfo* n) { return n->GetFullContentHash(); }

static void wellformed(pbt::Src& s, pbt::Info& info)
{
	vector<File> files;
	s.repeat(1, 8, 750, [&] { files.push_back(genFile(s, (int)files.size())); });
	string password = s.b(150) ? s.text("ab \t<&>;'\"#", 1, 12) : "";
	while (password.size() && isspace((unsigned char)password[0])) password.erase(0, 1);
	while (password.size() && isspace((unsigned char)password.back())) password.pop_back();
	string doc = render(s, files, password);
	std::unique_ptr<NzbInfo> n; string pw;
	bool ok = parseDoc(doc, n, &pw);
	auto d = [&] { return pbt::show(doc, 4000); };
	vector<File> exp;
	for (auto f : files)
	{
		std::map<int64_t, Seg> m;
		for (auto& g : f.segs) if (g.num > 0) m[g.num] = g;
		f.segs.clear(); for (auto& x : m) f.segs.push_back(x.second);
		if (f.segs.size()) exp.push_back(f);
	}
	info.label(exp.empty() ? "no files" : "well-formed");
	info.nontrivial = exp.size() > 0; info.steps = files.size();
	if (info.nontrivial) info.sample = doc.substr(0, 800);
	if (exp.empty()) { PBT_CHECK(!ok, "document without usable files accepted: %s", d().c_str()); return; }
	PBT_CHECK(ok, "well-formed document refused: %s", d().c_str());
	consistent(n.get(), doc);
	PBT_CHECK(n->GetFileList()->size() == exp.size(), "%d files read, %d written: %s", (int)n->GetFileList()->size(), (int)exp.size(), d().c_str());
	if (password.size() && doc.find("password") < 3000) PBT_CHECK(pw == password, "password %s read as %s: %s", pbt::show(password).c_str(), pbt::show(pw).c_str(), d().c_str());
	std::map<string, int> names; bool dup = false;
	for (auto& f : exp) if (f.quoted.size()) { if (names[f.quoted]++) dup = true; } else dup = true;
	bool missing = false; int64_t tmin = 0, tmax = 0;
	for (size_t i = 0; i < exp.size(); i++)
	{
		FileInfo* f = n->GetFileList()->at(i).get(); File& e = exp[i];
		if (e.hasSubject) PBT_CHECK(e.subject == (f->GetSubject() ? f->GetSubject() : ""), "subject %s read as %s", pbt::show(e.subject).c_str(), pbt::show(f->GetSubject()).c_str());
		PBT_CHECK(f->GetTime() == (time_t)atoll(e.date.c_str()), "date %s read as %lld", e.date.c_str(), (long long)f->GetTime());
		time_t t = f->GetTime(); if (t > 0 || i == 0) { if (i == 0) tmin = tmax = t; else { if (t < tmin) tmin = t; if (t > tmax) tmax = t; } }
		PBT_CHECK(f->GetGroups()->size() == e.groups.size(), "%d groups of %d: %s", (int)f->GetGroups()->size(), (int)e.groups.size(), d().c_str());
		for (size_t k = 0; k < e.groups.size(); k++) PBT_CHECK(e.groups[k] == (*f->GetGroups())[k].Str(), "group %s read as %s: %s", pbt::show(e.groups[k]).c_str(), pbt::show((*f->GetGroups())[k].Str()).c_str(), d().c_str());
		PBT_CHECK(f->GetArticles()->size() == e.segs.size(), "file %d: %d articles of %d: %s", (int)i, (int)f->GetArticles()->size(), (int)e.segs.size(), d().c_str());
		int64_t lo = INT64_MAX, hi = 0;
		for (size_t k = 0; k < e.segs.size(); k++)
		{
			ArticleInfo* a = (*f->GetArticles())[k].get();
			PBT_CHECK(a->GetPartNumber() == e.segs[k].num && a->GetSize() == e.segs[k].bytes && "<" + e.segs[k].id + ">" == a->GetMessageId(),
				"part %d size %d id %s, expected %lld %lld %s: %s", a->GetPartNumber(), a->GetSize(), a->GetMessageId(), (long long)e.segs[k].num, (long long)e.segs[k].bytes, e.segs[k].id.c_str(), d().c_str());
			lo = std::min(lo, e.segs[k].bytes); hi = std::max(hi, e.segs[k].bytes);
		}
		int64_t m = f->GetMissedArticles(); missing |= m > 0;
		PBT_CHECK(f->GetMissedSize() >= m * lo && f->GetMissedSize() <= m * hi, "size of %lld absent articles estimated as %lld, known sizes are %lld..%lld", (long long)m, (long long)f->GetMissedSize(), (long long)lo, (long long)hi);
		if (!dup && e.subject.size() < 1000 && e.quoted.find('.') != string::npos && e.quoted.find('.') > 0 && e.quoted.find('"') == string::npos && e.hasSubject)
		{
			string want = sanitize(e.quoted);
			if (want.size()) { info.label("name checked"); PBT_CHECK(want == f->GetFilename(), "subject %s: file name %s, expected %s", pbt::show(e.subject).c_str(), pbt::show(f->GetFilename()).c_str(), pbt::show(want).c_str()); }
		}
	}
	if (missing) info.label("absent parts");
	// order of elements does not influence the hashes
	std::set<string> subj; bool distinct = true;
	for (auto& f : files) { if (!f.hasSubject || !subj.insert(f.subject).second) distinct = false; }
	std::set<string> dups; for (auto& f : files) { std::set<int64_t> ns; for (auto& g : f.segs) if (!ns.insert(g.num).second) distinct = false; }
	if (distinct && files.size() > 0 && s.b(600))
	{
		vector<File> f2 = files; s.shuffle(f2);
		for (auto& f : f2) { s.shuffle(f.segs); s.shuffle(f.groups); }
		string doc2 = render(s, f2, password);
		std::unique_ptr<NzbInfo> n2;
		PBT_CHECK(parseDoc(doc2, n2), "reordered document refused: %s", pbt::show(doc2, 4000).c_str());
		PBT_CHECK(n2->GetFullContentHash() == n->GetFullContentHash() && n2->GetFilteredContentHash() == n->GetFilteredContentHash(),
			"content hashes depend on the order of elements: %08x %08x, reordered %08x %08x\n%s\n%s", n->GetFullContentHash(), n->GetFilteredContentHash(), n2->GetFullContentHash(), n2->GetFilteredContentHash(), d().c_str(), pbt::show(doc2, 4000).c_str());
		info.label("reordered");
		if (s.b(300))
		{
			size_t fi = s.n(exp.size() - 1), si = s.n(exp[fi].segs.size() - 1);
			for (auto& f : files) if (f.subject == exp[fi].subject) for (auto& g : f.segs) if (g.num == exp[fi].segs[si].num) g.id += "!";
			std::unique_ptr<NzbInfo> n3; parseDoc(render(s, files, password), n3);
			PBT_CHECK(prefixHash(n3.get()) != prefixHash(n.get()), "full content hash does not depend on message id %s: %s", exp[fi].segs[si].id.c_str(), d().c_str());
			info.label("hash sensitivity");
		}
	}
}

static void hostile(pbt::Src& s, pbt::Info& info)
{
	string doc;
	if (s.b(600) && !s.fuzzing())
	{
		vector<File> files; s.repeat(1, 3, 500, [&] { files.push_back(genFile(s, (int)files.size())); });
		doc = render(s, files, s.b() ? "pw" : "");
		s.repeat(1, 6, 600, [&]
		{
			size_t at = s.n(doc.size()); string ins = s.pick({"<file>", "</file>", "<segment>", "</segment>", "<segment number=\"1\" bytes=\"5\">", "<segment number=\"99999999999\" bytes=\"1\">x</segment>",
				"<segment number=\"2147483647\" bytes=\"7\">x</segment>", "<segment number=\"2000000\" bytes=\"-7\">x</segment>", "<segment number=\"2\" bytes=\"99999999999999999\">x</segment>", "<segment number=\"3\"/>", "<segment bytes=\"3\">x</segment>",
				"<file/>", "<file subject=\"\">", "<group/>", "<groups>", "</groups>", "</segments>", "<segments>", "&foo;", "&#0;", "&", "<!ENTITY a \"b\">", "<meta type=\"password\">", "<meta>", "</meta>", "<", ">", "\"", "\xff\xfe", "]]>", "<![CDATA[", "</nzb>"});
			// tags go between tags most of the time, so that the document stays readable
			if (ins[0] == '<' && s.b(850)) { size_t q = doc.find('>', at); if (q != string::npos) at = q + 1; }
			switch (s.weighted({5, 2, 1, 1}))
			{
				case 0: doc.insert(at, ins); break;
				case 1: { size_t q = doc.find('<', at); if (q == string::npos) break; size_t e = doc.find('>', q); if (e != string::npos) doc.erase(q, e - q + 1); break; }
				case 2: if (at < doc.size()) doc.erase(at, s.n(20)); break;
				case 3: if (at < doc.size()) doc[at] = (char)s.n(255); break;
			}
		});
		if (s.b(100)) doc.resize(s.n(doc.size()));
		info.label("damaged document");
	}
	else
	{
		s.repeat(0, 30, 900, [&] { doc += s.pick({"<nzb>", "</nzb>", "<file>", "</file>", "<file subject=\"a.b\">", "<file subject=\"\" date=\"x\">", "<segments>", "</segments>", "<segment>", "</segment>", "<segment number=\"1\" bytes=\"5\">", "<segment number=\"2\">", "<segment number=\"2147483647\" bytes=\"2147483647\">",
			"<segment number=\"1000000\" bytes=\"5\">", "<group>", "</group>", "text", "<meta type=\"password\">", "</meta>", "<meta>", "<groups>", "</groups>", "&amp;", "&bad;", "<!-- c -->"}); });
		if (s.b(300)) doc = "<nzb>" + doc + "</nzb>";
		if (s.fuzzing()) doc = s.rest();
		info.label("tag soup");
	}
	std::unique_ptr<NzbInfo> n;
	bool ok = parseDoc(doc, n);
	if (ok) { consistent(n.get(), doc); info.label("hostile accepted"); }
	info.nontrivial = doc.size() > 20; info.sample = doc.substr(0, 600);
}

void pbt_case(pbt::Src& s, pbt::Info& i) { if (s.b(350) || s.fuzzing()) hostile(s, i); else wellformed(s, i); }
