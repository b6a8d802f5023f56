// C37: text matching and encoding primitives obey their definitions.
#include "world.h"
#include "pbt.h"
#include "ref.h"

void pbt_setup() { Util::Init(); YEncode::init(); new Log(); }
using std::string; using std::vector; using pbt::show; using pbt::fmt;

static string utf8(uint32_t c)
{
	string r;
	if (c < 0x80) r += (char)c;
	else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
	else { r += (char)(0xf0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
	return r;
}
typedef vector<uint32_t> U;
static string enc(const U& u) { string r; for (auto c : u) r += utf8(c); return r; }
static U unicode(pbt::Src& s, int max, bool ctl)
{
	U u;
	s.repeat(0, max, 900, [&]
	{
		switch (s.weighted({6, 3, 3, 2, 2, 2, 1}))
		{
			case 0: u.push_back((uint32_t)s.range('a', 'z')); break;
			case 1: { static const char k[] = "&<>\"'\\/%;#=?*+ "; u.push_back(k[s.n(sizeof k - 2)]); break; }
			case 2: u.push_back((uint32_t)s.range(0x20, 0x7e)); break;
			case 3: u.push_back((uint32_t)s.range(0x80, 0x7ff)); break;
			case 4: { uint32_t c = (uint32_t)s.range(0x800, 0xfffd); if (c >= 0xd800 && c < 0xe000) c = 0x20ac; u.push_back(c); break; }
			case 5: u.push_back((uint32_t)s.range(0x10000, 0x10ffff)); break;
			default: u.push_back(ctl ? (uint32_t)s.range(1, 0x1f) : (uint32_t)s.num({9, 10, 13, 0x7f})); break;
		}
	});
	return u;
}
// in-place decoders get a buffer of exactly the needed size, so that any access beyond it is seen
static string inplace(void (*f)(char*), const string& t)
{
	std::unique_ptr<char[]> b(new char[t.size() + 1]); memcpy(b.get(), t.c_str(), t.size() + 1);
	f(b.get()); PBT_CHECK(strlen(b.get()) <= t.size(), "result longer than input"); return string(b.get());
}
struct Exact { std::unique_ptr<char[]> b; Exact(const string& t) : b(new char[t.size() + 1]) { memcpy(b.get(), t.data(), t.size()); b[t.size()] = 0; } operator char*() { return b.get(); } };
#define EQ(got, want, ...) do { string g_ = (got), w_ = (want); if (g_ != w_) pbt::fail(fmt(__VA_ARGS__) + ": got " + show(g_, 400) + ", should be " + show(w_, 400)); } while (0)

static string hostile(pbt::Src& s)
{
	string r;
	s.repeat(0, 30, 920, [&] { if (s.b(700)) r += s.pick({"&", "&#", "&#x", "&lt", "&amp;", ";", "%", "%4", "%41", "\\", "\\u", "\\u12", "\\ud83d", "\"", "'", "''", "<", ">", "</", "<a>", "</a>", "<a/>", ":", "://", "@", "/", "http://", "=", "==", "QUJD", "*", "?", "#", "[", "]", "{", "}", ",", " ", "\n", "\x80", "\xc3", "\xe2\x82", "\xf0\x9f", "a", "0", "9"}); else r += (char)s.range(1, 255); });
	return r;
}

void pbt_case(pbt::Src& s, pbt::Info& info)
{
	int kind = s.weighted({10, 4, 5, 6, 6, 6, 5, 3, 8, 6, 4, 3, 4, 2, 3, 4});
	static const char* K[] = {"mask", "file extensions", "command line", "URL", "XML encode", "XML decode", "JSON encode", "base64", "hostile", "strings", "gzip", "dates", "tokens", "latin1", "XML tags", "JSON decode"};
	info.label(K[kind]);
	switch (kind)
	{
		case 0:
		{
			string t = s.text("aabBc1.-", 0, 14), m;
			if (s.b()) m = s.text("aabBc1.**??##", 0, 8);
			else { m = t; s.repeat(1, 5, 600, [&] { size_t i = m.size() ? s.n(m.size() - 1) : 0; switch (s.n(3)) { case 0: m.insert(i, s.pick({"*", "*", "?", "#"})); break; case 1: if (m.size()) m.replace(i, s.range(1, 3), "*"); break; case 2: if (m.size()) m[i] = '?'; break; default: if (m.size()) m[i] = '#'; } }); }
			info.sample = "mask " + m + " text " + t; info.nontrivial = m.find_first_of("*?#") != string::npos && t.size();
			bool pos = s.b(600), want = ref::wild(m, t);
			Exact mb(m), tb(t); WildMask w(mb, pos);
			if (s.b(200)) w.Match("abc.a1"); // a mask object can be used again
			bool got = w.Match(tb);
			PBT_CHECK(got == want, "mask %s text %s: match %d, should be %d", show(m).c_str(), show(t).c_str(), got, want);
			if (got && pos)
			{
				vector<std::pair<int, int>> p; string d; for (int i = 0; i < w.GetMatchCount(); i++) { p.push_back({w.GetMatchStart(i), w.GetMatchLen(i)}); d += fmt(" [%d+%d]", p.back().first, p.back().second); }
				PBT_CHECK(ref::covers(m, t, p), "mask %s text %s: the reported positions%s are not a way in which the mask matches", show(m).c_str(), show(t).c_str(), d.c_str());
			}
			if (want) info.label("mask matches");
			break;
		}
		case 1:
		{
			vector<string> ext; s.repeat(0, 4, 700, [&] { ext.push_back(s.b(600) ? s.pick({".par2", ".nzb", ".NZB", "sample", ".r", ".7z"}) : s.text("a.*?b", 1, 5)); });
			string name = s.text("aAb.", 0, 6) + s.pick({"", ".par2", ".PAR2", ".nzb", "sample.avi", ".r01"}), list;
			string sep = s.pick({",", ";", ",;", " "});
			for (auto& e : ext) list += (list.size() ? string(1, sep[s.n(sep.size() - 1)]) + (s.b() ? " " : "") : string()) + e;
			bool want = false;
			for (auto& e : ref::split(list, sep)) { string x = ref::trim(e); if (x.empty()) continue; if (name.size() >= x.size() && ref::lower(name.substr(name.size() - x.size())) == ref::lower(x)) want = true; if (x.find_first_of("*?") != string::npos && ref::wild(x, name)) want = true; }
			bool got = Util::MatchFileExt(Exact(name), Exact(list), sep.c_str());
			info.sample = name + " in " + list; info.nontrivial = ext.size() && name.size();
			PBT_CHECK(got == want, "file %s, list %s separators %s: match %d, should be %d", show(name).c_str(), show(list).c_str(), show(sep).c_str(), got, want);
			break;
		}
		case 2:
		{
			vector<string> args; string line;
			s.repeat(0, 5, 750, [&] { string a; s.repeat(1, 12, 850, [&] { a += s.b(600) ? string(1, (char)s.range('a', 'z')) : s.b(700) ? string(s.pick({" ", "'", "\"", "\\", "=", "''", "  "})) : string(1, (char)s.range(1, 255)); });
				if (s.b(30)) a += string(s.range(900, 1000), 'x');
				args.push_back(a); });
			for (auto& a : args)
			{
				line += s.b(200) ? "  " : " ";
				if (a.find(' ') == string::npos && a[0] != '\'' && s.b(600)) line += a; // inside a bare word a quote is an ordinary character
				else { line += "'"; for (char c : a) { line += c; if (c == '\'') line += c; } line += "'"; }
			}
			if (line.size() && s.b()) line.erase(0, 1); if (s.b(200)) line += " ";
			info.sample = show(line); info.nontrivial = args.size();
			auto got = Util::SplitCommandLine(Exact(line));
			vector<string> want; for (auto& a : args) if (a.size() <= 1023) want.push_back(a); else return;
			PBT_CHECK(got.size() == want.size(), "command line %s: %d arguments, should be %d", show(line, 500).c_str(), (int)got.size(), (int)want.size());
			for (size_t i = 0; i < want.size(); i++) EQ(string(got[i]), want[i], "command line %s argument %d", show(line, 500).c_str(), (int)i + 1);
			break;
		}
		case 3:
		{
			string prot = s.pick({"http", "https", "HTTP"}), user = s.b(300) ? s.text("abC1%.~", 1, 5) : "", pass, host = s.text("abc1.-", 1, 12), path; int port = s.b(400) ? (int)s.range(1, 65535) : 0; bool hasPass = user.size() && s.b(600);
			if (hasPass) pass = s.text("abC1%:.~", 0, 5);
			if (s.b(750)) { path = "/" + s.text("ab/?&=.%20@:", 0, 20); }
			string a = prot + "://" + (user.size() ? user + (hasPass ? ":" + pass : "") + "@" : "") + host + (port ? ":" + std::to_string(port) : "") + path;
			Exact b(a); URL u(b);
			info.sample = a; info.nontrivial = true;
			PBT_CHECK(u.IsValid(), "URL %s is refused", a.c_str());
			auto z = [](const char* p) { return string(p ? p : ""); };
			EQ(z(u.GetProtocol()), prot, "protocol of %s", a.c_str()); EQ(z(u.GetUser()), user, "user of %s", a.c_str()); EQ(z(u.GetPassword()), pass, "password of %s", a.c_str()); EQ(z(u.GetHost()), host, "host of %s", a.c_str());
			EQ(z(u.GetResource()), path.size() ? path : "/", "resource of %s", a.c_str()); PBT_CHECK(u.GetPort() == port, "port of %s is %d", a.c_str(), u.GetPort());
			break;
		}
		case 4: case 6:
		{
			bool json = kind == 6; U u = unicode(s, 30, true); string t = enc(u); info.sample = show(t); info.nontrivial = u.size() > 1;
			Exact b(t); CString e = json ? WebUtil::JsonEncode(b) : WebUtil::XmlEncode(b); string r = e.Str(); // (ASan sees writes beyond the buffer)
			string want, wellformed; bool bad = false; size_t i = 0;
			// an independent reader
			while (i < r.size() && !bad)
			{
				unsigned char c = r[i];
				if (c < 0x20 || c > 0x7f) { bad = true; break; }
				if (json && c == '"') { bad = true; break; }
				if (json && c == '\\')
				{
					char d = r[i + 1]; i += 2;
					if (d == 'u') { auto h = [&](size_t k) { return (uint32_t)strtoul(r.substr(k, 4).c_str(), nullptr, 16); }; for (int k = 0; k < 4; k++) if (!isxdigit((unsigned char)r[i + k])) bad = true; if (bad) break; uint32_t v = h(i); i += 4;
						if (v >= 0xd800 && v < 0xdc00) { if (r.compare(i, 2, "\\u")) { bad = true; break; } uint32_t w = h(i + 2); i += 6; if (w < 0xdc00 || w > 0xdfff) { bad = true; break; } v = 0x10000 + ((v - 0xd800) << 10) + w - 0xdc00; } want += utf8(v); }
					else { const char* f = "\"\\/bfnrt", * g = "\"\\/\b\f\n\r\t"; const char* p = d ? strchr(f, d) : nullptr; if (!p) { bad = true; break; } want += g[p - f]; }
				}
				else if (!json && (c == '<' || c == '>' || c == '"' || c == '\'')) { bad = true; break; }
				else if (!json && c == '&')
				{
					size_t q = r.find(';', i); if (q == string::npos) { bad = true; break; } string n = r.substr(i + 1, q - i - 1); i = q + 1;
					if (n == "lt") want += "<"; else if (n == "gt") want += ">"; else if (n == "amp") want += "&"; else if (n == "quot") want += "\""; else if (n == "apos") want += "'";
					else if (n.size() > 1 && n[0] == '#') { uint32_t v = n[1] == 'x' ? strtoul(n.c_str() + 2, nullptr, 16) : strtoul(n.c_str() + 1, nullptr, 10); want += utf8(v); } else { bad = true; break; }
				}
				else { want += c; i++; }
			}
			if (bad) pbt::fail(string(json ? "JSON" : "XML") + " encoding of " + show(t) + " is not well-formed: " + show(r, 500));
			string orig; for (auto c : u) if (json || c == 9 || c == 10 || c == 13 || c >= 0x20) orig += utf8(c); else orig += ".";
			EQ(want, orig, "%s encoding of %s read back", json ? "JSON" : "XML", show(t).c_str());
			EQ(inplace(json ? WebUtil::JsonDecode : WebUtil::XmlDecode, r), orig, "%s decoding of %s", json ? "JSON" : "XML", show(r, 500).c_str());
			break;
		}
		case 5:
		{
			U u = unicode(s, 25, false); string t = enc(u), x;
			for (auto c : u) switch (s.n(3))
			{
				case 0: x += fmt("&#%u;", c); break; case 1: x += fmt(s.b() ? "&#x%X;" : "&#x%x;", c); break;
				default: x += c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : c == '"' ? (s.b() ? "\"" : "&quot;") : c == '\'' ? (s.b() ? "'" : "&apos;") : utf8(c);
			}
			info.sample = x; info.nontrivial = u.size() > 1;
			EQ(inplace(WebUtil::XmlDecode, x), t, "XML decoding of %s", show(x, 500).c_str());
			string plain = inplace(WebUtil::XmlRemoveEntities, x); PBT_CHECK(plain.size() <= x.size(), "entities removed");
			break;
		}
		case 15:
		{
			// a JSON object; every field is found and decoded
			vector<std::pair<string, string>> f; string doc = "{"; int n = 0;
			auto q = [&](const U& u) { string x; for (auto c : u) {
				if (c < 0x20 || c == '"' || c == '\\' || s.b(250)) { const char* sh = c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '/' ? "\\/" : c == 8 ? "\\b" : c == 12 ? "\\f" : c == 10 ? "\\n" : c == 13 ? "\\r" : c == 9 ? "\\t" : nullptr;
					if (sh && s.b(700)) x += sh; else if (c >= 0x10000) x += fmt("\\u%04x\\u%04X", 0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 0x3ff)); else x += fmt(s.b() ? "\\u%04x" : "\\u%04X", c); }
				else x += utf8(c); } return x; };
			s.repeat(1, 5, 750, [&]
			{
				string name = fmt("f%d", n++), v, raw;
				if (s.b(700)) { U u = unicode(s, 15, true); raw = q(u); v = enc(u); }
				else { v = s.pick({"0", "12", "-5", "true", "false", "null", "1.5"}); }
				if (doc.size() > 1) doc += s.pick({",", ", ", ",\n "});
				doc += "\"" + name + "\"" + s.pick({":", ": ", " : "}) + (raw.empty() && v.size() && (isdigit(v[0]) || v[0] == '-' || v == "true" || v == "false" || v == "null") ? v : "\"" + raw + "\"");
				f.push_back({name, v});
			});
			doc += s.pick({"}", " }", "\n}"}); info.sample = doc; info.nontrivial = true;
			Exact d(doc);
			for (auto& x : f)
			{
				int len = -1; const char* v = WebUtil::JsonFindField(d, x.first.c_str(), &len);
				if (!v) pbt::fail("field " + x.first + " of " + show(doc, 500) + " not found");
				string raw(v, len); if (raw.size() >= 2 && raw[0] == '"' && raw.back() == '"') raw = raw.substr(1, raw.size() - 2);
				// (a text value can contain a field name of the document only inside quotes escaped as \", which is not the same)
				EQ(inplace(WebUtil::JsonDecode, raw), x.second, "field %s of %s", x.first.c_str(), show(doc, 500).c_str());
			}
			break;
		}
		case 7:
		{
			string d = s.bytes(0, 40), e; static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
			int line = s.b(300) ? (int)s.range(4, 76) : 0, col = 0;
			for (size_t i = 0; i < d.size(); i += 3)
			{
				uint32_t v = 0; int k = (int)std::min<size_t>(3, d.size() - i); for (int j = 0; j < 3; j++) v = v << 8 | (j < k ? (unsigned char)d[i + j] : 0);
				for (int j = 0; j < 4; j++) { e += j <= k ? A[v >> (18 - 6 * j) & 63] : '='; if (line && ++col % line == 0) e += s.b() ? "\r\n" : "\n"; }
			}
			info.sample = e; info.nontrivial = d.size() > 1;
			Exact in(e); std::unique_ptr<char[]> out(new char[e.size() * 3 / 4 + 1]);
			if (e.empty()) break;
			uint32 n = WebUtil::DecodeBase64(in, s.b() ? (int)e.size() : 0, out.get());
			EQ(string(out.get(), n), d, "base64 %s", show(e, 300).c_str());
			break;
		}
		case 8:
		{
			string t = hostile(s); info.sample = show(t); info.nontrivial = t.size() > 2;
			inplace(WebUtil::XmlDecode, t); inplace(WebUtil::XmlRemoveEntities, t); inplace(WebUtil::XmlStripTags, t); inplace(WebUtil::JsonDecode, t); inplace(WebUtil::HttpUnquote, t); inplace(WebUtil::UrlDecode, t); inplace(Util::TrimRight, t);
			Exact b(t);
			{ CString a = WebUtil::XmlEncode(b), c = WebUtil::JsonEncode(b), d = WebUtil::UrlEncode(b), e = WebUtil::Latin1ToUtf8(b); for (const char* p = a; *p; p++) PBT_CHECK((unsigned char)*p < 0x80, "XML encoding of %s has a raw byte", show(t).c_str()); for (const char* p = c; *p; p++) PBT_CHECK((unsigned char)*p < 0x80 && (unsigned char)*p >= 0x20, "JSON encoding of %s has a raw byte", show(t).c_str()); }
			URL u(b); Util::SplitCommandLine(b); Util::MatchFileExt(b, b, ","); WildMask w(b, true); w.Match(b);
			int len = 0; if (WebUtil::JsonNextValue(b, &len)) PBT_CHECK(len >= 0 && len <= (int)t.size(), "value length %d", len);
			if (WebUtil::XmlFindTag(b, "a", &len)) PBT_CHECK(len >= 0 && len <= (int)t.size(), "tag length %d", len);
			char buf[8]; const char* end; WebUtil::XmlParseTagValue(b, "a", buf, sizeof buf, &end);
			std::unique_ptr<char[]> out(new char[t.size() * 3 / 4 + 4]); if (t.size()) WebUtil::DecodeBase64(b, 0, out.get());
			WebUtil::ParseRfc822DateTime(b); RegEx r(b); r.Match(b); Util::FormatBuffer(b, (int)t.size());
			break;
		}
		case 9:
		{
			CString c; StringBuilder sb; BString<20> bs; string mc, ms, mb; bool nul = true; string log;
			s.repeat(1, 25, 900, [&]
			{
				string x = s.text("abcd%", 0, 9); Exact e(x); info.steps++;
				int op = (int)s.n(12); log += fmt(" %d(%s)", op, x.c_str());
				switch (op)
				{
					case 0: c = (const char*)e; mc = x; nul = false; break;
					case 1: if (x.size()) { int k = (int)s.range(1, x.size()); c.Set(e, k); mc = x.substr(0, k); nul = false; } break;
					case 2: c.Append(e); mc += x; nul = false; break;
					case 3: c.AppendFmt("%s-%i", (char*)e, 7); mc += x + "-7"; nul = false; break;
					case 4: { int r = c.Format("<%s>", (char*)e); mc = "<" + x + ">"; nul = false; PBT_CHECK(r == (int)mc.size(), "Format returned %d", r); break; }
					case 5: if (!nul && mc.size()) { int p = (int)s.range(0, mc.size()), l = (int)s.range(0, mc.size() - p); c.Replace(p, l, e); mc.replace(p, l, x); } break;
					case 6: if (!nul && x.size()) { string to = s.pick({"", "b", "xyz", "ab"}); c.Replace((const char*)e, to.c_str()); string r; for (size_t i = 0; i < mc.size(); ) if (!mc.compare(i, x.size(), x)) { r += to; i += x.size(); } else r += mc[i++]; mc = r; } break;
					case 7: if (!nul && mc.size()) { int p = (int)s.range(0, mc.size() - 1); size_t f = mc.find(x, p); int r = c.Find(e, p); PBT_CHECK(r == (f == string::npos ? -1 : (int)f), "Find %s in %s from %d: %d", x.c_str(), mc.c_str(), p, r); } break;
					case 8: { c.Append(" \r\n\t"); mc += " \r\n\t"; nul = false; if (s.b()) { c.TrimRight(); while (mc.size() && strchr(" \r\n\t", mc.back())) mc.pop_back(); } break; }
					case 9: { int cap = (int)s.range(0, 60); c.Reserve(cap); nul = false; break; }
					case 10: sb.Append(e); ms += x; break;
					case 11: sb.AppendFmt("%s%i", (char*)e, 5); ms += x + "5"; break;
					default: switch (s.n(3)) { case 0: bs = (const char*)e; mb = x; break; case 1: bs.Append(e); mb += x; break; case 2: bs.AppendFmt("%s!", (char*)e); mb += x + "!"; break; default: bs.Format("%s%s", (char*)e, (char*)e); mb = x + x; } mb = mb.substr(0, 19); break;
				}
				EQ(string(c.Str()), mc, "CString after%s", log.c_str()); PBT_CHECK(c.Length() == (int)mc.size() && c.Empty() == mc.empty(), "length of CString");
				const char* sp_ = sb; EQ(string(sp_), ms, "StringBuilder after%s", log.c_str()); PBT_CHECK(sb.Length() == (int)ms.size(), "length of StringBuilder");
				EQ(string(bs.Str()), mb, "BString after%s", log.c_str()); PBT_CHECK(bs.Length() == (int)mb.size(), "length of BString");
			});
			info.sample = log; info.nontrivial = info.steps > 3;
			break;
		}
		case 10:
		{
			string d = s.blob((size_t)s.size(300, 20000, {1024, 4096, 16384})); if (s.b(300)) d = string(d.size(), 'z');
			uint32 cap = ZLib::GZipLen((int)d.size()); std::unique_ptr<char[]> out(new char[cap ? cap : 1]); Exact in(d);
			uint32 n = ZLib::GZip(in, (int)d.size(), out.get(), (int)cap);
			info.sample = fmt("%d bytes -> %u", (int)d.size(), n); info.nontrivial = d.size() > 10;
			PBT_CHECK(n > 0 && n <= cap, "gzip of %d bytes with the announced buffer size failed", (int)d.size());
			string z(out.get(), n), r; if (s.b(300) && z.size() > 20) { z.resize(z.size() - s.range(1, 18)); info.label("gzip truncated"); }
			GUnzipStream g((int)s.range(1, 3000)); bool fin = false; size_t at = 0; int guard = 0;
			while (at < z.size() && !fin)
			{
				size_t k = s.b(300) ? z.size() - at : (size_t)s.range(1, (int64_t)std::min<size_t>(z.size() - at, 2000)); Exact part(z.substr(at, k)); g.Write(part, (int)k); at += k;
				for (;;) { const void* o; int l; auto st = g.Read(&o, &l); PBT_CHECK(st != GUnzipStream::zlError, "good gzip data refused at %d", (int)at); if (l) r.append((const char*)o, l); if (st == GUnzipStream::zlFinished) { fin = true; break; } if (!l) break; PBT_CHECK(++guard < 200000, "does not end"); }
			}
			PBT_CHECK(fin == (z.size() == n), "end of gzip data: %d for %d of %u bytes", fin, (int)z.size(), n);
			if (fin) PBT_CHECK(r == d, "gzip round trip of %d bytes gives %d bytes", (int)d.size(), (int)r.size()); else PBT_CHECK(d.compare(0, r.size(), r) == 0, "unzipped data of a truncated stream is not a prefix");
			break;
		}
		case 11:
		{
			time_t t = (time_t)(s.b(200) ? s.num({0, 951782400, 951868799, 1709164800, 4107542399ll}) : s.range(0, 4102444800ll)); int zone = (int)s.num({0, 0, 60, -60, 330, -570, 845, -720, 90, -210}); 
			struct tm m; time_t l = t + zone * 60; gmtime_r(&l, &m); if (l < 0) break;
			PBT_CHECK(Util::Timegm(&m) == l, "Timegm of %lld", (long long)l);
			char b[100]; strftime(b, sizeof b, "%a, %d %b %Y %H:%M:%S", &m); string d = b + fmt(" %c%02d%02d", zone < 0 ? '-' : '+', abs(zone) / 60, abs(zone) % 60);
			time_t got = WebUtil::ParseRfc822DateTime(Exact(d)); info.sample = d; info.nontrivial = true;
			PBT_CHECK(got == t, "date %s: %lld, should be %lld", d.c_str(), (long long)got, (long long)t);
			break;
		}
		case 12:
		{
			string sep = s.pick({",", ",;", " ,"}), t = s.text("ab,;  \t", 0, 20); if (s.b(50)) t = string(s.range(1018, 1030), 'a') + "," + t;
			vector<string> want; for (auto& x : ref::split(t, sep)) { string y = ref::trim(x); if (y.size()) want.push_back(y); }
			vector<string> got, got2; { Exact e(t); Tokenizer k(e, sep.c_str()); while (char* p = k.Next()) got.push_back(p); } { Exact e(t); Tokenizer k(e, sep.c_str(), true); while (char* p = k.Next()) got2.push_back(p); }
			info.sample = show(t); info.nontrivial = want.size() > 1;
			PBT_CHECK(got == want, "tokens of %s", show(t, 1100).c_str()); PBT_CHECK(got2 == want, "tokens (in place) of %s", show(t, 1100).c_str());
			auto v = Util::SplitStr(Exact(t), sep.c_str()); PBT_CHECK(v.size() == want.size(), "SplitStr"); for (size_t i = 0; i < v.size(); i++) EQ(string(v[i]), want[i], "SplitStr of %s", show(t).c_str());
			EQ(string(Util::Trim(Exact(t))), ref::trim(t), "Trim of %s", show(t).c_str());
			string suf = s.b() ? t.substr(t.size() - std::min<size_t>(t.size(), s.n(3))) : s.text("abAB", 0, 3); bool cs = s.b(); string a = cs ? t : ref::lower(t), b = cs ? suf : ref::lower(suf);
			PBT_CHECK(Util::EndsWith(Exact(t), Exact(suf), cs) == (a.size() >= b.size() && a.substr(a.size() - b.size()) == b), "EndsWith %s %s", show(t).c_str(), show(suf).c_str());
			string from = s.pick({"aa", "ab", "a,", "  "}), to = s.pick({"", "a", "b"}); if (to.size() < from.size() && from.find(to) != 0 || to.empty() || true)
			{ string m = t; size_t p; while ((p = m.find(from)) != string::npos) m.replace(p, from.size(), to); Exact e(t); EQ(string(Util::ReduceStr(e, from.c_str(), to.c_str())), m, "ReduceStr of %s: %s -> %s", show(t).c_str(), from.c_str(), to.c_str()); }
			bool an = true; for (unsigned char c : t) if (!isalnum(c)) an = false; PBT_CHECK(Util::AlphaNum(Exact(t)) == an, "AlphaNum");
			uint32 hi, lo; int64 v64 = (int64)s.n(UINT64_MAX); Util::SplitInt64(v64, &hi, &lo); PBT_CHECK(Util::JoinInt64(hi, lo) == v64, "Split/JoinInt64 of %lld", (long long)v64);
			break;
		}
		case 13:
		{
			string t, w; s.repeat(0, 20, 900, [&] { unsigned c = (unsigned)s.range(1, 255); t += (char)c; w += utf8(c); });
			EQ(string(WebUtil::Latin1ToUtf8(Exact(t)).Str()), w, "Latin-1 to UTF-8 of %s", show(t).c_str()); info.sample = show(t); info.nontrivial = t.size() > 2;
			string e; for (char c : t) if (c == ' ') e += "%20"; else e += c; EQ(string(WebUtil::UrlEncode(Exact(t)).Str()), e, "UrlEncode of %s", show(t).c_str());
			// URL decoding inverts percent-encoding, unquoting inverts quoting
			string p, q = "\""; for (char c : t) { if (c == '%' || s.b(300)) p += fmt(s.b() ? "%%%02x" : "%%%02X", (unsigned char)c); else p += c; if (c == '"' || c == '\\' || s.b(100)) q += '\\'; q += c; } q += "\""; if (s.b(300)) q += "; x";
			EQ(inplace(WebUtil::UrlDecode, p), t, "URL decoding of %s", show(p).c_str());
			EQ(inplace(WebUtil::HttpUnquote, q), t, "unquoting of %s", show(q).c_str());
			break;
		}
		default:
		{
			string x, want; bool found = false; const char* tag = "name";
			s.repeat(0, 4, 700, [&] { string n = s.pick({"name", "value", "names", "nam"}), v = s.text("ab &;1", 0, 6); if (s.b(150)) { x += "<" + n + "/>"; v = ""; } else x += "<" + n + ">" + v + "</" + n + ">"; if (n == tag && !found) { found = true; want = v; } if (s.b(300)) x += "\n  "; });
			info.sample = x; info.nontrivial = x.size() > 5;
			Exact e(x); int len = -1; const char* v = WebUtil::XmlFindTag(e, tag, &len);
			PBT_CHECK((v != nullptr) == found, "tag in %s found %d", show(x).c_str(), v != nullptr);
			if (v && len) EQ(string(v, len), want, "content of the tag in %s", show(x).c_str()); else if (found) PBT_CHECK(want.empty(), "content of the tag in %s", show(x).c_str());
			int size = (int)s.range(1, 10); std::unique_ptr<char[]> b(new char[size]); const char* end = nullptr;
			if (WebUtil::XmlParseTagValue(e, tag, b.get(), size, &end)) { if (want.size() || len) EQ(string(b.get()), want.substr(0, size - 1), "parsed tag of %s", show(x).c_str()); PBT_CHECK(end >= (char*)e && end <= (char*)e + x.size(), "end of tag"); }
			string st; bool in = false; for (char c : x) { if (c == '<') in = true; st += in ? ' ' : c; if (c == '>') in = false; }
			EQ(inplace(WebUtil::XmlStripTags, x), st, "stripping tags of %s", show(x).c_str());
		}
	}
}
