// C02: a damaged article is never accepted as good, a good one never refused.
#include "nzbget.h"
#include "Decoder.h"
#include "YEncode.h"
#include "yenc.h"

namespace YEncode { void init_decode_scalar(); void init_crc_slice(); void init_decode_sse2(); void init_decode_ssse3(); void init_crc_pclmul(); }

static int impls = 3;
void pbt_setup()
{
	YEncode::init();
	__builtin_cpu_init();
	impls = __builtin_cpu_supports("ssse3") ? 3 : __builtin_cpu_supports("sse2") ? 2 : 1;
}

static void select_impl(int k)
{
	YEncode::init_decode_scalar(); YEncode::init_crc_slice();
	if (k == 1) YEncode::init_decode_sse2();
	if (k == 2) YEncode::init_decode_ssse3();
	if (k == 2 && __builtin_cpu_supports("pclmul")) YEncode::init_crc_pclmul();
}

static std::string feed(Decoder& d, const std::string& stream, const std::vector<size_t>& chunks)
{
	std::string out; size_t p = 0;
	for (size_t c : chunks)
	{
		size_t room = c + 64;
		char* buf = (char*)malloc(room + 64);
		memcpy(buf, stream.data() + p, c); memset(buf + c, 0x55, room + 64 - c);
		int n = d.DecodeBuffer(buf, (int)c);
		if (n < 0 || n > (int)room) { free(buf); pbt::fail(pbt::fmt("DecodeBuffer(%d bytes) returned %d", (int)c, n)); }
		for (size_t i = room; i < room + 64; i++) if (buf[i] != 0x55) { free(buf); pbt::fail(pbt::fmt("DecodeBuffer(%d bytes) wrote %d bytes behind them", (int)c, (int)(i - c))); }
		out.append(buf, n); free(buf);
		p += c;
		if (d.GetEof()) break;
	}
	return out;
}

static std::vector<std::string> lines_of(const std::string& s)
{
	std::vector<std::string> r; size_t p = 0;
	while (p < s.size()) { size_t q = s.find('\n', p); q = q == std::string::npos ? s.size() : q + 1; r.push_back(s.substr(p, q - p)); p = q; }
	return r;
}

static bool attr(const std::string& line, const std::string& name, std::string& v)
{
	size_t p = line.find(" " + name + "="); if (p == std::string::npos) return false;
	v = line.substr(p + name.size() + 2); return true;
}

// does some trailer line in the body describe exactly these decoded bytes?
static bool trailer_matches(const std::string& text, const std::string& out, bool part, std::string& why)
{
	why = "no trailer in the body";
	bool size = false, crc = false; // after repeated damage the two may come from two trailer lines
	for (size_t p = text.find("=yend "); p != std::string::npos; p = text.find("=yend ", p + 1))
	{
		size_t q = text.find('\n', p); std::string l = text.substr(p, q == std::string::npos ? std::string::npos : q - p);
		std::string v;
		bool sz = attr(l, "size", v) && atoll(v.c_str()) == (int64_t)out.size();
		bool has = attr(l, part ? "pcrc32" : "crc32", v), cr = has && (uint32_t)strtoul(v.c_str(), nullptr, 16) == ref_crc(out);
		if (sz && (!has || cr)) return true;
		size |= sz; crc |= cr;
		why = pbt::fmt("decoded %d bytes with checksum %08x, trailer %s", (int)out.size(), ref_crc(out), pbt::show(l).c_str());
	}
	return size && crc;
}

void pbt_case(pbt::Src& s, pbt::Info& info)
{
	select_impl((int)s.n(impls - 1));
	if (s.fuzzing() || s.b(120))
	{
		// arbitrary bytes and lines
		std::string t;
		if (s.fuzzing()) t = s.blob(s.n(3000));
		else s.repeat(0, 40, 920, [&]
		{
			switch (s.n(5))
			{
				case 0: t += s.pick({"=ybegin ", "=ypart ", "=yend ", "begin 644 x", "begin ", "end", "=y", ".\r\n", "..", "`", "M"}); break;
				case 1: t += s.pick({" size=", " part=", " name=", " begin=", " end=", " crc32=", " pcrc32=", " line=128"}); break;
				case 2: t += s.pick({"\r\n", "\n", "\r", "\r\n.\r\n", "\r\n..", "\r\n.=y", "\r\n=y", "="}); break;
				case 3: t += s.blob(s.size(0, 9000, {60, 61, 62, 63, 4096, 8191, 8192})); break;
				case 4: t += pbt::fmt("%lld", (long long)s.num({0, 1, -1, 128, 2147483647LL, 4294967296LL, 9223372036854775807LL, (int64_t)1 << 63})); break;
				default: t += s.bytes(0, 70);
			}
		});
		Decoder d; d.SetCrcCheck(s.b(800));
		bool raw = s.b(200); if (raw) d.SetRawMode(true);
		std::vector<size_t> chunks = gen_chunks(s, t.size(), {0, t.size() / 2});
		std::string out = feed(d, t, chunks);
		if (!raw && d.Check() == Decoder::dsFinished && d.GetFormat() == Decoder::efYenc)
		{
			std::string why;
			bool ok = trailer_matches(t, out, true, why) || trailer_matches(t, out, false, why);
			if (d.GetExpectedCrc() || d.GetCalculatedCrc() || true) PBT_CHECK(ok, "arbitrary body accepted, but %s; text %s", why.c_str(), pbt::show(t, 1500).c_str());
		}
		info.label("arbitrary bytes"); info.label(pbt::fmt("verdict %d", raw ? -1 : (int)d.Check())); info.nontrivial = t.size() > 20; info.steps = chunks.size(); info.sample = "arbitrary: " + pbt::show(t, 160);
		return;
	}
	Art a = gen_yenc(s, 3000, s.b(900));
	std::string t = a.text; std::string kind;
	std::string other;
	int n = 1 + s.weighted({8, 2, 1});
	size_t limit = t.size();
	bool terminated = true;
	std::vector<std::string> kinds;
	for (int k = 0; k < n; k++)
	{
		auto at = [&] { // a position, mostly in the data
			if (a.dataEnd > a.dataStart && a.dataEnd <= t.size() && s.b(750)) return (size_t)s.range(a.dataStart, a.dataEnd - 1);
			return t.empty() ? (size_t)0 : (size_t)s.n(t.size() - 1); };
		switch (s.weighted({2, 4, 3, 3, 3, 2, 2, 2, 1, 2, 2}))
		{
			case 0: kinds.push_back("none"); break;
			case 1: t.resize(at()); terminated = s.b(600); kinds.push_back("cut"); break;
			case 2: if (t.size()) { size_t p = at(); t[p] = (char)(t[p] ^ (1 << s.n(7))); } kinds.push_back("bit"); break;
			case 3: if (t.size()) t[at()] = (char)s.n(255); kinds.push_back("byte"); break;
			case 4: { size_t p = at(); t.erase(p, s.range(1, 40)); kinds.push_back("dropped"); break; }
			case 5: t.insert(at(), s.blob(s.range(1, 40))); kinds.push_back("inserted"); break;
			case 6: { size_t p = at(); std::string x = t.substr(p, s.range(1, 300)); t.insert(at(), x); kinds.push_back("repeated"); break; }
			case 7: { std::vector<std::string> l = lines_of(t); if (l.size() > 1) { size_t i = s.n(l.size() - 1); int op = (int)s.n(2);
				if (op == 0) l.erase(l.begin() + i); else if (op == 1) l.insert(l.begin() + s.n(l.size()), l[i]); else std::swap(l[i], l[s.n(l.size() - 1)]); }
				t.clear(); for (auto& x : l) t += x; kinds.push_back("lines"); break; }
			case 8: { Art b = gen_yenc(s, 300, true); t.insert(at(), s.b() ? b.text : b.text.substr(b.dataStart)); kinds.push_back("foreign"); break; }
			case 9: { size_t p = t.rfind("=yend "); if (p != std::string::npos) { size_t q = p + 6 + s.n(40); if (q < t.size()) t[q] = "0123456789abcdef =\r"[s.n(18)]; } kinds.push_back("trailer"); break; }
			default: t.erase(std::min(a.dataStart, t.size()), a.dataEnd > a.dataStart ? a.dataEnd - a.dataStart : 0); kinds.push_back("emptied"); break;
		}
	}
	(void)limit;
	std::string stream = t + (terminated ? (t.size() >= 2 && t.compare(t.size() - 2, 2, "\r\n") ? "\r\n.\r\n" : ".\r\n") : "");
	std::vector<size_t> hot = {std::min(a.dataStart, stream.size()), std::min(a.dataEnd, stream.size()), stream.size()};
	for (size_t i = 0; i < stream.size() && hot.size() < 30; i++) if (stream[i] == '=') hot.push_back(i);
	std::vector<size_t> chunks = gen_chunks(s, stream.size(), hot);
	Decoder d; d.SetCrcCheck(true);
	std::string out = feed(d, stream, chunks);
	Decoder::EStatus st = d.Check();
	std::string ks; for (auto& k : kinds) ks += (ks.size() ? "+" : "") + k;
	bool untouched = t == a.text;
	if (st == Decoder::dsFinished)
	{
		if (d.GetFormat() == Decoder::efYenc)
		{
			// which checksum counts depends on the headers still saying that this is a part
			bool partMode = stream.find(" part=") != std::string::npos || stream.find("=ypart ") != std::string::npos, singleMode = false;
			for (auto& l : lines_of(stream)) { size_t p = l.find("=ybegin "); if (p != std::string::npos && l.find(" part=") == std::string::npos) singleMode = true; }
			std::string why;
			bool ok = trailer_matches(stream, out, a.multi, why);
			if (!ok && partMode && !a.multi) { std::string w; ok = trailer_matches(stream, out, true, w); }
			if (!ok && singleMode && a.multi) { std::string w; ok = trailer_matches(stream, out, false, w); }
			PBT_CHECK(ok, "article damaged by %s is accepted, but %s; posted %d bytes; text %s", ks.c_str(), why.c_str(), (int)a.payload.size(), pbt::show(stream, 900).c_str());
		}
		if (d.GetFormat() != Decoder::efYenc) info.label("accepted as uu");
	}
	if (untouched) PBT_CHECK(st == Decoder::dsFinished && out == a.payload, "intact article: status %d, %d of %d bytes; text %s", (int)st, (int)out.size(), (int)a.payload.size(), pbt::show(stream, 900).c_str());
	for (auto& k : kinds) info.label("damage " + k);
	info.label(pbt::fmt("verdict %d", (int)st)); if (!untouched && st == Decoder::dsFinished) info.label("changed but consistent");
	info.nontrivial = !untouched; info.steps = chunks.size();
	info.sample = ks + pbt::fmt(" verdict %d ", (int)st) + pbt::show(stream, 200);
}
