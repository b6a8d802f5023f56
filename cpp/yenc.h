// Independent yEnc / uu encoders and a simple reference CRC, for the decoder harnesses.
#pragma once
#include "pbt.h"

inline uint32_t ref_crc(const std::string& s, uint32_t crc = 0)
{
	static uint32_t t[256]; static bool init = false;
	if (!init) { for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1; t[i] = c; } init = true; }
	crc = ~crc;
	for (unsigned char c : s) crc = t[(crc ^ c) & 255] ^ (crc >> 8);
	return ~crc;
}

struct Art
{
	std::string payload, name, text;   // text: the lines with CRLF, dot-stuffed, without the terminator
	size_t dataStart = 0, dataEnd = 0; // encoded data inside text
	bool multi = false, crc = false, uu = false, uufirst = true;
	int64_t begin = 0, total = 0, fileSize = 0;
	int part = 1, parts = 1;
	std::vector<std::string> lines;
};

inline void stuff_line(std::string& out, const std::string& l) { if (!l.empty() && l[0] == '.') out += '.'; out += l; out += "\r\n"; }

inline std::string gen_name(pbt::Src& s)
{
	switch (s.n(4))
	{
		case 4: return s.pick({"my part=1.bin", "x crc32=5 size=7", "total=1 part=", "a.=ypart begin=3 end=4", "name= name=y"});
		case 0: return "file.bin";
		case 1: return s.text("abcXYZ019._-()[] ", 0, 20) + "x";
		case 2: return std::string("n\xe4m\xe9 ") + s.text("\xe4\xf6 size=name", 0, 9) + "z.rar";
		default: return "a = b size=9.bin";
	}
}

// Latin-1 to UTF-8, which is what the decoder documents for names
inline std::string utf8(const std::string& s)
{
	std::string r;
	for (unsigned char c : s) { if (c < 128) r += c; else { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); } }
	return r;
}

inline Art gen_yenc(pbt::Src& s, size_t maxsize, bool forceCrc = false)
{
	Art a;
	size_t size = s.size(0, maxsize, {1, 16, 32, 64, 127, 128, 129, 256, 1024, 4095, 4096});
	a.payload = s.blob(size);
	if (s.b(60))
	{
		// data whose encoding looks like header attributes (the last byte needs an escape, which gives the '=')
		std::string w = s.pick({" part", " size", " name", "yend size", " begin", " pcrc32"});
		for (char& c : w) c = (char)(c - 42);
		w += '\xd6'; a.payload.insert(s.n(a.payload.size()), w); size = a.payload.size();
	}
	a.name = gen_name(s);
	a.multi = s.b(600);
	int line = (int)s.num({128, 64, 1, 2, 16, 31, 32, 33, 129, 256, 997});
	int extra = (int)s.num({0, 0, 3, 50});      // per cent of further bytes escaped
	bool dotEsc = s.b(400);                     // a leading dot is escaped instead of stuffed
	a.crc = forceCrc || s.b(850);
	bool both = s.b(200);
	if (a.multi)
	{
		a.parts = (int)s.range(1, 5); a.part = (int)s.range(1, a.parts);
		a.begin = a.part == 1 ? 0 : (int64_t)s.size(1, 3000000000LL, {65536, 2147483647LL, 4294967296LL});
		a.fileSize = a.begin + (int64_t)size + (a.part < a.parts ? (int64_t)s.size(1, 100000) : 0);
	}
	else a.fileSize = (int64_t)size;
	// optional text in front
	static const std::vector<std::string> pre = {"", "This is a posted file", "From: x y", "a line with = and =y in it", "..", "=begin", "begin of something", "MIME-Version: 1.0"};
	s.repeat(0, 3, 250, [&] { stuff_line(a.text, s.choice(pre)); });
	std::string h = "=ybegin ";
	if (a.multi) h += pbt::fmt("part=%d ", a.part) + (s.b() ? pbt::fmt("total=%d ", a.parts) : "");
	if (s.b(300)) h += pbt::fmt("size=%lld line=%d", (long long)a.fileSize, line); else h += pbt::fmt("line=%d size=%lld", line, (long long)a.fileSize);
	h += " name=" + a.name;
	stuff_line(a.text, h);
	if (a.multi) stuff_line(a.text, pbt::fmt("=ypart begin=%lld end=%lld", (long long)a.begin + 1, (long long)(a.begin + (int64_t)size)));
	a.dataStart = a.text.size();
	// escaping choices come from one draw so that cases stay short
	uint64_t ex = extra ? s.n(0xffff) : 0;
	std::string cur; int col = 0;
	for (unsigned char c : a.payload)
	{
		unsigned char e = (unsigned char)(c + 42);
		bool esc = e == 0 || e == 10 || e == 13 || e == '=' || (col == 0 && e == '.' && dotEsc) || (extra && (int)(pbt::splitmix(ex) % 100) < extra);
		if (esc && (unsigned char)(e + 64) != 10 && (unsigned char)(e + 64) != 13 && (unsigned char)(e + 64) != 0
			&& !((unsigned char)(e + 64) == 'y' && col == 0))
		{
			cur += '='; cur += (char)(e + 64); col += 2;
		}
		else if (esc && (e == 0 || e == 10 || e == 13 || e == '='))
		{
			cur += '='; cur += (char)(e + 64); col += 2; // never reached: these map to printable characters
		}
		else { cur += (char)e; col++; }
		if (col >= line) { stuff_line(a.text, cur); cur.clear(); col = 0; }
	}
	if (!cur.empty()) stuff_line(a.text, cur);
	a.dataEnd = a.text.size();
	std::string t = pbt::fmt("=yend size=%d", (int)size);
	if (a.multi) t += pbt::fmt(" part=%d", a.part);
	if (a.crc || both)
	{
		std::string c1 = a.crc ? pbt::fmt(s.b(300) ? " %s=%08X" : " %s=%08x", a.multi ? "pcrc32" : "crc32", ref_crc(a.payload)) : "";
		std::string c2 = both && a.multi ? " crc32=12345678" : "";
		t += s.b(300) ? c2 + c1 : c1 + c2;
	}
	stuff_line(a.text, t);
	s.repeat(0, 2, 150, [&] { stuff_line(a.text, s.choice(pre)); });
	return a;
}

// One uuencoded article; whole file, or the middle of one without the begin line
inline Art gen_uu(pbt::Src& s, size_t maxsize)
{
	Art a; a.uu = true;
	a.uufirst = !s.b(250);
	size_t size = s.size(a.uufirst ? 0 : 45, maxsize, {1, 14, 44, 45, 46, 59, 90, 104});
	a.payload = s.blob(size);
	a.name = gen_name(s);
	char zero = s.b(300) ? ' ' : '`';
	auto ch = [&](int v) { return v == 0 ? zero : (char)(v + 32); };
	if (a.uufirst)
	{
		static const std::vector<std::string> pre = {"", "Hello", "section 1 of 1"};
		s.repeat(0, 2, 250, [&] { stuff_line(a.text, s.choice(pre)); });
		stuff_line(a.text, std::string("begin ") + s.pick({"644", "600", "0755", "777"}) + " " + a.name);
	}
	a.dataStart = a.text.size();
	for (size_t p = 0; p < size; p += 45)
	{
		std::string d = a.payload.substr(p, 45), l(1, (char)(d.size() + 32));
		for (size_t i = 0; i < d.size(); i += 3)
		{
			unsigned char b[3] = {0, 0, 0};
			for (size_t k = 0; k < 3 && i + k < d.size(); k++) b[k] = d[i + k];
			l += ch(b[0] >> 2); l += ch((b[0] << 4 & 0x30) | b[1] >> 4); l += ch((b[1] << 2 & 0x3c) | b[2] >> 6); l += ch(b[2] & 63);
		}
		stuff_line(a.text, l);
	}
	a.dataEnd = a.text.size();
	if (!(s.b(250) && a.payload.size() >= 45)) { stuff_line(a.text, "`"); stuff_line(a.text, "end"); }
	return a;
}

// cuts of a byte stream into reads
inline std::vector<size_t> gen_chunks(pbt::Src& s, size_t total, const std::vector<size_t>& hot)
{
	std::vector<size_t> r; size_t p = 0;
	int mode = (int)s.n(3);
	if (mode == 0) { for (; p < total; p += 4096) r.push_back(std::min<size_t>(4096, total - p)); return r; }
	if (mode == 1) // cuts around interesting places
	{
		std::set<size_t> cuts;
		s.repeat(1, 12, 800, [&] { size_t h = hot[s.n(hot.size() - 1)]; int64_t c = (int64_t)h + s.range(-6, 6); if (c > 0 && c < (int64_t)total) cuts.insert((size_t)c); });
		for (size_t c : cuts) { r.push_back(c - p); p = c; }
		while (p < total) { r.push_back(std::min<size_t>(4096, total - p)); p += r.back(); }
		return r;
	}
	std::vector<int64_t> pat; s.repeat(1, 6, 700, [&] { pat.push_back(s.num({1, 2, 3, 4, 5, 7, 15, 16, 17, 31, 32, 33, 64, 100, 1000, 4096})); });
	for (size_t i = 0; p < total; i++) { size_t k = std::min<size_t>(total - p, (size_t)pat[i % pat.size()]); if (mode == 3 && i > 40) k = std::min<size_t>(4096, total - p); r.push_back(k); p += k; }
	return r;
}
