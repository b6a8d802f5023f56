// C01: article decoding returns exactly the posted bytes.
#include "nzbget.h"
#include "Decoder.h"
#include "YEncode.h"
#include "yenc.h"

namespace YEncode { void init_decode_scalar(); void init_crc_slice(); void init_decode_sse2(); void init_decode_ssse3(); void init_crc_pclmul(); }

static int impls = 3;
void pbt_setup()
{
	YEncode::init();
	__builtin_cpu_init();
	impls = __builtin_cpu_supports("ssse3") ? 3 : __builtin_cpu_supports("sse2") ? 2 : 1;
}

static const char* select_impl(int k)
{
	YEncode::init_decode_scalar(); YEncode::init_crc_slice();
	if (k == 1) YEncode::init_decode_sse2();
	if (k == 2) YEncode::init_decode_ssse3();
	if (k == 2 && __builtin_cpu_supports("pclmul")) YEncode::init_crc_pclmul();
	return k == 0 ? "scalar" : k == 1 ? "sse2" : "ssse3";
}

// feeds the stream in chunks of exactly sized buffers (plus the room the caller really offers)
static std::string feed(Decoder& d, const std::string& stream, const std::vector<size_t>& chunks, size_t& eofAt)
{
	std::string out; size_t p = 0; eofAt = 0;
	for (size_t c : chunks)
	{
		size_t room = c + 64;
		char* buf = (char*)malloc(room + 64);
		memcpy(buf, stream.data() + p, c); memset(buf + c, 0x55, room + 64 - c);
		int n = d.DecodeBuffer(buf, (int)c);
		if (n < 0 || n > (int)room) { free(buf); pbt::fail(pbt::fmt("DecodeBuffer(%d bytes) returned %d", (int)c, n)); }
		for (size_t i = room; i < room + 64; i++) if (buf[i] != 0x55) { free(buf); pbt::fail(pbt::fmt("DecodeBuffer(%d bytes) wrote %d bytes behind them", (int)c, (int)(i - c))); }
		out.append(buf, n); free(buf);
		p += c;
		if (d.GetEof()) { eofAt = p; break; }
	}
	return out;
}

void pbt_case(pbt::Src& s, pbt::Info& info)
{
	int impl = (int)s.n(impls - 1);
	const char* iname = select_impl(impl);
	int kind = s.weighted({6, 2, 1});
	Art a = kind == 1 ? gen_uu(s, 4000) : gen_yenc(s, s.b(100) ? 70000 : 6000);
	bool crcCheck = !s.b(300);
	std::string stream = a.text + ".\r\n";
	std::vector<size_t> hot = {a.dataStart, a.dataEnd, stream.size(), a.text.size()};
	for (size_t i = 0; i < stream.size() && hot.size() < 40; i++) if (stream[i] == '=' || stream[i] == '.') hot.push_back(i);
	std::vector<size_t> chunks = gen_chunks(s, stream.size(), hot);
	Decoder d;
	if (s.b(150))
	{
		// the decoder object is used again after Clear(): leave something from another article in it
		d.Clear(); d.SetCrcCheck(true);
		char junk[] = "=ybegin line=128 size=5 name=zz\r\nabc"; d.DecodeBuffer(junk, (int)strlen(junk));
	}
	d.Clear(); d.SetCrcCheck(crcCheck);
	std::string what = pbt::fmt("%s %s, %d bytes, multi=%d, %d reads", iname, a.uu ? "uu" : kind == 2 ? "raw" : "yenc", (int)a.payload.size(), a.multi, (int)chunks.size());
	size_t eofAt;
	if (kind == 2)
	{
		// raw mode: the text goes through unchanged and only the end is recognised
		d.SetRawMode(true);
		std::string out = feed(d, stream, chunks, eofAt);
		PBT_CHECK(d.GetEof() && eofAt == stream.size(), "%s: end of article %s at %d of %d bytes", what.c_str(), d.GetEof() ? "seen" : "not seen", (int)eofAt, (int)stream.size());
		PBT_CHECK(out == stream, "%s: raw text changed", what.c_str());
	}
	else
	{
		std::string out = feed(d, stream, chunks, eofAt);
		std::string first = "";
		for (size_t i = 0; i < std::max(out.size(), a.payload.size()); i++)
			if (i >= out.size() || i >= a.payload.size() || out[i] != a.payload[i]) { first = pbt::fmt("first difference at %d", (int)i); break; }
		PBT_CHECK(out == a.payload, "%s: decoded %d bytes, posted %d, %s; text %s", what.c_str(), (int)out.size(), (int)a.payload.size(), first.c_str(), pbt::show(stream, 600).c_str());
		PBT_CHECK(d.GetEof() && eofAt == stream.size(), "%s: end of article %s at %d of %d bytes; text %s", what.c_str(), d.GetEof() ? "seen" : "not seen", (int)eofAt, (int)stream.size(), pbt::show(stream, 600).c_str());
		Decoder::EStatus st = d.Check();
		PBT_CHECK(st == Decoder::dsFinished, "%s: status %d for an intact article; text %s", what.c_str(), (int)st, pbt::show(stream, 600).c_str());
		if (a.uufirst)
		{
			const char* fn = d.GetArticleFilename();
			PBT_CHECK(fn && utf8(a.name) == fn, "%s: name %s, posted %s", what.c_str(), fn ? pbt::show(fn).c_str() : "(none)", pbt::show(a.name).c_str());
		}
		PBT_CHECK(d.GetFormat() == (a.uu ? Decoder::efUx : Decoder::efYenc), "%s: format %d", what.c_str(), (int)d.GetFormat());
		if (!a.uu)
		{
			PBT_CHECK(d.GetSize() == a.fileSize, "%s: size %lld, posted %lld", what.c_str(), (long long)d.GetSize(), (long long)a.fileSize);
			PBT_CHECK(d.GetBeginPos() == a.begin + 1 && d.GetEndPos() == a.begin + (int64_t)a.payload.size(), "%s: range %lld-%lld", what.c_str(), (long long)d.GetBeginPos(), (long long)d.GetEndPos());
			if (a.crc) PBT_CHECK(d.GetExpectedCrc() == ref_crc(a.payload), "%s: declared checksum misread", what.c_str());
			if (crcCheck) PBT_CHECK(d.GetCalculatedCrc() == ref_crc(a.payload), "%s: calculated checksum %08x", what.c_str(), d.GetCalculatedCrc());
		}
	}
	info.label(iname); info.label(a.uu ? "uu" : kind == 2 ? "raw" : a.multi ? "yenc multipart" : "yenc single");
	info.label(chunks.size() > 1 ? "several reads" : "one read");
	info.steps = chunks.size();
	info.nontrivial = a.payload.size() > 0 && chunks.size() > 1;
	info.sample = what + " " + pbt::show(stream, 160);
}
