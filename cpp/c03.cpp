// C03: CRC-32 is exact for every split, alignment and implementation.
#include "nzbget.h"
#include "Util.h"
#include "YEncode.h"
#include "yenc.h"

namespace YEncode { void init_crc_slice(); void init_crc_pclmul(); }
static int impls = 2;
void pbt_setup() { YEncode::init(); __builtin_cpu_init(); impls = __builtin_cpu_supports("pclmul") && __builtin_cpu_supports("sse4.1") ? 2 : 1; }

// CRC of crc1's data followed by n zero bytes etc., from the definition: polynomial arithmetic mod P
static uint32_t mulmod(uint32_t a, uint32_t b) // reflected representation
{
	uint32_t r = 0;
	for (int i = 0; i < 32; i++) { if (b & 0x80000000u) r ^= a; b <<= 1; a = a & 1 ? (a >> 1) ^ 0xedb88320u : a >> 1; }
	return r;
}
static uint32_t ref_combine(uint32_t c1, uint32_t c2, uint64_t len2)
{
	uint32_t x8 = 0x00800000u, p = 0x80000000u; // x^8 and 1
	for (uint64_t n = len2; n; n >>= 1) { if (n & 1) p = mulmod(p, x8); x8 = mulmod(x8, x8); }
	return mulmod(c1, p) ^ c2;
}

static uint32_t crc_of(const std::string& d, const std::vector<size_t>& cuts, const std::vector<int>& align)
{
	Crc32 c; size_t p = 0;
	for (size_t i = 0; i < cuts.size(); i++)
	{
		int a = align[i % align.size()];
		char* m = (char*)aligned_alloc(64, (cuts[i] + a + 64) / 64 * 64 + 64);
		memcpy(m + a, d.data() + p, cuts[i]);
		c.Append((uchar*)m + a, (uint32)cuts[i]); free(m); p += cuts[i];
	}
	return c.Finish();
}

void pbt_case(pbt::Src& s, pbt::Info& info)
{
	int impl = (int)s.n(impls - 1);
	YEncode::init_crc_slice(); if (impl == 1) YEncode::init_crc_pclmul();
	size_t size = (size_t)s.size(0, s.b(50) ? 200000 : 3000, {1, 3, 4, 15, 16, 17, 31, 32, 47, 48, 63, 64, 65, 80, 128, 256, 1024});
	std::string d = s.blob(size);
	std::vector<size_t> cuts = gen_chunks(s, size, {0, size / 2, size});
	if (s.b(100)) cuts.insert(cuts.begin() + s.n(cuts.size()), 0); // an empty block
	std::vector<int> al; s.repeat(1, 5, 600, [&] { al.push_back((int)s.n(31)); });
	uint32_t want = ref_crc(d), got = crc_of(d, cuts, al);
	PBT_CHECK(got == want, "%s: %d bytes in %d blocks: crc %08x, right is %08x", impl ? "pclmul" : "slice", (int)size, (int)cuts.size(), got, want);
	// combining
	size_t k = size ? s.n(size) : 0;
	uint32_t a = ref_crc(d.substr(0, k)), b = ref_crc(d.substr(k));
	PBT_CHECK(Crc32::Combine(a, b, (uint32)(size - k)) == want, "Combine of %d and %d bytes: %08x, right is %08x", (int)k, (int)(size - k), Crc32::Combine(a, b, (uint32)(size - k)), want);
	uint64_t len = (uint64_t)s.size(0, 4294967295LL, {1, 256, 65535, 65536, 16777216, 2147483647LL, 2147483648LL, 4294967295LL});
	uint32_t x = (uint32_t)s.n(0xffffffff), y = (uint32_t)s.n(0xffffffff);
	if (len == 0) y = 0; // the checksum of nothing
	PBT_CHECK(Crc32::Combine(x, y, (uint32)len) == ref_combine(x, y, len), "Combine(%08x, %08x, %llu) = %08x, right is %08x", x, y, (unsigned long long)len, Crc32::Combine(x, y, (uint32)len), ref_combine(x, y, len));
	info.label(impl ? "pclmul" : "slice"); info.label(len > 65536 ? "combine large" : "combine small");
	info.nontrivial = size > 0; info.steps = cuts.size();
	info.sample = pbt::fmt("%d bytes, %d blocks, alignment %d.., combine length %llu", (int)size, (int)cuts.size(), al[0], (unsigned long long)len);
}
