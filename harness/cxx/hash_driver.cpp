// Compares the three provided MurmurHash3 variants with a reference written from the published algorithm.
// stdin: one case per line: "v <algo> <seed> <align> <mode> <hex or n:seed>"; stdout "ok" / "fail msg"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include "hash.h"
typedef uint32_t u32; typedef uint64_t u64; typedef unsigned char u8;

static u32 r32(u32 x, int r) { return (x << r) | (x >> (32 - r)); }
static u64 r64(u64 x, int r) { return (x << r) | (x >> (64 - r)); }
static u64 le(const u8* p, int n) { u64 v = 0; for (int i = n - 1; i >= 0; i--) v = v << 8 | p[i]; return v; }   // missing bytes are zero
static u32 f32(u32 h) { h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; return h ^ h >> 16; }
static u64 f64(u64 k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdULL; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ULL; return k ^ k >> 33; }

static void ref32(const u8* d, int n, u32 seed, u8* out) {
	u32 h = seed;
	for (int i = 0; i < n; i += 4) {
		int c = n - i < 4 ? n - i : 4;
		u32 k = (u32)le(d + i, c); k *= 0xcc9e2d51u; k = r32(k, 15); k *= 0x1b873593u; h ^= k;
		if (c == 4) { h = r32(h, 13); h = h * 5 + 0xe6546b64u; }
	}
	h = f32(h ^ (u32)n);
	for (int i = 0; i < 4; i++) out[i] = h >> 8 * i;
}
static void ref86(const u8* d, int n, u32 seed, u8* out) {
	const u32 C[4] = {0x239b961bu, 0xab0e9789u, 0x38b34ae5u, 0xa1e38b93u};
	const int R[4] = {15, 16, 17, 18}, S[4] = {19, 17, 15, 13};
	const u32 A[4] = {0x561ccd1bu, 0x0bcaa747u, 0x96cd1c35u, 0x32ac3b17u};
	u32 h[4] = {seed, seed, seed, seed};
	for (int i = 0; i < n; i += 16) {
		int c = n - i < 16 ? n - i : 16;
		for (int j = 0; j < 4; j++) {
			int m = c - 4 * j; if (m <= 0) break; if (m > 4) m = 4;
			u32 k = (u32)le(d + i + 4 * j, m); k *= C[j]; k = r32(k, R[j]); k *= C[(j + 1) % 4]; h[j] ^= k;
			if (c == 16) { h[j] = r32(h[j], S[j]); h[j] += h[(j + 1) % 4]; h[j] = h[j] * 5 + A[j]; }
		}
	}
	for (int j = 0; j < 4; j++) h[j] ^= (u32)n;
	h[0] += h[1] + h[2] + h[3]; for (int j = 1; j < 4; j++) h[j] += h[0];
	for (int j = 0; j < 4; j++) h[j] = f32(h[j]);
	h[0] += h[1] + h[2] + h[3]; for (int j = 1; j < 4; j++) h[j] += h[0];
	for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++) out[4 * j + i] = h[j] >> 8 * i;
}
static void ref64(const u8* d, int n, u32 seed, u8* out) {
	const u64 C[2] = {0x87c37b91114253d5ULL, 0x4cf5ad432745937fULL}; const int R[2] = {31, 33}, S[2] = {27, 31};
	const u64 A[2] = {0x52dce729, 0x38495ab5};
	u64 h[2] = {seed, seed};
	for (int i = 0; i < n; i += 16) {
		int c = n - i < 16 ? n - i : 16;
		for (int j = 0; j < 2; j++) {
			int m = c - 8 * j; if (m <= 0) break; if (m > 8) m = 8;
			u64 k = le(d + i + 8 * j, m); k *= C[j]; k = r64(k, R[j]); k *= C[1 - j]; h[j] ^= k;
			if (c == 16) { h[j] = r64(h[j], S[j]); h[j] += h[1 - j]; h[j] = h[j] * 5 + A[j]; }
		}
	}
	h[0] ^= (u64)n; h[1] ^= (u64)n; h[0] += h[1]; h[1] += h[0]; h[0] = f64(h[0]); h[1] = f64(h[1]); h[0] += h[1]; h[1] += h[0];
	for (int j = 0; j < 2; j++) for (int i = 0; i < 8; i++) out[8 * j + i] = h[j] >> 8 * i;
}
typedef void (*ref_t)(const u8*, int, u32, u8*);
static ref_t REF[3] = {ref32, ref86, ref64};
static void (*IMPL[3])(const void*, int, u32, void*) = {MurmurHash3_x86_32, MurmurHash3_x86_128, MurmurHash3_x64_128};
static const int BYTES[3] = {4, 16, 16};

// the published verification values of SMHasher, for the reference itself
static u32 verify(int a) {
	u8 key[256], hashes[256 * 16], fin[16]; int w = BYTES[a];
	for (int i = 0; i < 256; i++) { key[i] = i; REF[a](key, i, 256 - i, hashes + i * w); }
	REF[a](hashes, w * 256, 0, fin);
	return (u32)le(fin, 4);
}
static const long PAGE = 4096; static const long AREA = 64L << 20;
static u8* area;                               // ends in an inaccessible page
static std::string check(int a, u32 seed, const u8* d, int n, int align, int place) {
	u8 want[16], got[32 + 8];
	REF[a](d, n, seed, want);
	u8* p; std::vector<u8> v;
	u8* heap = 0;
	if (place == 0) { p = area + AREA - n; }                        // the last byte is the last readable one
	else if (place == 1) { p = area + (align & 63); }               // the first bytes of a readable area when align is 0
	else { heap = (u8*)malloc(n + (align & 63)); p = heap + (align & 63); }
	memcpy(p, d, n);
	// the result goes to an aligned place, as the callers have it, between guards
	memset(got, 0xa5, sizeof got);
	IMPL[a](p, n, seed, got + 8);
	char b[300]; b[0] = 0;
	if (memcmp(got + 8, want, BYTES[a])) snprintf(b, 300, "variant %d of %d bytes, seed %u, alignment %d: differs from MurmurHash3", a, n, seed, (int)((size_t)p & 15));
	else for (int i = 0; i < 40; i++) if ((i < 8 || i >= 8 + BYTES[a]) && got[i] != 0xa5) snprintf(b, 300, "variant %d of %d bytes writes outside the result", a, n);
	if (memcmp(p, d, n)) snprintf(b, 300, "variant %d changes its input", a);
	free(heap);
	return b;
}
static u32 mix(u64 x) { return (u32)f64(x); }

int main() {
	if (verify(0) != 0xB0F57EE3u || verify(1) != 0xB3ECE62Au || verify(2) != 0x6384BA69u) { printf("reference %08x %08x %08x\n", verify(0), verify(1), verify(2)); return 3; }
	u8* m = (u8*)mmap(0, AREA + 2 * PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	mprotect(m, PAGE, PROT_NONE); mprotect(m + PAGE + AREA, PAGE, PROT_NONE); area = m + PAGE;
	std::string line;
	while (std::getline(std::cin, line)) {
		std::stringstream ls(line); std::string op, e; long cnt = 0, nt = 0;
		while (e.empty() && std::getline(ls, op, ';')) {
			std::stringstream os(op); std::string o, data; unsigned a, seed; int align, place;
			os >> o;
			if (o == "v") {
				os >> a >> seed >> align >> place >> data;
				std::vector<u8> d;
				size_t c = data.find(':');
				if (c != std::string::npos) { int n = atoi(data.c_str()); u32 s = strtoul(data.c_str() + c + 1, 0, 10); for (int i = 0; i < n; i++) d.push_back(mix(((u64)s << 32) + i)); }
				else for (size_t i = 0; i + 1 < data.size(); i += 2) d.push_back(strtol(data.substr(i, 2).c_str(), 0, 16));
				d.push_back(0);
				e = check(a, seed, d.data(), (int)d.size() - 1, align, place); cnt++; nt += (d.size() - 1) % 16 != 0;
			} else if (o == "E") {             // E length seed: every variant, alignment and placement for one length
				int n; os >> n >> seed;
				std::vector<u8> d(n + 1);
				for (int rep = 0; rep < 4 && e.empty(); rep++) {
					for (int i = 0; i < n; i++) d[i] = rep == 0 ? 0 : rep == 1 ? 255 : rep == 2 ? 0x80 : mix(((u64)seed << 32) + i);
					u32 sd = rep == 0 ? 0 : rep == 1 ? 0xffffffffu : rep == 2 ? 13 : seed;
					for (unsigned x = 0; x < 3; x++) for (int al = 0; al < 16 && e.empty(); al++) for (int pl = 0; pl < 3 && e.empty(); pl++) { e = check(x, sd, d.data(), n, al, pl); cnt++; nt += n % 16 != 0; }
				}
			}
		}
		if (e.empty()) printf("ok %ld %ld\n", cnt, nt); else printf("fail 0 %s\n", e.c_str());
		fflush(stdout);
	}
}
