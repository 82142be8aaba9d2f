// Executes sequences of ring buffer operations against a plain byte queue.
// stdin: one case per line, "op arg arg ..." separated by ';'.  stdout: "ok <stats>" or "fail <op index> <message>".
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <deque>
#include <vector>
#include <sstream>
#include <iostream>
#include "read_buffer.h"

enum state { continue_processing, needs_more_read, stopped };
static read_buffer* B;
static std::deque<char> Q;
static unsigned long W;                       // bytes ever written
static const int CAP = BUFFER_SIZE;
static std::string err;
static long nqueries, wraps, fulls;

#define CHECK(c, ...) do { if (!(c)) { char b_[400]; snprintf(b_, sizeof b_, __VA_ARGS__); err = b_; return false; } } while (0)

static unsigned mix(unsigned long x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdUL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53UL; x ^= x >> 33; return (unsigned)x; }

static bool amounts() {
	int len = (int)Q.size();
	CHECK(rbuf_read_remaining(B) == len, "readable is reported as %d, %d bytes are queued", rbuf_read_remaining(B), len);
	CHECK(rbuf_write_remaining(B) == CAP - len, "writable is reported as %d, %d bytes are free", rbuf_write_remaining(B), CAP - len);
	int woff = (int)(W % CAP), roff = (int)((W - len) % CAP);
	int wend = CAP - len < CAP - woff ? CAP - len : CAP - woff;
	CHECK((int)rbuf_write_to_end(B) == wend, "contiguously writable is reported as %d, should be %d", (int)rbuf_write_to_end(B), wend);
	if (len < CAP || roff == 0) {              // completely full at another offset: pinned by a unit test to the whole length
		int rend = len < CAP - roff ? len : CAP - roff;
		CHECK(rbuf_read_to_end(B) == rend, "contiguously readable is reported as %d, should be %d", rbuf_read_to_end(B), rend);
	}
	bool e = RBUF_EMPTY(B);
	CHECK(e == (len == 0), "empty is reported as %d with %d bytes", (int)e, len);
	nqueries += 5;
	return true;
}

static bool do_write(int n, const char* src) {
	if (n > CAP - (int)Q.size()) n = CAP - (int)Q.size();
	int done = 0;
	while (done < n) {
		int c = rbuf_write_to_end(B);
		CHECK(c > 0 && c <= CAP - (int)Q.size(), "contiguously writable is reported as %d with %d free", c, CAP - (int)Q.size());
		if (c > n - done) c = n - done;
		char* p = RBUF_WRITE((*B));
		CHECK(p >= B->buffer && p + c <= B->buffer + CAP, "the write position is outside the buffer");
		memcpy(p, src + done, c);
		RBUF_WRITEMOVE((*B), c);
		Q.insert(Q.end(), src + done, src + done + c);
		W += c; done += c;
		if (W % CAP == 0) wraps++;
		if (!amounts()) return false;
	}
	if ((int)Q.size() == CAP) fulls++;
	return true;
}
static bool do_read(int n) {
	if (n > (int)Q.size()) n = Q.size();
	RBUF_READMOVE((*B), n);
	Q.erase(Q.begin(), Q.begin() + n);
	return amounts();
}
static bool do_copy(int n) {
	if (n > CAP) n = CAP;
	int want = n < (int)Q.size() ? n : (int)Q.size();
	// exactly as large as asked for, so that any byte too many is seen
	char* d = (char*)malloc(n + 16); memset(d, 0x5a, n + 16);
	int got = rbuf_copyn(B, d, n);
	bool ok = got == want;
	if (!ok) { char b[200]; snprintf(b, 200, "copy of %d with %d readable returned %d", n, (int)Q.size(), got); err = b; }
	for (int i = 0; ok && i < n + 16; i++) {
		char exp = i < want ? Q[i] : 0x5a;
		if (d[i] != exp) { char b[200]; snprintf(b, 200, "copy of %d with %d readable: byte %d is %02x, should be %02x", n, (int)Q.size(), i, d[i] & 255, exp & 255); err = b; ok = false; }
	}
	free(d); nqueries++;
	return ok;
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
// compare with the queued bytes, the byte at position `at` changed by delta (if < n); bytes beyond the queue are arbitrary
static bool do_cmp(int n, int at, int delta) {
	if (n > CAP) n = CAP;
	char* w = (char*)malloc(n ? n : 1);
	for (int i = 0; i < n; i++) w[i] = i < (int)Q.size() ? Q[i] : (char)mix(i);
	if (at < n) w[at] = (char)(w[at] + delta);
	int r = rbuf_cmpn(B, w, n), exp = 0;
	bool ok = true; nqueries++;
	if (n > (int)Q.size()) { ok = r != 0; exp = 1; if (!ok) err = "comparison with more bytes than are readable returned equal"; }
	else {
		for (int i = 0; i < n && !exp; i++) exp = (int)(unsigned char)w[i] - (int)(unsigned char)Q[i];
		ok = sgn(r) == sgn(exp);
		if (!ok) { char b[200]; snprintf(b, 200, "comparison of %d bytes, different at %d: result %d, should be %d", n, exp ? at : -1, r, sgn(exp)); err = b; }
	}
	free(w);
	return ok;
}
static bool do_num(int max) {
	int out = -12345;
	int n = (int)Q.size();
	if (max >= 0 && max < n) n = max;
	bool got = rbuf_strntol(B, &out, max);
	nqueries++;
	if (n == 0) return true;                   // no digits: nothing is promised
	bool valid = true; __int128 v = 0;
	for (int i = 0; i < n && valid; i++) {
		if (Q[i] < '0' || Q[i] > '9') valid = false;
		else { v = v * 10 + (Q[i] - '0'); if (v > 2147483647) valid = false; }
	}
	CHECK(got == valid, "number of %d bytes: %s", n, got ? "accepted, but it is none or too large" : "rejected");
	CHECK(!valid || out == (int)v, "number of %d bytes read as %d, should be %d", n, out, (int)v);
	return true;
}
static bool do_iter(int stop) {
	int n = -1, end = -1; state ret = continue_processing; char* buffer = 0;
	std::string seen;
	RBUF_ITERATE((*B), n, buffer, end, ret, (seen.push_back(*buffer), (int)seen.size() > stop ? stopped : continue_processing));
	int want = stop + 1 < (int)Q.size() ? stop + 1 : (int)Q.size();
	nqueries++;
	CHECK((int)seen.size() == want, "iteration visited %d bytes of %d, should stop after %d", (int)seen.size(), (int)Q.size(), want);
	for (int i = 0; i < want; i++) CHECK(seen[i] == Q[i], "iteration: byte %d is %02x, should be %02x", i, seen[i] & 255, Q[i] & 255);
	CHECK(ret == (stop < (int)Q.size() ? stopped : needs_more_read), "iteration ended with %d", (int)ret);
	CHECK(n == want, "iteration counted %d, visited %d", n, want);
	return true;
}
static bool do_rdptr() {                       // data at the read pointer, to the contiguous end
	if (Q.empty()) return true;
	char* p = RBUF_READ((*B)); CHECK(p >= B->buffer && p < B->buffer + CAP, "the read position is outside the buffer");
	int c = CAP - (int)(p - B->buffer); if (c > (int)Q.size()) c = Q.size();
	for (int i = 0; i < c; i++) CHECK(p[i] == Q[i], "byte %d at the read position is %02x, should be %02x", i, p[i] & 255, Q[i] & 255);
	return true;
}
static void fresh() { delete B; B = new read_buffer; memset(B->buffer, 0x33, CAP); rbuf_init(B); Q.clear(); W = 0; }

static bool one(const std::vector<std::string>& t) {
	const std::string& o = t[0];
	auto a = [&](unsigned i) { return i < t.size() ? atoi(t[i].c_str()) : 0; };
	if (o == "w") {                            // w n seed: arbitrary bytes
		std::string s; for (int i = 0; i < a(1); i++) s.push_back((char)mix(((unsigned long)a(2) << 32) + i));
		return do_write(a(1), s.data());
	}
	if (o == "t") {                            // t hex: these bytes
		std::string s; for (size_t i = 0; i + 1 < t[1].size(); i += 2) s.push_back((char)strtol(t[1].substr(i, 2).c_str(), 0, 16));
		return do_write(s.size(), s.data());
	}
	if (o == "r") return do_read(a(1));
	if (o == "c") return do_copy(a(1));
	if (o == "m") return do_cmp(a(1), a(2), a(3));
	if (o == "n") return do_num(a(1));
	if (o == "i") return do_iter(a(1));
	if (o == "p") return do_rdptr();
	if (o == "z") { fresh(); return amounts(); }
	if (o == "f") {                            // f n: move both positions on by n, without looking at the data
		static char zero[BUFFER_SIZE];
		if (Q.size()) return true;
		for (int n = a(1); n > 0;) { int c = n < CAP - (int)(W % CAP) ? n : CAP - (int)(W % CAP); memcpy(RBUF_WRITE((*B)), zero, c); RBUF_WRITEMOVE((*B), c); RBUF_READMOVE((*B), c); W += c; n -= c; }
		return amounts();
	}
	if (o == "E") {                            // E offset step: every fill level from this offset, every query
		for (int fill = 0; fill <= CAP; fill += (fill == CAP || fill + a(2) <= CAP) ? a(2) : CAP - fill) {
			fresh();
			std::vector<std::string> f = {"f", t[1]};
			if (!one(f)) return false;
			std::string s; for (int i = 0; i < fill; i++) s.push_back((char)mix(fill * 7919UL + i));
			if (!do_write(fill, s.data())) return false;
			int roff = (int)((W - fill) % CAP), toend = CAP - roff;
			int ns[] = {0, 1, fill - 1, fill, fill + 1, toend - 1, toend, toend + 1, fill / 2, CAP};
			for (int n : ns) {
				if (n < 0 || n > CAP) continue;
				if (!do_copy(n) || !do_cmp(n, n, 0) || !do_iter(n)) return false;
				int at[] = {0, n - 1, toend - 1, toend, n / 2};
				for (int x : at) if (x >= 0 && x < n) if (!do_cmp(n, x, 1) || !do_cmp(n, x, -1)) return false;
			}
			if (!do_num(-1) || !do_num(3) || !do_rdptr()) return false;
			for (int n : ns) if (n >= 0 && n <= (int)Q.size()) { if (!do_read(n) || !do_rdptr() || !do_write(n, s.data())) return false; }
			std::string d; for (int i = 0; i < 12; i++) d.push_back((char)('0' + mix(i + fill) % 10));
			if (!do_read(fill)) return false;
			if (!do_write(9, d.data()) || !do_num(-1) || !do_num(4) || !do_num(9)) return false;
			if (a(2) == 0) break;
		}
		return true;
	}
	err = "unknown operation " + o; return false;
}

int main() {
	std::string line;
	while (std::getline(std::cin, line)) {
		fresh(); err.clear(); nqueries = wraps = fulls = 0;
		std::stringstream ls(line); std::string op; int idx = 0; bool ok = amounts();
		while (ok && std::getline(ls, op, ';')) {
			std::stringstream os(op); std::vector<std::string> t; std::string x;
			while (os >> x) t.push_back(x);
			if (!t.empty()) ok = one(t);
			if (ok) idx++;
		}
		if (ok) printf("ok %ld %ld %ld\n", nqueries, wraps, fulls);
		else printf("fail %d %s\n", idx, err.c_str());
		fflush(stdout);
	}
}
