// C19: a node that keeps an index of hashes and numbers and trades them as text with peers over a bad channel.
#pragma once
#include "lib.hpp"
#include <memory>
#include <algorithm>
#include "FieldInt.hpp"
#include "Uint256.hpp"
#include "Sha256Hash.hpp"
#include "Utils.hpp"

namespace indexsim {

inline int dig(int c) { return c >= 48 && c <= 57 ? c - 48 : c >= 97 && c <= 102 ? c - 87 : c >= 65 && c <= 70 ? c - 55 : -1; }
inline Bytes rev(Bytes b) { std::reverse(b.begin(), b.end()); return b; }
inline Bytes value(Rng &r, const std::vector<Bytes> &had) {
	if (!had.empty() && r.chance(2, 3)) {
		Bytes b = r.pick(had);
		switch (r.below(9)) {
			case 0: return b;
			case 1: b[r.below(32)] ^= (u8)(1 << r.below(8)); return b;
			case 2: for (size_t i = r.range(1, 31); i < 32; i++) b[i] = (u8)r.next(); return b;
			case 3: for (size_t n = r.range(1, 31), i = 0; i < n; i++) b[i] = (u8)r.next(); return b;
			case 4: { size_t i = r.below(31); std::swap(b[i], b[i + 1]); return b; }
			case 5: { size_t i = r.below(31); u8 m = (u8)r.range(1, 255); b[i] ^= m; b[i + 1] ^= m; return b; }
			case 6: return rev(b);
			case 7: { size_t i = 4 * r.below(8), j = 4 * r.below(8); for (int k = 0; k < 4; k++) std::swap(b[i + k], b[j + k]); return b; }
			default: b[4 * r.below(8)] ^= 0x80; return b;
		}
	}
	Bytes b = ref::toBE(genU(r)); if (r.chance(1, 6)) for (auto &x : b) { static const u8 k[] = {0, 0, 0x7f, 0x80, 0xff, 1, 0x0a, 0x90}; x = k[r.below(8)]; } return b;
}
inline std::string text(Rng &r, const Bytes &b) { std::string s = hex(b); int c = (int)r.below(3); for (auto &x : s) if (c == 1 || (c == 2 && r.chance(1, 2))) x = (char)toupper(x); return s; }
inline std::string spoil(Rng &r, std::string s, std::string &tag, const std::string &prev) {
	tag = "honest"; if (r.chance(2, 5)) return s;
	for (int n = (int)r.range(1, 2); n--;) {
		size_t L = s.size(); if (!L) break; size_t i = r.below(L);
		switch (r.below(12)) {
			case 0: case 1: { static const char k[] = "gGxX/:@`+- .\n_~fF09aA"; s[i] = k[r.below(sizeof k - 1)]; tag += "+neighbour"; break; }
			case 2: s[i] = (char)r.range(1, 255); tag += "+any_byte"; break;
			case 3: s[i] ^= (char)(1 << r.below(8)); tag += "+bit_rot"; break;
			case 4: s.resize(r.chance(1, 2) ? L - 1 : r.below(L)); tag += "+truncate"; break;
			case 5: s += "0f\n \r"[r.below(5)]; tag += "+longer"; break;
			case 6: { static const char *k[] = {"0x", "0X", "#", "0", "+", " ", "\xEF\xBB\xBF"}; s = k[r.below(7)] + s; if (r.chance(1, 2)) s.resize(64); tag += "+prefix"; break; }
			case 7: s.erase(i, 1); if (r.chance(1, 2)) s.insert(r.below(s.size() + 1), 1, "0123456789abcdef"[r.below(16)]); tag += "+lose_char"; break;
			case 8: std::swap(s[i], s[r.below(L)]); tag += "+reorder"; break;
			case 9: s[i] = (char)toupper(s[i]); tag += "+case"; break;
			case 10: if (!prev.empty()) { size_t c = r.below(std::min(L, prev.size()) + 1); s = s.substr(0, c) + prev.substr(c); tag += "+splice"; } break;
			default: for (auto &x : s) if (dig((u8)x) >= 0 && r.chance(1, 8)) x = (char)(x | 0x80); tag += "+high_bit";
		}
		size_t z = s.find('\0'); if (z != std::string::npos) s.resize(z);
	}
	return s;
}

inline Plan gen(Rng &r, u64 idx, bool thorough) {
	Plan p; std::vector<Bytes> had; std::string prev; int n = (int)r.range(20, thorough ? 160 : 80);
	for (int i = 0; i < n; i++) {
		Bytes v = value(r, had); had.push_back(v); std::string tag;
		switch (r.below(8)) {
			case 0: case 1: p.add("put d=" + hex(v)); break;
			case 2: case 3: case 4: { std::string s = spoil(r, text(r, v), tag, prev); prev = s; p.add("hear s=" + hex(s) + " as=" + "hnf"[r.below(3)] + fmt(" high=%d tag=", (int)r.below(2)) + tag); break; }
			case 5: p.add(fmt("digits from=%lld", (long long)r.pick(std::vector<u64>{0, 128, 256, 0x130, 0xFF00, r.below(1 << 20)}) - (r.chance(1, 3) ? 256 : 0))); break;
			case 6: p.add(r.chance(1, 2) ? std::string("restart") : fmt("sort seed=%d", (int)r.below(1000000))); break;
			default: p.add(fmt("move a=%d b=%d on=%d how=%s", (int)r.below(64), (int)r.below(64), (int)r.below(2), r.chance(1, 2) ? "swap" : "replace"));
		}
	}
	return p;
}

struct Item { Sha256Hash h; Uint256 n; std::unique_ptr<FieldInt> f; Bytes v; };  // v: the number in big-endian

inline void faults(const std::string &tag, bool ok) {
	size_t i = 0; while (i <= tag.size()) { size_t j = tag.find('+', i); if (j == std::string::npos) j = tag.size(); std::string t = tag.substr(i, j - i); if (t != "honest" && !t.empty()) sim::stat("fault." + t); i = j + 1; }
	sim::stat(ok ? "outcome.accepted" : "outcome.refused");
}

inline void exec(const Plan &p) {
	std::vector<Item> it; std::vector<std::string> disk; u64 shape = 0; const Bytes P = ref::toBE(ref::FP().m);
	auto pair = [&](const Item &a, const Item &b) {
		int c = a.v < b.v ? -1 : a.v == b.v ? 0 : 1; std::string what = hex(a.v) + " and " + hex(b.v);
		sim::check((a.h == b.h) == (c == 0) && (a.h != b.h) == (c != 0), "wrong-equality", "hashes of " + what);
		sim::check((a.n == b.n) == (c == 0) && (a.n != b.n) == (c != 0), "wrong-equality", "numbers " + what);
		sim::check((a.n < b.n) == (c < 0) && (a.n <= b.n) == (c <= 0) && (a.n > b.n) == (c > 0) && (a.n >= b.n) == (c >= 0), "wrong-order", "numbers " + what);
		if (a.f && b.f) { const FieldInt &x = *a.f, &y = *b.f; sim::check((x == y) == (c == 0) && (x != y) == (c != 0), "wrong-equality", "field numbers " + what); sim::check((x < y) == (c < 0) && (x <= y) == (c <= 0) && (x > y) == (c > 0) && (x >= y) == (c >= 0), "wrong-order", "field numbers " + what); }
	};
	auto bytes = [&](const Item &x, const std::string &how) {
		u8 b[34]; memset(b, 0x5a, sizeof b); x.n.getBigEndianBytes(b + 1); sim::check(b[0] == 0x5a && b[33] == 0x5a && Bytes(b + 1, b + 33) == x.v, "wrong-bytes", how + " wrote " + hex(b + 1, 32) + " for " + hex(x.v));
		if (x.f) { memset(b, 0x5a, sizeof b); x.f->getBigEndianBytes(b + 1); sim::check(b[0] == 0x5a && b[33] == 0x5a && Bytes(b + 1, b + 33) == x.v, "wrong-bytes", how + " (field) wrote " + hex(b + 1, 32) + " for " + hex(x.v)); }
		sim::check(bytesOf(x.h) == rev(x.v), "wrong-hash", how + " has the bytes " + hex(bytesOf(x.h)) + " for the text " + hex(x.v)); sim::check(bytesOf(x.n) == x.v, "wrong-number", how + " is " + hex(bytesOf(x.n)) + " for " + hex(x.v));
	};
	auto enter = [&](Item &&x, const std::string &how) {
		bytes(x, how); sim::logb(x.v.data(), 32);
		for (size_t i = it.size() > 12 ? it.size() - 12 : 0; i < it.size(); i++) { pair(x, it[i]); pair(it[i], x); }
		pair(x, x); if (disk.size() < 40) disk.push_back(hex(x.v)); it.push_back(std::move(x));
	};
	auto fromBytes = [&](const Bytes &v) {
		Bytes r = rev(v); Item x{Sha256Hash(r.data(), 32), Uint256(v.data()), nullptr, v}; if (v < P) x.f.reset(new FieldInt(x.n)); return x;
	};
	auto sort = [&](Rng r) {
		std::vector<size_t> o; for (size_t i = 0; i < it.size(); i++) o.push_back(i); for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[r.below(i)]);
		std::stable_sort(o.begin(), o.end(), [&](size_t a, size_t b) { return it[a].n < it[b].n; });
		for (size_t i = 1; i < o.size(); i++) sim::check(!(it[o[i]].v < it[o[i - 1]].v), "wrong-order", "sorted: " + hex(it[o[i - 1]].v) + " before " + hex(it[o[i]].v));
	};
	auto constants = [&] { sim::check(bytesOf(Uint256::ZERO) == Bytes(32, 0) && bytesOf(Uint256::ONE) == ref::toBE(ref::U(1)), "constant-changed", "ZERO or ONE"); };
	for (auto &l : p.steps) {
		Step st = Step::parse(l); sim::tick(); sim::stat("op." + st.op); u64 k = sim::fnv(st.op + st.str("tag") + st.str("as"));
		if (st.op == "put") { Bytes v = st.bin("d"); if (v.size() != 32) continue; enter(fromBytes(v), "made from bytes"); }
		else if (st.op == "hear") {
			Bytes raw = st.bin("s"); bool good = raw.size() == 64, lib = raw.size() == 64; char as = st.str("as", "h")[0];
			Guard g(raw.size() + 1); char *s = (char *)g.at(raw.size() + 1, st.num("high")); if (!raw.empty()) memcpy(s, raw.data(), raw.size()); s[raw.size()] = 0; g.prot(PROT_READ);
			for (u8 c : raw) {  // the node vets the text the documented way before it makes an object from it
				int w = dig(c), a = Utils::parseHexDigit(c), b = Utils::parseHexDigit((char)c); good = good && w >= 0; lib = lib && a >= 0;
				sim::check(a == w, w < 0 ? "accepted-damaged" : "refused-good", fmt("the character %d is read as %d", c, a)); sim::check(b == (c < 128 ? w : -1), "accepted-damaged", fmt("the character %d is read as %d", (int)(signed char)c, b));
			}
			faults(st.str("tag"), good); k ^= good; sim::logv(good);
			if (good) {
				Bytes v = sim::unhex(std::string(raw.begin(), raw.end())), r = rev(v); Item x = fromBytes(v);
				if (as == 'h') x.h = Sha256Hash(s); else if (as == 'n') x.n = Uint256(s); else if (v < P) x.f.reset(new FieldInt(s));
				sim::check(!x.f || bytesOf(*x.f) == v, "wrong-number", std::string("read as a field number: ") + s); enter(std::move(x), std::string("read from ") + s);
			}
			sim::distinct(k);
		} else if (st.op == "digits") {
			long long from = strtoll(st.str("from").c_str(), nullptr, 0); for (long long c = from; c < from + 256; c++) { int w = dig((int)c), a = Utils::parseHexDigit((int)c); sim::check(a == w, w < 0 ? "accepted-damaged" : "refused-good", fmt("the character code %lld is read as %d", c, a)); }
		} else if (st.op == "restart") {
			it.clear(); std::vector<std::string> old; old.swap(disk); sim::stat("fault.restart"); constants();
			for (auto &s : old) { Bytes v = sim::unhex(s); Item x{Sha256Hash(s.c_str()), Uint256(s.c_str()), nullptr, v}; if (v < P) x.f.reset(new FieldInt(s.c_str())); enter(std::move(x), "read back from " + s); }
		} else if (st.op == "sort") sort(Rng(st.num("seed")));
		else if (st.op == "move" && it.size() >= 2) {
			Item &a = it[st.num("a") % it.size()], &b = it[st.num("b") % it.size()]; if (&a == &b) continue; u32 on = (u32)st.num("on") & 1;
			if (st.str("how") == "swap") { a.n.swap(b.n, on); if (on) { Sha256Hash t = a.h; a.h = b.h; b.h = t; a.v.swap(b.v); a.f.swap(b.f); } }
			else { a.n.replace(b.n, on); if (on) { a.h = b.h; a.v = b.v; if (a.f && b.f) a.f->replace(*b.f, 1); else a.f.reset(b.f ? new FieldInt(*b.f) : nullptr); } else if (a.f && b.f) a.f->replace(*b.f, 0); }
			bytes(a, l); bytes(b, l); pair(a, b);
		}
		shape = sim::mix64(shape ^ k);
	}
	sort(Rng(7)); constants(); sim::distinct(shape);
}

}
