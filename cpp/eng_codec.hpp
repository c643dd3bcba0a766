// C04 (imports over a lossy/hostile channel) and C05 (exports to a failing disk).
#pragma once
#include "lib.hpp"
#include <memory>

namespace codec {

inline Bytes cat(Bytes a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline ref::XKey genX(Rng &r) {
	ref::XKey x; x.ok = true; x.k = genKey(r); x.chain = r.chance(1, 6) ? Bytes(32, r.chance(1, 2) ? 0 : 0xFF) : r.bytes(32); x.depth = (u32)r.pick(std::vector<u64>{0, 1, 2, 127, 128, 254, 255, r.below(256)});
	x.index = (u32)(r.chance(1, 3) ? r.pick(std::vector<u64>{0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF}) : r.next()); x.fp = r.chance(1, 4) ? Bytes(4, 0) : r.bytes(4); return x;
}
inline Bytes genHash20(Rng &r) { Bytes h = r.bytes(20); if (r.chance(1, 3)) { size_t k = r.below(21); for (size_t i = 0; i < k; i++) h[i] = 0; } if (r.chance(1, 12)) std::fill(h.begin(), h.end(), 0xFF); return h; }
inline u8 genVer(Rng &r) { return (u8)r.pick(std::vector<u64>{0, 0, 1, 5, 111, 128, 239, 255, r.below(256)}); }

// A payload of the given kind (0 address, 1 WIF, 2 extended key), honest or forged
inline Bytes payload(Rng &r, int kind, bool forge, std::string &tag) {
	Bytes p;
	if (kind == 0) { p = cat(Bytes{genVer(r)}, genHash20(r)); }
	else if (kind == 1) { p = cat(Bytes{genVer(r)}, ref::toBE(genU(r))); if (r.chance(1, 2)) p.push_back(1); }
	else p = ref::xpayload(genX(r));
	tag = "honest";
	if (!forge) return p;
	switch (r.below(10)) {
		case 0: tag = "forge.longer"; { size_t k = r.range(1, 4); while (k--) p.push_back((u8)r.next()); } break;
		case 1: tag = "forge.shorter"; { size_t k = r.range(1, 4); while (k-- && p.size()) p.pop_back(); } break;
		case 2: tag = "forge.leading_zeros"; p.insert(p.begin(), r.range(1, 3), 0); break;
		case 3: tag = "forge.marker"; if (kind == 1) { p.resize(33); p.push_back((u8)r.pick(std::vector<u64>{0, 2, 3, 0x81, 0xFF, r.below(256)})); } else p[r.below(p.size())] ^= (u8)(1 << r.below(8)); break;
		case 4: case 5: tag = "forge.header"; if (kind == 2) {
				size_t at = r.pick(std::vector<u64>{0, 1, 2, 3, 45}), how = r.below(4);
				if (how == 0) { static const u32 hs[] = {0x0488B21E, 0x04358394, 0x043587CF, 0x049D7878, 0x049D7CB2, 0x04B2430C, 0x045F18BC, 0x044A4E28, 0x02575048, 0x019DA462, 0x02FAC398, 0x0488ADE4}; u32 h = hs[r.below(12)]; for (int i = 0; i < 4; i++) p[i] = (u8)(h >> (24 - 8 * i)); }
				else if (how == 1) { p[at] = (u8)r.next(); if (r.chance(1, 2)) { size_t b = r.below(4); p[b] = (u8)r.next(); } }
				else p[at] ^= (u8)(1 << r.below(8));
			} else p[0] ^= (u8)(1 << r.below(8)); break;
		case 6: case 7: tag = "forge.keyrange"; if (kind >= 1) {
				ref::U u; int w = (int)r.below(7); if (w == 1) u = ref::FN().m; else if (w == 2) { u = ref::FN().m; ref::addc(u, ref::U(r.range(1, 3))); } else if (w == 3) { u = ref::FN().m; ref::subb(u, ref::U(r.range(1, 2))); } else if (w == 4) u = ref::U(~0ull, ~0ull, ~0ull, ~0ull - r.below(3)); else if (w == 5) u = ref::U(r.range(1, 2)); else if (w == 6) { u = ref::FN().m; u.w[r.below(4)] = ~0ull; }
				Bytes k = ref::toBE(u); std::copy(k.begin(), k.end(), p.begin() + (kind == 1 ? 1 : 46));
			} break;
		case 8: tag = "forge.bitflip"; p[r.below(p.size())] ^= (u8)(1 << r.below(8)); break;
		default: tag = "forge.other_type"; { int k2 = (int)((kind + 1 + r.below(2)) % 3); std::string t; p = payload(r, k2, false, t); tag = "forge.other_type"; } break;
	}
	return p;
}
inline Bytes addOne256(Bytes full, Rng &r) {  // number + m * 256^len: same bytes if a decoder silently overflows
	full.insert(full.begin(), (u8)r.range(1, 60)); return full;
}

// Changes two neighbouring bytes so that sum (byte * w^position) stays the same, for a multiplier w of some common weak hash
inline void weak(u8 *c, Rng &r) {
	static const int ws[] = {31, 31, 33, 37, 2, 3, 5, 17, 131, 255}; int w = ws[r.below(10)], k = (int)r.range(1, std::max(1, 255 / w)); if (r.chance(1, 2)) k = 1; if (r.chance(1, 2) ? c[0] + k > 255 || c[1] < k * w : false) k = -k;
	if (c[0] + k < 0 || c[0] + k > 255 || c[1] - k * w < 0 || c[1] - k * w > 255) k = -k;
	c[0] = (u8)(c[0] + k); c[1] = (u8)(c[1] - k * w);
}

inline std::string genString(Rng &r, int kind, std::string &tag, bool faults, const std::vector<std::string> &prev) {
	Bytes p = payload(r, kind, faults && r.chance(2, 5), tag); size_t edge = 0;
	Bytes full = ref::withCheck(p);
	if (faults && r.chance(1, 5)) {  // forging below the payload level
		switch (r.below(4)) {
			case 0: {  // damage confined to the checksum, including damage that cancels in a careless comparison
				u8 *c = &full[full.size() - 4], d = (u8)r.range(1, 255); size_t a = r.below(4), b = r.below(4);
				switch (r.below(7)) { case 5: case 6: a = r.below(3); weak(&c[a], r); break; case 0: c[a] ^= (u8)(1 << r.below(8)); break; case 1: c[a] += d; if (a != b) c[b] -= d; break; case 2: c[a] ^= d; if (a != b) c[b] ^= d; break; case 3: std::swap(c[a], c[b]); break; default: for (size_t q = 0; q < 4; q++) if (q != a) c[q] = (u8)r.next(); }
				tag += "+check_bytes"; break;
			}
			case 1: if (r.chance(1, 2)) { full = addOne256(full, r); tag += "+overflow"; } else { edge = 1 + r.below(2); size_t n = full.size(); full.assign(n + 1, 0); full[0] = r.chance(2, 3) ? 1 : (u8)r.range(1, 58); full[n] = (u8)r.below(58); if (r.chance(1, 4)) { full.assign(n, 0xFF); } tag += "+edge_of_range"; } break;
			case 2: { Bytes h = ref::sha256(p); std::copy(h.begin(), h.begin() + 4, full.end() - 4); tag += "+single_hash"; } break;
			default: full[r.below(full.size())] ^= (u8)(1 << r.below(8)); tag += "+raw_bit"; break;
		}
	}
	std::string s = ref::b58enc(full);
	if (!faults) return s;
	if (edge) { while (--edge) s += ref::B58[r.below(58)]; if (r.chance(3, 4)) return s; }
	int n = r.chance(1, 2) ? 0 : (int)r.range(1, 3);
	for (int i = 0; i < n; i++) {
		size_t L = s.size(); if (L == 0) break;
		switch (r.below(19)) {
			case 0: case 1: s[r.below(L)] = ref::B58[r.below(58)]; tag += "+substitute"; break;
			case 2: s.erase(r.below(L), 1); tag += "+lose_char"; break;
			case 3: s.insert(r.below(L + 1), 1, ref::B58[r.below(58)]); tag += "+insert_char"; break;
			case 4: { size_t a = r.below(L), b = r.below(L); std::swap(s[a], s[b]); tag += "+reorder"; } break;
			case 5: s = s.substr(0, r.below(L + 1)); tag += "+truncate"; break;
			case 6: { size_t a = r.below(L), k = r.range(1, 8); s.insert(a, s.substr(a, k)); tag += "+duplicate_span"; } break;
			case 7: s.insert(0, r.range(1, 3), '1'); tag += "+leading_one"; break;
			case 8: if (s[0] == '1') { s.erase(0, 1); tag += "+drop_leading_one"; } break;
			case 9: { static const std::string bad = "0OIl +/=_-"; s[r.below(L)] = r.chance(1, 3) ? (char)r.range(1, 255) : bad[r.below(bad.size())]; tag += "+alien_char"; } break;
			case 10: { size_t a = r.below(L); if (isalpha((u8)s[a])) s[a] ^= 0x20; tag += "+case"; } break;
			case 11: s[r.below(L)] ^= (char)(1 << r.below(8)); tag += "+bit_rot"; break;
			case 12: if (!prev.empty()) { const std::string &o = r.pick(prev); size_t c = r.below(std::min(L, o.size()) + 1); s = s.substr(0, c) + o.substr(c); tag += "+splice"; } break;
			case 13: if (!prev.empty()) { s = r.pick(prev); tag += "+replay"; } break;
			case 14: s += ref::B58[r.below(58)]; tag += "+append_char"; break;
			case 15: {  // what editors, terminals and web pages put around or into a text
				static const char *fr[] = {"\n", "\r\n", "\r", " ", "\t", "\xC2\xA0", "\xEF\xBB\xBF", "\"", "'", "bitcoin:", "\x01", "\x7F", "\x80", "\v", "\f", "?", "#", ",", ".", "\0"};
				std::string f = fr[r.below(sizeof(fr) / sizeof(fr[0]))]; int w = (int)r.below(4); if (w != 1) s += f; if (w == 1 || w == 2) s = f + s; tag += "+frame"; } break;
			case 16: { std::string f(1, " \n\t-\r_.0"[r.below(8)]), t; size_t k = r.range(1, 12); for (size_t q = 0; q < L; q++) { if (q && q % k == 0) t += f; t += s[q]; } s = t; tag += "+grouped"; } break;
			case 17: {  // characters that look like others
				static const char *look[] = {"1lI|!", "oO0", "LlI1", "iI", "D0O", "QO0", "B8", "Z2", "S5", "u\xFC"}; int all = (int)r.below(2); size_t from = r.below(L); bool done = false;
				for (size_t q = 0; q < L && (all || !done); q++) { size_t at = (from + q) % L; for (const char *l : look) if (s[at] == l[0]) { s[at] = l[1 + r.below(strlen(l) - 1)]; done = true; break; } }
				tag += "+lookalike"; } break;
			default: if (!prev.empty() && r.chance(1, 4)) { s += r.pick(prev); tag += "+merge"; } else { s.assign(r.below(130), '1'); tag += "+ones"; } break;
		}
		size_t z = s.find('\0'); if (z != std::string::npos) s.resize(z);
	}
	return s;
}

inline Plan gen(Rng &r, u64 idx, bool thorough) {
	Plan p; bool faults = r.chance(9, 10); std::vector<std::string> prev; int n = (int)r.range(5, thorough ? 150 : 80);
	for (int i = 0; i < n; i++) {
		int kind = (int)r.below(3); std::string tag; std::string s = genString(r, kind, tag, faults, prev);
		if (r.chance(1, 2)) prev.push_back(s); if (prev.size() > 8) prev.erase(prev.begin());
		int api = r.chance(9, 10) ? kind : (int)r.below(3);
		p.add(fmt("import api=%s null=%d s=%s tag=%s", api == 0 ? "addr" : api == 1 ? "wif" : "xprv", (int)r.below(4), hex(s).c_str(), tag.c_str()));
	}
	return p;
}

struct Wallet {  // long-lived output objects, at the edge of inaccessible memory
	Guard gh{20}, gv{1}, gk{sizeof(Uint256)}, gc{1}, gx{sizeof(ExtendedPrivateKey)};
	u8 *pkh, *ver; Uint256 *key; bool *comp; ExtendedPrivateKey *x;
	Wallet() {
		pkh = gh.at(20, true); ver = gv.at(1, true); key = (Uint256 *)gk.at(sizeof(Uint256), true); comp = (bool *)gc.at(1, true); x = (ExtendedPrivateKey *)gx.at(sizeof(ExtendedPrivateKey), true);
		memset(pkh, 0xA5, 20); *ver = 0x77; new (key) Uint256(Uint256::ONE); *(u8 *)comp = 1; new (x) ExtendedPrivateKey();
		x->depth = 9;
	}
};

struct Outcome { bool ok; Bytes pkh, key; int ver = -1, comp = -1; Bytes x; };

inline Outcome want(const std::string &api, const std::string &s) {
	Outcome o; o.ok = false; Bytes p; if (!ref::b58checkDec(s, p)) return o;
	if (api == "addr") { if (p.size() != 21) return o; o.ver = p[0]; o.pkh.assign(p.begin() + 1, p.end()); }
	else if (api == "wif") { if (p.size() == 34) { if (p[33] != 1) return o; o.comp = 1; } else if (p.size() == 33) o.comp = 0; else return o; o.ver = p[0]; o.key.assign(p.begin() + 1, p.begin() + 33); }
	else {
		if (p.size() != 78 || s.size() != 111 || p[0] != 4 || p[1] != 0x88 || p[2] != 0xAD || p[3] != 0xE4 || p[45] != 0) return o;
		ref::XKey x; x.ok = true; x.k = ref::fromBE(&p[46]); if (ref::isz(x.k) || !(x.k < ref::FN().m)) return o;
		x.depth = p[4]; x.fp.assign(p.begin() + 5, p.begin() + 9); x.index = (u32)p[9] << 24 | p[10] << 16 | p[11] << 8 | p[12]; x.chain.assign(p.begin() + 13, p.begin() + 45); o.x = bytesOf(x);
	}
	o.ok = true; return o;
}

// Imports s (placed so that its terminator is the last accessible byte), checks everything, returns whether it was accepted
inline bool import(Wallet &w, const std::string &api, const std::string &s, int nullmask, const std::string &ctx) {
	Outcome e = want(api, s);
	Guard g(s.size() + 1); char *in = (char *)g.at(s.size() + 1, true); memcpy(in, s.c_str(), s.size() + 1); g.prot(PROT_READ);
	Bytes pkh0(w.pkh, w.pkh + 20), key0 = bytesOf(*w.key), x0 = bytesOf(*w.x); u8 ver0 = *w.ver, comp0 = *(u8 *)w.comp;
	u8 *vp = nullmask & 1 ? nullptr : w.ver; bool *cp = nullmask & 2 ? nullptr : w.comp; bool ok;
	if (api == "addr") ok = Base58Check::pubkeyHashFromBase58Check(in, w.pkh, vp);
	else if (api == "wif") ok = Base58Check::privateKeyFromBase58Check(in, *w.key, vp, cp);
	else ok = Base58Check::extendedPrivateKeyFromBase58Check(in, *w.x);
	Bytes pkh1(w.pkh, w.pkh + 20), key1 = bytesOf(*w.key), x1 = bytesOf(*w.x); u8 ver1 = *w.ver, comp1 = *(u8 *)w.comp;
	std::string d = ctx + " api=" + api + " string=\"" + s + "\"";
	sim::check(!(ok && !e.ok), "accepted-invalid", d);
	sim::check(!(!ok && e.ok), "refused-valid", d);
	Bytes wp = pkh0, wk = key0, wx = x0; u8 wv = ver0, wc = comp0;
	if (ok) { if (api == "addr") wp = e.pkh; if (api == "wif") { wk = e.key; if (cp) wc = (u8)e.comp; } if (api == "xprv") wx = e.x; else if (vp) wv = (u8)e.ver; }
	const char *cls = ok ? "wrong-value" : "output-changed-on-refusal";
	sim::check(pkh1 == wp, cls, d + " hash " + hex(pkh1) + " want " + hex(wp));
	sim::check(key1 == wk, cls, d + " key " + hex(key1) + " want " + hex(wk));
	sim::check(x1 == wx, cls, d + " xkey " + hex(x1) + " want " + hex(wx));
	sim::check(ver1 == wv, cls, d + fmt(" version %d want %d", ver1, wv));
	sim::check(comp1 == wc, cls, d + fmt(" compressed %d want %d", comp1, wc));
	sim::logv(ok); sim::logb(x1.data(), x1.size()); sim::logb(key1.data(), 32); sim::logb(pkh1.data(), 20); sim::logv(ver1 * 256 + comp1);
	sim::stat(ok ? "outcome.accepted" : "outcome.refused");
	return ok;
}

inline void exec(const Plan &p) {
	Wallet w;
	for (auto &l : p.steps) {
		Step st = Step::parse(l); sim::tick(); if (st.op != "import") continue;
		Bytes sb = st.bin("s"); std::string s(sb.begin(), sb.end()), tag = st.str("tag"), api = st.str("api");
		bool ok = import(w, api, s, (int)st.num("null"), tag); sim::trace("%s %s -> %d", api.c_str(), s.c_str(), ok);
		size_t i = 0; while (i < tag.size()) { size_t j = tag.find('+', i); if (j == std::string::npos) j = tag.size(); sim::stat("fault." + tag.substr(i, j - i)); i = j + 1; }
		sim::distinct(sim::fnv(api + tag + (ok ? "1" : "0")) ^ s.size() * 31);
		if (ok && tag != "honest") sim::stat("probe.faulty_string_still_valid");
	}
}

// ---- C05 ----
inline Plan genDisk(Rng &r, u64 idx, bool thorough) {
	Plan p; int n = (int)r.range(6, thorough ? 120 : 60); bool faults = r.chance(4, 5);
	for (int i = 0; i < n; i++) {
		int slot = (int)r.below(4); int w = (int)r.below(faults ? 14 : 8);
		if (w < 5) {
			int kind = (int)r.below(3); std::string b = fmt("save slot=%d ", slot);
			if (kind == 0) b += fmt("kind=addr ver=%d hash=%s", genVer(r), hex(genHash20(r)).c_str());
			else if (kind == 1) b += fmt("kind=wif ver=%d key=%s comp=%d", genVer(r), hex(ref::toBE(genU(r))).c_str(), (int)r.below(2));
			else { ref::XKey x = genX(r); b += fmt("kind=xprv key=%s chain=%s depth=%u index=%u fp=%s", hex(ref::toBE(x.k)).c_str(), hex(x.chain).c_str(), x.depth, x.index, hex(x.fp).c_str()); }
			if (faults && r.chance(1, 3)) b += r.pick(std::vector<std::string>{fmt(" fault=torn at=%d", (int)r.below(112)), " fault=lost", fmt(" fault=misdirected to=%d", (int)r.below(4)), fmt(" fault=short at=%d", (int)r.below(112)), fmt(" fault=torn_tail at=%d", (int)r.below(112))});
			p.add(b);
		} else if (w < 8) p.add(fmt("load slot=%d", slot));
		else if (w == 8) p.add("crash");
		else if (w <= 10) p.add(fmt("rot slot=%d at=%d bit=%d", slot, (int)r.below(112), (int)r.below(8)));
		else if (w == 11) p.add(fmt("rotchar slot=%d at=%d ch=%d", slot, (int)r.below(112), (int)r.below(58)));
		else if (w == 12) p.add(fmt("swap slot=%d to=%d", slot, (int)r.below(4)));
		else p.add(fmt("shift slot=%d at=%d", slot, (int)r.below(112)));
	}
	for (int s = 0; s < 4; s++) p.add(fmt("load slot=%d", s));
	return p;
}

inline void execDisk(const Plan &p) {
	const size_t SEC = 128; std::vector<Bytes> disk(4, Bytes(SEC, 0)); std::unique_ptr<Wallet> w(new Wallet); std::map<std::string, std::string> exported;  // text -> description of every value ever saved
	u64 shape = 0;
	for (auto &l : p.steps) {
		Step st = Step::parse(l); sim::tick(); int slot = (int)st.num("slot") & 3; shape = sim::mix64(shape ^ sim::fnv(st.op + st.str("fault") + st.str("kind")) ^ slot);
		if (st.op == "save") {
			std::string kind = st.str("kind"), text; Bytes pay; size_t cap = kind == "addr" ? 36 : kind == "wif" ? 53 : 112;
			Guard g(cap); char *out = (char *)g.at(cap, true); memset(g.lo(), 'z', g.len);
			if (kind == "addr") { Bytes h = st.bin("hash"); h.resize(20); pay = cat(Bytes{(u8)st.num("ver")}, h); Guard gi(20); u8 *in = gi.at(20, true); memcpy(in, h.data(), 20); gi.prot(PROT_READ); Base58Check::pubkeyHashToBase58Check(in, (u8)st.num("ver"), out); }
			else if (kind == "wif") { Bytes k = st.bin("key"); k.resize(32); pay = cat(Bytes{(u8)st.num("ver")}, k); if (st.num("comp")) pay.push_back(1); Uint256 u(k.data()); Base58Check::privateKeyToBase58Check(u, (u8)st.num("ver"), st.num("comp") != 0, out); sim::check(bytesOf(u) == k, "input-modified", l); }
			else {
				ref::XKey x; x.ok = true; Bytes k = st.bin("key"); k.resize(32); x.k = ref::fromBE(k); if (ref::isz(x.k) || !(x.k < ref::FN().m)) continue; x.chain = st.bin("chain"); x.chain.resize(32); x.depth = (u32)st.num("depth") & 255; x.index = (u32)st.num("index"); x.fp = st.bin("fp"); x.fp.resize(4); pay = ref::xpayload(x);
				ExtendedPrivateKey e(toLib(x.k), x.chain.data(), (u8)x.depth, x.index, x.fp.data()); sim::check(bytesOf(e) == bytesOf(x), "wrong-object", "constructed extended key differs: " + l); Base58Check::extendedPrivateKeyToBase58Check(e, out); sim::check(bytesOf(e) == bytesOf(x), "input-modified", l);
			}
			const void *z = memchr(out, 0, cap); sim::check(z != nullptr, "no-terminator", l); text = out; std::string wantText = ref::b58check(pay);
			sim::check(text == wantText, "wrong-text", l + " gave \"" + text + "\" want \"" + wantText + "\"");
			size_t lo = kind == "addr" ? 25 : kind == "wif" ? 38 : 111; sim::check(text.size() >= lo && text.size() < cap, "wrong-length", l + " gave " + text);
			for (u8 *q = g.lo(); q < (u8 *)out; q++) sim::check(*q == 'z', "write-before-buffer", l);
			sim::logs(text); exported[kind + text] = l; sim::stat("op.save");
			Bytes rec(text.begin(), text.end()); rec.resize(SEC, 0);
			std::string f = st.str("fault"); size_t at = std::min<u64>(st.num("at"), SEC); Bytes &d = disk[slot];
			if (f == "") d = rec; else { sim::stat("fault.write_" + f); if (f == "torn") std::copy(rec.begin(), rec.begin() + at, d.begin()); else if (f == "torn_tail") std::copy(rec.begin() + at, rec.end(), d.begin() + at); else if (f == "short") { std::fill(d.begin(), d.end(), 0); std::copy(rec.begin(), rec.begin() + at, d.begin()); } else if (f == "misdirected") disk[st.num("to") & 3] = rec; }
		} else if (st.op == "crash") { w.reset(new Wallet); sim::stat("fault.crash"); }
		else if (st.op == "rot") { disk[slot][st.num("at") % SEC] ^= (u8)(1 << (st.num("bit") & 7)); sim::stat("fault.bit_rot"); }
		else if (st.op == "rotchar") { disk[slot][st.num("at") % SEC] = (u8)ref::B58[st.num("ch") % 58]; sim::stat("fault.char_rot"); }
		else if (st.op == "swap") { std::swap(disk[slot], disk[st.num("to") & 3]); sim::stat("fault.slots_swapped"); }
		else if (st.op == "shift") { Bytes &d = disk[slot]; size_t at = st.num("at") % SEC; d.erase(d.begin() + at); d.push_back(0); sim::stat("fault.byte_lost"); }
		else if (st.op == "load") {
			Bytes &d = disk[slot]; std::string s; for (u8 b : d) { if (!b) break; s += (char)b; }
			static const char *apis[] = {"addr", "wif", "xprv"};
			for (auto api : apis) {
				bool ok = import(*w, api, s, 0, "disk");
				if (ok) { sim::check(exported.count(std::string(api) + s) != 0 || want(api, s).ok, "phantom-value", s); sim::stat(exported.count(std::string(api) + s) ? "probe.recovered_saved_value" : "probe.recovered_unsaved_value"); }
			}
			sim::stat("op.load");
		}
	}
	sim::distinct(shape);
}
}
