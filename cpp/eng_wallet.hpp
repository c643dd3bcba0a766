// C08 (HD derivation with crashes and injected hash outputs) and C09 (signing with a faulty nonce source).
#pragma once
#include "lib.hpp"
#include "eng_codec.hpp"

// The linker redirects the derivation's keyed hashes here (-Wl,--wrap). The injection is one-shot and noted when it fires.
struct Inject { bool armed512 = false, fired512 = false, armed256 = false, fired256 = false; u8 v512[64], v256[32]; u64 calls512 = 0, calls256 = 0; };
extern Inject g_inject;

namespace wallet {

// Chooses the 64-byte hash so that the child key hits a boundary. kp = parent key
inline Bytes injected(const std::string &kind, const ref::U &kp, u64 seed) {
	const ref::Mod &N = ref::FN(); Rng r(seed * 31 + 7); ref::U l(r.next(), r.next(), r.next(), r.next());
	ref::U one(1);
	if (kind == "L=n") l = N.m; else if (kind == "L=n+1") { l = N.m; ref::addc(l, one); } else if (kind == "L=n-1") { l = N.m; ref::subb(l, one); } else if (kind == "L=max") l = ref::U(~0ull, ~0ull, ~0ull, ~0ull);
	else if (kind == "L=0") l = ref::U(); else if (kind == "L=1") l = one; else if (kind == "sum=0") l = N.neg(kp); else if (kind == "sum=1") l = N.sub(one, kp); else if (kind == "sum=n-1") l = N.sub(N.neg(one), kp);
	else if (kind == "sum=2^256-1") { l = ref::U(~0ull, ~0ull, ~0ull, ~0ull); ref::subb(l, kp); l = N.red(l); } else if (kind == "sum=2^256") { l = ref::U(); ref::subb(l, kp); l = N.red(l); } else if (kind == "L=small") l = ref::U(r.next()); else if (kind == "L=n-small") { l = N.m; ref::subb(l, ref::U(r.range(1, 1000))); } else l = N.red(l);
	Bytes b = ref::toBE(l), c = kind == "L=1" ? Bytes(32, 0) : r.bytes(32); b.insert(b.end(), c.begin(), c.end()); return b;
}
static const std::vector<std::string> KINDS = {"L=n", "L=n+1", "L=n-1", "L=max", "L=0", "L=1", "sum=0", "sum=1", "sum=n-1", "sum=2^256-1", "sum=2^256", "L=small", "L=n-small", "random"};

inline Plan gen(Rng &r, u64 idx, bool thorough) {
	Plan p; int n = (int)r.range(3, thorough ? 40 : 16); bool faults = r.chance(5, 6);
	auto master = [&](int s) { ref::XKey x = codec::genX(r); if (r.chance(3, 4)) { x.depth = 0; x.index = 0; x.fp = Bytes(4, 0); } p.add(fmt("master slot=%d key=%s chain=%s depth=%u index=%u fp=%s", s, hex(ref::toBE(x.k)).c_str(), hex(x.chain).c_str(), x.depth, x.index, hex(x.fp).c_str())); };
	master(0); if (r.chance(1, 3)) master(1);
	for (int i = 0; i < n; i++) {
		int s = (int)r.below(4), t = (int)r.below(4); int w = (int)r.below(faults ? 12 : 6);
		if (r.chance(1, 2)) s = 0;
		if (w < 6) {
			u32 ix = (u32)(r.chance(1, 2) ? r.pick(std::vector<u64>{0, 1, 2, 44, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFF}) : r.next());
			std::string inj = faults && r.chance(1, 3) ? " hash=" + r.pick(KINDS) + fmt(" hseed=%d", (int)r.below(10000)) : "";
			p.add(fmt("derive from=%d to=%d index=%u%s", s, t, ix, inj.c_str()));
		} else if (w == 6 || w == 7) p.add(fmt("persist slot=%d", s)); else if (w <= 9) p.add("crash"); else if (w == 10) p.add(fmt("reload slot=%d", s)); else master(t);
	}
	return p;
}

inline void exec(const Plan &p) {
	struct S { bool used = false; ref::XKey m; ExtendedPrivateKey *k = nullptr; std::string disk; ref::XKey dm; } sl[4]; u64 shape = 0;
	auto load = [&](S &s) {
		if (s.disk.empty()) { s.used = false; return; }
		ExtendedPrivateKey e; bool ok = Base58Check::extendedPrivateKeyFromBase58Check(s.disk.c_str(), e); sim::check(ok, "reload-refused", s.disk);
		delete s.k; s.k = new ExtendedPrivateKey(e); s.m = s.dm; s.used = true; sim::check(bytesOf(*s.k) == bytesOf(s.m), "reload-differs", s.disk);
	};
	for (auto &l : p.steps) {
		Step st = Step::parse(l); sim::tick(); S &s = sl[st.num("slot") & 3]; shape = sim::mix64(shape ^ sim::fnv(st.op + st.str("hash")) ^ st.num("slot") ^ st.num("from") * 8 ^ st.num("to") * 64 ^ (st.num("index") >> 31) << 20);
		if (st.op == "master") {
			ref::XKey x; x.ok = true; Bytes k = st.bin("key"); k.resize(32); x.k = ref::fromBE(k); if (ref::isz(x.k) || !(x.k < ref::FN().m)) continue; x.chain = st.bin("chain"); x.chain.resize(32); x.depth = (u32)st.num("depth") & 255; x.index = (u32)st.num("index"); x.fp = st.bin("fp"); x.fp.resize(4);
			delete s.k; s.k = new ExtendedPrivateKey(toLib(x.k), x.chain.data(), (u8)x.depth, x.index, x.fp.data()); s.m = x; s.used = true;
			sim::check(bytesOf(*s.k) == bytesOf(x), "wrong-object", l);
		} else if (st.op == "derive") {
			S &f = sl[st.num("from") & 3], &t = sl[st.num("to") & 3]; if (!f.used) continue; u32 ix = (u32)st.num("index");
			Bytes before = bytesOf(*f.k), forced; bool inj = st.has("hash");
			if (inj) { forced = injected(st.str("hash"), f.m.k, st.num("hseed")); memcpy(g_inject.v512, forced.data(), 64); g_inject.armed512 = true; g_inject.fired512 = false; }
			ExtendedPrivateKey c = f.k->getChildKey(ix); bool fired = inj && g_inject.fired512; g_inject.armed512 = false;
			if (fired) sim::stat("fault.hash_" + st.str("hash"));
			ref::XKey w = ref::ckd(f.m, ix, fired ? &forced : nullptr);
			Bytes got = bytesOf(c), exp = bytesOf(w);
			sim::logb(got.data(), got.size()); sim::trace("derive %u -> %s", ix, hex(got).c_str());
			if (!w.ok) { sim::stat("probe.invalid_child"); Bytes z(32, 0); Bytes gk(got.begin(), got.begin() + 32); sim::check(gk == z, "invalid-child-not-refused", l + " gave key " + hex(gk)); sim::check(got == exp, "invalid-child-not-blank", l + " gave " + hex(got)); if (f.m.depth == 255) sim::stat("probe.depth_limit"); }
			else sim::check(got == exp, "wrong-child", l + (fired ? " (hash injected)" : "") + " gave " + hex(got) + " want " + hex(exp));
			sim::check(bytesOf(*f.k) == before, "parent-modified", l);
			if (!w.ok) {  // the caller moves on to the next index, which must work
				if (f.m.depth != 255) { u32 nx = ix + 1; ExtendedPrivateKey c2 = f.k->getChildKey(nx); ref::XKey w2 = ref::ckd(f.m, nx); sim::check(bytesOf(c2) == bytesOf(w2) && w2.ok, "retry-failed", l); sim::stat("probe.retry_after_invalid"); c = c2; w = w2; } else continue;
			}
			delete t.k; t.k = new ExtendedPrivateKey(c); t.m = w; t.used = true; sim::stat("op.derive");
		} else if (st.op == "persist") {
			if (!s.used) continue; Guard g(112); char *out = (char *)g.at(112, true); Base58Check::extendedPrivateKeyToBase58Check(*s.k, out); std::string wt = ref::b58check(ref::xpayload(s.m));
			sim::check(wt == out, "wrong-text", wt); s.disk = out; s.dm = s.m; sim::stat("op.persist");
		} else if (st.op == "crash") { for (auto &q : sl) { delete q.k; q.k = nullptr; q.used = false; load(q); } sim::stat("fault.crash"); }
		else if (st.op == "reload") { if (!s.disk.empty()) { load(s); sim::stat("fault.rollback"); } }
	}
	sim::distinct(shape);
}

// ---- C09 ----
// A nonce chosen by the simulated nonce source
inline Plan genSign(Rng &r, u64 idx, bool thorough) {
	Plan p; int n = (int)r.range(2, thorough ? 16 : 7); const ref::Mod &N = ref::FN(); bool faults = r.chance(5, 6);
	ref::U d = genKey(r);
	for (int i = 0; i < n; i++) {
		ref::U k = faults ? genU(r) : genKey(r), z = faults ? genU(r) : ref::U(r.next(), r.next(), r.next(), r.next()); std::string tag = "plain";
		if (r.chance(1, 3)) d = genKey(r);
		if (faults) switch (r.below(14)) {
			case 0: k = ref::U(); tag = "nonce_zero"; break;
			case 1: k = N.m; if (r.chance(1, 2)) ref::addc(k, ref::U(r.below(5))); tag = "nonce_not_below_order"; break;
			case 2: k = ref::U(~0ull, ~0ull, ~0ull, ~0ull - r.below(5)); tag = "nonce_stuck_high"; break;
			case 3: k = ref::U(r.range(1, 20)); tag = "nonce_small"; break;
			case 4: k = N.neg(ref::U(r.range(1, 20))); tag = "nonce_near_order"; break;
			case 5: case 6: case 7: {  // choose the key or hash so that s is special for this nonce
				k = genKey(r); ref::U rr = N.red(ref::mul(ref::G(), k).x); ref::U half = ref::shr1(N.m);  // (n-1)/2
				ref::U s; int w = (int)r.below(8); if (w == 0) s = ref::U(); else if (w == 1) s = half; else if (w == 2) { s = half; ref::addc(s, ref::U(1)); } else if (w == 3) s = ref::U(1); else if (w == 4) s = N.neg(ref::U(1)); else if (w == 5) { s = half; ref::subb(s, ref::U(1)); } else if (w == 6) { s = half; ref::addc(s, ref::U(2)); } else s = ref::U(r.next());
				z = N.sub(N.mul(s, k), N.mul(rr, d)); tag = fmt("s_case_%d", w);
				if (r.chance(1, 3)) { ref::U z2 = z; if (!ref::addc(z2, N.m)) { z = z2; tag += "_unreduced"; } }
				break; }
			case 8: case 9: case 10: {  // the sum of the reduced product and the hash is special before reduction
				k = genKey(r); ref::U rr = N.red(ref::mul(ref::G(), k).x), ri = N.inv(rr), t; int w = (int)r.below(6);
				if (w == 0) t = N.neg(ref::U(1)); else if (w == 1) t = N.neg(ref::U(r.range(1, 1000))); else if (w == 2) t = ref::U(); else if (w == 3) t = ref::U(1); else if (w == 4) { t = ref::U(); ref::subb(t, N.m); ref::addc(t, ref::U(r.below(3))); } else t = N.red(genU(r));
				ref::U dd = N.mul(t, ri); if (!ref::isz(dd)) d = dd; int v = (int)r.below(5);
				if (v == 0) z = ref::U(~0ull, ~0ull, ~0ull, ~0ull - r.below(3)); else if (v == 1) { z = N.m; ref::addc(z, ref::U(r.below(3))); } else if (v == 2) { z = ref::U(); ref::subb(z, t); } else if (v == 3) { z = ref::U(); ref::subb(z, t); ref::subb(z, ref::U(1)); } else z = N.neg(t);
				tag = fmt("sum_case_%d_%d", w, v); break; }
			case 11: tag = "nonce_stuck"; if (!p.steps.empty()) { Step q = Step::parse(p.steps.back()); Bytes b = q.bin("k"); if (b.size() == 32) k = ref::fromBE(b); } break;
			default: k = genKey(r); tag = "boundary_operands"; break;
		}
		if (r.chance(1, 4)) p.add(fmt("hmacsign d=%s h=%s%s tag=%s", hex(ref::toBE(d)).c_str(), hex(ref::toBE(z)).c_str(), faults && r.chance(1, 2) ? (" inject=" + hex(ref::toBE(k))).c_str() : "", tag.c_str()));
		else p.add(fmt("sign d=%s h=%s k=%s tag=%s", hex(ref::toBE(d)).c_str(), hex(ref::toBE(z)).c_str(), hex(ref::toBE(k)).c_str(), tag.c_str()));
	}
	p.add(fmt("retry d=%s h=%s seed=%llu bad=%d", hex(ref::toBE(d)).c_str(), hex(r.bytes(32)).c_str(), (unsigned long long)r.below(1000000), faults ? (int)r.below(6) : 0));
	return p;
}

inline void execSign(const Plan &p) {
	Uint256 outR(toLib(ref::U(0x1111)).value[0] ? toLib(ref::U(0x1111)) : Uint256::ONE), outS(toLib(ref::U(0x2222)));  // long-lived outputs
	Bytes mr = bytesOf(outR), ms = bytesOf(outS);
	auto one = [&](const ref::U &d, const Bytes &h, const ref::U *k, const Bytes *inject, const std::string &what) -> bool {
		Uint256 D = toLib(d), K = toLib(k ? *k : ref::U()); Sha256Hash H(h.data(), 32); bool ok; ref::U nonce; bool fired = false;
		if (k) { ok = Ecdsa::sign(D, H, K, outR, outS); nonce = *k; sim::check(bytesOf(K) == ref::toBE(*k), "input-modified", what); }
		else {
			if (inject) { memcpy(g_inject.v256, inject->data(), 32); g_inject.armed256 = true; g_inject.fired256 = false; }
			ok = Ecdsa::signWithHmacNonce(D, H, outR, outS); fired = inject && g_inject.fired256; g_inject.armed256 = false;
			if (fired) sim::stat("fault.keyed_hash_replaced"); nonce = fired ? ref::fromBE(*inject) : ref::fromBE(ref::hmac256(ref::toBE(d), h));
		}
		ref::Sig w = ref::sign(d, h, nonce); Bytes gr = bytesOf(outR), gs = bytesOf(outS);
		sim::check(bytesOf(D) == ref::toBE(d) && bytesOf(H) == h, "input-modified", what);
		sim::check(ok == w.ok, ok ? "signed-unusable-nonce" : "refused-good-nonce", what + fmt(" returned %d", ok));
		if (ok) { mr = ref::toBE(w.r); ms = ref::toBE(w.s); sim::check(gr == mr && gs == ms, "wrong-signature", what + " gave r=" + hex(gr) + " s=" + hex(gs) + " want r=" + hex(mr) + " s=" + hex(ms)); sim::stat("outcome.signed"); }
		else { sim::check(gr == mr && gs == ms, "output-changed-on-refusal", what); sim::stat("outcome.refused"); }
		sim::logv(ok); sim::logb(gr.data(), 32); sim::logb(gs.data(), 32); return ok;
	};
	u64 shape = 0;
	for (auto &l : p.steps) {
		Step st = Step::parse(l); sim::tick(); Bytes db = st.bin("d"), h = st.bin("h"); db.resize(32); h.resize(32); ref::U d = ref::fromBE(db); if (ref::isz(d) || !(d < ref::FN().m)) continue;
		if (st.has("tag")) { sim::stat("fault." + st.str("tag")); shape = sim::mix64(shape ^ sim::fnv(st.op + st.str("tag"))); }
		if (st.op == "sign") { Bytes kb = st.bin("k"); kb.resize(32); ref::U k = ref::fromBE(kb); bool ok = one(d, h, &k, nullptr, l); sim::trace("%s -> %d", st.op.c_str(), ok); }
		else if (st.op == "hmacsign") { Bytes inj = st.bin("inject"); bool has = inj.size() == 32; one(d, h, nullptr, has ? &inj : nullptr, l); }
		else if (st.op == "retry") {  // liveness: once the source recovers, one more attempt succeeds and verifies
			Rng r(st.num("seed")); u64 bad = st.num("bad"); bool ok = false; u64 tries = 0;
			while (!ok && tries < bad + 2) { ref::U k; if (tries < bad) { switch (r.below(3)) { case 0: k = ref::U(); break; case 1: k = ref::FN().m; break; default: k = ref::U(~0ull, ~0ull, r.next(), r.next()); } } else k = genKey(r); ok = one(d, h, &k, nullptr, l); tries++; sim::tick(); }
			sim::check(ok && tries == bad + 1, "no-progress-after-recovery", l); CurvePoint q = CurvePoint::privateExponentToPublicPoint(toLib(d)); Sha256Hash H(h.data(), 32);
			sim::check(bytesOf(q) == bytesOf(ref::mul(ref::G(), d)), "wrong-public-key", l); sim::check(Ecdsa::verify(q, H, outR, outS), "own-signature-refused", l); sim::stat("probe.recovered_and_verified"); sim::distinct(shape ^ tries);
		}
	}
	sim::distinct(shape);
}
}
