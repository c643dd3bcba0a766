// C12: a program start-up whose translation units run their static initialisers in a seeded order, with other
// (client) initialisers in between that already use the library. The build moves every library object's .init_array
// into a section of its own, so nothing has run yet when main() starts; each simulated start-up happens in a fresh child.
#include "lib.hpp"
#include "api.hpp"
#include "initmap.inc"  // struct InitUnit { const char *name; void (**b)(), (**e)(); } initUnits[]; generated by tools/build.py


namespace startup {

struct PlainMem : api::Mem {
	std::vector<u8 *> all;
	u8 *mk(const void *p, size_t n) { u8 *r = (u8 *)malloc(n ? n : 1); if (n) memcpy(r, p, n); all.push_back(r); return r; }
	const u8 *in(const void *p, size_t n, size_t) override { return mk(p, n); }
	u8 *out(const void *p, size_t n, size_t) override { return mk(p, n); }
	using api::Mem::in; using api::Mem::out;
	~PlainMem() { for (u8 *p : all) free(p); }
};

static std::vector<std::string> units() { std::vector<std::string> r; for (auto &u : initUnits) if (u.b && u.b != u.e) r.push_back(u.name); return r; }
static const char *const CLIENT[] = {"uint", "field", "hash", "sha256", "sha256d", "sha512", "ripemd160", "keccak256", "hmac256", "hmac512", "sha256stream", "uintbytes", "hashobj"};

sim::Plan gen(Rng &r, u64 idx, bool thorough) {
	Plan p; auto u = units(); for (size_t i = u.size(); i > 1; i--) std::swap(u[i - 1], u[r.below(i)]);
	unsigned dens = (unsigned)r.below(4);
	auto clients = [&](int most) { for (int k = (int)r.below(most + 1); k > 0; k--) p.add(fmt("client what=%s seed=%llu", CLIENT[r.below(sizeof CLIENT / sizeof *CLIENT)], (unsigned long long)r.below(1000000))); };
	if (dens) clients(3);
	for (auto &n : u) { p.add("init unit=" + n); if (dens) clients((int)dens); }
	p.add("started"); int n = (int)r.range(2, thorough ? 14 : 7);
	for (int i = 0; i < n; i++) p.add(fmt("call op=%s args=%llu", api::pickOp(r, r.chance(1, 3) ? 1000 : 20).name, (unsigned long long)r.below(1000000)));
	return p;
}

struct KeptValue { std::string what; Bytes want; std::unique_ptr<Uint256> u; std::unique_ptr<FieldInt> f; std::unique_ptr<Sha256Hash> h; std::unique_ptr<Sha256> s; Bytes raw;
	Bytes now() const { if (u) return bytesOf(*u); if (f) return bytesOf(*f); if (h) return bytesOf(*h); if (s) { Sha256 t(*s); return bytesOf(t.getHash()); } return raw; } };

static void constants(const std::string &when) {
	const ref::Pt G = ref::G(); struct { const char *n; Bytes got, want; } t[] = {
		{"Uint256::ZERO", bytesOf(Uint256::ZERO), ref::toBE(ref::U(0))}, {"Uint256::ONE", bytesOf(Uint256::ONE), ref::toBE(ref::U(1))},
		{"CurvePoint::FI_ZERO", bytesOf(CurvePoint::FI_ZERO), ref::toBE(ref::U(0))}, {"CurvePoint::FI_ONE", bytesOf(CurvePoint::FI_ONE), ref::toBE(ref::U(1))},
		{"CurvePoint::A", bytesOf(CurvePoint::A), ref::toBE(ref::U(0))}, {"CurvePoint::B", bytesOf(CurvePoint::B), ref::toBE(ref::U(7))},
		{"CurvePoint::ORDER", bytesOf(CurvePoint::ORDER), ref::toBE(ref::FN().m)}, {"CurvePoint::G", bytesOf(CurvePoint::G), api::cat({ref::toBE(G.x), ref::toBE(G.y), ref::toBE(ref::U(1))})},
		{"CurvePoint::ZERO", bytesOf(CurvePoint::ZERO), api::cat({ref::toBE(ref::U(0)), ref::toBE(ref::U(1)), ref::toBE(ref::U(0))})} };
	for (auto &c : t) { sim::logb(c.got.data(), c.got.size()); sim::check(c.got == c.want, "wrong-constant", when + ": " + c.n + " is " + hex(c.got) + " want " + hex(c.want)); }
}

void exec(const Plan &p) {
	std::set<std::string> done; std::vector<KeptValue> kept; u64 shape = 0; bool started = false; std::string order;
	auto initUnit = [&](const InitUnit &u) { if (!done.insert(u.name).second) return; for (void (**f)() = u.b; f != u.e; f++) if (*f) (*f)(); };
	auto start = [&]() {  // whatever the plan left out runs now
		for (auto &u : initUnits) if (u.b && u.b != u.e) initUnit(u);
		started = true; constants("after start-up in order" + order);
		for (auto &k : kept) sim::check(k.now() == k.want, "early-value-wrong", "after start-up, " + k.what + " is " + hex(k.now()) + " want " + hex(k.want));
	};
	for (auto &l : p.steps) {
		Step st = Step::parse(l); sim::tick();
		if (st.op == "init") { if (started) continue; for (auto &u : initUnits) if (st.str("unit") == u.name && u.b && u.b != u.e) { sim::trace("initialisers of %s", u.name); order += std::string(" ") + u.name; initUnit(u); sim::stat("op.init_unit"); shape = sim::mix64(shape ^ sim::fnv(u.name)); } }
		else if (st.op == "client") {
			if (started) continue; Rng r(st.num("seed")); KeptValue k; std::string w = st.str("what"); k.what = "client " + w + " seed=" + st.str("seed") + " (initialised so far:" + order + ")";
			shape = sim::mix64(shape ^ sim::fnv(w)); sim::stat("fault.client_initialiser_" + w); ref::U v = w == "field" ? genFieldElem(r) : genU(r); std::string h = api::upHex(v, r.chance(1, 2)); Bytes d = api::genMsg(r), key = r.bytes(r.below(200));
			if (w == "uint") { k.u.reset(new Uint256(h.c_str())); k.want = ref::toBE(v); }
			else if (w == "uintbytes") { Bytes b = ref::toBE(v); k.u.reset(new Uint256(b.data())); k.want = b; }
			else if (w == "field") { k.f.reset(new FieldInt(h.c_str())); k.want = ref::toBE(v); }
			else if (w == "hash") { Bytes b = r.bytes(32); std::string t = api::rev(b, r.chance(1, 2)); k.h.reset(new Sha256Hash(t.c_str())); k.want = b; }
			else if (w == "hashobj") { Bytes b = r.bytes(32); k.h.reset(new Sha256Hash(b.data(), 32)); k.want = b; sim::check(*k.h == Sha256Hash(b.data(), 32), "early-result-wrong", k.what); }
			else if (w == "sha256") { k.h.reset(new Sha256Hash(Sha256::getHash(d.data(), d.size()))); k.want = ref::sha256(d); }
			else if (w == "sha256d") { k.h.reset(new Sha256Hash(Sha256::getDoubleHash(d.data(), d.size()))); k.want = ref::sha256d(d); }
			else if (w == "hmac256") { k.h.reset(new Sha256Hash(Sha256::getHmac(key.data(), key.size(), d.data(), d.size()))); k.want = ref::hmac256(key, d); }
			else if (w == "sha256stream") { k.s.reset(new Sha256()); k.s->append(d.data(), d.size()); k.want = ref::sha256(d); }
			else if (w == "sha512") { k.raw.resize(64); Sha512::getHash(d.data(), d.size(), k.raw.data()); k.want = ref::sha512(d); }
			else if (w == "hmac512") { k.raw.resize(64); Sha512::getHmac(key.data(), key.size(), d.data(), d.size(), k.raw.data()); k.want = ref::hmac512(key, d); }
			else if (w == "ripemd160") { k.raw.resize(20); Ripemd160::getHash(d.data(), d.size(), k.raw.data()); k.want = ref::ripemd160(d); }
			else if (w == "keccak256") { k.raw.resize(32); Keccak256::getHash(d.data(), d.size(), k.raw.data()); k.want = ref::keccak256(d); }
			else continue;
			Bytes g = k.now(); sim::logb(g.data(), g.size()); sim::trace("%s -> %s", k.what.c_str(), hex(g).c_str());
			sim::check(g == k.want, "early-result-wrong", k.what + " gave " + hex(g) + " want " + hex(k.want)); kept.push_back(std::move(k));
		}
		else if (st.op == "started") { if (!started) start(); }
		else if (st.op == "call") {
			if (!started) start();
			const api::Op *o = api::find(st.str("op")); if (!o) continue; api::Args a = api::args(*o, st); PlainMem m; Bytes w = o->want(a), g = o->run(a, m);
			sim::logb(g.data(), g.size()); sim::stat(std::string("op.") + o->name); sim::trace("%s -> %s", l.c_str(), hex(g).c_str());
			sim::check(g == w, "wrong-result", l + " gave " + hex(g) + " want " + hex(w) + " after start-up in order" + order);
		}
	}
	if (!started) start();
	sim::distinct(shape);
}
}

int main(int argc, char **argv) { return sim::simMain(argc, argv, {{"C12", startup::gen, startup::exec, 30}}); }
