// Prints values computed by ref.hpp for the Python self test to compare.
#include "ref.hpp"
#include "simcore.hpp"
using namespace ref;
int main() {
	char line[100000];
	auto H = [](const Bytes &b) { return sim::hex(b.data(), b.size()); };
	while (fgets(line, sizeof line, stdin)) {
		sim::Step s = sim::Step::parse(std::string(line, strcspn(line, "\n")));
		Bytes m = s.bin("m"), k = s.bin("k"); std::string o;
		auto u = [&](const char *n) { return fromBE(s.bin(n)); };
		if (s.op == "sha256") o = H(sha256(m)); else if (s.op == "sha512") o = H(sha512(m)); else if (s.op == "ripemd160") o = H(ripemd160(m));
		else if (s.op == "keccak256") o = H(keccak256(m)); else if (s.op == "hmac256") o = H(hmac256(k, m)); else if (s.op == "hmac512") o = H(hmac512(k, m));
		else if (s.op == "b58") { o = b58enc(m); Bytes d; if (!b58dec(o, d) || d != m) o = "bad"; }
		else if (s.op == "mulp") o = H(toBE(FP().mul(u("a"), u("b")))); else if (s.op == "muln") o = H(toBE(FN().mul(u("a"), u("b"))));
		else if (s.op == "invn") o = H(toBE(FN().inv(u("a")))); else if (s.op == "mulg") { Pt p = mul(G(), u("a")); o = p.inf ? "inf" : H(toBE(p.x)) + H(toBE(p.y)); }
		else if (s.op == "mul") { Pt p = mul(Pt(u("x"), u("y")), u("a")); o = p.inf ? "inf" : H(toBE(p.x)) + H(toBE(p.y)); }
		else if (s.op == "sign") { Sig g = sign(u("d"), m, u("n")); o = g.ok ? H(toBE(g.r)) + H(toBE(g.s)) : "no"; if (g.ok && !verify(mul(G(), u("d")), m, g.r, g.s)) o = "bad"; }
		else if (s.op == "ckd") { XKey x; x.ok = true; x.k = u("key"); x.chain = s.bin("c"); XKey y = ckd(x, (u32)s.num("i")); o = b58check(xpayload(y)); }
		printf("%s\n", o.c_str());
	}
}
