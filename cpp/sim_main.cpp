// The C++ simulators that need no special runtime: C03, C04, C05, C08, C09, C14, C19.
#include "lib.hpp"
#include "eng_stream.hpp"
#include "eng_codec.hpp"
#include "eng_wallet.hpp"
#include "eng_mem.hpp"
#include "eng_index.hpp"

Inject g_inject;
// The linker sends the library's calls of these functions here (see check.py: --wrap)
extern "C" {
void __real__ZN6Sha5127getHmacEPKhmS1_mPh(const u8 *, size_t, const u8 *, size_t, u8 *);
void __wrap__ZN6Sha5127getHmacEPKhmS1_mPh(const u8 *k, size_t kl, const u8 *m, size_t ml, u8 *out) {
	g_inject.calls512++;
	if (g_inject.armed512) { g_inject.armed512 = false; g_inject.fired512 = true; memcpy(out, g_inject.v512, 64); return; }
	__real__ZN6Sha5127getHmacEPKhmS1_mPh(k, kl, m, ml, out);
}
}
Sha256Hash realHmac256(const u8 *, size_t, const u8 *, size_t) asm("__real__ZN6Sha2567getHmacEPKhmS1_m");
Sha256Hash wrapHmac256(const u8 *, size_t, const u8 *, size_t) asm("__wrap__ZN6Sha2567getHmacEPKhmS1_m");
Sha256Hash wrapHmac256(const u8 *k, size_t kl, const u8 *m, size_t ml) {
	g_inject.calls256++;
	if (g_inject.armed256) { g_inject.armed256 = false; g_inject.fired256 = true; return Sha256Hash(g_inject.v256, 32); }
	return realHmac256(k, kl, m, ml);
}

int main(int argc, char **argv) {
	std::vector<sim::Prop> t = {
		{"C03", stream::gen, stream::exec, 20},
		{"C04", codec::gen, codec::exec, 20},
		{"C05", codec::genDisk, codec::execDisk, 20},
		{"C08", wallet::gen, wallet::exec, 30},
		{"C09", wallet::genSign, wallet::execSign, 30},
		{"C19", indexsim::gen, indexsim::exec, 20},
		{"C14", memsim::gen, memsim::exec, 30},
	};
	return sim::simMain(argc, argv, t);
}
