// Lets the Java simulator hold several implementations of the library as network nodes, and wipe what one remembers.
#include <dlfcn.h>
#include <jni.h>
#include <link.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

typedef int (*Call)(int, const unsigned char *const *, const int *, unsigned char *);
struct Area { unsigned char *p; size_t n; std::vector<unsigned char> image; };
typedef int (*LongCall)(int, const unsigned char *, size_t, const unsigned char *, size_t, unsigned char *);
struct Node { Call call; LongCall lcall; std::vector<Area> areas; };
static std::vector<Node> nodes;

struct Find { void *sym; Node *n; };
static int visit(struct dl_phdr_info *i, size_t, void *arg) {
	Find *f = (Find *)arg; bool mine = false; size_t rb = 0, re = 0;
	for (int k = 0; k < i->dlpi_phnum; k++) { const ElfW(Phdr) &h = i->dlpi_phdr[k]; size_t b = i->dlpi_addr + h.p_vaddr; if (h.p_type == PT_LOAD && (size_t)f->sym >= b && (size_t)f->sym < b + h.p_memsz) mine = true; if (h.p_type == PT_GNU_RELRO) { rb = b; re = (b + h.p_memsz + 4095) / 4096 * 4096; } }
	if (!mine) return 0;
	for (int k = 0; k < i->dlpi_phnum; k++) {
		const ElfW(Phdr) &h = i->dlpi_phdr[k]; if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
		size_t b = i->dlpi_addr + h.p_vaddr, e = b + h.p_memsz; if (rb <= b && b < re) b = re; if (b >= e) continue;
		Area a; a.p = (unsigned char *)b; a.n = e - b; a.image.assign(a.p, a.p + a.n); f->n->areas.push_back(a);
	}
	return 1;
}

extern "C" {
JNIEXPORT jint JNICALL Java_jsim_Native_open(JNIEnv *env, jclass, jstring path) {
	const char *p = env->GetStringUTFChars(path, nullptr); void *h = dlopen(p, RTLD_NOW | RTLD_LOCAL); env->ReleaseStringUTFChars(path, p);
	if (!h) return -1;
	Node n; n.call = (Call)dlsym(h, "node_call"); n.lcall = (LongCall)dlsym(h, "node_long"); if (!n.call || !n.lcall) return -1;
	Find f = {(void *)n.call, &n}; dl_iterate_phdr(visit, &f); nodes.push_back(n); return (jint)nodes.size() - 1;
}
JNIEXPORT jint JNICALL Java_jsim_Native_wipe(JNIEnv *, jclass, jint id) {
	jint changed = 0; for (Area &a : nodes[id].areas) if (memcmp(a.p, a.image.data(), a.n) != 0) { memcpy(a.p, a.image.data(), a.n); changed++; } return changed;
}
JNIEXPORT jbyteArray JNICALL Java_jsim_Native_call(JNIEnv *env, jclass, jint id, jint op, jobjectArray args) {
	unsigned char *a[8]; int len[8], n = env->GetArrayLength(args); unsigned char *out = (unsigned char *)malloc(256); memset(out, 0, 256);
	for (int i = 0; i < n; i++) { jbyteArray b = (jbyteArray)env->GetObjectArrayElement(args, i); len[i] = env->GetArrayLength(b); a[i] = (unsigned char *)malloc(len[i] ? len[i] : 1); env->GetByteArrayRegion(b, 0, len[i], (jbyte *)a[i]); env->DeleteLocalRef(b); }
	int k = nodes[id].call(op, a, len, out);
	jbyteArray r = nullptr; if (k >= 0) { r = env->NewByteArray(k); env->SetByteArrayRegion(r, 0, k, (jbyte *)out); }
	for (int i = 0; i < n; i++) free(a[i]);
	free(out); return r;
}
// One operation on a long message: the fixed 1 MiB pattern (tools/longvec.py) repeated, mapped again and again instead of stored.
JNIEXPORT jbyteArray JNICALL Java_jsim_Native_longCall(JNIEnv *env, jclass, jint id, jint op, jlong length, jint keyLen) {
	const size_t P = 1 << 20; size_t span = ((size_t)length + P) / P * P; int fd = memfd_create("pattern", 0); if (fd < 0 || ftruncate(fd, P) != 0) return nullptr;
	unsigned char *one = (unsigned char *)mmap(nullptr, P, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); for (size_t i = 0; i < P; i++) one[i] = (unsigned char)((i * i + 31 * i + (i >> 8) * 7 + (i >> 16) * 13) ^ (i >> 4));
	unsigned char *base = (unsigned char *)mmap(nullptr, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); for (size_t o = 0; o < span; o += P) mmap(base + o, P, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0);
	unsigned char out[256] = {}; int n = nodes[id].lcall(op, base, (size_t)length, one, (size_t)keyLen, out);
	munmap(base, span); munmap(one, P); close(fd); if (n < 0) return nullptr;
	jbyteArray r = env->NewByteArray(n); env->SetByteArrayRegion(r, 0, n, (jbyte *)out); return r;
}
}
