// The runtime under library code compiled with -fsanitize=thread: our own implementation of the compiler's callbacks
// instead of ThreadSanitizer's. One simulated thread runs at a time; every access outside its own stack, every
// synchronisation and every step of the assembly code is a point where the seeded schedule may switch threads.
#pragma once
#include "simcore.hpp"
#include <pthread.h>
#include <semaphore.h>

namespace rt {
using sim::u8; using sim::u32; using sim::u64;

enum Mode { OFF = 0, SCHED = 1, TRACE = 2 };
enum { MAXT = 6 };

struct Slice { int t; u64 n; bool hot; };

struct Thread {
	int id = 0; sem_t go; uintptr_t slo = 0, slen = 0; bool done = false; const void *blockedOn = nullptr;
	u32 vc[MAXT] = {0}, relFence[MAXT] = {0}, pendAcq[MAXT] = {0}; bool fenced = false;
	u64 events = 0, hots = 0, asmCalls = 0; const char *what = "";
	// stepping through assembly
	u64 stepFrom = 0, stepCount = 0; bool stepping = false, entered = false;
	std::vector<u64> stepCalls; // numbers of the assembly calls to step through
};

extern Mode g_mode; extern u64 g_events, g_switches, g_hots, g_asmSteps, g_shape; extern u64 g_cap;
extern std::function<void(const void *)> *g_onPoint; extern u64 g_onPointIn, g_onInsnIn;  // called when that many more points have been passed
Thread *self(); void setSelf(Thread *);

// Runs body(i) for i in 0..n-1 as simulated threads under the slices; returns when all have finished.
void runThreads(int n, const std::vector<Slice> &slices, const std::function<void(int)> &body, const std::function<void(Thread &)> &setup);
void knownInit(const void *p, size_t n);  // forget everything about this memory

// TRACE mode: receives (kind, pc, address) of everything the calling thread does
struct TraceSink { virtual void rec(u32 kind, u64 pc, u64 addr) = 0; };
extern TraceSink *g_sink;
bool loadAsmTable(const std::string &path);  // from tools/build.py; returns whether there is any assembly
extern bool g_haveAsm;
std::string where(const void *pc);
}
