// Force-included in front of every pnumpy source in the simulation build.
// Redirects the two machine instructions that are not calls (pause, rdtsc) to the simulator.
#pragma once
#include <x86intrin.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void sim_pause(void);
unsigned long long sim_rdtsc(void);
#ifdef __cplusplus
}
#endif
#define _mm_pause sim_pause
#define __builtin_ia32_pause sim_pause
#undef __rdtsc
#define __rdtsc sim_rdtsc
