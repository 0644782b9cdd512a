// Happens-before edges for the race build variant; nothing in the others.
#ifndef SIM_RACE_H
#define SIM_RACE_H
#include <stddef.h>
#include <stdint.h>
#include <string>
namespace sim {
#ifdef SIM_RACE
void race_acquire(const void* k);
void race_release(const void* k);
void race_reset(const void* k);
void race_spawn(int child);
void race_join(int child);
void race_forget(const void* p, size_t n);
void race_access(const void* p, size_t n, bool write);
uint64_t race_checked();
bool preempt_off();
bool same_process(int a, int b);
bool on_own_stack(const void* p);
extern bool race_track;
extern void (*on_race)(const std::string& key, const std::string& msg);
#else
inline void race_acquire(const void*) {}
inline void race_release(const void*) {}
inline void race_reset(const void*) {}
inline void race_spawn(int) {}
inline void race_join(int) {}
inline void race_forget(const void*, size_t) {}
inline void race_access(const void*, size_t, bool) {}
#endif
}
#endif
