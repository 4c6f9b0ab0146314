#pragma once
#include "core.hh"
#include <unordered_map>
namespace sim {
struct UserRec { string name; u32 id; size_t need = 0; };
extern vector<UserRec> users, groups;
extern int pw_lookups, gr_lookups;
extern u64 max_open_fds;
extern bool alloc_armed;
struct AllocStats { u64 calls = 0, failed = 0; };
extern AllocStats alloc_stats;
struct LiveMem { void *ra; size_t size; u64 serial; };
extern std::unordered_map<void *, LiveMem> live_mem; // memory bfs has not freed
extern size_t live_bytes;
extern vector<size_t> mem_samples, mem_totals; // whenever a directory is opened: without and with directory buffers
struct ChildRec;
extern std::function<void(ChildRec *)> child_hook;
}
