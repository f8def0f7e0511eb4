// An in-memory POSIX-ish file system behind linker-wrapped libc calls.
//
// All paths the code under test touches live here, so nothing it does can
// reach the real file system.  It models durability: namespace operations are
// journaled and become durable, in order, at the next fsync (of anything);
// file data becomes durable at that file's fsync.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include "rng.h"

namespace vfs {

struct Fault {
    // fire on the n-th (1-based) matching operation from when it was armed
    enum Kind { CRASH, POWER, EIO_, ENOSPC_, SHORT_, ENOMEM_ } kind;
    int countdown;
    bool fired;
    std::string match = "";  // only operations on paths that contain this are counted
    int then = 0;            // and after that, this many more operations
};

struct Stats {
    uint64_t ops = 0, mut_ops = 0, fsyncs = 0;
    uint64_t crashes = 0, powerlosses = 0, eio = 0, enospc = 0, short_writes = 0;
    uint64_t torn_writes = 0, lost_ops = 0, dropped_bytes = 0, escapes = 0, bad_close = 0;
};
extern Stats stats;

void reset(uint64_t seed);        // empty fs
void arm(Fault f);
void disarm_all();
bool any_armed();
// simulate what a process crash does to open handles (data stays)
void drop_handles();
// simulate power loss: only durable state (plus a random legal subset) stays
void power_loss(Rng &rng);
// the function called when an armed CRASH/POWER fault fires; must not return
extern void (*on_crash)(bool power);
// mutating op hook, for event hashing
extern void (*on_op)(const char *op, const std::string &path, int err);
// sees every close() first; true: it was not one of ours
extern bool (*on_fd_close)(int fd);
std::string fd_path(int fd);      // empty: not an open file
extern time_t now;                // simulated time(2)
// disk space limit (bytes); SIZE_MAX means unlimited
// direct, fault-free access for the harness
bool put(const std::string &path, const std::string &data);
bool get(const std::string &path, std::string &out);
bool exists(const std::string &path);
bool is_open(const std::string &path);
// what the file holds now, and what of it a power loss is sure to keep
void replace(const std::string &path, const std::string &data, const std::string &synced);
bool get_synced(const std::string &path, std::string &out);
void mkdirs(const std::string &path);
std::vector<std::string> list(const std::string &prefix); // recursive, all paths
bool remove_file(const std::string &path);
uint64_t hash();
size_t open_handles();
void sync_all();
}
