#pragma once
#include <stdint.h>
#define SHIM_MAXEV 6000
#define SHIM_PATH 160
enum { C_OUT, C_LOCAL, C_REMOTE, C_TMP, C_INPUT, C_REPO, C_LOCAL2, C_HOME, C_WORLD, C_S3 };
enum { OP_OPENR = 1, OP_OPENW, OP_CLOSE, OP_READ, OP_WRITE, OP_COPY, OP_TRUNC_, OP_CHMOD, OP_SYNC, OP_RENAME, OP_LINK, OP_UNLINK,
       OP_RMDIR, OP_MKDIR, OP_SYMLINK, OP_UTIME, OP_STAT, OP_OPENDIR, OP_READDIR, OP_LOCK, OP_S3 };
enum { P_KILL = 1, P_KILLPART, P_ERR, P_SHORT, P_FULL };
enum { A_DO, A_ERR, A_SHORT, A_KILLPART };
struct shim_ev { uint8_t op, cls, mut, pad; int32_t err; int64_t size, ret; char path[SHIM_PATH], path2[SHIM_PATH]; };
struct shim_plan { uint32_t at; int32_t kind; int64_t arg; };
struct shim_slot {
  uint32_t nev, overflow, outside, hit;
  int32_t nplan; uint32_t sched, sched_mask;
  int32_t pending, blocked, to_ctl, from_ctl, pid, cpus, uid, pad;
  int64_t dir_order, now, now_ns;
  uint64_t rng;
  struct shim_plan plan[4];
  struct shim_ev ev[SHIM_MAXEV];
};
