#pragma once
#include <stdint.h>
#include <stddef.h>
enum { SIM_OP_OPEN_R, SIM_OP_OPEN_W, SIM_OP_READ, SIM_OP_WRITE, SIM_OP_CLOSE, SIM_OP_STAT, SIM_OP_OPENDIR, SIM_OP_READDIR, SIM_OP_MUTATE, SIM_OP_STDIN, SIM_OP_STDOUT, SIM_OP_STDERR, SIM_OP_SYNC, SIM_NOPS };
enum { SIM_F_NONE, SIM_F_ERRNO, SIM_F_SHORT, SIM_F_CRASH, SIM_F_TORN_CRASH };
enum { SIM_RUNNING, SIM_EXITED, SIM_CRASHED, SIM_DEADLOCK, SIM_STEPLIMIT, SIM_ABORTED, SIM_UNSUPPORTED };
enum { SIM_MODE_RANDOM, SIM_MODE_PRIO };
#define SIM_MAXDEC 65536
#define SIM_IO_MAX (4u << 20)
#define SIM_ERR_MAX (1u << 20)
#define SIM_LOG_MAX (1u << 20)
#define SIM_MAXFAULTS 16
typedef struct { uint32_t op, nth, repeat, kind; int32_t arg; uint32_t seen; char path[240]; } sim_fault_t;
typedef struct { uint32_t at, who; } sim_dec_t;
typedef struct {
  uint64_t seed, dir_seed, start_ns, wall_ns, max_steps, crash_at;
  uint32_t mode, switch_ppm, alloc_ppm, stall_ppm, spurious_ppm, cpus, chunk_max, out_chunk_max, file_chunk_max, log_ops, replay, nreplay, nfaults, out_cap, lag_ppm, spare;
  sim_fault_t faults[SIM_MAXFAULTS];
  sim_dec_t *replay_dec;
  char root[512];
} sim_cfg_t;
typedef struct {
  uint32_t outcome; int32_t exit_code;
  uint64_t steps, sim_ns, switches, stalls, spurious, fs_ops, mutations, escapes, trace_hash;
  uint32_t threads, log_truncated, dec_truncated, ndec;
  uint64_t op_count[SIM_NOPS];
  uint32_t fault_fired[SIM_MAXFAULTS];
  uint32_t in_len, in_pos, in_closed, out_len, err_len, log_len, user_len, out_taken, out_closed;
  sim_dec_t dec[SIM_MAXDEC];
  char in[SIM_IO_MAX]; char out[SIM_IO_MAX]; char err[SIM_ERR_MAX]; char log[SIM_LOG_MAX]; char user[SIM_IO_MAX];
} sim_shared_t;
