// Shared-memory layout between the simulator driver (Rust, src/shm.rs) and the
// interposition shim that is preloaded into the real cdx binary.
#ifndef CDXSIM_H
#define CDXSIM_H
#include <stdint.h>
#define SIM_MAGIC 0x43445853u
#define SIM_NCHAN 96
#define SIM_NFAULT 32
#define SIM_NSTOP 64
#define SIM_NRESP 8
#define SIM_ARGBYTES 65536
#define SIM_LOGCAP 65536
#define SIM_OUTCAP (6u << 20)
#define SIM_ERRCAP (1u << 18)
#define SIM_NETCAP (1u << 20)

enum { CH_STDIN = 0, CH_STDOUT = 1, CH_STDERR = 2, CH_TMP = 3, CH_OTHER = 4, CH_SOCK = 5, CH_PIPE0 = 6, CH_PIPE1 = 7, CH_ESC = 8, CH_FIRST = 9 };
enum { K_NONE = 0, K_IN = 1, K_OUT = 2 };
enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_MKDIR, OP_UNLINK, OP_RMDIR, OP_OPENDIR, OP_MMAP, OP_LSEEK,
       OP_RENAME, OP_TRUNC, OP_SPAWN, OP_POLL, OP_CONNECT, OP_RECV, OP_SEND, OP_EPOLL, OP_STOP, OP_OPENW, OP_CHMOD, OP_SYNC, OP_NOPS };
enum { T_NTH = 0, T_OFF = 1, T_STEP = 2 };
enum { A_ERR = 1, A_KILL = 2, A_SHORT = 3 };
enum { M_WHOLE = 0, M_FIXED = 1, M_RANDOM = 2, M_MIX = 3, M_CUTS = 4, M_PIPE = 256 /* flag: the input is a pipe, not a file */ };

typedef struct {
  int32_t chan, op, trig, act;
  int64_t at;
  int32_t arg;     // errno / permille of the write to apply before the kill / size limit
  int32_t repeat;  // number of firings, -1 = forever
  int32_t fired;   // out
  int32_t pre_eof; // out: firings while the input was not yet at end of file
} sim_fault;

typedef struct {
  char path[192];
  int32_t kind;
  int32_t mode;     // read/write fragmentation
  int32_t p1, p2;
  int32_t eintr;    // per-mille chance of an EINTR before a transfer
  int32_t eintr_max;
  int32_t ncut;
  int32_t cut[8];   // absolute offsets at which a transfer must stop
  uint64_t seed;
  // out
  int32_t nops[OP_NOPS + 1];
  int32_t neintr, nshort;
  int64_t bytes_r, bytes_w;
  int32_t eof_seen, pad;
} sim_chan;

typedef struct { uint16_t op, chan; int32_t err; int64_t off, len; } sim_ev;

typedef struct {
  int32_t off, len;      // bytes in net[]
  int32_t mode, p1;      // chunking
  int64_t delay_us;      // delay before each chunk (scaled by seed)
  int32_t end;           // 0 keep open, 1 close, 2 reset, 3 stall
  int32_t refuse;        // errno for connect, 0 = accept
  int32_t used, pad;
} sim_resp;

typedef struct {
  uint32_t magic;
  uint32_t argc, envc;
  char args[SIM_ARGBYTES]; // argc NUL-terminated strings then envc strings
  char cwd[256], root[256], tmpdir[256], stdin_path[256];
  uint64_t seed, rand_seed;
  int64_t clock_base_us, clock_step_us;
  int64_t clock_jump_every, clock_jump_us;
  int64_t step_budget;
  int32_t fake_pid, rows, cols, cpu_secs;
  int32_t nfault, nstop, nresp, pollmode;
  sim_fault fault[SIM_NFAULT];
  int64_t stop[SIM_NSTOP];
  sim_resp resp[SIM_NRESP];
  sim_chan chan[SIM_NCHAN];
  // out
  int64_t steps;
  int64_t now_us;
  uint64_t loghash;
  uint32_t nlog, over_budget, deadlock, nspawn;
  uint32_t nescape, nresp_used, nrand, nclock;
  char escape[512];
  char reqline[SIM_NRESP][512]; // first line of the request each response answered
  uint32_t outlen, errlen, outlost, netpad;
  sim_ev log[SIM_LOGCAP];
  unsigned char out[SIM_OUTCAP];
  unsigned char err[SIM_ERRCAP];
  unsigned char net[SIM_NETCAP];
} sim_shm;
#endif
