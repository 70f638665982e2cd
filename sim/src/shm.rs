//! Mirror of shim.h
pub const MAGIC: u32 = 0x4344_5853;
pub const NCHAN: usize = 96;
pub const NFAULT: usize = 32;
pub const NSTOP: usize = 64;
pub const NRESP: usize = 8;
pub const ARGBYTES: usize = 65536;
pub const LOGCAP: usize = 65536;
pub const OUTCAP: usize = 6 << 20;
pub const ERRCAP: usize = 1 << 18;
pub const NETCAP: usize = 1 << 20;

pub const CH_STDIN: i32 = 0;
pub const CH_STDOUT: i32 = 1;
pub const CH_STDERR: i32 = 2;
pub const CH_TMP: i32 = 3;
pub const CH_OTHER: i32 = 4;
pub const CH_SOCK: i32 = 5;
pub const CH_PIPE0: i32 = 6;
pub const CH_PIPE1: i32 = 7;
pub const CH_ESC: i32 = 8;
pub const CH_FIRST: i32 = 9;

pub const OP_OPEN: i32 = 1;
pub const OP_READ: i32 = 2;
pub const OP_WRITE: i32 = 3;
pub const OP_CLOSE: i32 = 4;
pub const OP_MKDIR: i32 = 5;
pub const OP_UNLINK: i32 = 6;
pub const OP_RMDIR: i32 = 7;
pub const OP_OPENDIR: i32 = 8;
pub const OP_MMAP: i32 = 9;
pub const OP_LSEEK: i32 = 10;
pub const OP_RENAME: i32 = 11;
pub const OP_TRUNC: i32 = 12;
pub const OP_SPAWN: i32 = 13;
pub const OP_POLL: i32 = 14;
pub const OP_CONNECT: i32 = 15;
pub const OP_RECV: i32 = 16;
pub const OP_SEND: i32 = 17;
pub const OP_EPOLL: i32 = 18;
pub const OP_STOP: i32 = 19;
pub const OP_OPENW: i32 = 20;
pub const OP_CHMOD: i32 = 21;
pub const OP_SYNC: i32 = 22;
pub const OP_NOPS: usize = 23;
pub const OP_NAMES: [&str; OP_NOPS] = [
    "none", "open", "read", "write", "close", "mkdir", "unlink", "rmdir", "opendir", "mmap", "lseek", "rename", "truncate", "spawn",
    "poll", "connect", "recv", "send", "net-deliver", "stop", "open-for-write", "chmod", "sync",
];

pub const T_NTH: i32 = 0;
pub const T_OFF: i32 = 1;
pub const T_STEP: i32 = 2;
pub const A_ERR: i32 = 1;
pub const A_KILL: i32 = 2;
pub const A_SHORT: i32 = 3;
pub const M_WHOLE: i32 = 0;
pub const M_FIXED: i32 = 1;
pub const M_RANDOM: i32 = 2;
pub const M_MIX: i32 = 3;
pub const M_CUTS: i32 = 4;
/// flag on the mode: the input is a pipe, not a regular file
pub const M_PIPE: i32 = 256;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct CFault {
    pub chan: i32,
    pub op: i32,
    pub trig: i32,
    pub act: i32,
    pub at: i64,
    pub arg: i32,
    pub repeat: i32,
    pub fired: i32,
    pub pre_eof: i32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct CChan {
    pub path: [u8; 192],
    pub kind: i32,
    pub mode: i32,
    pub p1: i32,
    pub p2: i32,
    pub eintr: i32,
    pub eintr_max: i32,
    pub ncut: i32,
    pub cut: [i32; 8],
    pub seed: u64,
    pub nops: [i32; OP_NOPS + 1],
    pub neintr: i32,
    pub nshort: i32,
    pub bytes_r: i64,
    pub bytes_w: i64,
    pub eof_seen: i32,
    pub pad: i32,
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ev {
    pub op: u16,
    pub chan: u16,
    pub err: i32,
    pub off: i64,
    pub len: i64,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct CResp {
    pub off: i32,
    pub len: i32,
    pub mode: i32,
    pub p1: i32,
    pub delay_us: i64,
    pub end: i32,
    pub refuse: i32,
    pub used: i32,
    pub pad: i32,
}
#[repr(C)]
pub struct Shm {
    pub magic: u32,
    pub argc: u32,
    pub envc: u32,
    pub args: [u8; ARGBYTES],
    pub cwd: [u8; 256],
    pub root: [u8; 256],
    pub tmpdir: [u8; 256],
    pub stdin_path: [u8; 256],
    pub seed: u64,
    pub rand_seed: u64,
    pub clock_base_us: i64,
    pub clock_step_us: i64,
    pub clock_jump_every: i64,
    pub clock_jump_us: i64,
    pub step_budget: i64,
    pub fake_pid: i32,
    pub rows: i32,
    pub cols: i32,
    pub cpu_secs: i32,
    pub nfault: i32,
    pub nstop: i32,
    pub nresp: i32,
    pub pollmode: i32,
    pub fault: [CFault; NFAULT],
    pub stop: [i64; NSTOP],
    pub resp: [CResp; NRESP],
    pub chan: [CChan; NCHAN],
    pub steps: i64,
    pub now_us: i64,
    pub loghash: u64,
    pub nlog: u32,
    pub over_budget: u32,
    pub deadlock: u32,
    pub nspawn: u32,
    pub nescape: u32,
    pub nresp_used: u32,
    pub nrand: u32,
    pub nclock: u32,
    pub escape: [u8; 512],
    pub reqline: [[u8; 512]; NRESP],
    pub outlen: u32,
    pub errlen: u32,
    pub outlost: u32,
    pub netpad: u32,
    pub log: [Ev; LOGCAP],
    pub out: [u8; OUTCAP],
    pub err: [u8; ERRCAP],
    pub net: [u8; NETCAP],
}
