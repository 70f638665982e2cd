//! One simulated machine: a scratch directory, a fork server holding the real cdx
//! binary with the shim preloaded, and the shared memory that carries plans and logs.
use crate::case::*;
use crate::shm::*;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Read;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Status {
    Exit(i32),
    Signal(i32),
    Stopped,
    Hang,
}
impl Status {
    pub fn ok(self) -> bool {
        self == Status::Exit(0)
    }
    /// ended by itself with a failure status
    pub fn failed(self) -> bool {
        matches!(self, Status::Exit(x) if x != 0)
    }
}

#[derive(Clone, Debug, Default)]
pub struct ChanOut {
    pub bytes_r: i64,
    pub bytes_w: i64,
    pub nops: Vec<i32>,
    pub eof: bool,
    pub neintr: i32,
    pub nshort: i32,
}
#[derive(Clone, Debug)]
pub struct Out {
    pub status: Status,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub steps: i64,
    pub sim_us: i64,
    pub loghash: u64,
    pub over_budget: bool,
    pub deadlock: bool,
    pub escapes: String,
    pub fired: Vec<(i32, i32)>,
    pub chans: BTreeMap<Ch, ChanOut>,
    pub log: Vec<Ev>,
    pub chname: Vec<Option<Ch>>,
    pub resp_used: u32,
    /// the first line of each request the simulated server answered
    pub requests: Vec<String>,
    pub spawned: u32,
    pub log_full: bool,
    /// more output than the capture buffer holds
    pub lost: bool,
}
impl Out {
    pub fn any_fired(&self) -> bool {
        self.fired.iter().any(|f| f.0 > 0)
    }
    pub fn err_text(&self) -> String {
        String::from_utf8_lossy(&self.stderr[..self.stderr.len().min(300)]).replace('\n', " | ")
    }
    pub fn bytes_in(&self) -> i64 {
        self.chans.iter().filter(|c| matches!(c.0, Ch::File(_) | Ch::Stdin | Ch::Other)).map(|c| c.1.bytes_r).sum()
    }
    pub fn chan(&self, c: &Ch) -> ChanOut {
        self.chans.get(c).cloned().unwrap_or_else(|| ChanOut { nops: vec![0; OP_NOPS + 1], ..Default::default() })
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub cases: u64,
    pub nontrivial: u64,
    pub steps: i64,
    pub sim_us: i64,
    pub shorts: i64,
    pub eintrs: i64,
    pub faults: BTreeMap<String, u64>,
    pub planned: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub cmds: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub shapes: HashSet<u64>,
    pub samples: Vec<String>,
    pub unreproducible: u64,
}
impl Stats {
    pub fn probe(&mut self, s: &str) {
        *self.probes.entry(s.to_string()).or_insert(0) += 1;
    }
    pub fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.cases += o.cases;
        self.nontrivial += o.nontrivial;
        self.steps += o.steps;
        self.sim_us += o.sim_us;
        self.shorts += o.shorts;
        self.eintrs += o.eintrs;
        self.unreproducible += o.unreproducible;
        for (a, b) in [(&mut self.faults, o.faults), (&mut self.planned, o.planned), (&mut self.probes, o.probes), (&mut self.cmds, o.cmds)] {
            for (k, v) in b {
                *a.entry(k).or_insert(0) += v;
            }
        }
        self.hashes.extend(o.hashes);
        self.shapes.extend(o.shapes);
        self.samples.extend(o.samples);
    }
}

pub struct World {
    pub base: PathBuf,
    pub cwd: PathBuf,
    pub tmp: PathBuf,
    pub bin: PathBuf,
    shim: PathBuf,
    shm: *mut Shm,
    server: Option<(Child, OwnedFd, OwnedFd)>,
    shm_fd: OwnedFd,
    pub stats: Stats,
    cur_pid: i32,
    shared: bool,
    /// further process slots on the same machine
    pub sibs: Vec<World>,
}
unsafe impl Send for World {}

fn put(dst: &mut [u8], s: &str) {
    assert!(s.len() < dst.len(), "path too long");
    dst[..s.len()].copy_from_slice(s.as_bytes());
    dst[s.len()] = 0;
}
fn pipe() -> (OwnedFd, OwnedFd) {
    let mut f = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe2(f.as_mut_ptr(), libc::O_CLOEXEC), 0);
        (OwnedFd::from_raw_fd(f[0]), OwnedFd::from_raw_fd(f[1]))
    }
}

pub type Snap = BTreeMap<String, Option<Vec<u8>>>;
pub fn snapshot(dir: &Path) -> Snap {
    fn go(dir: &Path, pre: &str, out: &mut Snap) {
        if let Ok(rd) = fs::read_dir(dir) {
            for e in rd.flatten() {
                let name = format!("{}{}", pre, e.file_name().to_string_lossy());
                let ft = e.file_type().unwrap();
                if ft.is_dir() {
                    out.insert(format!("{name}/"), None);
                    go(&e.path(), &format!("{name}/"), out);
                } else if ft.is_symlink() {
                    out.insert(format!("{name}@"), None);
                } else {
                    out.insert(name, Some(fs::read(e.path()).unwrap_or_default()));
                }
            }
        }
    }
    let mut s = Snap::new();
    go(dir, "", &mut s);
    s
}

impl World {
    pub fn new(base: &Path, bin: &Path, shim: &Path) -> World {
        let _ = fs::remove_dir_all(base);
        fs::create_dir_all(base).unwrap();
        // the command that the simulated test runner starts
        let dir = base.join("bin");
        fs::create_dir_all(&dir).unwrap();
        if let Some(stub) = shim.parent().map(|p| p.join("stub")).filter(|p| p.exists()) {
            fs::copy(stub, dir.join("stub")).unwrap();
        }
        fs::write(dir.join("ca.pem"), include_bytes!("../ca.pem")).unwrap();
        fs::write(dir.join("noexec"), b"not a program").unwrap();
        let w = Self::attach(base, bin, shim, false);
        w.reset();
        w
    }
    /// another process slot on the same simulated machine
    pub fn sibling(&self) -> World {
        Self::attach(&self.base, &self.bin, &self.shim, true)
    }
    fn attach(base: &Path, bin: &Path, shim: &Path, shared: bool) -> World {
        let sz = std::mem::size_of::<Shm>();
        let fd = unsafe {
            let fd = libc::memfd_create(c"cdxsim".as_ptr(), libc::MFD_CLOEXEC);
            assert!(fd >= 0);
            assert_eq!(libc::ftruncate(fd, sz as i64), 0);
            OwnedFd::from_raw_fd(fd)
        };
        let shm = unsafe {
            let p = libc::mmap(std::ptr::null_mut(), sz, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd.as_raw_fd(), 0);
            assert!(p != libc::MAP_FAILED);
            p.cast::<Shm>()
        };
        unsafe { (*shm).magic = MAGIC };
        World {
            base: base.to_path_buf(),
            cwd: base.join("d"),
            tmp: base.join("tmp"),
            bin: bin.to_path_buf(),
            shim: shim.to_path_buf(),
            shm,
            server: None,
            shm_fd: fd,
            stats: Stats::default(),
            cur_pid: 0,
            shared,
            sibs: vec![],
        }
    }
    /// empty disk
    pub fn reset(&self) {
        for d in [&self.cwd, &self.tmp] {
            // only ever removes the scratch directories this harness made
            if d.exists() {
                fs::remove_dir_all(d).unwrap();
            }
            fs::create_dir_all(d).unwrap();
        }
    }
    pub fn write_files(&self, files: &[(String, Vec<u8>)]) {
        for (n, d) in files {
            if let Some(dir) = n.strip_suffix('/') {
                fs::create_dir_all(self.cwd.join(dir)).unwrap();
                continue;
            }
            let p = self.cwd.join(n);
            if let Some(x) = p.parent() {
                fs::create_dir_all(x).unwrap();
            }
            fs::write(p, d).unwrap();
        }
    }
    pub fn setup(&self, c: &Case) {
        self.reset();
        self.write_files(&c.files);
        if c.get("cmd") == "tooltest" {
            let d = self.cwd.join("bin");
            fs::create_dir_all(&d).unwrap();
            for n in ["stub", "noexec"] {
                fs::hard_link(self.base.join("bin").join(n), d.join(n)).unwrap();
            }
        }
    }
    pub fn read(&self, name: &str) -> Option<Vec<u8>> {
        fs::read(self.cwd.join(name)).ok()
    }
    fn ensure(&mut self) {
        if self.server.is_some() {
            return;
        }
        let (ctl_r, ctl_w) = pipe();
        let (st_r, st_w) = pipe();
        let fds = [self.shm_fd.as_raw_fd(), ctl_r.as_raw_fd(), st_w.as_raw_fd()];
        let (a, b, c) = (200, 201, 202);
        let mut cmd = Command::new(&self.bin);
        cmd.env_clear()
            .env("LD_PRELOAD", &self.shim)
            .env("LD_BIND_NOW", "1")
            .env("CDXSIM_FDS", format!("{a},{b},{c}"))
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::inherit());
        unsafe {
            cmd.pre_exec(move || {
                // via high temporaries so that no descriptor is clobbered
                let mut t = [0; 3];
                for i in 0..3 {
                    t[i] = libc::fcntl(fds[i], libc::F_DUPFD, 300);
                }
                for (i, d) in [a, b, c].into_iter().enumerate() {
                    libc::dup2(t[i], d);
                    libc::close(t[i]);
                }
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let child = cmd.spawn().expect("cannot start the fork server");
        self.server = Some((child, ctl_w, st_r));
    }
    fn cmd(&mut self, c: u8) {
        let fd = self.server.as_ref().unwrap().1.as_raw_fd();
        let n = unsafe { libc::write(fd, [c].as_ptr().cast(), 1) };
        assert_eq!(n, 1, "fork server is gone");
    }
    /// (pid, wait status); None after `secs` without an answer
    fn answer(&mut self, secs: i32) -> Option<(i32, i32)> {
        let fd = self.server.as_ref().unwrap().2.as_raw_fd();
        let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
        loop {
            let r = unsafe { libc::poll(&mut p, 1, secs * 1000) };
            if r < 0 {
                continue;
            }
            if r == 0 {
                return None;
            }
            break;
        }
        let mut b = [0u8; 8];
        let mut got = 0;
        while got < 8 {
            let n = unsafe { libc::read(fd, b[got..].as_mut_ptr().cast(), 8 - got) };
            assert!(n > 0, "fork server died");
            got += n as usize;
        }
        Some((i32::from_ne_bytes(b[..4].try_into().unwrap()), i32::from_ne_bytes(b[4..].try_into().unwrap())))
    }
    fn chan_index(names: &mut Vec<Option<Ch>>, c: &Ch) -> i32 {
        match c {
            Ch::Stdin => CH_STDIN,
            Ch::Stdout => CH_STDOUT,
            Ch::Stderr => CH_STDERR,
            Ch::Tmp => CH_TMP,
            Ch::Other => CH_OTHER,
            Ch::Sock => CH_SOCK,
            Ch::Pipe0 => CH_PIPE0,
            Ch::Pipe1 => CH_PIPE1,
            Ch::File(_) => {
                for (i, x) in names.iter().enumerate() {
                    if x.as_ref() == Some(c) {
                        return i as i32;
                    }
                }
                for i in CH_FIRST as usize..NCHAN {
                    if names[i].is_none() {
                        names[i] = Some(c.clone());
                        return i as i32;
                    }
                }
                panic!("too many channels");
            }
        }
    }
    /// load the plan of `r` into shared memory
    fn load(&mut self, r: &Run, files: &[String]) -> Vec<Option<Ch>> {
        let s = unsafe { &mut *self.shm };
        let mut names: Vec<Option<Ch>> = vec![None; NCHAN];
        for (i, c) in [Ch::Stdin, Ch::Stdout, Ch::Stderr, Ch::Tmp, Ch::Other, Ch::Sock, Ch::Pipe0, Ch::Pipe1].into_iter().enumerate() {
            names[i] = Some(c);
        }
        for f in files.iter().take(NCHAN - CH_FIRST as usize) {
            Self::chan_index(&mut names, &Ch::File(f.clone()));
        }
        unsafe {
            std::ptr::write_bytes(s.chan.as_mut_ptr(), 0, NCHAN);
            std::ptr::write_bytes(s.fault.as_mut_ptr(), 0, NFAULT);
            std::ptr::write_bytes(s.resp.as_mut_ptr(), 0, NRESP);
        }
        let mut off = 0;
        s.argc = 0;
        s.envc = 0;
        let mut add = |x: &str| {
            let b = x.as_bytes();
            assert!(off + b.len() + 1 < ARGBYTES, "arguments too long");
            s.args[off..off + b.len()].copy_from_slice(b);
            s.args[off + b.len()] = 0;
            off += b.len() + 1;
        };
        add("cdx");
        for a in &r.args {
            add(a);
        }
        add(&format!("TMPDIR={}", self.tmp.display()));
        add(&format!("CDXSIM_ROOT={}", self.base.display()));
        add("HOME=/nonexistent");
        add("PATH=/nonexistent");
        for e in &r.env {
            add(&e.replace("@ROOT", self.base.to_str().unwrap()));
        }
        s.argc = 1 + r.args.len() as u32;
        s.envc = 4 + r.env.len() as u32;
        put(&mut s.cwd, self.cwd.to_str().unwrap());
        put(&mut s.root, self.base.to_str().unwrap());
        put(&mut s.tmpdir, self.tmp.to_str().unwrap());
        let sp = match &r.stdin {
            Some(x) => self.cwd.join(x).to_str().unwrap().to_string(),
            None => String::new(),
        };
        put(&mut s.stdin_path, &sp);
        s.seed = r.seed;
        s.rand_seed = r.rand_seed;
        s.clock_base_us = r.clock[0];
        s.clock_step_us = r.clock[1];
        s.clock_jump_every = r.clock[2];
        s.clock_jump_us = r.clock[3];
        s.step_budget = r.budget;
        s.fake_pid = r.pid;
        s.rows = r.rows;
        s.cols = r.cols;
        s.cpu_secs = 10;
        s.pollmode = r.pollmode;
        s.nfault = r.faults.len() as i32;
        assert!(r.faults.len() <= NFAULT && r.stops.len() <= NSTOP && r.resps.len() <= NRESP);
        for (i, f) in r.faults.iter().enumerate() {
            s.fault[i] = CFault {
                chan: Self::chan_index(&mut names, &f.ch),
                op: f.op,
                trig: f.trig,
                act: f.act,
                at: f.at,
                arg: f.arg,
                repeat: f.repeat,
                fired: 0,
                pre_eof: 0,
            };
        }
        for (c, f) in &r.frags {
            let i = Self::chan_index(&mut names, c) as usize;
            let k = &mut s.chan[i];
            k.mode = f.mode;
            k.p1 = f.p1;
            k.p2 = f.p2;
            k.eintr = f.eintr;
            k.eintr_max = f.eintr_max;
            k.ncut = f.cuts.len().min(8) as i32;
            for (j, x) in f.cuts.iter().take(8).enumerate() {
                k.cut[j] = *x;
            }
            k.seed = f.seed;
        }
        for (i, n) in names.iter().enumerate() {
            if let Some(Ch::File(f)) = n {
                let p = self.cwd.join(f);
                put(&mut s.chan[i].path, p.to_str().unwrap());
                s.chan[i].kind = 1;
            }
        }
        s.nstop = r.stops.len() as i32;
        for (i, x) in r.stops.iter().enumerate() {
            s.stop[i] = *x;
        }
        s.nresp = r.resps.len() as i32;
        let mut noff = 0;
        for (i, x) in r.resps.iter().enumerate() {
            assert!(noff + x.bytes.len() <= NETCAP);
            s.net[noff..noff + x.bytes.len()].copy_from_slice(&x.bytes);
            s.resp[i] = CResp {
                off: noff as i32,
                len: x.bytes.len() as i32,
                mode: x.mode,
                p1: x.p1,
                delay_us: x.delay_us,
                end: x.end,
                refuse: x.refuse,
                used: 0,
                pad: 0,
            };
            noff += x.bytes.len();
        }
        s.steps = 0;
        s.now_us = r.clock[0];
        s.loghash = 0xcbf2_9ce4_8422_2325;
        s.nlog = 0;
        s.over_budget = 0;
        s.deadlock = 0;
        s.nspawn = 0;
        s.nescape = 0;
        s.nresp_used = 0;
        s.reqline = [[0; 512]; NRESP];
        s.nrand = 0;
        s.nclock = 0;
        s.escape[0] = 0;
        s.outlen = 0;
        s.errlen = 0;
        s.outlost = 0;
        names
    }
    fn collect(&mut self, r: &Run, names: Vec<Option<Ch>>, status: Status) -> Out {
        let s = unsafe { &*self.shm };
        let mut chans = BTreeMap::new();
        for (i, n) in names.iter().enumerate() {
            if let Some(c) = n {
                let k = &s.chan[i];
                chans.insert(
                    c.clone(),
                    ChanOut { bytes_r: k.bytes_r, bytes_w: k.bytes_w, nops: k.nops.to_vec(), eof: k.eof_seen != 0, neintr: k.neintr, nshort: k.nshort },
                );
                self.stats.shorts += i64::from(k.nshort);
                self.stats.eintrs += i64::from(k.neintr);
            }
        }
        let esc_end = s.escape.iter().position(|x| *x == 0).unwrap_or(0);
        let nlog = (s.nlog as usize).min(LOGCAP);
        let o = Out {
            status,
            stdout: s.out[..s.outlen as usize].to_vec(),
            stderr: s.err[..s.errlen as usize].to_vec(),
            steps: s.steps,
            sim_us: s.now_us - s.clock_base_us,
            loghash: s.loghash,
            over_budget: s.over_budget != 0,
            deadlock: s.deadlock != 0,
            escapes: String::from_utf8_lossy(&s.escape[..esc_end]).to_string(),
            fired: (0..r.faults.len()).map(|i| (s.fault[i].fired, s.fault[i].pre_eof)).collect(),
            chans,
            log: s.log[..nlog].to_vec(),
            chname: names,
            resp_used: s.nresp_used,
            requests: s.reqline.iter().map(|x| String::from_utf8_lossy(&x[..x.iter().position(|b| *b == 0).unwrap_or(512)]).to_string()).collect(),
            spawned: s.nspawn,
            log_full: s.nlog as usize > LOGCAP,
            lost: s.outlost != 0,
        };
        self.stats.runs += 1;
        self.stats.steps += o.steps;
        self.stats.sim_us += o.sim_us.max(0);
        self.stats.hashes.insert(o.loghash);
        for (i, f) in r.faults.iter().enumerate() {
            *self.stats.planned.entry(f.kind()).or_insert(0) += 1;
            if o.fired[i].0 > 0 {
                *self.stats.faults.entry(f.kind()).or_insert(0) += o.fired[i].0.min(1) as u64;
            }
        }
        o
    }
    fn decode(ws: i32) -> Status {
        if libc::WIFSTOPPED(ws) {
            Status::Stopped
        } else if libc::WIFEXITED(ws) {
            Status::Exit(libc::WEXITSTATUS(ws))
        } else {
            Status::Signal(libc::WTERMSIG(ws))
        }
    }
    fn wait(&mut self) -> Status {
        match self.answer(120) {
            Some((_, ws)) => Self::decode(ws),
            None => {
                unsafe { libc::kill(self.cur_pid, libc::SIGKILL) };
                self.answer(20).expect("simulated process cannot be killed");
                Status::Hang
            }
        }
    }
    /// run to completion
    pub fn run(&mut self, r: &Run, files: &[String]) -> Out {
        let (names, mut st) = self.start(r, files);
        while st == Status::Stopped {
            st = self.cont();
        }
        let o = self.finish(r, names, st);
        if std::env::var_os("CDXSIM_TRACE").is_some() {
            let short: Vec<String> = r.args.iter().map(|a| a.chars().take(60).collect()).collect();
            eprintln!("RUN {:?} {:?} {}", o.status, short, o.err_text());
        }
        o
    }
    pub fn start(&mut self, r: &Run, files: &[String]) -> (Vec<Option<Ch>>, Status) {
        self.ensure();
        let names = self.load(r, files);
        self.cmd(b'r');
        let (pid, _) = self.answer(60).expect("fork server does not answer");
        self.cur_pid = pid;
        let st = self.wait();
        (names, st)
    }
    pub fn cont(&mut self) -> Status {
        self.cmd(b'c');
        self.wait()
    }
    pub fn finish(&mut self, r: &Run, names: Vec<Option<Ch>>, st: Status) -> Out {
        self.collect(r, names, st)
    }
    /// restart the fork server (fresh process image)
    pub fn restart(&mut self) {
        self.sibs.clear();
        if let Some((mut c, _, _)) = self.server.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    pub fn names(files: &[(String, Vec<u8>)]) -> Vec<String> {
        files.iter().filter(|f| !f.0.ends_with('/')).map(|f| f.0.clone()).collect()
    }
}
impl Drop for World {
    fn drop(&mut self) {
        self.restart();
        unsafe { libc::munmap(self.shm.cast(), std::mem::size_of::<Shm>()) };
        if !self.shared && self.base.starts_with("/dev/shm/") {
            let _ = fs::remove_dir_all(&self.base);
        }
    }
}
#[allow(dead_code)]
pub fn slurp(mut r: impl Read) -> Vec<u8> {
    let mut v = Vec::new();
    r.read_to_end(&mut v).unwrap();
    v
}
