//! A case is one simulated history: files, runs, and for each run the complete
//! schedule (how every transfer is fragmented) and fault plan.  It is plain data:
//! it can be written to a replay file, read back, and shrunk.
use crate::shm::*;
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Ch {
    Stdin,
    Stdout,
    Stderr,
    Tmp,
    Other,
    Sock,
    Pipe0,
    Pipe1,
    File(String),
}
impl Ch {
    pub fn text(&self) -> String {
        match self {
            Ch::Stdin => "stdin".into(),
            Ch::Stdout => "stdout".into(),
            Ch::Stderr => "stderr".into(),
            Ch::Tmp => "tmp".into(),
            Ch::Other => "other".into(),
            Ch::Sock => "sock".into(),
            Ch::Pipe0 => "pipe0".into(),
            Ch::Pipe1 => "pipe1".into(),
            Ch::File(x) => format!("file:{}", hex(x.as_bytes())),
        }
    }
    pub fn parse(s: &str) -> Ch {
        match s {
            "stdin" => Ch::Stdin,
            "stdout" => Ch::Stdout,
            "stderr" => Ch::Stderr,
            "tmp" => Ch::Tmp,
            "other" => Ch::Other,
            "sock" => Ch::Sock,
            "pipe0" => Ch::Pipe0,
            "pipe1" => Ch::Pipe1,
            x => Ch::File(String::from_utf8(unhex(x.strip_prefix("file:").expect("bad channel"))).unwrap()),
        }
    }
    pub fn class(&self) -> &'static str {
        match self {
            Ch::Stdin => "stdin",
            Ch::Stdout => "stdout",
            Ch::Stderr => "stderr",
            Ch::Tmp => "tmp",
            Ch::Other => "other",
            Ch::Sock => "socket",
            Ch::Pipe0 | Ch::Pipe1 => "child-pipe",
            Ch::File(_) => "file",
        }
    }
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Frag {
    pub mode: i32,
    pub p1: i32,
    pub p2: i32,
    pub eintr: i32,
    pub eintr_max: i32,
    pub cuts: Vec<i32>,
    pub seed: u64,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Fault {
    pub ch: Ch,
    pub op: i32,
    pub trig: i32,
    pub act: i32,
    pub at: i64,
    pub arg: i32,
    pub repeat: i32,
}
impl Fault {
    pub fn err_at(ch: Ch, op: i32, off: i64, errno: i32, repeat: i32) -> Self {
        Self { ch, op, trig: T_OFF, act: A_ERR, at: off, arg: errno, repeat }
    }
    pub fn err_nth(ch: Ch, op: i32, n: i64, errno: i32, repeat: i32) -> Self {
        Self { ch, op, trig: T_NTH, act: A_ERR, at: n, arg: errno, repeat }
    }
    pub fn kill_step(step: i64, permille: i32) -> Self {
        Self { ch: Ch::Other, op: 0, trig: T_STEP, act: A_KILL, at: step, arg: permille, repeat: 1 }
    }
    pub fn kind(&self) -> String {
        let what = match self.act {
            A_KILL => "kill".to_string(),
            A_SHORT => "short".to_string(),
            _ => errno_name(self.arg).to_string(),
        };
        if self.trig == T_STEP {
            return "kill@step".to_string();
        }
        format!("{}:{}:{}", self.ch.class(), OP_NAMES[self.op as usize], what)
    }
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Resp {
    pub bytes: Vec<u8>,
    pub mode: i32,
    pub p1: i32,
    pub delay_us: i64,
    pub end: i32,
    pub refuse: i32,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Run {
    pub args: Vec<String>,
    pub env: Vec<String>,
    pub stdin: Option<String>,
    pub frags: Vec<(Ch, Frag)>,
    pub faults: Vec<Fault>,
    pub stops: Vec<i64>,
    pub resps: Vec<Resp>,
    pub seed: u64,
    pub rand_seed: u64,
    pub clock: [i64; 4],
    pub pid: i32,
    pub rows: i32,
    pub cols: i32,
    pub pollmode: i32,
    pub budget: i64,
}
impl Default for Run {
    fn default() -> Self {
        Self {
            args: vec![],
            env: vec![],
            stdin: None,
            frags: vec![],
            faults: vec![],
            stops: vec![],
            resps: vec![],
            seed: 1,
            rand_seed: 1,
            clock: [1_700_000_000_000_000, 10, 0, 0],
            pid: 4242,
            rows: 0,
            cols: 0,
            pollmode: 0,
            budget: 4_000_000,
        }
    }
}
impl Run {
    /// the same command with an undisturbed environment
    pub fn calm(&self) -> Run {
        Run { frags: vec![], faults: vec![], stops: vec![], ..self.clone() }
    }
    pub fn line(&self) -> String {
        let mut s = String::from("cdx");
        for a in &self.args {
            s.push(' ');
            if a.is_empty() || a.chars().any(|c| c.is_whitespace() || "'\"\\$<>|&;*?(){}".contains(c)) {
                s.push('\'');
                s.push_str(&a.replace('\n', "\\n").replace('\t', "\\t"));
                s.push('\'');
            } else {
                s.push_str(a);
            }
        }
        if let Some(x) = &self.stdin {
            s.push_str(" < ");
            s.push_str(x);
        }
        s
    }
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    pub files: Vec<(String, Vec<u8>)>,
    pub runs: Vec<Run>,
    pub kv: BTreeMap<String, String>,
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2 + 1);
    s.push('x');
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s = s.strip_prefix('x').unwrap_or(s).as_bytes();
    let v = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    s.chunks(2).map(|c| v(c[0]) * 16 + v(c[1])).collect()
}
fn sx(s: &str) -> String {
    hex(s.as_bytes())
}
fn us(s: &str) -> String {
    String::from_utf8(unhex(s)).unwrap()
}

impl Case {
    pub fn get(&self, k: &str) -> &str {
        self.kv.get(k).map_or("", |x| x.as_str())
    }
    pub fn num(&self, k: &str) -> i64 {
        self.get(k).parse().unwrap_or(0)
    }
    pub fn set(&mut self, k: &str, v: impl ToString) {
        self.kv.insert(k.to_string(), v.to_string());
    }
    pub fn file(&self, name: &str) -> &[u8] {
        self.files.iter().find(|f| f.0 == name).map_or(&[][..], |f| &f.1)
    }
    pub fn list(&self, k: &str) -> Vec<String> {
        self.get(k).split('\u{1}').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
    }
    pub fn set_list(&mut self, k: &str, v: &[String]) {
        self.set(k, v.join("\u{1}"));
    }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        s.push_str(&format!("case {} {}\n", self.prop, self.seed));
        for (n, d) in &self.files {
            s.push_str(&format!("file {} {}\n", sx(n), hex(d)));
        }
        for (k, v) in &self.kv {
            s.push_str(&format!("kv {} {}\n", k, sx(v)));
        }
        for r in &self.runs {
            s.push_str(&format!("# {}\n", r.line().replace('\n', " ")));
            s.push_str(&format!(
                "run {} {} {} {} {} {} {} {} {} {} {}\n",
                r.seed, r.rand_seed, r.clock[0], r.clock[1], r.clock[2], r.clock[3], r.pid, r.rows, r.cols, r.pollmode, r.budget
            ));
            for a in &r.args {
                s.push_str(&format!("arg {}\n", sx(a)));
            }
            for a in &r.env {
                s.push_str(&format!("env {}\n", sx(a)));
            }
            if let Some(x) = &r.stdin {
                s.push_str(&format!("stdin {}\n", sx(x)));
            }
            for (c, f) in &r.frags {
                s.push_str(&format!("frag {} {} {} {} {} {} {}", c.text(), f.mode, f.p1, f.p2, f.eintr, f.eintr_max, f.seed));
                for x in &f.cuts {
                    s.push_str(&format!(" {x}"));
                }
                s.push('\n');
            }
            for f in &r.faults {
                s.push_str(&format!("# fault {} at {}\n", f.kind(), f.at));
                s.push_str(&format!("fault {} {} {} {} {} {} {}\n", f.ch.text(), f.op, f.trig, f.act, f.at, f.arg, f.repeat));
            }
            for x in &r.stops {
                s.push_str(&format!("stop {x}\n"));
            }
            for x in &r.resps {
                s.push_str(&format!("resp {} {} {} {} {} {}\n", x.mode, x.p1, x.delay_us, x.end, x.refuse, hex(&x.bytes)));
            }
        }
        s
    }
    pub fn parse(t: &str) -> Case {
        let mut c = Case::default();
        for l in t.lines() {
            if l.starts_with('#') || l.is_empty() {
                continue;
            }
            let w: Vec<&str> = l.split(' ').collect();
            let n = |i: usize| w[i].parse::<i64>().unwrap();
            match w[0] {
                "case" => {
                    c.prop = w[1].to_string();
                    c.seed = w[2].parse().unwrap();
                }
                "file" => c.files.push((us(w[1]), unhex(w[2]))),
                "kv" => {
                    c.kv.insert(w[1].to_string(), us(w[2]));
                }
                "run" => c.runs.push(Run {
                    seed: w[1].parse().unwrap(),
                    rand_seed: w[2].parse().unwrap(),
                    clock: [n(3), n(4), n(5), n(6)],
                    pid: n(7) as i32,
                    rows: n(8) as i32,
                    cols: n(9) as i32,
                    pollmode: n(10) as i32,
                    budget: n(11),
                    ..Run::default()
                }),
                "arg" => c.runs.last_mut().unwrap().args.push(us(w[1])),
                "env" => c.runs.last_mut().unwrap().env.push(us(w[1])),
                "stdin" => c.runs.last_mut().unwrap().stdin = Some(us(w[1])),
                "frag" => {
                    let f = Frag {
                        mode: n(2) as i32,
                        p1: n(3) as i32,
                        p2: n(4) as i32,
                        eintr: n(5) as i32,
                        eintr_max: n(6) as i32,
                        seed: w[7].parse().unwrap(),
                        cuts: w[8..].iter().map(|x| x.parse().unwrap()).collect(),
                    };
                    c.runs.last_mut().unwrap().frags.push((Ch::parse(w[1]), f));
                }
                "fault" => {
                    let f = Fault {
                        ch: Ch::parse(w[1]),
                        op: n(2) as i32,
                        trig: n(3) as i32,
                        act: n(4) as i32,
                        at: n(5),
                        arg: n(6) as i32,
                        repeat: n(7) as i32,
                    };
                    c.runs.last_mut().unwrap().faults.push(f);
                }
                "stop" => c.runs.last_mut().unwrap().stops.push(n(1)),
                "resp" => c.runs.last_mut().unwrap().resps.push(Resp {
                    mode: n(1) as i32,
                    p1: n(2) as i32,
                    delay_us: n(3),
                    end: n(4) as i32,
                    refuse: n(5) as i32,
                    bytes: unhex(w[6]),
                }),
                _ => panic!("bad replay line {l}"),
            }
        }
        c
    }
}

pub fn errno_name(e: i32) -> &'static str {
    match e {
        libc::EIO => "EIO",
        libc::ENOSPC => "ENOSPC",
        libc::EDQUOT => "EDQUOT",
        libc::EFBIG => "EFBIG",
        libc::EPIPE => "EPIPE",
        libc::EAGAIN => "EAGAIN",
        libc::EINTR => "EINTR",
        libc::ENOENT => "ENOENT",
        libc::EACCES => "EACCES",
        libc::EMFILE => "EMFILE",
        libc::ENFILE => "ENFILE",
        libc::ENOMEM => "ENOMEM",
        libc::ESTALE => "ESTALE",
        libc::EISDIR => "EISDIR",
        libc::ETIMEDOUT => "ETIMEDOUT",
        libc::ECONNRESET => "ECONNRESET",
        libc::ECONNREFUSED => "ECONNREFUSED",
        libc::EROFS => "EROFS",
        libc::ENXIO => "ENXIO",
        libc::EINVAL => "EINVAL",
        libc::EPERM => "EPERM",
        libc::ENODEV => "ENODEV",
        libc::EEXIST => "EEXIST",
        libc::EHOSTUNREACH => "EHOSTUNREACH",
        _ => "errno",
    }
}
