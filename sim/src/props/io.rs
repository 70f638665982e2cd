//! Properties about input delivery, failing input, failing output and side effects.
use super::*;
use crate::shm::*;

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "P01",
            gen: p01_gen,
            check: p01_check,
            quick: 30_000,
            thorough: 1_200_000,
            rule: "A random command line over all subcommands and random tables; one undisturbed run is compared with runs in which every input is delivered in other read sizes with interruptions and from other sources.",
            shrink_files: true,
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "P02",
            gen: p02_gen,
            check: p02_check,
            quick: 34_000,
            thorough: 1_360_000,
            rule: "A random command; its inputs are replaced by gzip encodings (levels, members, header fields), delivered in fragments, and in half the cases truncated or corrupted.",
            shrink_files: false,
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "P03",
            gen: p03_gen,
            check: p03_check,
            quick: 36_000,
            thorough: 1_440_000,
            rule: "A random command; one input fails on open, on the read at a random offset (including at end of file) or on memory mapping.",
            shrink_files: true,
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "P04",
            gen: p04_gen,
            check: p04_check,
            quick: 42_000,
            thorough: 1_680_000,
            rule: "A random command; the write reaching a random byte of standard output or of an output file fails, or writes are short and interrupted.",
            shrink_files: true,
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "P05",
            gen: p05_gen,
            check: p05_check,
            quick: 44_000,
            thorough: 1_760_000,
            rule: "A random record-processing command; standard output breaks (EPIPE) from a random byte on.",
            shrink_files: true,
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "P09",
            gen: p09_gen,
            check: p09_check,
            quick: 70_000,
            thorough: 2_800_000,
            rule: "A random command among bystander files, with random faults or a kill at a random step; the directory tree and the log of modifying calls are examined.",
            shrink_files: true,
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "P22",
            gen: p22_gen,
            check: p22_check,
            quick: 100_000,
            thorough: 4_000_000,
            rule: "Random commands with damaged arguments, damaged input and failing system calls (input, output, temporary storage, output files); every run must end with a status and a message of its own, never in a panic or a signal.",
            shrink_files: true,
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "P16",
            gen: p16_gen,
            check: p16_check,
            quick: 50_000,
            thorough: 2_000_000,
            rule: "A random command with persistent and transient faults of any kind, tiny transfers and interruptions; the number of operations is compared with a bound linear in the bytes moved.",
            shrink_files: true,
            real: REAL,
            stub: STUB,
        },
    ]
}

// ------------------------------------------------------------------ P01
/// do names of inputs appear in the output?
fn shows_names(m: &Cmd) -> bool {
    match m.name.as_str() {
        "wc" => true,
        "cgrep" | "binsearch" => m.args.iter().any(|x| x == "-l" || x == "-H"),
        "tabs" => m.inputs.len() > 1,
        _ => false,
    }
}
/// the same command with its inputs coming from other places
pub fn swap_sources(r: &mut Rng, m: &Cmd, run: &mut Run) {
    let wc_one = m.name == "wc" && m.args.windows(2).any(|x| x[0] == "-f" && x[1] == "no");
    if shows_names(m) && !wc_one {
        return;
    }
    if m.inputs.is_empty() {
        if let Some(n) = run.stdin.clone() {
            match r.below(3) {
                0 => {
                    run.args.push(n);
                    run.stdin = None;
                }
                1 => run.args.push("-".into()),
                _ => {
                    let d = m.files.iter().find(|x| x.0 == n).unwrap();
                    if inlineable(&d.1) {
                        run.args.push(format!("@inline:{n}"));
                        run.stdin = None;
                    }
                }
            }
        }
        return;
    }
    let mut stdin: Option<String> = None;
    let old = run.stdin.take();
    for i in &m.inputs {
        let name = if run.args[*i] == "-" { old.clone().unwrap() } else { run.args[*i].clone() };
        let d = &m.files.iter().find(|x| x.0 == name).unwrap().1;
        run.args[*i] = match r.below(3) {
            0 if stdin.is_none() => {
                stdin = Some(name);
                "-".into()
            }
            1 if inlineable(d) => format!("@inline:{name}"),
            _ => name,
        };
    }
    run.stdin = stdin;
}
fn inlineable(d: &[u8]) -> bool {
    d.len() < 9000 && !d.contains(&0) && std::str::from_utf8(d).is_ok()
}

fn p01_gen(r: &mut Rng, _i: u64) -> Case {
    let own = r.pct(70);
    let (m, mut c) = cmd_case(r, Want { stream_only: true, input_only: true, ..Want::default() });
    if !own {
        c = borrow(r, &LENDERS);
    }
    for _ in 0..2 {
        let mut run = c.runs[0].clone();
        if own && r.pct(45) {
            swap_sources(r, &m, &mut run);
        }
        c.runs.push(run);
        let k = c.runs.len() - 1;
        if r.pct(90) {
            frag_all(r, &mut c, k, 85);
        }
        if r.pct(30) {
            pipe_some(r, &mut c, k, 70);
        }
    }
    c
}
fn p01_check(w: &mut World, c: &Case) -> Check {
    let (o, base) = fresh(w, c, &c.runs[0].calm());
    sane(&o)?;
    if base.status.ok() {
        w.stats.probe("baseline succeeds");
    } else {
        w.stats.probe("baseline fails");
    }
    let mut worth = false;
    for r in &c.runs[1..] {
        let (o2, got) = fresh(w, c, r);
        sane2(&o2)?;
        compare("delivery changes the result", &base, &got, &o2)?;
        if r.frags.iter().any(|x| x.1.mode & M_PIPE != 0) {
            w.stats.probe("input from a pipe");
        }
        if o2.chans.values().any(|x| x.nshort > 0 || x.neintr > 0) || r.args != c.runs[0].args {
            worth = true;
        }
    }
    Ok(worth)
}

// ------------------------------------------------------------------ P02
fn crc16(b: &[u8]) -> u16 {
    let mut crc = flate2::Crc::new();
    crc.update(b);
    (crc.sum() & 0xffff) as u16
}
/// one gzip member with random level and optional header fields
fn member(r: &mut Rng, data: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut d = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::new(r.below(10) as u32));
    // random flushes give several deflate blocks
    let mut at = 0;
    while at < data.len() {
        let n = if r.pct(20) { r.range(1, data.len() - at) } else { data.len() - at };
        d.write_all(&data[at..at + n]).unwrap();
        if r.pct(30) {
            d.flush().unwrap();
        }
        at += n;
    }
    let body = d.finish().unwrap();
    let mut flags = 0u8;
    let mut v = vec![0x1f, 0x8b, 8];
    if r.pct(30) {
        flags = (r.below(32) as u8) & 0b11110;
    }
    v.push(flags);
    v.extend_from_slice(&(r.next() as u32).to_le_bytes());
    v.push(*r.pick(&[0u8, 2, 4]));
    v.push(*r.pick(&[255u8, 3]));
    if flags & 4 != 0 {
        let n = r.below(40);
        v.extend_from_slice(&(n as u16).to_le_bytes());
        for _ in 0..n {
            v.push(r.next() as u8);
        }
    }
    if flags & 8 != 0 {
        v.extend_from_slice(b"name.txt\0");
    }
    if flags & 16 != 0 {
        v.extend_from_slice(b"a comment\0");
    }
    if flags & 2 != 0 {
        let h = crc16(&v);
        v.extend_from_slice(&h.to_le_bytes());
    }
    v.extend_from_slice(&body);
    let mut crc = flate2::Crc::new();
    crc.update(data);
    v.extend_from_slice(&crc.sum().to_le_bytes());
    v.extend_from_slice(&(data.len() as u32).to_le_bytes());
    v
}
/// gzip encoding of `data`, and the end offsets of its members
pub fn gzip(r: &mut Rng, data: &[u8]) -> (Vec<u8>, Vec<usize>) {
    let mut v = Vec::new();
    let mut ends = Vec::new();
    let mut at = 0;
    let many = r.pct(45);
    let tiny = r.pct(30);
    loop {
        let left = data.len() - at;
        let n = if many && ends.len() < 8 {
            if tiny {
                r.below(left.min(6) + 1)
            } else {
                r.below(left + 1)
            }
        } else {
            left
        };
        v.extend(member(r, &data[at..at + n]));
        ends.push(v.len());
        at += n;
        if at == data.len() && (!many || r.pct(70) || ends.len() > 10) {
            return (v, ends);
        }
    }
}
fn p02_gen(r: &mut Rng, _i: u64) -> Case {
    let (_, mut c) = cmd_case(r, Want { stream_only: true, input_only: true, cap: 60_000, ..Want::default() });
    let mut damage = r.pct(50);
    if r.pct(25) {
        c = borrow(r, &LENDERS);
        // some of these stop before the end of their input, where the checksum is
        damage = false;
        if c.get("cmd") == "binsearch" {
            c.runs[0].args.clear();
        }
    }
    let run = c.runs[0].clone();
    c.runs.push(run);
    let mut damaged = false;
    let files = c.files.clone();
    let inputs = c.list("inputs");
    for (n, d) in &files {
        if !c.get("from").is_empty() && !inputs.contains(n) {
            continue;
        }
        if n == "pats.txt" || r.pct(25) && files.len() > 1 {
            continue;
        }
        let (mut z, ends) = gzip(r, d);
        if damage && !damaged {
            damaged = true;
            if r.pct(50) {
                // truncation, not at a member boundary (that would be a valid shorter file)
                let k = r.range(3, z.len() - 1);
                if !ends.contains(&k) {
                    z.truncate(k);
                    c.set("damage", "truncated");
                }
            } else {
                let k = if r.pct(40) { z.len() - r.range(1, 8.min(z.len() - 3)) } else { r.range(3, z.len() - 1) };
                z[k] ^= 1 << r.below(8);
                c.set("damage", "corrupt");
            }
        }
        c.files.push((format!("gz/{n}"), z));
    }
    // runs[1] reads gz/* under the original names
    let run = c.runs[1].clone();
    for (n, d) in &files {
        if r.pct(70) {
            let f = frag(r, d.len());
            c.runs[1].frags.push((chan_of(&run, n), f));
        }
    }
    c
}
fn p02_check(w: &mut World, c: &Case) -> Check {
    let mut plain = c.clone();
    plain.files.retain(|f| !f.0.starts_with("gz/"));
    let mut zip = plain.clone();
    for f in &mut zip.files {
        if let Some(x) = c.files.iter().find(|x| x.0 == format!("gz/{}", f.0)) {
            f.1 = x.1.clone();
        }
    }
    let (o, base) = fresh(w, &plain, &c.runs[0].calm());
    sane(&o)?;
    let (o2, got) = fresh(w, &zip, &c.runs[1]);
    sane2(&o2)?;
    let worth = zip.files != plain.files && !base.stdout.is_empty();
    if c.get("damage") == "corrupt" && c.num("early") == 1 {
        // the checksum may lie beyond what such a command reads
        return Ok(false);
    }
    if c.get("damage").is_empty() {
        compare("gzip encoding changes the result", &base, &got, &o2)?;
        w.stats.probe("intact");
    } else {
        w.stats.probe(c.get("damage"));
        match got.status {
            Status::Exit(0) => {
                // only right if nothing was lost
                compare(&format!("{} gzip accepted", c.get("damage")), &base, &got, &o2)?;
                w.stats.probe("damage harmless");
            }
            Status::Exit(_) => w.stats.probe("damage detected"),
            x => return viol("died", format!("{x:?} on damaged gzip")),
        }
    }
    Ok(worth)
}

// ------------------------------------------------------------------ P03
const READ_ERRS: [i32; 9] =
    [libc::EIO, libc::EISDIR, libc::ESTALE, libc::ENOMEM, libc::EAGAIN, libc::ETIMEDOUT, libc::ECONNRESET, libc::EINVAL, libc::ENXIO];
const OPEN_ERRS: [i32; 8] = [libc::ENOENT, libc::EACCES, libc::EMFILE, libc::ENFILE, libc::EIO, libc::ESTALE, libc::ENOMEM, libc::EPERM];

fn p03_gen(r: &mut Rng, _i: u64) -> Case {
    let (_, mut c) = cmd_case(r, Want { input_only: true, ..Want::default() });
    if r.pct(25) {
        c = borrow(r, &LENDERS);
    } else if r.pct(20) {
        // compressed input
        for f in &mut c.files {
            if f.0 != "pats.txt" && c.kv["cmd"] != "binsearch" {
                f.1 = gzip(r, &f.1).0;
            }
        }
    }
    let run = c.runs[0].clone();
    let names = c.list("inputs");
    if names.is_empty() {
        return c;
    }
    let victim = r.pick(&names).clone();
    c.set("victim", &victim);
    let ch = chan_of(&run, &victim);
    let len = c.file(&victim).len() as i64;
    let what = r.below(100);
    if ch != Ch::Stdin && what < 15 {
        c.runs[0].faults.push(Fault::err_nth(ch, OP_OPEN, 0, *r.pick(&OPEN_ERRS), 1));
    } else if ch != Ch::Stdin && what < 18 {
        c.set("remove", 1);
    } else if ch != Ch::Stdin && what < 21 {
        c.set("mkdir", 1);
    } else if c.get("cmd") == "binsearch" {
        c.runs[0].faults.push(Fault::err_nth(ch, OP_MMAP, 0, *r.pick(&[libc::ENOMEM, libc::ENODEV, libc::EACCES, libc::EAGAIN, libc::EINVAL]), 1));
    } else {
        let at = match r.below(10) {
            0 => 0,
            1 | 2 => len,
            3 => (len - r.below(20) as i64).max(0),
            4 => (*r.pick(&[8192i64, 16384, 24576]) + r.below(3) as i64 - 1).min(len),
            _ => r.below(len as usize + 1) as i64,
        };
        let e = *r.pick(&READ_ERRS);
        let rep = if r.pct(30) { 1 } else { 0 };
        let mut f = Fault::err_at(ch.clone(), OP_READ, at, e, 1);
        if rep == 0 {
            f.repeat = -1;
        }
        c.runs[0].faults.push(f);
        if r.pct(50) {
            let f = frag(r, len as usize);
            c.runs[0].frags.push((ch, f));
        }
    }
    c
}
fn p03_check(w: &mut World, c: &Case) -> Check {
    if c.get("victim").is_empty() {
        return Ok(false);
    }
    let r = &c.runs[0];
    let (o, base) = fresh(w, c, &r.calm());
    sane(&o)?;
    // the failing run
    w.setup(c);
    let victim = c.get("victim");
    let path = w.cwd.join(victim);
    let mut forced = false;
    if c.num("remove") == 1 || c.num("mkdir") == 1 {
        std::fs::remove_file(&path).unwrap();
        if c.num("mkdir") == 1 {
            std::fs::create_dir(&path).unwrap();
        }
        forced = o.chan(&Ch::File(victim.to_string())).nops[OP_OPEN as usize] > 0;
    }
    let o2 = w.run(&resolve(c, r), &chan_files(c));
    sane2(&o2)?;
    let fired = forced || o2.fired.iter().any(|f| f.0 > 0);
    let pre = forced || o2.fired.iter().any(|f| f.1 > 0);
    if !fired {
        return Ok(false);
    }
    w.stats.probe("fault reached");
    if !base.status.ok() {
        // nothing to compare with, but it must not start to succeed
        if o2.status.ok() && pre && c.num("early") == 0 {
            return viol("failing input accepted", format!("exit 0; fault-free run ends {:?}", base.status));
        }
        return Ok(false);
    }
    let same = o2.stdout == base.stdout && c.list("outs").iter().zip(&base.outs).all(|(n, b)| w.read(n) == *b);
    match o2.status {
        Status::Exit(0) => {
            // EAGAIN is the one error after which trying again is proper
            let again = r.faults.iter().all(|f| f.arg == libc::EAGAIN && f.repeat == 1 && f.op == OP_READ);
            if !(same && (!pre || again || c.num("early") == 1)) {
                let d = differ(&base.stdout, &o2.stdout);
                return viol("failing input taken for the end of the data", format!("exit 0 although {} failed; {}", victim, d));
            }
            w.stats.probe("failure not needed");
        }
        Status::Exit(_) => {
            if o2.stderr.is_empty() {
                return viol("no diagnostic", format!("{:?} without a message", o2.status));
            }
            w.stats.probe("failure reported");
        }
        s => return viol("died", format!("{s:?}")),
    }
    if !base.stdout.starts_with(&o2.stdout) {
        return viol("output is not a prefix", differ(&base.stdout, &o2.stdout));
    }
    Ok(true)
}

// ------------------------------------------------------------------ P04
const WRITE_ERRS: [i32; 6] = [libc::ENOSPC, libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG, libc::EAGAIN];
/// with a small output buffer any of the program's writes may be the one that meets the failure
pub fn small_buffer(r: &mut Rng, c: &mut Case, pct: usize) {
    if r.pct(pct) {
        let n = match r.below(4) {
            0 => r.range(1, 4),
            1 => r.range(5, 12),
            2 => r.range(13, 40),
            _ => r.range(41, 300),
        };
        for x in &mut c.runs {
            x.env.push(format!("CDX_SIM_OUT_BUFFER={n}"));
        }
    }
}
fn p04_gen(r: &mut Rng, _i: u64) -> Case {
    let (_, mut c) = cmd_case(r, Want::default());
    if r.pct(30) {
        c = borrow(r, &LENDERS);
    }
    let outs = c.list("outs");
    let ch = if !outs.is_empty() && r.pct(60) { Ch::File(r.pick(&outs).clone()) } else { Ch::Stdout };
    c.set("where", r.below(1_000_001));
    c.set("how", match r.below(100) {
        0..=9 => "short",
        10..=16 if ch != Ch::Stdout => "open",
        17..=59 => "once",
        60..=69 => "last",
        _ => "forever",
    });
    c.set("errno", r.pick(&WRITE_ERRS));
    c.set("dest", ch.text());
    small_buffer(r, &mut c, 60);
    if r.pct(40) || c.get("how") == "short" {
        let f = frag(r, 3000);
        c.runs[0].frags.push((ch, f));
    }
    if r.pct(15) {
        let f = frag(r, 5000);
        c.runs[0].frags.push((Ch::Stdin, f));
    }
    c
}
/// the plan depends on the size of the output, which the calm run reveals
fn p04_check(w: &mut World, c: &Case) -> Check {
    let (o, base) = fresh(w, c, &c.runs[0].calm());
    sane(&o)?;
    if !base.status.ok() {
        return Ok(false);
    }
    let dest = Ch::parse(c.get("dest"));
    let len = match &dest {
        Ch::Stdout => base.stdout.len() as i64,
        Ch::File(x) => w.read(x).map_or(0, |v| v.len()) as i64,
        _ => 0,
    };
    if len == 0 {
        return Ok(false);
    }
    // a single failure hits one of the program's writes: try several places of the same output
    let mut worth = false;
    for k in 0..if c.get("how") == "once" && len < 20_000 { 4 } else { 1 } {
        let at = if c.get("how") == "last" || k == 3 { len - 1 } else { (len - 1) * ((c.num("where") + k * 271_828) % 1_000_001) / 1_000_000 };
        worth |= p04_one(w, c, &base, &dest, at, len)?;
    }
    Ok(worth)
}
fn p04_one(w: &mut World, c: &Case, base: &View, dest: &Ch, at: i64, len: i64) -> Check {
    let mut r = c.runs[0].clone();
    let e = c.num("errno") as i32;
    scale(&mut r, dest, len as usize);
    match c.get("how") {
        "short" => {}
        "open" => r.faults.push(Fault::err_nth(dest.clone(), OP_OPENW, 0, *[libc::EACCES, libc::ENOSPC, libc::EROFS, libc::EISDIR].get(at as usize % 4).unwrap(), 1)),
        "once" => r.faults.push(Fault::err_at(dest.clone(), OP_WRITE, at, e, 1)),
        _ => r.faults.push(Fault::err_at(dest.clone(), OP_WRITE, at, e, -1)),
    }
    let (o2, got) = fresh(w, c, &r);
    sane2(&o2)?;
    if c.get("how") == "short" {
        compare("short writes change the result", base, &got, &o2)?;
        return Ok(o2.chan(dest).nshort > 0 || o2.chan(dest).neintr > 0);
    }
    if !o2.any_fired() {
        return viol("output differs", format!("no write reached byte {at} of {len}"));
    }
    match o2.status {
        Status::Exit(0) => viol(
            "write error ignored",
            format!("exit 0 although {} failed with {} at byte {} of {}", dest.class(), errno_name(e), at, len),
        ),
        Status::Exit(_) if o2.stderr.is_empty() => viol("no diagnostic", "write error without a message".into()),
        Status::Exit(_) => Ok(true),
        s => viol("died", format!("{s:?}")),
    }
}

// ------------------------------------------------------------------ P05
fn p05_gen(r: &mut Rng, _i: u64) -> Case {
    let (_, mut c) = cmd_case(r, Want { ..Want::default() });
    if r.pct(30) {
        c = borrow(r, &LENDERS);
    }
    small_buffer(r, &mut c, 40);
    c.set("where", r.below(1_000_001));
    if r.pct(40) {
        let f = frag(r, 4000);
        c.runs[0].frags.push((Ch::Stdout, f));
    }
    if r.pct(30) {
        frag_all(r, &mut c, 0, 60);
    }
    c
}
fn p05_check(w: &mut World, c: &Case) -> Check {
    let (o, base) = fresh(w, c, &c.runs[0].calm());
    sane(&o)?;
    if !base.status.ok() || base.stdout.is_empty() {
        return Ok(false);
    }
    let at = (base.stdout.len() as i64 - 1) * c.num("where") / 1_000_000;
    let mut r = c.runs[0].clone();
    scale(&mut r, &Ch::Stdout, base.stdout.len());
    r.faults.push(Fault::err_at(Ch::Stdout, OP_WRITE, at, libc::EPIPE, -1));
    let (o2, got) = fresh(w, c, &r);
    sane2(&o2)?;
    if !o2.any_fired() {
        return viol("output differs", format!("no write reached byte {at}"));
    }
    if !got.status.ok() {
        return viol("broken pipe is not success", format!("{:?}; stderr {}", got.status, o2.err_text()));
    }
    if !o.stderr.starts_with(&o2.stderr) {
        return viol("noise on broken pipe", o2.err_text());
    }
    if !base.stdout.starts_with(&got.stdout) {
        return viol("not a prefix", differ(&base.stdout, &got.stdout));
    }
    // what was still read after the reader had gone
    let mut gone = false;
    let mut after = 0;
    for e in &o2.log {
        if e.op as i32 == OP_WRITE && e.chan as i32 == CH_STDOUT && e.err == libc::EPIPE {
            gone = true;
        } else if gone && e.op as i32 == OP_READ && e.err == 0 && (e.chan as i32 == CH_STDIN || e.chan as i32 >= CH_FIRST) {
            after += e.len;
        }
    }
    if !o2.log_full && after > 65_536 + 8192 {
        return viol("keeps reading after the reader has gone", format!("{after} more bytes of input"));
    }
    Ok(true)
}

// ------------------------------------------------------------------ P09
pub fn any_fault(r: &mut Rng, c: &mut Case, k: usize) {
    let run = c.runs[k].clone();
    let names = c.list("inputs");
    let outs = c.list("outs");
    for _ in 0..r.range(1, 3) {
        let rep = if r.pct(50) { -1 } else { 1 };
        let f = match r.below(9) {
            0 | 1 if !names.is_empty() => {
                let n = r.pick(&names).clone();
                let len = c.file(&n).len();
                Fault::err_at(chan_of(&run, &n), OP_READ, r.below(len + 1) as i64, *r.pick(&READ_ERRS), rep)
            }
            2 if !names.is_empty() => {
                let n = r.pick(&names).clone();
                Fault::err_nth(chan_of(&run, &n), OP_OPEN, 0, *r.pick(&OPEN_ERRS), rep)
            }
            3 => Fault::err_at(Ch::Stdout, OP_WRITE, r.below(20_000) as i64, *r.pick(&WRITE_ERRS), rep),
            4 if !outs.is_empty() => {
                let n = r.pick(&outs).clone();
                if r.pct(30) {
                    Fault::err_nth(Ch::File(n), OP_OPENW, 0, *r.pick(&[libc::EACCES, libc::ENOSPC, libc::EROFS]), rep)
                } else {
                    Fault::err_at(Ch::File(n), OP_WRITE, r.below(5000) as i64, *r.pick(&WRITE_ERRS), rep)
                }
            }
            5 => Fault::err_at(Ch::Stdout, OP_WRITE, r.below(20_000) as i64, libc::EPIPE, -1),
            6 => Fault::err_nth(
                Ch::Tmp,
                *r.pick(&[OP_OPEN, OP_OPENW, OP_MKDIR, OP_READ, OP_WRITE, OP_UNLINK, OP_RMDIR, OP_OPENDIR]),
                r.below(6) as i64,
                *r.pick(&[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EMFILE]),
                rep,
            ),
            7 => Fault::err_at(Ch::Stderr, OP_WRITE, 0, *r.pick(&[libc::ENOSPC, libc::EIO]), -1),
            _ => Fault::kill_step(r.below(400) as i64, r.below(1001) as i32),
        };
        c.runs[k].faults.push(f);
    }
}
fn p09_gen(r: &mut Rng, _i: u64) -> Case {
    let (_, mut c) = cmd_case(r, Want { cap: 40_000, ..Want::default() });
    if r.pct(25) {
        c = borrow(r, &LENDERS);
    }
    for n in ["by1.txt", "sub/by2", "un1.out.bak", "c.tsv.tmp"] {
        let d = plain_word(r, 60, 9).into_bytes();
        c.files.push((n.to_string(), d));
    }
    if r.pct(80) {
        any_fault(r, &mut c, 0);
    }
    if r.pct(40) {
        frag_all(r, &mut c, 0, 50);
    }
    if r.pct(30) {
        for o in c.list("outs") {
            let d = plain_word(r, 200, 9).into_bytes();
            c.files.push((o, d));
        }
    }
    c.set("foreign", r.below(2));
    c
}
fn p09_check(w: &mut World, c: &Case) -> Check {
    w.setup(c);
    if c.num("foreign") == 1 {
        std::fs::create_dir_all(w.tmp.join(".tmpForeign")).unwrap();
        std::fs::write(w.tmp.join(".tmpForeign/merge_0.txt"), b"not yours\n").unwrap();
        std::fs::write(w.tmp.join("notes.txt"), b"keep\n").unwrap();
    }
    let before = snapshot(&w.cwd);
    let tmp_before = snapshot(&w.tmp);
    let o = w.run(&resolve(c, &c.runs[0]), &chan_files(c));
    sane(&o)?;
    let after = snapshot(&w.cwd);
    let tmp_after = snapshot(&w.tmp);
    let outs = c.list("outs");
    if !o.escapes.is_empty() {
        return viol("writes outside the named files", o.escapes.clone());
    }
    for (n, d) in &before {
        if outs.contains(n) {
            continue;
        }
        if after.get(n) != Some(d) {
            return viol("file modified or removed", format!("{n} was {} now {:?}", show(d.as_deref().unwrap_or(b"")), after.get(n).map(|x| x.as_ref().map(|y| show(y)))));
        }
    }
    for n in after.keys() {
        if !before.contains_key(n) && !outs.contains(n) {
            return viol("unnamed file created", n.clone());
        }
    }
    for (n, d) in &tmp_before {
        if tmp_after.get(n) != Some(d) {
            return viol("foreign temporary file changed", n.clone());
        }
    }
    // at any instant in between: no modifying call was even issued on a protected file
    for e in &o.log {
        let bad = matches!(e.op as i32, OP_OPENW | OP_UNLINK | OP_RENAME | OP_TRUNC | OP_CHMOD | OP_WRITE);
        if !bad {
            continue;
        }
        match o.chname.get(e.chan as usize) {
            Some(Some(Ch::File(n))) if !outs.contains(n) => {
                return viol("modifying call on an input", format!("{} on {}", OP_NAMES[e.op as usize], n));
            }
            Some(Some(Ch::Other | Ch::Stdin)) => {
                return viol("modifying call on an unnamed file", OP_NAMES[e.op as usize].to_string());
            }
            _ => {}
        }
    }
    Ok(o.steps > 3)
}

// ------------------------------------------------------------------ P16
fn p16_gen(r: &mut Rng, _i: u64) -> Case {
    let (_, mut c) = cmd_case(r, Want::default());
    if r.pct(25) {
        c = borrow(r, &LENDERS);
    }
    if r.pct(75) {
        any_fault(r, &mut c, 0);
    }
    if r.pct(60) {
        frag_all(r, &mut c, 0, 70);
    }
    if r.pct(30) {
        let f = frag(r, 4000);
        c.runs[0].frags.push((Ch::Stdout, f));
    }
    if r.pct(15) {
        for f in &mut c.files {
            if f.0 != "pats.txt" && c.kv["cmd"] != "binsearch" {
                f.1 = gzip(r, &f.1).0;
                if r.pct(30) {
                    let k = r.below(f.1.len());
                    f.1.truncate(k);
                }
            }
        }
    }
    c
}
fn p16_check(w: &mut World, c: &Case) -> Check {
    let mut r = c.runs[0].clone();
    if r.frags.iter().any(|f| f.0 == Ch::Stdout) {
        let (o, _) = fresh(w, c, &r.calm());
        sane(&o)?;
        scale(&mut r, &Ch::Stdout, o.stdout.len());
    }
    w.setup(c);
    let r = &r;
    let o = w.run(&resolve(c, r), &chan_files(c));
    if o.status == Status::Hang || o.over_budget || o.deadlock {
        return viol("does not terminate", format!("{:?} after {} operations", o.status, o.steps));
    }
    let killed = r.faults.iter().any(|f| f.act == A_KILL);
    if let Status::Signal(s) = o.status {
        if !(killed && s == libc::SIGKILL) {
            return viol("dies from a signal", format!("signal {s}; stderr {}", o.err_text()));
        }
    }
    let moved: i64 = o.chans.values().map(|x| x.bytes_r + x.bytes_w).sum();
    let eintr: i64 = o.chans.values().map(|x| i64::from(x.neintr)).sum();
    let bound = 5000 + 4 * moved + 4 * eintr;
    if o.steps > bound {
        return viol("too many operations", format!("{} operations for {} bytes and {} interruptions", o.steps, moved, eintr));
    }
    for n in c.list("inputs") {
        let ch = chan_of(r, &n);
        let occ = 1 + r.args.iter().filter(|a| **a == n).count() as i64;
        let got = o.chan(&ch).bytes_r;
        let len = c.file(&n).len() as i64;
        if got > 4 * len * occ + 65_536 {
            return viol("reads input too often", format!("{got} bytes read from {n} of {len}"));
        }
    }
    if r.faults.is_empty() && o.status.failed() && o.stderr.is_empty() && !c.get("cmd").starts_with("sortc") && c.get("cmd") != "verify" {
        return viol("fails without a diagnostic", format!("{:?}", o.status));
    }
    Ok(o.any_fired() || o.chans.values().any(|x| x.nshort > 0))
}

// ------------------------------------------------------------------ P22
/// damage one argument the way a user might
fn digit_runs(a: &str) -> Vec<(usize, usize)> {
    let b = a.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let from = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i > from {
            v.push((from, i));
        } else {
            i += 1;
        }
    }
    v
}
fn spoil(r: &mut Rng, args: &mut Vec<String>) {
    if args.len() < 2 {
        return;
    }
    let i = r.range(1, args.len() - 1);
    let a = args[i].clone();
    let parts: Vec<&str> = a.split(',').collect();
    args[i] = match r.below(14) {
        0 => String::new(),
        1 => {
            let mut ch: Vec<char> = a.chars().collect();
            ch.pop();
            ch.into_iter().collect()
        }
        2 => {
            let mut ch: Vec<char> = a.chars().collect();
            if !ch.is_empty() {
                let k = r.below(ch.len());
                ch[k] = *r.pick(&[',', '.', '-', '0', '9', 'x', ':', '=', '{', '}', '(', '+', 'é', '~', '\\', '[', '^']);
            }
            ch.into_iter().collect()
        }
        12 => {
            // one of the numbers becomes extreme
            let runs: Vec<(usize, usize)> = digit_runs(&a);
            if runs.is_empty() {
                format!("{a}0")
            } else {
                let (x, y) = *r.pick(&runs);
                let v = *r.pick(&["0", "1", "99999999999999999999", "9223372036854775807", "18446744073709551615", "-1", "1e999", "1e-999", "-9223372036854775808", "0.1", "00", "1k"]);
                format!("{}{v}{}", &a[..x], &a[y..])
            }
        }
        3 => parts[..parts.len() - 1].join(","),
        4 => format!("{a},"),
        5 => format!(",{a}"),
        6 => format!("{a},{}", r.pick(&["1", "x", "", "-1", "99999999999999999999", "0", "1-", "plain", "2,3"])),
        7 => {
            let k = r.below(parts.len());
            let mut p: Vec<String> = parts.iter().map(|x| (*x).to_string()).collect();
            p[k] = (*r.pick(&["", "0", "-1", "99", "99999999999999999999", "nosuch", "1-", "3-1", "+1", "-2", "1.1", "<a", "~x"])).to_string();
            p.join(",")
        }
        8 if a.parse::<f64>().is_err() => a.repeat(2),
        8 => format!("{a}.5"),
        9 => (*r.pick(&["-", "--", "0", "-1", "nosuch", "--help", "-h", "--version", "<<", "<< CDX", "<< CDX\n", "s3://", "s3://x/y"])).to_string(),
        10 => {
            args.insert(i, a.clone());
            a
        }
        _ => {
            args.remove(i);
            return;
        }
    };
}
fn p22_gen(r: &mut Rng, _i: u64) -> Case {
    let (_, mut c) = cmd_case(r, Want { cap: 12_000, ..Want::default() });
    if r.pct(35) {
        c = borrow(r, &LENDERS);
    }
    small_buffer(r, &mut c, 20);
    if r.pct(70) && !c.runs[0].args.is_empty() {
        for _ in 0..*r.pick(&[1usize, 1, 1, 2]) {
            spoil(r, &mut c.runs[0].args);
        }
        // a size asked for is a size granted: nothing is learnt from running out of memory
        if matches!(c.runs[0].args[0].as_str(), "filegen") {
            for a in &mut c.runs[0].args {
                if a.bytes().filter(u8::is_ascii_digit).count() > 4 {
                    a.retain(|x| !x.is_ascii_digit());
                    a.push('7');
                }
            }
        }
    }
    if r.pct(20) {
        c.runs[0].rows = *r.pick(&[-1, 0, 1, 2, 3, 5, 24]);
        c.runs[0].cols = *r.pick(&[0, 1, 3, 10, 80]);
    }
    if r.pct(15) {
        // damage the data: bytes which are special somewhere
        for f in &mut c.files {
            for _ in 0..r.range(1, 4) {
                if f.1.is_empty() {
                    break;
                }
                let k = r.below(f.1.len());
                match r.below(3) {
                    0 => f.1[k] = *r.pick(&[0u8, 0xff, 0x80, b'"', b'\\', b'\n', b'\t', b'%', b'-', b'.', b'e', b' ']),
                    1 => {
                        f.1.remove(k);
                    }
                    _ => f.1.insert(k, *r.pick(&[0u8, 0xff, b'"', b'\n', b'\t', b'9', b'-', b'~'])),
                }
            }
        }
    }
    if r.pct(45) {
        any_fault(r, &mut c, 0);
        // where nobody can be told, nobody is; a killed process says nothing
        c.runs[0].faults.retain(|f| f.ch != Ch::Stderr && f.act != A_KILL);
    }
    if r.pct(30) {
        frag_all(r, &mut c, 0, 70);
    }
    c
}
fn p22_check(w: &mut World, c: &Case) -> Check {
    let r = &c.runs[0];
    w.setup(c);
    let o = w.run(&resolve(c, r), &chan_files(c));
    let text = o.err_text();
    if o.status == Status::Hang || o.over_budget || o.deadlock {
        return viol("hang", format!("{:?} after {} operations", o.status, o.steps));
    }
    match o.status {
        Status::Exit(0) => Ok(o.any_fired()),
        Status::Exit(1 | 2) if o.stderr.is_empty() && o.stdout.is_empty() && !c.get("cmd").starts_with("sortc") && c.get("cmd") != "verify" => viol("fails without a message", format!("{:?}", o.status)),
        Status::Exit(1 | 2) => Ok(true),
        s => viol("crash", format!("{s:?}; {text}")),
    }
}
