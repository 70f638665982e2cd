//! The test runner.
use super::*;
use std::collections::BTreeMap;

pub fn all() -> Vec<Prop> {
    vec![Prop {
        id: "P11",
        gen: p11_gen,
        check: p11_check,
        quick: 36_000,
        thorough: 1_440_000,
        rule: "Random sequences of test files whose commands succeed, fail, crash, litter, print the wrong thing or cannot start; test files, child output and its interleaving delivered in random pieces, with faults in starting children and in temporary storage; totals and exit status compared with a reference model of the documented format.",
        shrink_files: true,
        real: "cdx tooltest as built from /repo (parser, matcher, process start, output collection, cleanup, totals), the Rust standard library's process code, the real file system under a scratch directory",
        stub: "the commands under test (a scripted program that is run to completion when started), size, order and error of every read of their output and of every file operation",
    }]
}

#[derive(Clone, Debug)]
enum Entry {
    File(Vec<u8>),
    Dir,
}
#[derive(Clone, Debug)]
enum Exp {
    Exact(Vec<u8>),
    Spec(String),
}
#[derive(Clone, Debug)]
struct T {
    cmd: String,
    stdin: Vec<u8>,
    stdout: Exp,
    stderr: Exp,
    status: i64,
    infiles: Vec<(String, Vec<u8>)>,
    outfiles: Vec<(String, Exp)>,
}
fn name_ok(n: &str) -> bool {
    !n.is_empty() && n != "." && n != ".." && n.bytes().all(|b| b.is_ascii_alphanumeric() || b".-_~,+".contains(&b))
}
/// outer None: not judged; inner None: rejected
fn parse(text: &[u8]) -> Option<Option<T>> {
    let mut t = T { cmd: String::new(), stdin: vec![], stdout: Exp::Spec("empty".into()), stderr: Exp::Spec("empty".into()), status: 0, infiles: vec![], outfiles: vec![] };
    let lines: Vec<&[u8]> = text.split_inclusive(|b| *b == b'\n').collect();
    let mut i = 0;
    let body = |i: &mut usize| -> Option<Vec<u8>> {
        let mut v = Vec::new();
        while *i < lines.len() {
            let l = lines[*i];
            if l.starts_with(b"#") {
                if l.starts_with(b"#nonewline") {
                    v.pop();
                    *i += 1;
                }
                break;
            }
            v.extend_from_slice(l);
            *i += 1;
        }
        Some(v)
    };
    while i < lines.len() {
        let raw = lines[i];
        let l = std::str::from_utf8(raw.strip_suffix(b"\n").unwrap_or(raw)).ok()?.to_string();
        i += 1;
        if let Some(x) = l.strip_prefix("#command") {
            t.cmd = x.trim_start().to_string();
        } else if let Some(x) = l.strip_prefix("#stdout").or_else(|| l.strip_prefix("#stderr")) {
            let e = if x.is_empty() {
                let b = body(&mut i)?;
                if std::str::from_utf8(&b).is_err() {
                    return Some(None);
                }
                Exp::Exact(b)
            } else {
                Exp::Spec(x.trim_start().to_string())
            };
            if l.starts_with("#stdout") {
                t.stdout = e;
            } else {
                t.stderr = e;
            }
        } else if l == "#stdin" {
            t.stdin.extend(body(&mut i)?);
        } else if let Some(x) = l.strip_prefix("#status ") {
            match x.trim().parse() {
                Ok(n) => t.status = n,
                Err(_) if x.trim().is_empty() => return None,
                Err(_) => return Some(None),
            }
        } else if let Some(x) = l.strip_prefix("#infile ") {
            if !name_ok(x) {
                return None;
            }
            t.infiles.push((x.to_string(), body(&mut i)?));
        } else if let Some(x) = l.strip_prefix("#outfile ") {
            let (n, s) = x.split_once(' ').map_or((x, None), |(a, b)| (a, Some(b)));
            if !name_ok(n) {
                return None;
            }
            let e = match s {
                Some(s) => Exp::Spec(s.to_string()),
                None => {
                    let b = body(&mut i)?;
                    if std::str::from_utf8(&b).is_err() {
                        return Some(None);
                    }
                    Exp::Exact(b)
                }
            };
            t.outfiles.push((n.to_string(), e));
        } else if l.starts_with("# ") {
        } else if l.starts_with("#unknown") {
            return Some(None);
        } else {
            return None;
        }
    }
    Some(Some(t))
}
fn fits(e: &Exp, v: &[u8]) -> Option<bool> {
    match e {
        Exp::Exact(b) => Some(b == v),
        Exp::Spec(s) => {
            let (k, p) = s.split_once(',').unwrap_or((s, ""));
            if std::str::from_utf8(v).is_err() && k != "empty" {
                return None;
            }
            let p = p.as_bytes();
            if p.is_empty() != (k == "empty") {
                return None;
            }
            Some(match k {
                "empty" => v.is_empty(),
                "prefix" => v.starts_with(p),
                "suffix" => v.ends_with(p),
                "infix" => v.windows(p.len()).any(|w| w == p),
                "exact" => v == p,
                _ => return None,
            })
        }
    }
}
fn dec(s: &str) -> Option<Vec<u8>> {
    let mut v = Vec::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            v.extend_from_slice(c.to_string().as_bytes());
            continue;
        }
        match it.next()? {
            'n' => v.push(b'\n'),
            's' => v.push(b' '),
            't' => v.push(b'\t'),
            'c' => v.push(b':'),
            'b' => v.push(b'\\'),
            'x' => {
                let h: String = [it.next()?, it.next()?].iter().collect();
                v.push(u8::from_str_radix(&h, 16).ok()?);
            }
            _ => return None,
        }
    }
    Some(v)
}
fn enc(v: &[u8]) -> String {
    let mut s = String::new();
    for b in v {
        match b {
            b'\n' => s.push_str("\\n"),
            b' ' => s.push_str("\\s"),
            b'\t' => s.push_str("\\t"),
            b':' => s.push_str("\\c"),
            b'\\' => s.push_str("\\b"),
            x if x.is_ascii_graphic() => s.push(*x as char),
            x => s.push_str(&format!("\\x{x:02x}")),
        }
    }
    s
}
struct Ran {
    code: Option<i64>, // None: signal
    out: Vec<u8>,
    err: Vec<u8>,
    fs: BTreeMap<String, Entry>,
}
/// what the scripted command does; outer None: not judged, inner None: cannot start
fn stub(t: &T) -> Option<Option<Ran>> {
    let words: Vec<&str> = t.cmd.split(|c: char| c <= ' ').collect();
    match words[0] {
        "stub" => {}
        "missing" | "" | "noexec" => return Some(None),
        _ => return None,
    }
    let mut r = Ran { code: Some(0), out: vec![], err: vec![], fs: BTreeMap::new() };
    for (n, b) in &t.infiles {
        r.fs.insert(n.clone(), Entry::File(b.clone()));
    }
    r.fs.insert("stdin".into(), Entry::File(t.stdin.clone()));
    let mut rest = t.stdin.clone();
    for a in &words[1..] {
        if a.is_empty() {
            continue;
        }
        let v = &a[a.len().min(2)..];
        let path = |p: &str| -> Option<String> {
            let p = p.strip_prefix("$TMP/")?;
            (p != "stdin" && name_ok(p)).then(|| p.to_string())
        };
        let nested = |p: &str| p.strip_prefix("$TMP/").and_then(|p| p.split_once('/')).map(|x| x.0.to_string());
        match a.as_bytes()[0] {
            b'o' => r.out.extend(dec(v)?),
            b'e' => r.err.extend(dec(v)?),
            b'O' | b'E' => {
                let (n, s) = v.split_once(':')?;
                let s = dec(s)?;
                let n: usize = n.parse().ok()?;
                if n * s.len() > 300_000 {
                    return None;
                }
                let dst = if a.starts_with('O') { &mut r.out } else { &mut r.err };
                for _ in 0..n {
                    dst.extend_from_slice(&s);
                }
            }
            b'f' | b'a' | b'F' => {
                let (mut p, s) = v.rsplit_once(':')?;
                let mut s = dec(s)?;
                if a.starts_with('F') {
                    let (q, n) = p.rsplit_once(':')?;
                    let n: usize = n.parse().ok()?;
                    if n * s.len() > 300_000 {
                        return None;
                    }
                    p = q;
                    s = s.repeat(n);
                }
                if let Some(d) = nested(p) {
                    if !matches!(r.fs.get(&d), Some(Entry::Dir)) {
                        return None;
                    }
                    continue;
                }
                let p = path(p)?;
                match r.fs.get_mut(&p) {
                    Some(Entry::Dir) => return None,
                    Some(Entry::File(b)) if a.starts_with('a') => b.extend_from_slice(&s),
                    _ => {
                        r.fs.insert(p, Entry::File(s));
                    }
                }
            }
            b'd' => {
                if r.fs.insert(path(v)?, Entry::Dir).is_some() {
                    return None;
                }
            }
            b'r' => {
                let p = path(v)?;
                if t.infiles.iter().any(|f| f.0 == p) || !matches!(r.fs.remove(&p), Some(Entry::File(_))) {
                    return None;
                }
            }
            b'i' => {
                // the stream can be read once
                r.out.extend(std::mem::take(&mut rest));
            }
            b'c' => match r.fs.get(&path(v)?)? {
                Entry::File(b) => r.out.extend_from_slice(&b.clone()),
                Entry::Dir => return None,
            },
            b'x' => {
                r.code = Some(v.parse().ok()?);
                break;
            }
            b'k' => {
                r.code = None;
                break;
            }
            _ => return None,
        }
    }
    Some(Some(r))
}
/// None: not judged
fn verdict(text: &[u8]) -> Option<bool> {
    let Some(t) = parse(text)? else { return Some(false) };
    let Some(r) = stub(&t)? else { return Some(false) };
    let mut ok = r.code == Some(t.status) && fits(&t.stdout, &r.out)? && fits(&t.stderr, &r.err)?;
    let mut left: Vec<&String> = r.fs.keys().filter(|k| *k != "stdin").collect();
    for (k, (n, _)) in t.infiles.iter().enumerate() {
        left.retain(|x| *x != n);
        if t.infiles[..k].iter().any(|x| x.0 == *n) || n == "stdin" {
            return None;
        }
    }
    for (k, (n, e)) in t.outfiles.iter().enumerate() {
        if t.infiles.iter().any(|f| f.0 == *n) || t.outfiles[..k].iter().any(|f| f.0 == *n) || n == "stdin" {
            return None;
        }
        match r.fs.get(n) {
            Some(Entry::File(b)) => {
                if b.starts_with(b"\x1f") {
                    return None;
                }
                ok &= fits(e, b)?;
            }
            _ => ok = false,
        }
        left.retain(|x| *x != n);
    }
    Some(ok && left.is_empty())
}

fn text(r: &mut Rng) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..r.below(4) {
        let w = match r.below(12) {
            0 => String::new(),
            1 => "a b\tc".to_string(),
            2 => "x#y:z".to_string(),
            3 => "日本\\n".to_string(),
            _ => plain_word(r, 12, 6),
        };
        v.extend_from_slice(w.as_bytes());
        v.push(b'\n');
    }
    if !v.is_empty() && r.pct(15) {
        v.pop();
    }
    v
}
fn section(out: &mut Vec<u8>, tag: &str, v: &[u8]) {
    out.extend_from_slice(tag.as_bytes());
    out.push(b'\n');
    out.extend_from_slice(v);
    if v.last() != Some(&b'\n') && !v.is_empty() {
        out.extend_from_slice(b"\n#nonewline\n");
    }
}
fn mutate(r: &mut Rng, v: &mut Vec<u8>) {
    match r.below(8) {
        0 => v.extend_from_slice(b"extra\n"),
        6 => v.insert(v.len() - usize::from(v.last() == Some(&b'\n')), *r.pick(b" \t\r")),
        7 if v.len() > 1 => {
            // letter case, or two swapped bytes
            let k = r.below(v.len() - 1);
            if v[k].is_ascii_lowercase() && r.pct(50) {
                v[k] -= 32;
            } else if v[k].is_ascii() && v[k + 1].is_ascii() && v[k] != b'\n' && v[k + 1] != b'\n' {
                v.swap(k, k + 1);
            }
        }
        1 => v.insert(0, b'Q'),
        2 if !v.is_empty() => {
            v.pop();
        }
        3 if !v.is_empty() => {
            let k = r.below(v.len());
            if v[k] != b'\n' && v[k].is_ascii() {
                v[k] = b'Z';
            }
        }
        4 => v.clear(),
        _ => v.push(b'\n'),
    }
}
fn one_test(r: &mut Rng) -> Vec<u8> {
    let pool = ["out1", "out2", "out3", "in1", "in2", ".hidden", "out1.bak", "x~", "stdout", "tmp", "-", "out1.tmp", ".", "core", "z_z"];
    let names: [&str; 3] = if r.pct(25) { [".out1", "out2.txt", "Out-3~"] } else { ["out1", "out2", "out3"] };
    let mut cmd = match r.below(30) {
        0 => "missing",
        1 => "noexec",
        _ => "stub",
    }
    .to_string();
    let mut stdin = if r.pct(30) { text(r) } else { vec![] };
    if r.pct(3) {
        stdin = "line\n".repeat(r.range(2000, 9000)).into_bytes();
    }
    let mut infiles: Vec<(String, Vec<u8>)> = Vec::new();
    for n in ["in1", "in2"] {
        if r.pct(30) {
            infiles.push((n.into(), text(r)));
        }
    }
    let (mut out, mut err) = (Vec::new(), Vec::new());
    let mut outfiles: Vec<(String, Vec<u8>)> = Vec::new();
    for _ in 0..r.below(4) {
        match r.below(9) {
            0..=2 => {
                let t = text(r);
                cmd.push_str(&format!(" o:{}", enc(&t)));
                out.extend(t);
            }
            3 => {
                let t = text(r);
                cmd.push_str(&format!(" e:{}", enc(&t)));
                err.extend(t);
            }
            4 => {
                let n = if r.pct(20) { r.range(9000, 50_000) } else { r.range(100, 9000) };
                let o = r.pct(70);
                cmd.push_str(&format!(" {}:{n}:ab\\n", if o { "O" } else { "E" }));
                if o { &mut out } else { &mut err }.extend("ab\n".repeat(n).into_bytes());
            }
            5 => {
                if !cmd.ends_with(" i") && !cmd.contains(" i ") {
                    cmd.push_str(" i");
                    out.extend(stdin.clone());
                }
            }
            6 => {
                if let Some((n, b)) = infiles.first() {
                    cmd.push_str(&format!(" c:$TMP/{n}"));
                    out.extend(b.clone());
                }
            }
            _ => {
                let n = *r.pick(&names);
                if !outfiles.iter().any(|x| x.0 == n) {
                    if r.pct(12) {
                        let k = if r.pct(20) { r.range(9000, 50_000) } else { r.range(100, 9000) };
                        let t = format!("{}\n", plain_word(r, 4, 3)).into_bytes();
                        cmd.push_str(&format!(" F:$TMP/{n}:{k}:{}", enc(&t)));
                        outfiles.push((n.into(), t.repeat(k)));
                        continue;
                    }
                    let t = text(r);
                    cmd.push_str(&format!(" f:$TMP/{n}:{}", enc(&t)));
                    outfiles.push((n.into(), t));
                }
            }
        }
    }
    let mut status = 0;
    let mut spec = Vec::new();
    let mut bad_line = false;
    let wrong = if r.pct(55) { 0 } else { r.range(1, 15) };
    match wrong {
        1 => mutate(r, &mut out),
        2 => mutate(r, &mut err),
        3 => {
            status = *r.pick(&[1, 2, 255, 256, -1, 127, 128]);
            if r.pct(50) {
                cmd.push_str(&format!(" x:{}", r.pick(&[0, 1, 127, 128, 129, 254, 255])));
            }
        }
        4 => cmd.push_str(&format!(" x:{}", r.pick(&[1, 3, 101, 127, 128, 255]))),
        5 => cmd.push_str(&format!(" k:{}", r.pick(&[9, 15, 6, 11, 1]))),
        6 | 7 => {
            let n = *r.pick(&pool);
            if !outfiles.iter().any(|x| x.0 == n) {
                cmd.push_str(&format!(" f:$TMP/{n}:{}", enc(&text(r))));
            }
        }
        8 => {
            let n = *r.pick(&["dir", "out1", "in1"]);
            if !outfiles.iter().any(|x| x.0 == n) && !infiles.iter().any(|x| x.0 == n) {
                cmd.push_str(&format!(" d:$TMP/{n}"));
                if r.pct(50) {
                    cmd.push_str(&format!(" f:$TMP/{n}/deep:zz"));
                }
            }
        }
        9 | 10 => {
            // declared, never written
            let n = *r.pick(&names);
            if !outfiles.iter().any(|x| x.0 == n) {
                outfiles.push((n.into(), if r.pct(40) { vec![] } else { text(r) }));
                if r.pct(50) {
                    outfiles.reverse();
                }
            }
        }
        11 => {
            if let Some(x) = outfiles.last_mut() {
                mutate(r, &mut x.1);
            }
        }
        12 => bad_line = true,
        13 => {
            if r.pct(50) {
                return vec![];
            }
            cmd = String::new();
        }
        14 => {
            // the status that was asked for
            status = *r.pick(&[1, 7, 200]);
            cmd.push_str(&format!(" x:{status}"));
        }
        15 => cmd.push_str(" o:\\xff\\xfe"),
        _ => {
            if let Some((n, _)) = infiles.first() {
                if r.pct(30) {
                    cmd.push_str(&format!(" a:$TMP/{n}:more"));
                }
            } else if r.pct(20) {
                cmd.push_str(" f:$TMP/scratch:1 r:$TMP/scratch");
            }
        }
    }
    if r.pct(8) && !out.is_empty() {
        let t = String::from_utf8_lossy(&out).lines().next().unwrap_or("").to_string();
        if !t.is_empty() && t.is_ascii() && !t.contains([',', '\t', ' ']) {
            spec = format!("#stdout {},{t}\n", r.pick(&["prefix", "infix", "suffix", "exact"])).into_bytes();
        }
    }
    // put the sections together
    let mut secs: Vec<Vec<u8>> = vec![format!("#command {cmd}\n").into_bytes()];
    if !stdin.is_empty() {
        let mut v = Vec::new();
        section(&mut v, "#stdin", &stdin);
        secs.push(v);
    }
    if !spec.is_empty() {
        secs.push(spec);
    } else if !out.is_empty() || r.pct(20) {
        let mut v = Vec::new();
        section(&mut v, "#stdout", &out);
        secs.push(v);
    }
    if !err.is_empty() || r.pct(10) {
        let mut v = Vec::new();
        section(&mut v, "#stderr", &err);
        secs.push(v);
    }
    for (n, b) in &infiles {
        let mut v = Vec::new();
        section(&mut v, &format!("#infile {n}"), b);
        secs.push(v);
    }
    for (n, b) in &outfiles {
        let mut v = Vec::new();
        section(&mut v, &format!("#outfile {n}"), b);
        secs.push(v);
    }
    if status != 0 || r.pct(20) {
        secs.push(format!("#status {status}\n").into_bytes());
    }
    if bad_line {
        secs.push(if r.pct(50) { b"#unknown thing\n".to_vec() } else { b"#status abc\n".to_vec() });
    }
    if r.pct(20) {
        secs.push(b"# a comment\n".to_vec());
    }
    for i in (1..secs.len()).rev() {
        secs.swap(i, r.below(i + 1));
    }
    let mut v = secs.concat();
    if r.pct(10) && v.last() == Some(&b'\n') {
        v.pop();
    }
    v
}
fn p11_gen(r: &mut Rng, _i: u64) -> Case {
    let mut m = Cmd { name: "tooltest".into(), ..Cmd::default() };
    m.args.extend(["tooltest".into(), "-b".into(), "bin".into()]);
    if r.pct(15) {
        m.args.push("-v".into());
    }
    let n = match r.below(10) {
        0 => 1,
        1..=7 => r.range(2, 6),
        _ => r.range(6, 12),
    };
    for i in 0..n {
        let name = format!("t{i}.test");
        m.inputs.push(m.args.len());
        m.args.push(name.clone());
        if r.pct(98) {
            m.files.push((name, one_test(r)));
        }
    }
    let seed = r.next() >> 1;
    let mut c = m.case("", seed);
    frag_all(r, &mut c, 0, 30);
    let run = &mut c.runs[0];
    run.pollmode = r.below(2) as i32;
    for ch in [Ch::Pipe0, Ch::Pipe1] {
        if r.pct(60) {
            let f = frag(r, 25_000);
            run.frags.push((ch, f));
        }
    }
    if r.pct(25) {
        let f = frag(r, 25_000);
        run.frags.push((Ch::Tmp, f));
    }
    if r.pct(25) {
        let n = r.below(12) as i64;
        let e = *r.pick(&[libc::EIO, libc::ENOMEM, libc::EACCES]);
        run.faults.push(match r.below(10) {
            0 | 1 => Fault::err_nth(Ch::Other, OP_SPAWN, n % 6, *r.pick(&[libc::EAGAIN, libc::ENOMEM]), 1),
            2 => Fault::err_nth(Ch::Tmp, OP_OPENW, n, libc::ENOSPC, 1),
            3 => Fault::err_nth(Ch::Tmp, OP_WRITE, n, libc::ENOSPC, 1),
            4 => Fault::err_nth(Ch::Tmp, OP_UNLINK, n, libc::EIO, 1),
            5 => Fault::err_nth(Ch::Tmp, OP_OPEN, n, e, 1),
            6 => Fault::err_nth(Ch::Tmp, OP_READ, n, libc::EIO, 1),
            _ if r.pct(30) => Fault::err_nth(Ch::File(format!("t{}.test", n % 6)), OP_OPEN, 0, libc::EIO, 1),
            _ => {
                // anywhere in the test file
                let name = format!("t{}.test", r.below(6));
                let len = m.files.iter().find(|f| f.0 == name).map_or(0, |f| f.1.len());
                Fault::err_at(Ch::File(name), OP_READ, r.below(len + 1) as i64, libc::EIO, *r.pick(&[1, -1]))
            }
        });
    }
    c
}
fn p11_check(w: &mut World, c: &Case) -> Check {
    let r = &c.runs[0];
    let mut model = Vec::new();
    for a in r.args.iter().filter(|a| a.ends_with(".test")) {
        if !c.files.iter().any(|f| f.0 == *a) {
            model.push(false);
            continue;
        }
        match verdict(c.file(a)) {
            Some(v) => model.push(v),
            None => return Ok(false),
        }
    }
    let (o, got) = fresh(w, c, r);
    sane2(&o)?;
    let fault = o.any_fired();
    let last = String::from_utf8_lossy(&got.stdout).lines().last().unwrap_or("").to_string();
    let n: Vec<usize> = last.split(|x: char| !x.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
    if n.len() != 3 {
        // without its temporary directory it cannot start
        if fault && !got.status.ok() && o.spawned == 0 {
            return Ok(false);
        }
        return viol("no summary", format!("{:?} stdout {} stderr {}", got.status, show(&got.stdout), o.err_text()));
    }
    let tests: Vec<&String> = r.args.iter().filter(|a| a.ends_with(".test")).collect();
    let mut unread = false;
    for (f, n) in r.faults.iter().zip(o.fired.iter()) {
        if let (Ch::File(name), true) = (&f.ch, n.0 > 0) {
            // a test that cannot be read has not passed, and the others are not affected
            if let Some(i) = tests.iter().position(|t| *t == name) {
                model[i] = false;
                unread = true;
            }
        }
    }
    let want = model.iter().filter(|x| **x).count();
    let least = if fault && !unread { want.saturating_sub(1) } else { want };
    if n[0] != model.len() || n[1] + n[2] != n[0] {
        return viol("totals", format!("'{last}' for {} test cases", model.len()));
    }
    if n[1] > want || n[1] < least {
        return viol("verdicts", format!("'{last}' but {want} of {} should pass ({:?}); stderr {}", model.len(), model, o.err_text()));
    }
    // a test that could not be read, prepared, started or examined has not passed
    let harm = (0..r.faults.len()).any(|i| o.fired[i].0 > 0 && r.faults[i].op != OP_UNLINK);
    if harm && n[2] == 0 {
        return viol("verdicts", format!("'{last}' although an operation failed; stderr {}", o.err_text()));
    }
    if got.status.ok() != (n[2] == 0) {
        return viol("exit status", format!("{:?} with '{last}'", got.status));
    }
    Ok(o.spawned > 0)
}
