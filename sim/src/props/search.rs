//! Binary search of sorted files, and the verdicts of verify and sort --check.
use super::records::{cell, cols, has, inputs, m_match, opt, Input};
use super::sorts::{cmp_lines, cmp_val, opt_values, parse_key, Key};
use super::*;
use std::cmp::Ordering;

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "P19",
            gen: p19_gen,
            check: p19_check,
            quick: 80_000,
            thorough: 3_200_000,
            rule: "Sorted files of every size, empty, header-only, unterminated and with blank lines, searched for present and absent keys under every comparison method and context, with partial and interrupted output and failing open and map calls; compared with a linear search.",
            shrink_files: true,
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "P20",
            gen: p20_gen,
            check: p20_check,
            quick: 50_000,
            thorough: 2_000_000,
            rule: "Files that satisfy, or violate in one line, the conditions given to verify and sort --check, delivered in arbitrary pieces and with read failures; the verdict is compared with a reference evaluation of the conditions.",
            shrink_files: true,
            real: REAL,
            stub: STUB,
        },
    ]
}

fn keys_of(r: &Run, names: &[String], dflt: &str) -> Vec<Key> {
    let mut k: Vec<Key> = opt_values(&r.args, "-k").iter().map(|k| parse_key(k, names)).collect();
    if k.is_empty() {
        k.push(parse_key(dflt, names));
    }
    k
}
/// compare the values of a pattern with a line
fn cmp_pat(keys: &[Key], pat: &[&[u8]], l: &[u8]) -> Ordering {
    for (k, p) in keys.iter().zip(pat) {
        let v = k.col.map_or(l.strip_suffix(b"\n").unwrap_or(l), |n| cell(l, n));
        let mut c = cmp_val(&k.method, p, v);
        if k.rev {
            c = c.reverse();
        }
        if c != Ordering::Equal {
            return c;
        }
    }
    Ordering::Equal
}

// ------------------------------------------------------------------ P19
fn p19_gen(r: &mut Rng, _i: u64) -> Case {
    let mut m = Cmd { name: "binsearch".into(), ..Cmd::default() };
    let sh = Shape { cols: r.range(1, 4), header: r.pct(55), ragged: false, weird: r.pct(30) };
    m.args.push("binsearch".into());
    let mut nk = 0;
    let names: Vec<String> = COLS[..sh.cols].iter().map(|x| (*x).to_string()).collect();
    if r.pct(75) {
        for _ in 0..*r.pick(&[1usize, 1, 1, 2]) {
            let k = col(r, &sh);
            let t = *r.pick(&["", "", "", ",lower", ",float", ",numeric", ",length", ",plain"]);
            let t = match (t, r.pct(30)) {
                ("", true) => ",rev".to_string(),
                (t, true) => format!("{t}.rev"),
                (t, false) => t.to_string(),
            };
            m.args.extend(["-k".into(), format!("{k}{t}")]);
            nk += 1;
        }
    }
    let sub = if nk > 1 && r.pct(50) {
        let s = *r.pick(&[":", "/", "|"]);
        m.args.extend(["-s".into(), s.into()]);
        s
    } else {
        ","
    };
    if r.pct(45) {
        m.args.extend(["-C".into(), (*r.pick(&["1", "2", "1,0", "0,1", "3,2", "0.2", "2.0", "1.3,2.1", "0,100"])).into()]);
    }
    if r.pct(25) {
        m.args.extend(["-H".into(), (*r.pick(&["fn:1", "path:2", "fn:1"])).into()]);
    }
    let run = Run { args: m.args.clone(), ..Run::default() };
    let keys = keys_of(&run, if sh.header { &names } else { &[] }, "1");
    let vocab = *r.pick(&[1usize, 2, 3, 6]);
    let nf = *r.pick(&[1usize, 1, 1, 2, 3]);
    let mut pool: Vec<Vec<u8>> = Vec::new();
    for n in ["a.txt", "b.txt", "c.tsv"].iter().take(nf) {
        let target = match r.below(10) {
            0 => r.below(8),
            1..=4 => r.range(1, 120),
            5..=7 => r.range(100, 2500),
            8 => *r.pick(&[4096usize, 8192, 4096 * 3]) - if sh.header { 4 + names.iter().map(|x| x.len() + 1).sum::<usize>() + 1 } else { 0 },
            _ => r.range(2000, 15_000),
        };
        let mut t = table(r, &sh, target);
        for row in &mut t.rows {
            for v in row.iter_mut() {
                match r.below(10) {
                    0..=5 => *v = plain_word(r, vocab, 3),
                    6 => *v = r.below(12).to_string(),
                    7 => *v = (*r.pick(&["", "-2", "1.5", "A", "AB", "Ab", " CDX", " C", "~"])).to_string(),
                    _ => {}
                }
            }
        }
        let lb = |row: &Vec<String>| [row.join("\t").as_bytes(), b"\n"].concat();
        t.rows.sort_by(|a, b| cmp_lines(&keys, &lb(a), &lb(b)));
        for row in &t.rows {
            pool.push(lb(row));
        }
        let mut b = t.bytes();
        if !sh.header && b.starts_with(b" CDX") {
            b.clear(); // would be a header
        }
        if r.pct(3) {
            b.clear();
        }
        m.files.push(((*n).to_string(), b));
    }
    // the pattern: usually of an existing line
    let nk = nk.max(1);
    let pat: Vec<String> = if !pool.is_empty() && r.pct(75) {
        let l = r.pick(&pool).clone();
        keys.iter().map(|k| String::from_utf8_lossy(cell(&l, k.col.unwrap_or(0))).to_string()).collect()
    } else {
        (0..nk).map(|_| if r.pct(50) { plain_word(r, 3, 4) } else { (*r.pick(&["0", "zzz", "5", "-9", "A", "~~", "1.50"])).to_string() }).collect()
    };
    if pat.iter().any(|p| p.contains(sub) || p.starts_with('-')) && nk > 1 {
        m.args.push("x".to_string().repeat(1) + &sub.repeat(nk - 1));
    } else {
        let p = pat.join(sub);
        if p.starts_with('-') || p.is_empty() {
            m.args.push("k".into());
        } else {
            m.args.push(p);
        }
    }
    for i in 0..nf {
        m.inputs.push(m.args.len());
        m.args.push(m.files[i].0.clone());
    }
    let seed = r.next() >> 1;
    let mut c = m.case("", seed);
    match r.below(10) {
        0..=4 => {
            let f = frag(r, 2000);
            c.runs[0].frags.push((Ch::Stdout, f));
        }
        5 => {
            let v = Ch::File(m.files[r.below(nf)].0.clone());
            c.runs[0].faults.push(Fault::err_nth(v, OP_MMAP, 0, *r.pick(&[libc::ENOMEM, libc::ENODEV, libc::EACCES, libc::EAGAIN]), 1));
        }
        6 => {
            let v = Ch::File(m.files[r.below(nf)].0.clone());
            c.runs[0].faults.push(Fault::err_nth(v, OP_OPEN, 0, *r.pick(&[libc::ENOENT, libc::EACCES, libc::EMFILE]), 1));
        }
        _ => {}
    }
    c
}
fn context(spec: Option<&str>) -> [usize; 4] {
    let Some(s) = spec else { return [0; 4] };
    let one = |p: &str| -> (usize, usize) {
        let (a, b) = p.split_once('.').unwrap_or((p, p));
        (a.parse().unwrap(), b.parse().unwrap())
    };
    let (a, b) = s.split_once(',').unwrap_or((s, s));
    let (bm, bn) = one(a);
    let (am, an) = one(b);
    [bm, bn, am, an]
}
fn p19_check(w: &mut World, c: &Case) -> Check {
    let r = &c.runs[0];
    let ins = inputs(c, r);
    let ops = c.list("operands");
    let Some(at) = ops.first().and_then(|x| x.parse::<usize>().ok()) else { return Ok(false) };
    let patarg = r.args[at - 1].clone();
    let live: Vec<&Input> = ins.iter().filter(|f| !f.empty).collect();
    // preconditions, which shrinking may break
    if live.windows(2).any(|p| p[0].head != p[1].head) {
        return Ok(false);
    }
    if live.iter().any(|f| f.lines.iter().any(|l| cols(l).len() != f.names.len())) {
        return Ok(false);
    }
    let sub = opt(r, "-s").unwrap_or(",").as_bytes()[0];
    for f in &ins {
        let keys = keys_of(r, &f.names, "1");
        if f.lines.windows(2).any(|p| cmp_lines(&keys, &p[0], &p[1]) == Ordering::Greater) {
            return Ok(false);
        }
        let nk = keys.len();
        if nk > 1 && patarg.as_bytes().split(|b| *b == sub).count() != nk {
            return Ok(false);
        }
        // a named column cannot be found in an empty file
        if f.empty && opt_values(&r.args, "-k").iter().any(|k| !k.as_bytes()[0].is_ascii_digit()) {
            return Ok(false);
        }
    }
    let ctx = context(opt(r, "-C"));
    let fname = opt(r, "-H").map(|x| x.split(':').next().unwrap().to_string());
    let mut want = Vec::new();
    let mut first = true;
    for f in &ins {
        if first && !f.empty {
            if let Some(h) = &f.head {
                match &fname {
                    Some(n) => want.extend([b" CDX\t".as_slice(), n.as_bytes(), &h[4..]].concat()),
                    None => want.extend_from_slice(h),
                }
            }
            first = false;
        }
        let keys = keys_of(r, &f.names, "1");
        let pat: Vec<&[u8]> = if keys.len() > 1 { patarg.as_bytes().split(|b| *b == sub).collect() } else { vec![patarg.as_bytes()] };
        let lo = f.lines.iter().position(|l| cmp_pat(&keys, &pat, l) != Ordering::Greater).unwrap_or(f.lines.len());
        let hi = lo + f.lines[lo..].iter().take_while(|l| cmp_pat(&keys, &pat, l) == Ordering::Equal).count();
        let (b, a) = if lo == hi { (ctx[1], ctx[3]) } else { (ctx[0], ctx[2]) };
        for l in &f.lines[lo.saturating_sub(b)..(hi + a).min(f.lines.len())] {
            if fname.is_some() {
                want.extend_from_slice(f.name.as_bytes());
                want.push(b'\t');
            }
            want.extend_from_slice(l);
        }
    }
    let (o, got) = fresh(w, c, r);
    sane2(&o)?;
    if o.any_fired() {
        w.stats.probe("file could not be opened or mapped");
        if got.status.ok() {
            return viol("unreadable file ignored", format!("exit 0; {}", o.err_text()));
        }
        if !want.starts_with(&got.stdout) {
            return viol("output is not a prefix", differ(&want, &got.stdout));
        }
        return Ok(true);
    }
    if !got.status.ok() {
        return viol("search fails", format!("{:?}; {}", got.status, o.err_text()));
    }
    if want != got.stdout {
        return viol("wrong lines", differ(&want, &got.stdout));
    }
    Ok(want.len() > live.first().and_then(|f| f.head.as_ref()).map_or(0, Vec::len))
}

// ------------------------------------------------------------------ P20
fn p20_gen(r: &mut Rng, _i: u64) -> Case {
    let check = r.pct(35);
    let mut m = Cmd { name: if check { "sortcheck" } else { "verify" }.into(), early: true, ..Cmd::default() };
    let sh = Shape { cols: r.range(1, 4), header: r.pct(55), ragged: false, weird: r.pct(30) };
    m.args.push(if check { "sort" } else { "verify" }.into());
    let names: Vec<String> = COLS[..sh.cols].iter().map(|x| (*x).to_string()).collect();
    let mut uniq = false;
    let mut sorted = check;
    let mut keyed = 0;
    if r.pct(60) {
        for _ in 0..*r.pick(&[1usize, 1, 2]) {
            let k = if r.pct(15) { String::new() } else { col(r, &sh) };
            let t = *r.pick(&["", "", "", ",lower", ",float", ",numeric", ",length", ",plain"]);
            let t = match (t, r.pct(25)) {
                ("", true) => ",rev".to_string(),
                (t, true) => format!("{t}.rev"),
                (t, false) => t.to_string(),
            };
            m.args.extend(["-k".into(), format!("{k}{t}")]);
            keyed += 1;
        }
    }
    if check {
        if r.pct(50) {
            m.args.push("-c".into());
        } else {
            m.args.extend(["-C".into(), r.below(7).to_string()]);
        }
        if r.pct(35) {
            m.args.push("-u".into());
            uniq = true;
        }
    } else {
        match r.below(4) {
            0 => {
                m.args.push("-s".into());
                sorted = true;
            }
            1 => {
                m.args.push("-u".into());
                sorted = true;
                uniq = true;
            }
            _ => {}
        }
        for _ in 0..*r.pick(&[0usize, 0, 1, 1, 2]) {
            let k = *r.pick(&["prefix", "not.prefix", "not.infix", "infix", "not.suffix", "not.empty", "not.exact"]);
            let p = *r.pick(&["z", "a", "b", "zz", "q"]);
            m.args.extend(["-p".into(), if k == "not.empty" { format!("{},{k}", col(r, &sh)) } else { format!("{},{k},{p}", col(r, &sh)) }]);
        }
        if keyed < 2 {
            for f in ["-f", "-l"] {
                if r.pct(30) {
                    let v = *r.pick(&["a", "b", "ab", "c", "zz", "1", "m"]);
                    let v2 = *r.pick(&["c", "zzz", "a", "9"]);
                    let (o, s) = if r.pct(50) {
                        (["LT", "GT", "LE", "GE", "EQ", "NE"], ",")
                    } else {
                        (["<", ">", "<=", ">=", "==", "!="], "")
                    };
                    let mut x = format!("{}{s}{v}", r.pick(&o));
                    if r.pct(30) {
                        x.push_str(&format!("{s}{}{s}{v2}", r.pick(&o)));
                    }
                    m.args.extend([f.into(), x]);
                }
            }
        }
        if r.pct(25) {
            m.args.extend(["-r".into(), r.pick(&[0usize, 1, 1, 2, 3, 5, 8, 100]).to_string()]);
        }
    }
    let run = Run { args: m.args.clone(), ..Run::default() };
    let keys = keys_of(&run, if sh.header { &names } else { &[] }, "");
    let nf = *r.pick(&[1usize, 1, 1, 2, 3]);
    let vocab = *r.pick(&[1usize, 2, 4]);
    for n in ["a.txt", "b.txt", "c.tsv"].iter().take(nf) {
        let target = size(r).min(30_000);
        let mut t = table(r, &sh, target);
        for row in &mut t.rows {
            for v in row.iter_mut() {
                if r.pct(50) {
                    *v = plain_word(r, vocab, 3);
                }
            }
        }
        if r.pct(40) {
            // short files: the first and the last line are not far from each other
            t.rows.truncate(r.below(6));
        }
        let lb = |row: &Vec<String>| [row.join("\t").as_bytes(), b"\n"].concat();
        if sorted && r.pct(90) {
            t.rows.sort_by(|a, b| cmp_lines(&keys, &lb(a), &lb(b)));
            if uniq && r.pct(85) {
                t.rows.dedup_by(|a, b| cmp_lines(&keys, &lb(a), &lb(b)) == Ordering::Equal);
            }
        }
        // satisfy the matchers by leaving out the lines which do not, usually
        if r.pct(85) {
            let pats = opt_values(&run.args, "-p");
            let nm: Vec<String> = if sh.header { names.clone() } else { (1..=sh.cols).map(|k| format!("c{k}")).collect() };
            t.rows.retain(|row| pats.iter().all(|p| m_match(p, &nm, &lb(row))));
        }
        // then break one line: the last one, the first one, or any other
        if r.pct(35) && !t.rows.is_empty() {
            let n = t.rows.len();
            let at = match r.below(5) {
                0 | 1 => n - 1,
                2 => 0,
                _ => r.below(n),
            };
            match r.below(4) {
                0 => t.rows[at].push("extra".into()),
                1 if t.rows[at].len() > 1 => {
                    t.rows[at].pop();
                }
                2 => {
                    let to = r.below(n);
                    t.rows.swap(at, to);
                }
                _ => {
                    let k = r.below(t.rows[at].len());
                    t.rows[at][k] = (*r.pick(&["z", "a", "zz", "", "0"])).to_string();
                }
            }
        }
        let mut b = t.bytes();
        if r.pct(3) {
            b.clear();
        }
        m.files.push(((*n).to_string(), b));
    }
    let at = if r.pct(30) { Some(r.below(nf)) } else { None };
    for i in 0..nf {
        m.inputs.push(m.args.len());
        let n = m.files[i].0.clone();
        if at == Some(i) {
            m.args.push("-".into());
            m.stdin = Some(n);
        } else {
            m.args.push(n);
        }
    }
    let seed = r.next() >> 1;
    let mut c = m.case("", seed);
    if r.pct(70) {
        frag_all(r, &mut c, 0, 80);
    }
    if r.pct(15) {
        let v = m.files[r.below(nf)].clone();
        let at = r.below(v.1.len() + 1) as i64;
        let ch = chan_of(&c.runs[0], &v.0);
        c.runs[0].faults.push(Fault::err_at(ch, OP_READ, at, *r.pick(&[libc::EIO, libc::ESTALE, libc::EISDIR]), -1));
    }
    c
}
fn two_sided(spec: &str) -> Vec<(String, String)> {
    let words = ["LT", "GT", "LE", "GE", "EQ", "NE"];
    if words.contains(&spec.split(',').next().unwrap()) {
        return spec.split(',').collect::<Vec<_>>().chunks(2).map(|p| (p[0].to_string(), p[1].to_string())).collect();
    }
    let mut v: Vec<(String, String)> = Vec::new();
    for ch in spec.chars() {
        if "<>=!".contains(ch) {
            if v.last().is_none_or(|x| !x.1.is_empty()) {
                v.push((String::new(), String::new()));
            }
            v.last_mut().unwrap().0.push(ch);
        } else {
            v.last_mut().unwrap().1.push(ch);
        }
    }
    v
}
fn op_ok(op: &str, o: Ordering) -> bool {
    match op {
        "LT" | "<" => o == Ordering::Less,
        "GT" | ">" => o == Ordering::Greater,
        "LE" | "<=" => o != Ordering::Greater,
        "GE" | ">=" => o != Ordering::Less,
        "EQ" | "==" => o == Ordering::Equal,
        _ => o != Ordering::Equal,
    }
}
fn file_ok(r: &Run, f: &Input) -> Option<String> {
    let keys = keys_of(r, &f.names, "");
    let check = r.args[0] == "sort";
    let uniq = has(r, "-u");
    if check || has(r, "-s") || uniq {
        for p in f.lines.windows(2) {
            match cmp_lines(&keys, &p[0], &p[1]) {
                Ordering::Greater => return Some(format!("out of order: {} {}", show(&p[0]), show(&p[1]))),
                Ordering::Equal if uniq => return Some(format!("not unique: {}", show(&p[1]))),
                _ => {}
            }
        }
    }
    if check {
        return None;
    }
    for (k, l) in f.lines.iter().enumerate() {
        if cols(l).len() != f.names.len() {
            return Some(format!("line {} has {} columns", k + 1, cols(l).len()));
        }
        for p in opt_values(&r.args, "-p") {
            if !m_match(p, &f.names, l) {
                return Some(format!("line {} does not match {p}", k + 1));
            }
        }
    }
    for (flag, l) in [("-f", f.lines.first()), ("-l", f.lines.last())] {
        if let (Some(s), Some(l)) = (opt(r, flag), l) {
            for (op, v) in two_sided(s) {
                if !op_ok(&op, cmp_pat(&keys, &[v.as_bytes()], l).reverse()) {
                    return Some(format!("{flag} {s}: {}", show(l)));
                }
            }
        }
    }
    None
}
fn p20_check(w: &mut World, c: &Case) -> Check {
    let r = &c.runs[0];
    let ins = inputs(c, r);
    for f in &ins {
        if f.lines.iter().any(|l| l.starts_with(b" CDX")) || (f.head.is_none() && ins.iter().any(|g| g.head.is_some()) && !f.empty) {
            return Ok(false);
        }
        // every column spoken of must exist
        let n = f.names.len();
        let far = |s: &str| s.split(',').next().unwrap().parse::<usize>().is_ok_and(|k| k > n);
        if !f.empty && (opt_values(&r.args, "-k").iter().any(|k| far(k)) || opt_values(&r.args, "-p").iter().any(|k| far(k))) {
            return Ok(false);
        }
        if f.head.is_some() && n == 0 {
            return Ok(false);
        }
    }
    let (o, got) = fresh(w, c, r);
    sane2(&o)?;
    let bad = ins.iter().find_map(|f| file_ok(r, f));
    let what = if c.get("cmd") == "verify" { "verify" } else { "sort --check" };
    if !got.stdout.is_empty() {
        return viol(&format!("{what} writes data"), show(&got.stdout));
    }
    let failed = o.any_fired();
    if failed {
        w.stats.probe("read failed");
    }
    match (got.status, &bad, failed) {
        (Status::Exit(0), Some(b), _) => viol(&format!("{what} accepts a file that breaks a condition"), b.clone()),
        (Status::Exit(0), None, true) => viol(&format!("{what} accepts a file it could not read"), "exit 0".into()),
        (Status::Exit(_), None, false) if !got.status.ok() => viol(&format!("{what} rejects a file that satisfies every condition"), o.err_text()),
        (Status::Exit(0), None, false) => Ok(ins.iter().any(|f| f.lines.len() > 1)),
        (Status::Exit(1), _, _) if o.stderr.is_empty() => viol("no diagnostic", "failure without a message".into()),
        (Status::Exit(1), _, _) => Ok(true),
        (s, _, _) => viol("died", format!("{s:?}; {}", o.err_text())),
    }
}
