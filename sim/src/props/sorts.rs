//! Sorting, merging, temporary storage, histories of runs, concurrent runs.
use super::io::any_fault;
use super::*;
use std::cmp::Ordering;

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "P06",
            gen: p06_gen,
            check: p06_check,
            quick: 16_000,
            thorough: 640_000,
            rule: "Random files (headers, ties, long lines, empty and unterminated files, lines that look like headers or gzip) and key lists; the sort is run with random memory budgets and read fragmentation and compared with a reference stable sort.",
            shrink_files: true,
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "P07",
            gen: p07_gen,
            check: p07_check,
            quick: 24_000,
            thorough: 960_000,
            rule: "One to twelve sorted files (with ties, empty, header-only and unterminated ones) are merged with both algorithms under fragmented reads and compared with a reference stable merge.",
            shrink_files: true,
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "P08",
            gen: p08_gen,
            check: p08_check,
            quick: 40_000,
            thorough: 1_600_000,
            rule: "A spilling sort or merge with faults on the n-th or at a byte of its temporary-storage operations, on its inputs and on its outputs; the temporary directory is examined afterwards and a successful result compared with the reference.",
            shrink_files: true,
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "P10",
            gen: p10_gen,
            check: p10_check,
            quick: 22_000,
            thorough: 880_000,
            rule: "A history of one to four runs over the same output files and temporary directory, most of them failing by an injected fault or killed at a random step in the middle of a write; the last run is undisturbed and compared with the same run on a clean directory.",
            shrink_files: true,
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "P18",
            gen: p18_gen,
            check: p18_check,
            quick: 14_000,
            thorough: 600_000,
            rule: "Two or three commands run at the same time with the same random stream and temporary directory; a seeded scheduler decides after which operation each one is suspended and resumed, one of them may be killed; every result is compared with the command run alone.",
            shrink_files: true,
            real: REAL,
            stub: STUB,
        },
    ]
}

// ------------------------------------------------------------------ reference model
#[derive(Clone, Debug)]
pub struct Key {
    pub col: Option<usize>,
    pub method: String,
    pub rev: bool,
}
/// parse a key specification; `names` are the column names of the header
pub fn parse_key(spec: &str, names: &[String]) -> Key {
    let mut it = spec.splitn(3, ',');
    let col = it.next().unwrap_or("");
    let meth = it.next().unwrap_or("");
    let pat = it.next().unwrap_or("");
    let mut k = Key { col: None, method: "plain".into(), rev: false };
    for m in meth.split('.') {
        match m {
            "rev" => k.rev = true,
            "" => {}
            x => k.method = x.to_string(),
        }
    }
    let col = if k.method == "expr" { pat } else { col };
    if k.method == "expr" {
        k.method = "float".into();
    }
    if !col.is_empty() {
        k.col = Some(match col.parse::<usize>() {
            Ok(n) => n - 1,
            Err(_) => names.iter().position(|x| x == col).unwrap_or_else(|| col[1..].parse::<usize>().map_or(0, |n| n - 1)),
        });
    }
    k
}
fn nth_col(line: &[u8], n: usize) -> &[u8] {
    let l = line.strip_suffix(b"\n").unwrap_or(line);
    l.split(|b| *b == b'\t').nth(n).unwrap_or(&[])
}
fn num_parts(v: &[u8]) -> (bool, Vec<u8>, Vec<u8>) {
    let start = v.iter().position(|b| *b > b' ').unwrap_or(v.len());
    let mut v = &v[start..];
    let neg = v.first() == Some(&b'-');
    if neg {
        v = &v[1..];
    }
    let end = v.iter().position(|b| !b.is_ascii_digit() && *b != b',').unwrap_or(v.len());
    let int: Vec<u8> = v[..end].iter().copied().filter(|b| *b != b',').collect();
    let lead = int.iter().take_while(|b| **b == b'0').count();
    let mut frac = Vec::new();
    if v.get(end) == Some(&b'.') {
        frac = v[end + 1..].iter().copied().take_while(|b| b.is_ascii_digit()).collect();
        while frac.last() == Some(&b'0') {
            frac.pop();
        }
    }
    (neg, int[lead..].to_vec(), frac)
}
fn float_of(v: &[u8]) -> f64 {
    let s: String = v.iter().map(|b| *b as char).collect();
    let b = s.as_bytes();
    let mut i = 0;
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
        i += 1;
    }
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    if i < b.len() && b[i] == b'.' {
        i += 1;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
    }
    s[..i].parse().unwrap_or(0.0)
}
fn ip_parts(v: &[u8]) -> Vec<Vec<u8>> {
    let start = v.iter().position(|b| *b > b' ').unwrap_or(v.len());
    let mut v = &v[start..];
    let mut out = Vec::new();
    loop {
        let n = v.iter().take_while(|b| b.is_ascii_digit()).count();
        out.push(v[..n].to_vec());
        if v.get(n) == Some(&b'.') {
            v = &v[n + 1..];
        } else {
            return out;
        }
    }
}
pub fn cmp_val(method: &str, a: &[u8], b: &[u8]) -> Ordering {
    match method {
        "plain" => a.cmp(b),
        "lower" => a.to_ascii_lowercase().cmp(&b.to_ascii_lowercase()),
        "length" | "len" => a.len().cmp(&b.len()),
        "equal" => Ordering::Equal,
        "float" => float_of(a).partial_cmp(&float_of(b)).unwrap(),
        "numeric" | "num" => {
            let (x, y) = (num_parts(a), num_parts(b));
            let mag = |p: &(bool, Vec<u8>, Vec<u8>), q: &(bool, Vec<u8>, Vec<u8>)| (p.1.len(), &p.1, &p.2).cmp(&(q.1.len(), &q.1, &q.2));
            match (x.0, y.0) {
                (false, false) => mag(&x, &y),
                (true, true) => mag(&y, &x),
                (true, false) => Ordering::Less,
                (false, true) => Ordering::Greater,
            }
        }
        "ip" => {
            let (x, y) = (ip_parts(a), ip_parts(b));
            for (p, q) in x.iter().zip(y.iter()) {
                let c = (p.len(), p).cmp(&(q.len(), q));
                if c != Ordering::Equal {
                    return c;
                }
            }
            x.len().cmp(&y.len())
        }
        x => panic!("no model for {x}"),
    }
}
pub fn cmp_lines(keys: &[Key], a: &[u8], b: &[u8]) -> Ordering {
    for k in keys {
        let mut c = match k.col {
            Some(n) => cmp_val(&k.method, nth_col(a, n), nth_col(b, n)),
            None => cmp_val(&k.method, a, b),
        };
        if k.rev {
            c = c.reverse();
        }
        if c != Ordering::Equal {
            return c;
        }
    }
    Ordering::Equal
}
/// header line and data lines (all newline terminated) of one file
pub fn split_file(data: &[u8]) -> (Option<Vec<u8>>, Vec<Vec<u8>>) {
    let mut lines: Vec<Vec<u8>> = data.split_inclusive(|b| *b == b'\n').map(<[u8]>::to_vec).collect();
    if let Some(l) = lines.last_mut() {
        if l.last() != Some(&b'\n') {
            l.push(b'\n');
        }
    }
    if lines.first().is_some_and(|l| l.starts_with(b" CDX")) {
        let h = lines.remove(0);
        return (Some(h), lines);
    }
    (None, lines)
}
pub fn head_names(h: &[u8]) -> Vec<String> {
    String::from_utf8_lossy(h).trim_end_matches('\n').split('\t').skip(1).map(|x| x.to_string()).collect()
}
pub fn opt_values<'a>(args: &'a [String], flag: &str) -> Vec<&'a str> {
    args.windows(2).filter(|w| w[0] == flag).map(|w| w[1].as_str()).collect()
}
/// input files in the order in which a run consumes them
pub fn operands(c: &Case, r: &Run) -> Vec<String> {
    let ops: Vec<String> = c.list("operands").iter().filter_map(|i| i.parse::<usize>().ok()).map(|i| r.args[i].clone()).collect();
    if ops.is_empty() {
        return r.stdin.iter().cloned().collect();
    }
    ops.into_iter().map(|x| if x == "-" { r.stdin.clone().unwrap_or_default() } else { x }).collect()
}
/// what `sort` and `sort -m` must print; the bool tells if every input was already sorted
pub fn sort_model(c: &Case, r: &Run) -> (Vec<u8>, bool) {
    let mut head: Option<Vec<u8>> = None;
    let mut parts = Vec::new();
    for n in operands(c, r) {
        let (h, l) = split_file(c.file(&n));
        if head.is_none() {
            head = h;
        }
        parts.push(l);
    }
    let names = head.as_ref().map_or(vec![], |h| head_names(h));
    let mut keys: Vec<Key> = opt_values(&r.args, "-k").iter().map(|k| parse_key(k, &names)).collect();
    if keys.is_empty() {
        keys.push(parse_key("", &names));
    }
    let sorted = parts.iter().all(|l| l.windows(2).all(|w| cmp_lines(&keys, &w[0], &w[1]) != Ordering::Greater));
    let mut all: Vec<Vec<u8>> = parts.concat();
    all.sort_by(|a, b| cmp_lines(&keys, a, b));
    if r.args.iter().any(|a| a == "-u") {
        all.dedup_by(|a, b| cmp_lines(&keys, a, b) == Ordering::Equal);
    }
    let mut out = head.unwrap_or_default();
    for l in all {
        out.extend_from_slice(&l);
    }
    (out, sorted)
}

// ------------------------------------------------------------------ workloads
fn num_cell(r: &mut Rng) -> String {
    match r.below(9) {
        0 => format!("-{}", r.range(1, 30)),
        1 => format!("{},{:03}", r.range(1, 9), r.below(1000)),
        2 => format!("{}.{}", r.below(12), r.below(100)),
        3 => format!("{}.{}0", r.below(12), r.below(10)),
        4 => format!("00{}", r.below(30)),
        5 => format!("{}{:016}", r.below(40), r.below(5)),
        6 => format!("{}.0.{}.{}", r.below(12), r.below(300), r.below(3)),
        7 => format!("  {}", r.below(30)),
        _ => r.below(200).to_string(),
    }
}
/// one table as bytes: the rows and, sometimes, lines that are hostile to format detection
fn sort_file(r: &mut Rng, sh: &Shape, target: usize) -> Vec<u8> {
    let mut t = table(r, sh, target);
    let nums = r.pct(50);
    for row in &mut t.rows {
        if row.len() > 1 && nums && r.pct(70) {
            row[1] = num_cell(r);
        }
        if sh.weird && r.pct(3) {
            // long common prefixes decide only after the cached part
            row[0] = format!("prefix-prefix{}", r.below(30));
        }
    }
    let mut b = t.bytes();
    if sh.weird && r.pct(40) {
        let mut lines: Vec<Vec<u8>> = b.split_inclusive(|x| *x == b'\n').map(<[u8]>::to_vec).collect();
        for _ in 0..r.range(1, 4) {
            let odd: &[u8] = r.pick(&[
                b" CDX\tone\ttwo\n".as_slice(),
                b" CDX\n",
                b"\x1f\x8b\x08\x00\x01\n",
                b"a\x00\n",
                b"a\x00\x00\t7\n",
                b"\n",
                b"\xff\xfe\n",
                b"a\r\n",
                b" \n",
                b"\"quoted\ttext\n",
            ]);
            let at = r.range(1, lines.len().max(1)).min(lines.len());
            if at == 0 || lines[at - 1].last() != Some(&b'\n') {
                continue;
            }
            lines.insert(at, odd.to_vec());
        }
        b = lines.concat();
    }
    b
}
fn sort_key(r: &mut Rng, sh: &Shape) -> String {
    if r.pct(15) {
        return (*r.pick(&["", ",lower", ",length", ",float", ",numeric", ",rev", ",length.rev", ",lower.rev", ",equal"])).to_string();
    }
    if r.pct(6) {
        let i = r.below(sh.cols);
        return format!(",expr,{}", if sh.header { COLS[i].to_string() } else { format!("c{}", i + 1) });
    }
    let c = col(r, sh);
    let m = *r.pick(&["", "", "", "plain", "lower", "length", "float", "numeric", "numeric", "ip", "equal"]);
    match (m, r.pct(25)) {
        ("", false) => c,
        ("", true) => format!("{c},rev"),
        (m, false) => format!("{c},{m}"),
        (m, true) => format!("{c},{m}.rev"),
    }
}
fn budget_for(r: &mut Rng, c: &Case) -> usize {
    let total: usize = c.files.iter().map(|f| f.1.len()).sum();
    let least = total / if r.pct(4) { 280 } else { 60 }; // about as many runs at most
    let half = match r.below(10) {
        0 => total + r.below(3),
        1 => total.saturating_sub(r.below(3)),
        2 => {
            // exactly a line boundary of the first file
            let f = &c.files[0].1;
            let ends: Vec<usize> = f.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0 + 1).collect();
            if ends.is_empty() {
                1
            } else {
                *r.pick(&ends)
            }
        }
        3 => r.below(4),
        4 => c.files[0].1.len(),
        5 if least < total / 60 => least,
        _ => total / r.range(2, 30).max(1) + r.below(5),
    };
    let half = half.max(least);
    half * 2 + r.below(2)
}
fn sort_case(r: &mut Rng, merge: bool, cap: usize) -> Case {
    let mut sh = shape(r);
    sh.ragged = r.pct(10);
    let nf = if r.pct(2) { r.range(12, 70) } else if merge { *r.pick(&[1usize, 2, 2, 3, 4, 5, 8, 12]) } else { *r.pick(&[1usize, 1, 1, 2, 2, 3, 5]) };
    let mut m = Cmd { name: if merge { "merge".into() } else { "sort".into() }, ..Cmd::default() };
    m.args.push("sort".into());
    if merge {
        m.args.push("-m".into());
        if r.pct(50) {
            m.args.push("-A".into());
        }
    } else {
        if r.pct(15) {
            m.args.push("-a".into());
        }
        if r.pct(15) {
            m.args.push("-A".into());
        }
    }
    let mut specs = Vec::new();
    for _ in 0..*r.pick(&[0usize, 1, 1, 1, 2, 3]) {
        let k = sort_key(r, &sh);
        m.args.push("-k".into());
        m.args.push(k.clone());
        specs.push(k);
    }
    if r.pct(35) {
        m.args.push("-u".into());
    }
    let names: Vec<String> = if sh.header { COLS[..sh.cols].iter().map(|x| (*x).to_string()).collect() } else { vec![] };
    let mut keys: Vec<Key> = specs.iter().map(|k| parse_key(k, &names)).collect();
    if keys.is_empty() {
        keys.push(parse_key("", &names));
    }
    for i in 0..nf {
        let mut target = size(r).min(cap);
        if merge && nf > 3 {
            target = target.min(6000);
        }
        if nf > 12 {
            target = target.min(600);
        }
        let mut b = sort_file(r, &sh, target);
        match r.below(25) {
            0 => b.clear(),
            1 => {
                // header only
                if sh.header {
                    let p = b.iter().position(|x| *x == b'\n').map_or(0, |p| p + 1);
                    b.truncate(p);
                } else {
                    b.clear();
                }
            }
            _ => {}
        }
        if merge {
            let cut = b.last().is_some_and(|x| *x != b'\n');
            let (h, mut l) = split_file(&b);
            l.sort_by(|x, y| cmp_lines(&keys, x, y));
            if h.is_none() && l.first().is_some_and(|x| x.starts_with(b" CDX") || x.starts_with(&[0x1f, 0x8b])) {
                l.retain(|x| !x.starts_with(b" CDX") && !x.starts_with(&[0x1f, 0x8b]));
            }
            b = h.unwrap_or_default();
            b.extend_from_slice(&l.concat());
            if cut && !l.is_empty() {
                b.pop();
            }
        }
        m.files.push((format!("f{i}.txt"), b));
    }
    let stdin_at = if r.pct(20) { Some(r.below(nf)) } else { None };
    if nf == 1 && stdin_at.is_some() {
        m.stdin = Some("f0.txt".into());
    } else {
        for i in 0..nf {
            m.inputs.push(m.args.len());
            if stdin_at == Some(i) {
                m.args.push("-".into());
                m.stdin = Some(format!("f{i}.txt"));
            } else {
                m.args.push(format!("f{i}.txt"));
            }
        }
    }
    let seed = r.next() >> 1;
    m.case("", seed)
}
fn set_budget(run: &mut Run, b: usize) {
    run.env.retain(|e| !e.starts_with("CDX_SIM_SORT_BUDGET"));
    run.env.push(format!("CDX_SIM_SORT_BUDGET={b}"));
}
/// number of spilled runs
fn spills(o: &Out) -> i32 {
    o.chan(&Ch::Tmp).nops[OP_OPENW as usize]
}
/// files whose first line the program must not interpret are excluded by construction; after
/// shrinking this has to be checked again
fn valid_inputs(c: &Case, r: &Run) -> bool {
    let parts: Vec<(Option<Vec<u8>>, Vec<Vec<u8>>)> = operands(c, r).iter().map(|n| split_file(c.file(n))).collect();
    let mut head: Option<Option<&Vec<u8>>> = None;
    for (h, l) in &parts {
        if h.is_none() && l.is_empty() {
            continue;
        }
        if h.is_none() && l[0].starts_with(&[0x1f, 0x8b]) {
            return false;
        }
        match head {
            None => head = Some(h.as_ref()),
            Some(x) => {
                if x != h.as_ref() {
                    return false;
                }
            }
        }
        if let Some(h) = h {
            if head_names(h).iter().any(|x| x.is_empty()) || h.len() < 7 {
                return false;
            }
        }
    }
    true
}

// ------------------------------------------------------------------ P06
fn p06_gen(r: &mut Rng, _i: u64) -> Case {
    let mut c = sort_case(r, false, 60_000);
    for k in 1..3 {
        let mut run = c.runs[0].clone();
        let b = budget_for(r, &c);
        set_budget(&mut run, b);
        c.runs.push(run);
        if r.pct(50) {
            frag_all(r, &mut c, k, 80);
        }
        if r.pct(25) {
            let f = frag(r, 20_000);
            c.runs[k].frags.push((Ch::Tmp, f));
        }
    }
    c
}
fn p06_check(w: &mut World, c: &Case) -> Check {
    if !valid_inputs(c, &c.runs[0]) {
        return Ok(false);
    }
    let (want, _) = sort_model(c, &c.runs[0]);
    let mut worth = false;
    for (i, r) in c.runs.iter().enumerate() {
        let (o, got) = fresh(w, c, r);
        sane(&o)?;
        let n = spills(&o);
        if n > 1 {
            w.stats.probe(if n > 10 { "more than ten runs spilled" } else { "two to ten runs spilled" });
            worth = true;
        }
        let what = if n > 1 { "spilled sort" } else { "sort in memory" };
        if !got.status.ok() {
            return viol(&format!("{what} fails"), format!("run {i}: {:?} with {n} runs; stderr {}", got.status, o.err_text()));
        }
        if got.stdout != want {
            return viol(&format!("{what} differs from the reference"), format!("run {i}, {n} runs: {}", differ(&want, &got.stdout)));
        }
    }
    Ok(worth)
}

// ------------------------------------------------------------------ P07
fn p07_gen(r: &mut Rng, _i: u64) -> Case {
    let mut c = sort_case(r, true, 40_000);
    // the other algorithm on the same data
    let run = c.runs[0].clone();
    c.runs.push(run);
    if c.runs[1].args.iter().any(|a| a == "-A") {
        let k = c.runs[1].args.iter().position(|a| a == "-A").unwrap();
        c.runs[1].args[k] = "--merge".into();
    } else {
        c.runs[1].args[1] = "-mA".into();
    }
    for k in 0..2 {
        if r.pct(70) {
            frag_all(r, &mut c, k, 80);
        }
    }
    c
}
fn p07_check(w: &mut World, c: &Case) -> Check {
    if !valid_inputs(c, &c.runs[0]) {
        return Ok(false);
    }
    let (want, sorted) = sort_model(c, &c.runs[0]);
    if !sorted {
        return Ok(false);
    }
    for (i, r) in c.runs.iter().enumerate() {
        let (o, got) = fresh(w, c, r);
        sane(&o)?;
        let alg = if r.args.iter().any(|a| a == "-A" || a == "-mA") { "tree" } else { "heap" };
        if !got.status.ok() {
            return viol(&format!("{alg} merge fails"), format!("run {i}: {:?}; stderr {}", got.status, o.err_text()));
        }
        // a single file may be copied as it is, without completing its last line
        let mut g = got.stdout.clone();
        if g.last().is_some_and(|b| *b != b'\n') {
            g.push(b'\n');
        }
        if g != want {
            return viol(&format!("{alg} merge differs from the reference"), differ(&want, &g));
        }
        w.stats.probe(&format!("{alg} merge of {} files", operands(c, r).len()));
    }
    Ok(operands(c, &c.runs[0]).len() > 1)
}

// ------------------------------------------------------------------ P08
const TMP_ERRS: [i32; 6] = [libc::EIO, libc::ENOSPC, libc::EACCES, libc::EMFILE, libc::EDQUOT, libc::EROFS];
fn p08_gen(r: &mut Rng, _i: u64) -> Case {
    let merge = r.pct(12);
    let mut c = sort_case(r, merge, 30_000);
    if r.pct(85) {
        let b = budget_for(r, &c);
        set_budget(&mut c.runs[0], b);
    }
    super::io::small_buffer(r, &mut c, 40);
    let total: usize = c.files.iter().map(|f| f.1.len()).sum();
    match r.below(10) {
        0 => {}
        1..=6 => {
            for _ in 0..r.range(1, 2) {
                let rep = *r.pick(&[1, 1, 2, -1]);
                let e = *r.pick(&TMP_ERRS);
                let f = match r.below(8) {
                    0 => Fault::err_nth(Ch::Tmp, OP_MKDIR, 0, e, rep),
                    1 => Fault::err_nth(Ch::Tmp, OP_OPENW, r.below(12) as i64, e, rep),
                    2 | 3 => Fault::err_at(Ch::Tmp, OP_WRITE, r.below(total + 1) as i64, e, rep),
                    4 => Fault::err_nth(Ch::Tmp, OP_OPEN, r.below(12) as i64, e, rep),
                    5 => Fault::err_at(Ch::Tmp, OP_READ, r.below(total + 1) as i64, libc::EIO, rep),
                    6 => Fault::err_nth(Ch::Tmp, OP_READ, r.below(40) as i64, libc::EIO, rep),
                    _ => Fault { ch: Ch::Tmp, op: OP_WRITE, trig: T_OFF, act: A_SHORT, at: r.below(total + 1) as i64, arg: r.range(1, 40) as i32, repeat: 1 },
                };
                c.runs[0].faults.push(f);
            }
        }
        7 => {
            let f = Fault::err_at(Ch::Stdout, OP_WRITE, r.below(total + 1) as i64, *r.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO]), -1);
            c.runs[0].faults.push(f);
        }
        8 => {
            let run = c.runs[0].clone();
            let names = c.list("inputs");
            let n = r.pick(&names).clone();
            let len = c.file(&n).len();
            c.runs[0].faults.push(Fault::err_at(chan_of(&run, &n), OP_READ, r.below(len + 1) as i64, libc::EIO, -1));
        }
        _ => any_fault(r, &mut c, 0),
    }
    if r.pct(30) {
        let f = frag(r, 8000);
        c.runs[0].frags.push((Ch::Tmp, f));
    }
    if r.pct(20) {
        frag_all(r, &mut c, 0, 60);
    }
    c.set("foreign", r.below(2));
    c
}
pub fn foreign(w: &World) {
    std::fs::create_dir_all(w.tmp.join(".tmpForeign")).unwrap();
    std::fs::write(w.tmp.join(".tmpForeign/sort_0.txt"), b"not yours\n").unwrap();
    std::fs::write(w.tmp.join("sort_0.txt"), b"keep\n").unwrap();
    std::fs::write(w.tmp.join("notes.txt"), b"keep\n").unwrap();
}
fn p08_check(w: &mut World, c: &Case) -> Check {
    let r = &c.runs[0];
    if !valid_inputs(c, r) {
        return Ok(false);
    }
    let (want, sorted) = sort_model(c, r);
    if !sorted && c.get("cmd") == "merge" {
        return Ok(false);
    }
    w.setup(c);
    if c.num("foreign") == 1 {
        foreign(w);
    }
    let before = snapshot(&w.tmp);
    let o = w.run(&resolve(c, r), &chan_files(c));
    sane(&o)?;
    let after = snapshot(&w.tmp);
    let fired = |f: &dyn Fn(&Fault) -> bool| r.faults.iter().zip(o.fired.iter()).any(|(x, y)| y.0 > 0 && f(x));
    for (n, d) in &before {
        if after.get(n) != Some(d) {
            return viol("temporary file of somebody else changed", n.clone());
        }
    }
    let killed = fired(&|f| f.act == A_KILL);
    let rm_failed = fired(&|f| f.ch == Ch::Tmp && matches!(f.op, OP_UNLINK | OP_RMDIR | OP_OPENDIR));
    if let Status::Signal(s) = o.status {
        if !killed {
            return viol("dies from a signal", format!("signal {s}; {}", o.err_text()));
        }
        return Ok(false);
    }
    if !rm_failed {
        if let Some(n) = after.keys().find(|n| !before.contains_key(*n)) {
            return viol("temporary file left behind", format!("{n} after {:?}; stderr {}", o.status, o.err_text()));
        }
    }
    let n = spills(&o);
    if n > 1 {
        w.stats.probe("spilled");
    }
    let pipe = fired(&|f| f.ch == Ch::Stdout && f.arg == libc::EPIPE);
    if o.status.ok() && !pipe {
        let mut g = o.stdout.clone();
        if c.get("cmd") == "merge" && g.last().is_some_and(|b| *b != b'\n') {
            g.push(b'\n');
        }
        if g != want {
            return viol("success with a wrong result", differ(&want, &g));
        }
    }
    if o.status.failed() && !o.any_fired() {
        return viol("fails without a fault", format!("{:?} {}", o.status, o.err_text()));
    }
    if o.status.failed() && o.stderr.is_empty() && !fired(&|f| f.ch == Ch::Stderr) {
        return viol("fails without a diagnostic", format!("{:?}", o.status));
    }
    let lost = |f: &Fault| f.ch == Ch::Tmp && f.act == A_ERR && matches!(f.op, OP_OPENW | OP_OPEN | OP_WRITE) && f.arg != libc::EINTR;
    if o.status.ok() && !pipe && fired(&lost) {
        return viol("success although temporary storage failed", format!("{:?}", o.fired));
    }
    if fired(&|f| f.ch == Ch::Tmp) {
        w.stats.probe("temporary storage fault fired");
        return Ok(true);
    }
    Ok(n > 1)
}

// ------------------------------------------------------------------ P10
fn p10_gen(r: &mut Rng, _i: u64) -> Case {
    // a command with output files or temporary files
    let mut c = match r.below(10) {
        0..=4 => loop {
            let (_, c) = cmd_case(r, Want { only: Some("join"), cap: 30_000, ..Want::default() });
            if !c.list("outs").is_empty() {
                break c;
            }
        },
        5..=8 => {
            let mut c = sort_case(r, false, 20_000);
            let b = budget_for(r, &c);
            set_budget(&mut c.runs[0], b);
            c
        }
        _ => cmd_case(r, Want { cap: 20_000, ..Want::default() }).1,
    };
    let last = c.runs[0].clone();
    c.runs.clear();
    let outs = c.list("outs");
    // earlier runs: the same command, sometimes over other data giving longer or shorter output
    for k in 0..r.range(1, 3) {
        let mut run = last.clone();
        if r.pct(40) {
            let mut map = Vec::new();
            for n in c.list("inputs") {
                if n.starts_with("old") {
                    continue;
                }
                let o = format!("old{k}.{n}");
                let d = c.file(&n).to_vec();
                let mut lines: Vec<Vec<u8>> = d.split_inclusive(|b| *b == b'\n').map(<[u8]>::to_vec).collect();
                if r.pct(50) {
                    let keep = r.below(lines.len() + 1);
                    lines.truncate(keep);
                } else if !lines.is_empty() && lines.last().unwrap().last() == Some(&b'\n') {
                    // repeat each line: stays sorted
                    let h = usize::from(lines[0].starts_with(b" CDX"));
                    let tail: Vec<Vec<u8>> = lines[h..].iter().flat_map(|l| vec![l.clone(); 2]).collect();
                    lines.truncate(h);
                    lines.extend(tail);
                }
                c.files.push((o.clone(), lines.concat()));
                map.push((n, o));
            }
            for (a, b) in &map {
                for x in &mut run.args {
                    if x == a {
                        *x = b.clone();
                    }
                }
                if run.stdin.as_deref() == Some(a) {
                    run.stdin = Some(b.clone());
                }
            }
        }
        c.runs.push(run);
        match r.below(5) {
            0 => {}
            1 => any_fault(r, &mut c, k),
            _ => {
                let f = Fault::kill_step(*r.pick(&[30usize, 100, 400, 1500]) as i64 * r.below(1000) as i64 / 1000, r.below(1001) as i32);
                c.runs[k].faults.push(f);
                if r.pct(50) {
                    // small writes: more instants at which the process can die
                    for o in &outs {
                        let f = Frag { mode: M_RANDOM, p1: 200, seed: r.next() >> 1, ..Frag::default() };
                        c.runs[k].frags.push((Ch::File(o.clone()), f));
                    }
                }
            }
        }
    }
    c.runs.push(last);
    c.set("history", 1);
    if r.pct(30) {
        for o in &outs {
            let n = r.below(60_000);
            let d: Vec<u8> = (0..n).map(|i| if i % 17 == 16 { b'\n' } else { b'x' }).collect();
            c.files.push((o.clone(), d));
        }
    }
    c
}
fn p10_check(w: &mut World, c: &Case) -> Check {
    let last = c.runs.last().unwrap();
    // on a clean directory: without the left-over output files
    let mut clean = c.clone();
    let outs = c.list("outs");
    clean.files.retain(|f| !outs.contains(&f.0));
    let (o, want) = fresh(w, &clean, last);
    sane(&o)?;
    w.setup(c);
    let mut killed = 0;
    for r in &c.runs[..c.runs.len() - 1] {
        let o = w.run(&resolve(c, r), &chan_files(c));
        if o.status == Status::Hang || o.over_budget {
            return Ok(false);
        }
        if matches!(o.status, Status::Signal(_)) {
            killed += 1;
            w.stats.probe("earlier run killed");
            if !snapshot(&w.tmp).is_empty() {
                w.stats.probe("killed run left temporary files");
            }
        } else if o.status.failed() {
            w.stats.probe("earlier run failed");
        } else {
            w.stats.probe("earlier run succeeded");
        }
    }
    let before = snapshot(&w.tmp);
    let left = outs.iter().any(|x| w.read(x).is_some());
    let o2 = w.run(&resolve(c, last), &chan_files(c));
    sane2(&o2)?;
    let got = view(w, c, &o2);
    compare("left-overs change the result", &want, &got, &o2)?;
    let after = snapshot(&w.tmp);
    if before != after {
        return viol("temporary left-overs changed by a later run", format!("{:?} became {:?}", before.keys().collect::<Vec<_>>(), after.keys().collect::<Vec<_>>()));
    }
    Ok(left || killed > 0 || !before.is_empty())
}

// ------------------------------------------------------------------ P18
fn p18_gen(r: &mut Rng, _i: u64) -> Case {
    let mut c = sort_case(r, false, 8_000);
    let n = *r.pick(&[2usize, 2, 3]);
    let b = budget_for(r, &c);
    set_budget(&mut c.runs[0], b);
    for k in 1..n {
        let mut run = c.runs[0].clone();
        match r.below(4) {
            0 => {} // the identical command
            1 => {
                let b = budget_for(r, &c);
                set_budget(&mut run, b);
            }
            2 => {
                run.args.insert(1, "-k".into());
                run.args.insert(2, "1,length.rev".into());
            }
            _ => run.args = vec!["cat".into()].into_iter().chain(operands(&c, &run)).collect(),
        }
        if run.args.len() != c.runs[0].args.len() {
            // operands moved: only files, no positions needed for the comparison with itself
        }
        if r.pct(25) {
            run.rand_seed ^= 1;
        }
        run.pid += k as i32;
        c.runs.push(run);
    }
    for k in 0..n {
        let mut at = 0i64;
        let gap = *r.pick(&[2usize, 5, 20, 60]);
        for _ in 0..r.range(5, 60) {
            at += r.range(1, gap) as i64;
            c.runs[k].stops.push(at);
        }
    }
    if r.pct(30) {
        let k = r.below(n);
        c.runs[k].faults.push(Fault::kill_step(r.below(250) as i64, r.below(1001) as i32));
    }
    c.set("sched", r.next() >> 1);
    c
}
fn p18_check(w: &mut World, c: &Case) -> Check {
    let n = c.runs.len();
    let mut want = Vec::new();
    for r in &c.runs {
        let (o, v) = fresh(w, c, &r.calm());
        sane(&o)?;
        want.push(v);
    }
    while w.sibs.len() < n {
        let s = w.sibling();
        w.sibs.push(s);
    }
    w.setup(c);
    let files = chan_files(c);
    let mut sibs = std::mem::take(&mut w.sibs);
    let mut rng = Rng::new(c.num("sched") as u64);
    let mut live: Vec<Option<Vec<Option<Ch>>>> = vec![None; n];
    let mut outs: Vec<Option<Out>> = vec![None; n];
    let mut switches = 0;
    let mut prev = n;
    loop {
        let ready: Vec<usize> = (0..n).filter(|i| outs[*i].is_none()).collect();
        if ready.is_empty() {
            break;
        }
        let k = *rng.pick(&ready);
        if k != prev {
            switches += 1;
        }
        prev = k;
        let st = match live[k].take() {
            None => {
                let (names, st) = sibs[k].start(&c.runs[k], &files);
                live[k] = Some(names);
                st
            }
            Some(names) => {
                live[k] = Some(names);
                sibs[k].cont()
            }
        };
        if st != Status::Stopped {
            let names = live[k].take().unwrap();
            outs[k] = Some(sibs[k].finish(&c.runs[k], names, st));
        }
    }
    for s in &mut sibs {
        let st = std::mem::take(&mut s.stats);
        w.stats.merge(st);
    }
    w.sibs = sibs;
    let mut killed = false;
    let mut overlap = 0;
    for k in 0..n {
        let o = outs[k].as_ref().unwrap();
        if o.status == Status::Signal(libc::SIGKILL) && o.fired.iter().any(|f| f.0 > 0) {
            killed = true;
            continue;
        }
        sane2(o)?;
        if spills(o) > 0 {
            overlap += 1;
        }
        let got = view(w, c, o);
        compare("concurrent run", &want[k], &got, o)?;
    }
    if !killed {
        if let Some(x) = snapshot(&w.tmp).keys().next() {
            return viol("temporary file left behind", x.clone());
        }
    } else {
        w.stats.probe("one process killed");
    }
    if overlap > 1 {
        w.stats.probe("two processes spilling at the same time");
    }
    Ok(switches > 3)
}
