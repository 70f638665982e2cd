//! Record accounting, streaming, the calculator, repeatability.
use super::sorts::{cmp_val, head_names, operands, opt_values, split_file};
use super::*;
use std::cmp::Ordering;

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "P12",
            gen: p12_gen,
            check: p12_check,
            quick: 50_000,
            thorough: 2_000_000,
            rule: "Streams of valid and invalid expressions delivered in arbitrary pieces; at random read calls of the recorded history the output written so far is compared with the result of a run on exactly the complete lines delivered so far, and integer expressions with a reference evaluator.",
            shrink_files: true,
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "P13",
            gen: p13_gen,
            check: p13_check,
            quick: 36_000,
            thorough: 1_440_000,
            rule: "A random command run under different random sources (and so hash seeds), clocks with jumps, process ids and terminal sizes must give one result; generators and random sort orders must give the requested shape under every random source.",
            shrink_files: true,
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "P15",
            gen: p15_gen,
            check: p15_check,
            quick: 44_000,
            thorough: 1_760_000,
            rule: "Random tables over one to four files (empty, header-only, unterminated) through cat, cgrep and its inverse, cut, paste, uniq, join, wc and sample, delivered in random pieces from random sources, compared with reference models.",
            shrink_files: true,
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "P21",
            gen: p21_gen,
            check: p21_check,
            quick: 60_000,
            thorough: 2_400_000,
            rule: "Lists of files with the same header, with another one, with none, with nothing else, or empty, through every command that combines files; the header must come first and once, over exactly what the same files give without their headers, and files that do not belong together must be rejected.",
            shrink_files: true,
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "P17",
            gen: p17_gen,
            check: p17_check,
            quick: 8_000,
            thorough: 600_000,
            rule: "Large inputs through the line filters; at random read calls of the recorded history the output written so far is compared with a run on the prefix delivered so far, and commands that need only a leading part must not read much further.",
            shrink_files: false,
            real: REAL,
            stub: STUB,
        },
    ]
}

// ------------------------------------------------------------------ P15
pub type Row = Vec<u8>;
pub fn cols(line: &[u8]) -> Vec<&[u8]> {
    line.strip_suffix(b"\n").unwrap_or(line).split(|b| *b == b'\t').collect()
}
pub fn cell(line: &[u8], i: usize) -> &[u8] {
    cols(line).get(i).copied().unwrap_or(&[])
}
fn col_index(spec: &str, names: &[String]) -> usize {
    match spec.parse::<usize>() {
        Ok(n) => n - 1,
        Err(_) => names.iter().position(|x| x == spec).unwrap_or(0),
    }
}
pub struct Input {
    pub name: String,
    pub head: Option<Row>,
    pub names: Vec<String>,
    pub lines: Vec<Row>,
    pub empty: bool,
}
pub fn inputs(c: &Case, r: &Run) -> Vec<Input> {
    let ops: Vec<String> = c.list("operands").iter().filter_map(|i| i.parse::<usize>().ok()).map(|i| r.args[i].clone()).collect();
    let mut v = Vec::new();
    for (i, n) in operands(c, r).into_iter().enumerate() {
        let d = c.file(&n);
        let (head, lines) = split_file(d);
        let names = match &head {
            Some(h) => head_names(h),
            None => lines.first().map_or(vec![], |l| (1..=cols(l).len()).map(|k| format!("c{k}")).collect()),
        };
        let name = ops.get(i).cloned().unwrap_or_else(|| "-".into());
        v.push(Input { name, head, names, lines, empty: d.is_empty() });
    }
    v
}
fn header(names: &[String]) -> Row {
    let mut v = b" CDX".to_vec();
    for n in names {
        v.push(b'\t');
        v.extend_from_slice(n.as_bytes());
    }
    v.push(b'\n');
    v
}
fn simple_match(kind: &str, pat: &str, v: &[u8]) -> bool {
    let p = pat.as_bytes();
    match kind {
        "empty" => v.is_empty(),
        "prefix" => v.starts_with(p),
        "suffix" => v.ends_with(p),
        "infix" => p.is_empty() || v.windows(p.len()).any(|w| w == p),
        "exact" | "" => v == p,
        "file-exact" => pat.trim_start_matches("<<").split("\\n").any(|x| !x.is_empty() && x.as_bytes() == v),
        x => panic!("no model for matcher {x}"),
    }
}
pub fn m_match(spec: &str, names: &[String], line: &[u8]) -> bool {
    // Col,Kind,Pattern
    let p: Vec<&str> = spec.splitn(3, ',').collect();
    let not = p[1].starts_with("not.");
    simple_match(p[1].trim_start_matches("not."), p.get(2).unwrap_or(&""), cell(line, col_index(p[0], names))) != not
}
pub fn has(r: &Run, x: &str) -> bool {
    r.args.iter().any(|a| a == x)
}
pub fn opt<'a>(r: &'a Run, x: &str) -> Option<&'a str> {
    opt_values(&r.args, x).last().copied()
}
/// expected status, standard output and output files
struct Want15 {
    ok: bool,
    out: Vec<u8>,
    files: Vec<Vec<u8>>,
}
fn ok(out: Vec<u8>) -> Want15 {
    Want15 { ok: true, out, files: vec![] }
}
fn shared_head(ins: &[Input], f: impl Fn(&Input) -> Row) -> Vec<u8> {
    ins.iter().find(|i| !i.empty).map_or(vec![], |i| if i.head.is_some() { f(i) } else { vec![] })
}
fn m_cat(c: &Case, r: &Run) -> Want15 {
    let pad = opt(r, "-p").unwrap_or("yes");
    let mut out = Vec::new();
    let mut first = true;
    for n in operands(c, r) {
        let mut d = c.file(&n).to_vec();
        if d.is_empty() {
            continue;
        }
        if !first && d.starts_with(b" CDX") {
            let k = d.iter().position(|b| *b == b'\n').unwrap() + 1;
            d.drain(..k);
        }
        first = false;
        out.extend(d);
        if pad == "yes" && out.last() != Some(&b'\n') {
            out.push(b'\n');
        }
    }
    if pad == "end" && !out.is_empty() && out.last() != Some(&b'\n') {
        out.push(b'\n');
    }
    ok(out)
}
fn m_catn(c: &Case, r: &Run) -> Want15 {
    let ins = inputs(c, r);
    let mut num: Option<(String, i64, bool)> = None;
    let mut skips = vec![];
    let mut drops = vec![];
    let mut i = 0;
    while i < r.args.len() {
        match r.args[i].as_str() {
            "-b" => num = Some(("number".into(), 1, false)),
            "-e" => num = Some(("number".into(), 1, true)),
            "-n" => {
                let p: Vec<&str> = r.args[i + 1].split(',').collect();
                let start = p.get(1).map_or(0, |x| x.parse().unwrap());
                num = Some((p[0].to_string(), start, p.get(2) == Some(&"end")));
                i += 1;
            }
            "-s" => {
                skips.push(r.args[i + 1].clone());
                i += 1;
            }
            "-r" => {
                drops.push(r.args[i + 1].clone());
                i += 1;
            }
            _ => {}
        }
        i += 1;
    }
    let hit = |v: &[String], l: &[u8]| {
        // a list matches if it is not empty and all of its members match
        !v.is_empty()
            && v.iter().all(|s| {
                let (k, p) = s.split_once(',').unwrap_or((s, ""));
                simple_match(k, p, l)
            })
    };
    let mut out = shared_head(&ins, |x| {
        let mut n = x.names.clone();
        match &num {
            Some((k, _, true)) => n.push(k.clone()),
            Some((k, _, false)) => n.insert(0, k.clone()),
            None => {}
        }
        header(&n)
    });
    let mut k = num.as_ref().map_or(0, |x| x.1);
    for f in &ins {
        for l in &f.lines {
            let body = &l[..l.len() - 1];
            if hit(&drops, body) {
                continue;
            }
            let tag = if hit(&skips, body) {
                String::new()
            } else {
                k += 1;
                (k - 1).to_string()
            };
            match &num {
                None => out.extend_from_slice(body),
                Some((_, _, true)) => {
                    out.extend_from_slice(body);
                    out.push(b'\t');
                    out.extend_from_slice(tag.as_bytes());
                }
                Some(_) => {
                    out.extend_from_slice(tag.as_bytes());
                    out.push(b'\t');
                    out.extend_from_slice(body);
                }
            }
            out.push(b'\n');
        }
    }
    ok(out)
}
fn m_cgrep(c: &Case, r: &Run) -> Want15 {
    let ins = inputs(c, r);
    let pats = opt_values(&r.args, "-p");
    let or = has(r, "-o");
    let inv = has(r, "-v");
    let loc: Vec<&str> = opt(r, "-l").map_or(vec![], |x| x.split(',').collect());
    let mut out = shared_head(&ins, |x| {
        let mut n: Vec<String> = loc.iter().map(|l| if *l == "name" { "filename".to_string() } else { (*l).to_string() }).collect();
        n.extend(x.names.clone());
        header(&n)
    });
    for f in &ins {
        let mut off = f.head.as_ref().map_or(0, Vec::len);
        for (k, l) in f.lines.iter().enumerate() {
            let m = if or { pats.iter().any(|p| m_match(p, &f.names, l)) } else { pats.iter().all(|p| m_match(p, &f.names, l)) };
            if m != inv {
                for x in &loc {
                    match *x {
                        "name" => out.extend_from_slice(f.name.as_bytes()),
                        "line" => out.extend_from_slice((k + 1).to_string().as_bytes()),
                        _ => out.extend_from_slice(off.to_string().as_bytes()),
                    }
                    out.push(b'\t');
                }
                out.extend_from_slice(l);
            }
            off += l.len();
        }
    }
    ok(out)
}
fn one_col(spec: &str, names: &[String]) -> usize {
    match spec.strip_prefix('+') {
        Some(n) => names.len().saturating_sub(n.parse::<usize>().unwrap_or(0)),
        None => col_index(spec, names),
    }
}
/// a column list: the wanted columns in the order given (all of them if none is named), without the excluded ones
fn col_set(spec: &str, names: &[String]) -> Vec<usize> {
    let mut yes: Option<Vec<usize>> = None;
    let mut no = Vec::new();
    for p in spec.split(',') {
        let (neg, p) = p.strip_prefix('~').map_or((false, p), |x| (true, x));
        let (a, b) = p.split_once('-').map_or((p, p), |(a, b)| (if a.is_empty() { "1" } else { a }, if b.is_empty() { "+1" } else { b }));
        let range = one_col(a, names)..=one_col(b, names);
        if neg {
            no.extend(range);
        } else {
            yes.get_or_insert_with(Vec::new).extend(range);
        }
    }
    let mut v = yes.unwrap_or_else(|| (0..names.len()).collect());
    v.retain(|x| !no.contains(x));
    v
}
fn m_cut(c: &Case, r: &Run) -> Option<Want15> {
    let ins = inputs(c, r);
    let mut flags: Vec<[String; 2]> = Vec::new();
    for (i, a) in r.args.iter().enumerate() {
        match a.strip_prefix("-f") {
            Some(x) if !x.is_empty() => flags.push(["-f".into(), x.to_string()]),
            _ if i + 1 < r.args.len() => flags.push([a.clone(), r.args[i + 1].clone()]),
            _ => {}
        }
    }
    // (name, pieces) per output column
    let unknown = std::cell::Cell::new(false);
    let build = |f: &Input, l: Option<&Row>| -> Row {
        let mut parts: Vec<Vec<u8>> = Vec::new();
        for w in &flags {
            match w[0].as_str() {
                "-f" => {
                    for i in col_set(&w[1], &f.names) {
                        parts.push(l.map_or_else(|| f.names[i].clone().into_bytes(), |l| cell(l, i).to_vec()));
                    }
                }
                "-g" => {
                    let sep = w[1].as_bytes()[0];
                    let (n, s) = w[1][1..].split_once(':').unwrap();
                    let v: Vec<Vec<u8>> = col_set(s, &f.names).into_iter().map(|i| l.map_or(vec![], |l| cell(l, i).iter().map(|b| if *b == sep { b' ' } else { *b }).collect())).collect();
                    parts.push(if l.is_some() { v.join(&sep) } else { n.as_bytes().to_vec() });
                }
                "-c" => {
                    let (n, s) = w[1].split_once(':').unwrap();
                    let a = s.find("^{").unwrap();
                    let b = s.find('}').unwrap();
                    parts.push(match l {
                        None => n.as_bytes().to_vec(),
                        Some(l) => [s[..a].as_bytes(), cell(l, col_index(&s[a + 2..b], &f.names)), s[b + 1..].as_bytes()].concat(),
                    });
                }
                "-e" => {
                    let (n, e) = w[1].split_once(':').unwrap();
                    parts.push(match l {
                        None => n.as_bytes().to_vec(),
                        Some(l) => match expr_value(e, l, &f.names) {
                            Some(v) => v.to_string().into_bytes(),
                            None => {
                                unknown.set(true);
                                vec![]
                            }
                        },
                    });
                }
                _ => {}
            }
        }
        let mut v = parts.join(&b'\t');
        v.push(b'\n');
        v
    };
    if ins.iter().any(|f| !f.empty && build(f, None) == b"\n") {
        return None; // no columns at all
    }
    let mut out = shared_head(&ins, |f| [b" CDX\t".as_slice(), &build(f, None)].concat());
    for f in &ins {
        for l in &f.lines {
            out.extend(build(f, Some(l)));
        }
    }
    if unknown.get() {
        return None;
    }
    Some(ok(out))
}
/// the value of an expression over one line, where there is no doubt about it
fn expr_value(e: &str, l: &Row, names: &[String]) -> Option<f64> {
    let num = |i: usize| -> Option<f64> {
        let v = cell(l, i);
        match v.first() {
            None => Some(0.0),
            Some(b) if b.is_ascii_alphabetic() => Some(0.0),
            _ if v.len() <= 15 && v.iter().all(u8::is_ascii_digit) => std::str::from_utf8(v).ok()?.parse().ok(),
            _ => None,
        }
    };
    let mut e = e.to_string();
    while let Some(a) = e.find('[') {
        let b = e.find(']')?;
        let list: Vec<String> = col_set(&e[a + 1..b], names).iter().map(|i| format!("c{}", i + 1)).collect();
        e.replace_range(a..=b, &list.join(","));
    }
    exprs::eval(&e, &|n| match names.iter().position(|x| x == n) {
        Some(i) => num(i),
        None => num(n.strip_prefix('c')?.parse::<usize>().ok()?.checked_sub(1)?),
    })
}
fn m_paste(c: &Case, r: &Run) -> Option<Want15> {
    let ins = inputs(c, r);
    let mode = opt(r, "-e").unwrap_or("exact");
    let last = has(r, "-l");
    let longest = ins.iter().map(|f| f.lines.len()).max().unwrap_or(0);
    let shortest = ins.iter().map(|f| f.lines.len()).min().unwrap_or(0);
    if last && mode == "late" && shortest == 0 && longest > 0 {
        return None; // there is no last line to repeat
    }
    let mut out = Vec::new();
    let headed = ins.iter().all(|f| f.head.is_some());
    let mut seen: Vec<String> = Vec::new();
    for f in &ins {
        for n in &f.names {
            let mut m = n.clone();
            let mut k = 0;
            while headed && seen.contains(&m) {
                k += 1;
                m = format!("{n}{k}");
            }
            seen.push(m);
        }
    }
    if headed {
        out.extend(header(&seen));
    }
    // the value to use for each missing column; a value without columns is for all of them
    let mut dflt = vec![String::new(); seen.len()];
    for d in opt_values(&r.args, "-d") {
        if seen.len() < 2 {
            return None; // columns that do not exist
        }
        let (v, cs) = d.split_once(',').unwrap_or((d, "-"));
        for i in col_set(cs, &seen) {
            if let Some(x) = dflt.get_mut(i) {
                *x = v.to_string();
            }
        }
    }
    let n = match mode {
        "late" => longest,
        _ => shortest,
    };
    for k in 0..n {
        let mut base = 0;
        for (i, f) in ins.iter().enumerate() {
            if i > 0 {
                out.push(b'\t');
            }
            base += f.names.len();
            match f.lines.get(k) {
                Some(l) => out.extend_from_slice(&l[..l.len() - 1]),
                None if last => {
                    let l = f.lines.last().unwrap();
                    out.extend_from_slice(&l[..l.len() - 1]);
                }
                None => out.extend_from_slice(dflt[base - f.names.len()..base].join("\t").as_bytes()),
            }
        }
        out.push(b'\n');
    }
    Some(Want15 { ok: mode != "exact" || longest == shortest, out, files: vec![] })
}
/// key columns (none: the whole line) and comparison methods; no key at all means the whole line
fn uniq_keys(r: &Run, f: &Input) -> Vec<(Option<usize>, String)> {
    let mut v: Vec<(Option<usize>, String)> = opt_values(&r.args, "-k")
        .into_iter()
        .map(|k| {
            let (a, b) = k.split_once(',').unwrap_or((k, "plain"));
            ((!a.is_empty()).then(|| col_index(a, &f.names)), b.to_string())
        })
        .collect();
    if v.is_empty() {
        v.push((None, "plain".into()));
    }
    v
}
fn uniq_same(keys: &[(Option<usize>, String)], a: &[u8], b: &[u8]) -> bool {
    keys.iter().all(|(c, m)| match c {
        Some(c) => cmp_val(m, cell(a, *c), cell(b, *c)) == Ordering::Equal,
        None => cmp_val(m, a, b) == Ordering::Equal,
    })
}
fn m_uniq(c: &Case, r: &Run) -> Want15 {
    let ins = inputs(c, r);
    let f = &ins[0];
    if f.empty {
        return ok(vec![]);
    }
    let keys = uniq_keys(r, f);
    let count = opt(r, "-c").map(|x| {
        let (a, b) = x.split_once(',').unwrap_or((x, "begin"));
        (if a.is_empty() { "count".to_string() } else { a.to_string() }, b == "end")
    });
    let which = opt(r, "-w").unwrap_or("first").to_string();
    let agg = opt(r, "-a").map(|x| col_index(x.split(',').next().unwrap(), &f.names));
    let post = opt(r, "--agg-post").map(|x| x.split(',').next().unwrap().to_string());
    let pre = opt(r, "--agg-pre").map(|x| x.split(',').next().unwrap().to_string());
    let mut groups: Vec<Vec<&Row>> = Vec::new();
    for l in &f.lines {
        match groups.last_mut() {
            Some(g) if uniq_same(&keys, g[g.len() - 1], l) => g.push(l),
            _ => groups.push(vec![l]),
        }
    }
    let mut out = Vec::new();
    if f.head.is_some() {
        let mut n = f.names.clone();
        if let Some(x) = &pre {
            n.insert(0, x.clone());
        }
        if let Some(x) = &post {
            n.push(x.clone());
        }
        match &count {
            Some((x, true)) => n.push(x.clone()),
            Some((x, false)) => n.insert(0, x.clone()),
            None => {}
        }
        out.extend(header(&n));
    }
    for g in groups {
        let pick = match which.split(',').next().unwrap() {
            "first" => g[0],
            "last" => g[g.len() - 1],
            w => {
                let k = col_index(which.split(',').nth(1).unwrap(), &f.names);
                let how = which.split(',').nth(2).unwrap_or("plain");
                let mut best = g[0];
                for l in &g[1..] {
                    let o = cmp_val(how, cell(best, k), cell(l, k));
                    if w == "min" && o == Ordering::Greater || w == "max" && o == Ordering::Less {
                        best = l;
                    }
                }
                best
            }
        };
        let mut v: Vec<Vec<u8>> = cols(pick).into_iter().map(<[u8]>::to_vec).collect();
        let n = g.len().to_string().into_bytes();
        if let Some(i) = agg {
            v[i] = n.clone();
        }
        if pre.is_some() {
            v.insert(0, n.clone());
        }
        if post.is_some() {
            v.push(n.clone());
        }
        match &count {
            Some((_, true)) => v.push(n),
            Some((_, false)) => v.insert(0, n),
            None => {}
        }
        out.extend(v.join(&b'\t'));
        out.push(b'\n');
    }
    ok(out)
}
/// the column and comparison method of every join key, for one file
fn join_keys(r: &Run, f: &Input, num: usize) -> Vec<(usize, String)> {
    let mut v: Vec<&str> = opt_values(&r.args, "-k");
    if v.is_empty() {
        v.push("1");
    }
    v.into_iter()
        .map(|k| {
            let (c, m) = k.split_once(',').unwrap_or((k, "plain"));
            let c: Vec<&str> = c.split('.').collect();
            (col_index(c.get(num).unwrap_or(&c[c.len() - 1]), &f.names), m.to_string())
        })
        .collect()
}
fn join_cmp(ka: &[(usize, String)], a: &[u8], kb: &[(usize, String)], b: &[u8]) -> Ordering {
    for (x, y) in ka.iter().zip(kb) {
        let o = cmp_val(&x.1, cell(a, x.0), cell(b, y.0));
        if o != Ordering::Equal {
            return o;
        }
    }
    Ordering::Equal
}
fn m_join(c: &Case, r: &Run) -> Want15 {
    let ins = inputs(c, r);
    let (a, b) = (&ins[0], &ins[1]);
    let (ka, kb) = (join_keys(r, a, 0), join_keys(r, b, 1));
    // output columns: (file, column)
    let mut oc: Vec<(usize, usize)> = Vec::new();
    if let Some(o) = opt(r, "-o") {
        let mut n = 0;
        for p in o.split(',') {
            let s = match p.split_once('.') {
                Some((x, s)) => {
                    n = x.parse::<usize>().unwrap() - 1;
                    s
                }
                None => p,
            };
            oc.extend(col_set(s, &ins[n].names).into_iter().map(|i| (n, i)));
        }
    } else {
        oc.extend((0..a.names.len()).map(|i| (0, i)));
        oc.extend((0..b.names.len()).filter(|i| !kb.iter().any(|k| k.0 == *i)).map(|i| (1, i)));
    }
    let mut out = Vec::new();
    if a.head.is_some() {
        out.extend(header(&oc.iter().map(|(f, i)| ins[*f].names[*i].clone()).collect::<Vec<_>>()));
    }
    let mut un1 = a.head.clone().unwrap_or_default();
    let mut un2 = b.head.clone().unwrap_or_default();
    let mut used = vec![false; b.lines.len()];
    for l in &a.lines {
        match b.lines.iter().position(|m| join_cmp(&ka, l, &kb, m) == Ordering::Equal) {
            Some(j) => {
                used[j] = true;
                let v: Vec<&[u8]> = oc.iter().map(|(f, i)| cell(if *f == 0 { l } else { &b.lines[j] }, *i)).collect();
                out.extend(v.join(&b'\t'));
                out.push(b'\n');
            }
            None => un1.extend_from_slice(l),
        }
    }
    for (j, m) in b.lines.iter().enumerate() {
        if !used[j] {
            un2.extend_from_slice(m);
        }
    }
    let mut files = Vec::new();
    let mut stdout = out.clone();
    for n in c.list("outs") {
        files.push(match n.as_str() {
            "un1.out" => un1.clone(),
            "un2.out" => un2.clone(),
            _ => {
                stdout = vec![];
                out.clone()
            }
        });
    }
    Want15 { ok: true, out: stdout, files }
}
fn m_wc(c: &Case, r: &Run) -> Want15 {
    let ins = inputs(c, r);
    let mut kinds: Vec<&str> = r.args.iter().map(|x| x.as_str()).filter(|x| ["-l", "-b", "-c", "-w"].contains(x)).collect();
    // options are handled in the order of their definition only when given twice; the order on the command line counts
    let columns = has(r, "-C");
    if kinds.is_empty() {
        kinds.push(if columns { "-b" } else { "-l" });
    }
    let label = |k: &str| match k {
        "-l" => "lines",
        "-b" => "bytes",
        "-c" => "chars",
        _ => "words",
    };
    let one = |k: &str, v: &[u8]| -> usize {
        let t = String::from_utf8_lossy(v);
        match k {
            "-l" => 1,
            "-b" => v.len(),
            "-c" => t.chars().count(),
            _ => v.split(|b| b" \t\n\r\x0b\x0c".contains(b)).filter(|w| !w.is_empty()).count(),
        }
    };
    let tot_only = opt(r, "-t") == Some("only");
    let (ff, fname) = opt(r, "-f").map_or(("maybe", "file"), |x| x.split_once(',').unwrap_or((x, "file")));
    let mut rows: Vec<(String, Vec<usize>)> = Vec::new();
    let mut any = false;
    for f in &ins {
        any |= !f.empty;
        if columns {
            if f.empty {
                continue;
            }
            let mut map = Vec::new();
            for n in &f.names {
                let at = rows.iter().position(|x| x.0 == *n).unwrap_or_else(|| {
                    rows.push((n.clone(), vec![0; kinds.len()]));
                    rows.len() - 1
                });
                map.push(at);
            }
            for l in &f.lines {
                for (i, v) in cols(l).into_iter().enumerate() {
                    for (j, k) in kinds.iter().enumerate() {
                        rows[map[i]].1[j] += one(k, v);
                    }
                }
            }
        } else if !f.lines.is_empty() {
            rows.push((f.name.clone(), kinds.iter().map(|k| f.lines.iter().map(|l| one(k, l)).sum()).collect()));
        }
    }
    let many = if columns { rows.len() > 1 } else { ins.len() > 1 };
    let show_file = match ff {
        "yes" => true,
        "no" => false,
        _ => many && !tot_only,
    };
    let totals = match opt(r, "-t") {
        Some("yes" | "only") => true,
        Some("no") => false,
        _ => many,
    };
    let head = match opt(r, "-h") {
        Some("yes") => true,
        Some("no") => false,
        _ => kinds.len() > 1 || show_file,
    };
    let mut out = Vec::new();
    if head && (any || columns) {
        let mut n: Vec<String> = Vec::new();
        if columns && ff != "no" {
            n.push("column".into());
        } else if show_file {
            n.push(fname.to_string());
        }
        n.extend(kinds.iter().map(|k| label(k).to_string()));
        out.extend(header(&n));
    }
    let put = |out: &mut Vec<u8>, name: Option<&str>, v: &[usize]| {
        let mut p: Vec<String> = name.iter().map(|x| (*x).to_string()).collect();
        p.extend(v.iter().map(|x| x.to_string()));
        out.extend(p.join("\t").into_bytes());
        out.push(b'\n');
    };
    if !tot_only {
        for (n, v) in &rows {
            let named = if columns { ff != "no" } else { show_file };
            put(&mut out, named.then_some(n), v);
        }
    }
    if totals {
        let t: Vec<usize> = (0..kinds.len()).map(|j| rows.iter().map(|x| x.1[j]).sum()).collect();
        put(&mut out, show_file.then_some("totals"), &t);
    }
    ok(out)
}
fn m_sample(c: &Case, r: &Run, got: &[u8]) -> Result<Want15, Viol> {
    let ins = inputs(c, r);
    let mut out = shared_head(&ins, |f| f.head.clone().unwrap());
    if let Some(s) = opt(r, "-s") {
        let n: usize = s.parse().unwrap();
        // evenly spaced, so only the shape is fixed: order kept, first and last line kept, at most n (at least two)
        let mut rest = match got.strip_prefix(out.as_slice()) {
            Some(x) => x.split_inclusive(|b| *b == b'\n').map(<[u8]>::to_vec).collect::<Vec<_>>(),
            None => return viol("sample header", show(got)),
        };
        for f in ins.iter().filter(|f| !f.lines.is_empty()) {
            let k = n.max(2).min(f.lines.len());
            if rest.len() < k {
                return viol("sample size", format!("{} lines left for {} which has {}, wanted {k}", rest.len(), f.name, f.lines.len()));
            }
            let mine: Vec<Row> = rest.drain(..k).collect();
            if mine[0] != f.lines[0] || mine[k - 1] != f.lines[f.lines.len() - 1] {
                return viol("sample ends", format!("{} to {}", show(&mine[0]), show(&mine[k - 1])));
            }
            let mut it = f.lines.iter();
            if !mine.iter().all(|m| it.any(|l| l == m)) {
                return viol("sample order", format!("lines of {} missing or out of order", f.name));
            }
        }
        if !rest.is_empty() {
            return viol("sample size", format!("{} lines too many", rest.len()));
        }
        return Ok(ok(got.to_vec()));
    }
    for f in &ins {
        for (k, l) in f.lines.iter().enumerate() {
            let n = k + 1;
            let yes = if let Some(x) = opt(r, "-f") {
                let p: Vec<usize> = x.split(',').map(|v| v.parse().unwrap()).collect();
                let (by, from, to) = (p[0], p.get(1).copied().unwrap_or(1), p.get(2).copied().unwrap_or(usize::MAX));
                n >= from && n <= to && (n - from) % by == 0
            } else {
                opt(r, "-r").unwrap().split(',').any(|x| {
                    let (a, b) = x.split_once('-').unwrap_or((x, x));
                    n >= a.parse().unwrap() && n <= b.parse().unwrap()
                })
            };
            if yes {
                out.extend_from_slice(l);
            }
        }
    }
    Ok(ok(out))
}

fn some_col(r: &mut Rng, sh: &Shape) -> String {
    col(r, sh)
}
fn pat(r: &mut Rng, sh: &Shape) -> String {
    let c = some_col(r, sh);
    let k = *r.pick(&["prefix", "suffix", "infix", "exact", "empty", "not.prefix", "not.infix"]);
    if k == "empty" {
        return format!("{c},empty");
    }
    if r.pct(7) {
        // a list of patterns, given in place of the file that would hold it
        let n = if r.pct(30) { r.range(30, 400) } else { r.range(1, 20) };
        let v: Vec<String> = (0..n).map(|_| plain_word(r, 3, 5)).collect();
        let end = if r.pct(50) { "\\n" } else { "" };
        return format!("{c},{}file-exact,<<{}{end}", r.pick(&["", "not."]), v.join("\\n"));
    }
    format!("{c},{k},{}", plain_word(r, 2, 4))
}
/// commands for which only relations between runs are known, not the values themselves
fn p15_opaque(r: &mut Rng) -> Case {
    let which = *r.pick(&["cgrep", "cgrep", "cut", "uniq"]);
    let mut sh = shape(r);
    sh.ragged = false;
    let mut m = Cmd { name: which.to_string(), ..Cmd::default() };
    let mut a: Vec<String> = vec![which.to_string()];
    match which {
        "cgrep" => {
            for _ in 0..r.range(1, 2) {
                a.push(format!("-p{}", matcher(r, &sh, &mut m.files)));
            }
            m.files.truncate(1);
            m.extra = m.files.iter().map(|f| f.0.clone()).collect();
            for (f, p) in [("-v", 35), ("-o", 30)] {
                if r.pct(p) {
                    a.push(f.into());
                }
            }
        }
        "cut" => {
            for _ in 0..r.range(1, 3) {
                match r.below(5) {
                    0..=1 => a.push(format!("-f{}", col_list(r, &sh))),
                    2 => a.extend(["-g".into(), format!("{}:{}", r.pick(&[".grp", "g", ";h"]), col_list(r, &sh))]),
                    3 => a.extend(["-c".into(), format!("comp:x^{{{}}}y^{{{}}}", col(r, &sh), col(r, &sh))]),
                    _ => a.extend(["-e".into(), if sh.cols > 1 { (*r.pick(&["ex:1+2", "ex:c2*2", "ex:c2+c2/4", "ex:if(c2<5,1,c1)"])).into() } else { "ex:1+2".into() }]),
                }
            }
            a.extend(["-D".into(), (*r.pick(&["Allow", "Numeric"])).into()]);
        }
        _ => {
            a.extend(["-k".into(), format!("{}{}", r.range(1, sh.cols), r.pick(&["", "", ",lower", ",length"]))]);
            let g = agg(r);
            match r.below(4) {
                0 => a.extend(["-a".into(), format!("{},{g}", col(r, &sh))]),
                1 => a.extend(["--agg-pre".into(), format!("ap,{},{g}", col(r, &sh))]),
                2 => a.extend(["--agg-post".into(), format!("ap,{},{g}", col(r, &sh))]),
                _ => a.extend(["--agg-pre".into(), format!("ap,{},{g}", col(r, &sh)), "-a".into(), format!("{},{}", col(r, &sh), agg(r))]),
            }
            if r.pct(40) {
                a.extend(["-w".into(), (*r.pick(&["last", "max,1", "min,1,length"])).into()]);
            }
        }
    }
    let target = size(r).min(20_000);
    let mut t = table(r, &sh, target);
    if which == "uniq" {
        let k = r.below(sh.cols);
        for row in &mut t.rows {
            if r.pct(90) {
                row[k] = plain_word(r, 2, 3);
            }
        }
        sort_rows(&mut t, k);
    }
    let rows = t.rows.len();
    m.files.insert(0, ("a.txt".into(), t.bytes()));
    m.args = a;
    if r.pct(30) {
        m.stdin = Some("a.txt".into());
    } else {
        m.inputs.push(m.args.len());
        m.args.push("a.txt".into());
    }
    let seed = r.next() >> 1;
    let mut c = m.case("", seed);
    c.set("opaque", r.below(rows.max(1)));
    if r.pct(80) {
        frag_all(r, &mut c, 0, 80);
    }
    c
}
fn p15_opaque_check(w: &mut World, c: &Case) -> Check {
    let r = &c.runs[0];
    let cmd = c.get("cmd");
    let ins = inputs(c, r);
    let f = &ins[0];
    if f.lines.len() < 2 || f.lines.iter().any(|l| cols(l).len() != f.names.len()) {
        return Ok(false);
    }
    let (o, got) = fresh(w, c, r);
    sane2(&o)?;
    if !got.status.ok() {
        return Ok(false); // bad arguments are P22's business
    }
    // cut the file in two
    let mut at = c.num("opaque").clamp(0, f.lines.len() as i64 - 1) as usize;
    if cmd == "uniq" {
        let k = uniq_keys(r, f);
        while at > 0 && uniq_same(&k, &f.lines[at - 1], &f.lines[at]) {
            at -= 1;
        }
    }
    if at == 0 {
        return Ok(false);
    }
    let part = |w: &mut World, lines: &[Row]| -> Result<(Option<Row>, Vec<Row>), Viol> {
        let mut c2 = c.clone();
        let mut b = f.head.clone().unwrap_or_default();
        b.extend(lines.concat());
        for x in &mut c2.files {
            if x.0 == "a.txt" {
                x.1 = b.clone();
            }
        }
        let (o, v) = fresh(w, &c2, &r.calm());
        sane2(&o)?;
        if !v.status.ok() {
            return viol(&format!("{cmd}: a part of the lines fails"), format!("{:?} {}", v.status, o.err_text()));
        }
        Ok(split_file(&v.stdout))
    };
    let (h1, mut l1) = part(w, &f.lines[..at])?;
    let (h2, l2) = part(w, &f.lines[at..])?;
    let mut want = h1.clone().unwrap_or_default();
    if h1 != h2 {
        return viol(&format!("{cmd}: the header depends on the lines"), format!("{h1:?} {h2:?}"));
    }
    l1.extend(l2);
    want.extend(l1.concat());
    if want != got.stdout {
        return viol(&format!("{cmd}: lines are not handled independently"), format!("first {at} lines and the rest, against the whole: {}", differ(&want, &got.stdout)));
    }
    let n = l1.len();
    if cmd == "cut" && n != f.lines.len() {
        return viol("cut: number of lines", format!("{n} of {}", f.lines.len()));
    }
    if cmd == "cgrep" {
        // selection and inverse partition the lines, in order
        let mut inv = r.calm();
        if has(r, "-v") {
            // keep the positions of the operands
            let i = inv.args.iter().position(|a| a == "-v").unwrap();
            inv.args.remove(i);
        } else {
            inv.args.insert(1, "-v".into());
        }
        let (o3, g3) = fresh(w, c, &inv);
        sane2(&o3)?;
        let (h3, l3) = split_file(&g3.stdout);
        let (mut x, mut y) = (l1.iter().peekable(), l3.iter().peekable());
        let mut good = g3.status.ok() && h3 == h1;
        for l in &f.lines {
            if x.peek() == Some(&l) {
                x.next();
            } else if y.peek() == Some(&l) {
                y.next();
            } else {
                good = false;
            }
        }
        if !good || x.next().is_some() || y.next().is_some() {
            return viol("cgrep: selection and inverse do not partition", format!("{} and {} of {}", l1.len(), l3.len(), f.lines.len()));
        }
    }
    Ok(n > 0)
}
fn p15_gen(r: &mut Rng, _i: u64) -> Case {
    if r.pct(18) {
        return p15_opaque(r);
    }
    let which = *r.pick(&["cat", "catn", "cgrep", "cgrep", "cut", "cut", "paste", "paste", "uniq", "uniq", "join", "join", "join", "wc", "wc", "sample"]);
    let mut sh = shape(r);
    sh.ragged = false;
    let mut m = Cmd { name: which.to_string(), ..Cmd::default() };
    let mut a: Vec<String> = vec![if which == "catn" { "cat".into() } else { which.to_string() }];
    let mut nf = *r.pick(&[1usize, 2, 2, 3, 4, 5]);
    let mut jcols = [1, 1];
    match which {
        "cat" => {
            if r.pct(60) {
                a.extend(["-p".into(), (*r.pick(&["yes", "no", "end"])).into()]);
            }
        }
        "catn" => {
            match r.below(6) {
                0 => a.push("-b".into()),
                1 => a.push("-e".into()),
                2 => a.extend(["-n".into(), "num,5,end".into()]),
                3 => a.extend(["-n".into(), "num".into()]),
                4 => a.extend(["-n".into(), "num,-3".into()]),
                _ => {}
            }
            if a.len() == 1 || r.pct(40) {
                a.extend(["-r".into(), (*r.pick(&["empty", "prefix,a", "infix,b", "suffix,c"])).into()]);
            }
            if r.pct(40) {
                a.extend(["-s".into(), (*r.pick(&["empty", "prefix,b", "infix,ab"])).into()]);
            }
        }
        "cgrep" => {
            for _ in 0..r.range(1, 3) {
                a.extend(["-p".into(), pat(r, &sh)]);
            }
            for (f, p) in [("-v", 35), ("-o", 30)] {
                if r.pct(p) {
                    a.push(f.into());
                }
            }
            if r.pct(40) {
                a.extend(["-l".into(), (*r.pick(&["name,line,bytes", "line", "bytes,line", "name"])).into()]);
            }
        }
        "cut" => {
            for _ in 0..r.range(1, 3) {
                match r.below(10) {
                    0..=2 => a.extend(["-f".into(), some_col(r, &sh)]),
                    3 => {
                        let x = r.range(1, sh.cols);
                        let y = r.range(x, sh.cols);
                        a.extend(["-f".into(), if r.pct(50) { format!("{x}-{y}") } else { format!("{x}-") }]);
                    }
                    4 => a.extend(["-f".into(), format!("{},{}", some_col(r, &sh), some_col(r, &sh))]),
                    7..=9 => {
                        let mut v: Vec<String> = Vec::new();
                        for _ in 0..r.range(1, 3) {
                            let x = r.range(1, sh.cols);
                            let y = r.range(x, sh.cols);
                            let nm = |r: &mut Rng, k: usize| match r.below(4) {
                                0 => format!("+{}", sh.cols - k + 1),
                                1 if sh.header => COLS[k - 1].to_string(),
                                _ => k.to_string(),
                            };
                            let neg = if r.pct(50) { "~" } else { "" };
                            v.push(match r.below(4) {
                                0 => format!("{neg}{}", nm(r, x)),
                                1 => format!("{neg}{}-", nm(r, x)),
                                2 => format!("{neg}-{}", nm(r, y)),
                                _ => format!("{neg}{}-{}", nm(r, x), nm(r, y)),
                            });
                        }
                        a.push(format!("-f{}", v.join(",")));
                    }
                    5 => a.extend(["-g".into(), format!(".grp:{}-{}", 1, sh.cols)]),
                    6 if r.pct(50) => {
                        let mut vars: Vec<String> = (1..=sh.cols).map(|k| format!("c{k}")).collect();
                        vars.push(vars[vars.len().min(2) - 1].clone());
                        if sh.header {
                            vars.extend(COLS[..sh.cols].iter().map(|x| (*x).to_string()));
                        }
                        let x = r.range(1, sh.cols);
                        let e = if r.pct(15) { format!("{}([{x}-],{})", r.pick(&["max", "min", "avg"]), exprs::expr(r, &vars)) } else { exprs::expr(r, &vars) };
                        a.extend(["-e".into(), format!("ex:{e}")]);
                    }
                    _ => a.extend(["-c".into(), format!("comp:x^{{{}}}yz", some_col(r, &sh))]),
                }
            }
            a.extend(["-D".into(), "Allow".into()]);
        }
        "paste" => {
            a.extend(["-e".into(), (*r.pick(&["exact", "exact", "early", "late", "late"])).into()]);
            a.extend(["-D".into(), "Numeric".into()]);
            if r.pct(40) {
                a.extend(["-d".into(), "zzz".into()]);
                if r.pct(40) {
                    a.extend(["-d".into(), format!("{},{}", plain_word(r, 3, 3), r.pick(&["1", "2-", "+1", "1,+1", "~1"]))]);
                }
            }
            if r.pct(25) {
                a.push("-l".into());
            }
            nf = nf.max(2);
            sh.cols = sh.cols.max(2);
        }
        "uniq" => {
            nf = 1;
            for _ in 0..*r.pick(&[0usize, 1, 1, 1, 1, 1, 1, 2, 2, 3]) {
                let k = if r.pct(8) { String::new() } else { some_col(r, &sh) };
                let me = *r.pick(&["", "", "", ",lower", ",length", ",float"]);
                a.extend(["-k".into(), if k.is_empty() && me.is_empty() { ",plain".into() } else { format!("{k}{me}") }]);
            }
            if r.pct(60) {
                a.extend(["-c".into(), (*r.pick(&["", "cnt", "cnt,end", "cnt,begin", ",end"])).into()]);
            }
            match r.below(8) {
                0 => a.extend(["-w".into(), "last".into()]),
                1 => a.extend(["-w".into(), "first".into()]),
                2 => a.extend(["-w".into(), format!("max,{}{}", some_col(r, &sh), r.pick(&["", ",float", ",length", ",lower"]))]),
                3 => a.extend(["-w".into(), format!("min,{}{}", some_col(r, &sh), r.pick(&["", ",float", ",length", ",numeric"]))]),
                4 => a.extend(["-a".into(), format!("{},count", some_col(r, &sh))]),
                5 => a.extend(["--agg-post".into(), format!("ap,{},count", some_col(r, &sh))]),
                6 => a.extend(["--agg-pre".into(), format!("ap,{},count", some_col(r, &sh))]),
                _ => {}
            }
        }
        "join" => {
            nf = 2;
            sh.cols = sh.cols.max(1);
            jcols = [sh.cols, r.range(1, 5)];
            if r.pct(75) {
                for _ in 0..*r.pick(&[1usize, 1, 1, 2]) {
                    let (x, y) = (r.below(jcols[0]), r.below(jcols[1]));
                    let name = |r: &mut Rng, k: usize| if sh.header && r.pct(40) { COLS[k].to_string() } else { (k + 1).to_string() };
                    let mut k = if x == y && r.pct(70) { name(r, x) } else { format!("{}.{}", name(r, x), name(r, y)) };
                    k.push_str(r.pick(&["", "", "", ",lower", ",numeric", ",float", ",length"]));
                    a.extend(["-k".into(), k]);
                }
            }
            if r.pct(25) {
                let mut o: Vec<String> = Vec::new();
                for _ in 0..r.range(1, 3) {
                    let f = r.below(2);
                    let x = r.range(1, jcols[f]);
                    o.push(match r.below(4) {
                        0 => format!("{}.{x}-", f + 1),
                        1 => format!("{}.{x},{}", f + 1, r.range(1, jcols[f])),
                        2 if sh.header => format!("{}.{}", f + 1, COLS[x - 1]),
                        _ => format!("{}.{x}", f + 1),
                    });
                }
                a.extend(["-o".into(), o.join(",")]);
            }
            if r.pct(4) {
                nf = 3;
            }
            if r.pct(65) {
                a.extend(["-a".into(), "1,un1.out".into()]);
                m.outs.push("un1.out".into());
            }
            if r.pct(65) {
                a.extend(["-a".into(), "2,un2.out".into()]);
                m.outs.push("un2.out".into());
            }
            if r.pct(20) {
                a.extend(["-f".into(), "match.out".into()]);
                m.outs.push("match.out".into());
            }
        }
        "wc" => {
            if r.pct(25) {
                a.push("-C".into());
            }
            let mut o = vec!["-l", "-b", "-c", "-w"];
            r.shuffle(&mut o);
            for x in o.iter().take(r.below(4)) {
                a.push((*x).into());
            }
            if r.pct(30) {
                a.extend(["-t".into(), (*r.pick(&["yes", "no", "only", "maybe"])).into()]);
            }
            if r.pct(30) {
                a.extend(["-f".into(), (*r.pick(&["yes", "no", "yes,fname", "maybe"])).into()]);
            }
            if r.pct(30) {
                a.extend(["-h".into(), (*r.pick(&["yes", "no", "maybe"])).into()]);
            }
        }
        _ => match r.below(4) {
            0 => a.extend(["-r".into(), format!("{}-{}", r.range(1, 4), r.range(4, 40))]),
            1 => a.extend(["-r".into(), format!("1,{},{}-{}", r.range(2, 40), r.range(30, 60), r.range(60, 90))]),
            2 => {
                let mut s = r.range(1, 5).to_string();
                if r.pct(70) {
                    s.push_str(&format!(",{}", r.range(1, 6)));
                    if r.pct(70) {
                        s.push_str(&format!(",{}", r.range(4, 80)));
                    }
                }
                a.extend(["-f".into(), s]);
            }
            _ => a.extend(["-s".into(), r.range(1, 20).to_string()]),
        },
    }
    let mut names: Vec<String> = ["a.txt", "b.txt", "c.tsv", "dd", "e e.txt"].iter().map(|x| (*x).to_string()).collect();
    let many = matches!(which, "cat" | "catn" | "cgrep" | "cut" | "wc" | "sample" | "paste") && r.pct(2);
    if many {
        nf = r.range(6, 70);
        names.extend((5..nf).map(|i| format!("f{i}")));
    }
    let big = !many && r.pct(1);
    // more lines than sixteen bits count
    let crowd = !many && sh.cols < 7 && matches!(which, "cat" | "catn" | "cgrep" | "uniq" | "wc" | "sample") && r.below(400) == 0;
    let jrun = Run { args: a.clone(), ..Run::default() };
    let ragged = matches!(which, "cat" | "catn" | "sample" | "cgrep" | "cut") && r.pct(15);
    let vocab = *r.pick(&[1usize, 2, 4]);
    let most = if many { 500 } else { 30_000 };
    let sz0 = size(r).min(most);
    let mut rows0 = 0;
    let second = match which {
        "join" => jcols[1],
        "paste" => r.range(1, 5),
        _ => sh.cols,
    };
    for (i, n) in names.iter().enumerate().take(nf) {
        let s2 = Shape { cols: if i == 0 { sh.cols } else { second }, header: sh.header, ragged, weird: sh.weird };
        let target = match which {
            "paste" => sz0,
            "join" => size(r).min(most),
            _ if big && i == 0 => r.range(140_000, 300_000),
            _ => size(r).min(most),
        };
        let mut t = table(r, &s2, target);
        if i == 0 && crowd {
            let same = r.pct(50);
            t.rows = (0..r.range(65_530, 70_000)).map(|_| (0..s2.cols).map(|_| if same { "a".into() } else { plain_word(r, 1, 2) }).collect()).collect();
        }
        if matches!(which, "join" | "uniq") && !crowd {
            // few distinct keys, so that there are groups, matches and misses
            let f = Input { name: String::new(), head: None, names: COLS[..s2.cols].iter().map(|x| (*x).to_string()).collect(), lines: vec![], empty: false };
            let jk = join_keys(&jrun, &f, i.min(1));
            let kc: Vec<usize> = if which == "uniq" { vec![r.below(s2.cols)] } else { jk.iter().map(|k| k.0).collect() };
            for row in &mut t.rows {
                if r.pct(90) {
                    for k in &kc {
                        row[*k] = if r.pct(15) { r.below(12).to_string() } else { plain_word(r, vocab, 4) };
                        if r.pct(10) {
                            row[*k] = row[*k].to_uppercase();
                        }
                    }
                }
            }
            if which == "join" && r.pct(60) {
                t.rows.truncate(r.below(60));
            }
            if which == "join" {
                let lb = |row: &Vec<String>| row.join("\t").into_bytes();
                t.rows.sort_by(|x, y| join_cmp(&jk, &lb(x), &jk, &lb(y)));
            } else {
                t.rows.sort_by(|x, y| x[0].as_bytes().cmp(y[0].as_bytes()));
            }
        }
        if which == "paste" {
            if i == 0 {
                rows0 = t.rows.len();
            } else if r.pct(70) && !t.rows.is_empty() {
                let base = t.rows.clone();
                let mut n = 0;
                while t.rows.len() < rows0 && n < 60_000 {
                    n += base[t.rows.len() % base.len()].iter().map(String::len).sum::<usize>();
                    let x = base[t.rows.len() % base.len()].clone();
                    t.rows.push(x);
                }
                t.rows.truncate(rows0);
            }
        }
        let k = match r.below(40) {
            0 => 0,
            1 => 1,
            _ => 2,
        };
        if k < 2 {
            t.rows.clear();
        }
        let mut b = t.bytes();
        if k == 0 && which != "join" {
            b.clear();
        }
        m.files.push(((*n).to_string(), b));
    }
    // operands and sources
    m.args = a;
    let at = if r.pct(30) { Some(r.below(nf)) } else { None };
    if nf == 1 && at.is_some() && r.pct(50) {
        m.stdin = Some("a.txt".into());
    } else {
        for (i, n) in names.iter().enumerate().take(nf) {
            m.inputs.push(m.args.len());
            if at == Some(i) {
                m.args.push("-".into());
                m.stdin = Some(n.clone());
            } else {
                m.args.push(n.clone());
            }
        }
    }
    let seed = r.next() >> 1;
    let mut c = m.case("", seed);
    if r.pct(80) {
        frag_all(r, &mut c, 0, 80);
    }
    c
}
/// every cell that is a number, in one form
fn numbers(v: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(v.len());
    for l in v.split_inclusive(|b| *b == b'\n') {
        let body = l.strip_suffix(b"\n").unwrap_or(l);
        for (i, t) in body.split(|b| *b == b'\t').enumerate() {
            if i > 0 {
                out.push(b'\t');
            }
            match std::str::from_utf8(t).ok().and_then(|t| t.parse::<f64>().ok()) {
                Some(x) => out.extend_from_slice(format!("{x}").as_bytes()),
                None => out.extend_from_slice(t),
            }
        }
        if body.len() < l.len() {
            out.push(b'\n');
        }
    }
    out
}
fn p15_check(w: &mut World, c: &Case) -> Check {
    let r = &c.runs[0];
    if c.kv.contains_key("opaque") {
        return p15_opaque_check(w, c);
    }
    let ins = inputs(c, r);
    // a history in which shrinking broke the preconditions is not judged
    let rect = ins.iter().all(|f| f.lines.iter().all(|l| cols(l).len() == f.names.len()));
    let cmd = c.get("cmd");
    if !rect && !matches!(cmd, "cat" | "catn" | "sample" | "cgrep" | "cut") {
        return Ok(false);
    }
    // without a header the first line decides which columns there are
    if !rect && matches!(cmd, "cgrep" | "cut") && ins.iter().any(|f| f.head.is_none()) {
        return Ok(false);
    }
    let live: Vec<&Input> = ins.iter().filter(|f| !f.empty).collect();
    let same = live.windows(2).all(|p| p[0].head.is_some() == p[1].head.is_some());
    if cmd == "paste" && m_paste(c, r).is_none_or(|x| x.out.len() > 1 << 20) {
        return Ok(false); // more than the simulated storage records
    }
    let (o, got) = fresh(w, c, r);
    sane2(&o)?;
    if !same && cmd != "paste" && cmd != "join" {
        return Ok(false);
    }
    if cmd == "join" && (ins.iter().any(|f| f.empty) || ins.iter().any(|f| f.head.is_none() && f.lines.is_empty())) {
        return Ok(false);
    }
    if cmd == "join" {
        for (i, f) in ins.iter().enumerate().take(2) {
            let k = join_keys(r, f, i);
            if f.lines.windows(2).any(|p| join_cmp(&k, &p[0], &k, &p[1]) == Ordering::Greater) {
                return Ok(false);
            }
        }
        if ins.len() > 2 {
            if got.status.ok() && !ins[2].lines.is_empty() {
                return viol("join: a third file is ignored", format!("exit 0, {} lines of the third file neither joined nor unmatched", ins[2].lines.len()));
            }
            return Ok(false);
        }
    }
    // unknown columns because a file is empty
    if matches!(cmd, "cut" | "cgrep" | "uniq") && live.iter().any(|f| f.lines.is_empty() && f.head.is_none()) {
        return Ok(false);
    }
    let want = match cmd {
        "cat" => m_cat(c, r),
        "catn" => m_catn(c, r),
        "cgrep" => m_cgrep(c, r),
        "cut" => match m_cut(c, r) {
            Some(x) => x,
            None => return Ok(false),
        },
        "paste" => match m_paste(c, r) {
            Some(x) => x,
            None => return Ok(false),
        },
        "uniq" => m_uniq(c, r),
        "join" => m_join(c, r),
        "wc" => m_wc(c, r),
        _ => {
            if !got.status.ok() {
                return viol("sample: exit status", format!("{:?}; {}", got.status, o.err_text()));
            }
            m_sample(c, r, &got.stdout)?
        }
    };
    if want.ok != got.status.ok() {
        return viol(&format!("{cmd}: exit status"), format!("expected success {}, got {:?}; stderr {}", want.ok, got.status, o.err_text()));
    }
    // computed numbers may be written in any form that means the same number
    let numeric = cmd == "wc" || cmd == "uniq" && ["-a", "--agg-pre", "--agg-post"].iter().any(|x| has(r, x));
    let norm = |v: &[u8]| if numeric { numbers(v) } else { v.to_vec() };
    if norm(&want.out) != norm(&got.stdout) {
        return viol(&format!("{cmd}: records lost, repeated or altered"), differ(&want.out, &got.stdout));
    }
    for (i, f) in want.files.iter().enumerate() {
        let g = got.outs.get(i).cloned().flatten().unwrap_or_default();
        if *f != g {
            return viol(&format!("{cmd}: records lost, repeated or altered in an output file"), differ(f, &g));
        }
    }
    if cmd == "cgrep" && !has(r, "-l") {
        // selection and its inverse partition the lines
        let mut inv = r.calm();
        if has(r, "-v") {
            inv.args.retain(|a| a != "-v");
        } else {
            inv.args.insert(1, "-v".into());
        }
        let mut c2 = c.clone();
        if let Some(k) = c.kv.get("operands") {
            let d: i64 = if has(r, "-v") { -1 } else { 1 };
            let _ = (k, d);
        }
        c2.runs[0] = inv.clone();
        let (o3, g3) = fresh(w, c, &inv);
        sane2(&o3)?;
        let strip = |v: &[u8]| split_file(v).1.len();
        let all: usize = ins.iter().map(|f| f.lines.len()).sum();
        if g3.status.ok() && strip(&got.stdout) + strip(&g3.stdout) != all {
            return viol("cgrep: selection and inverse do not partition", format!("{} and {} of {all}", strip(&got.stdout), strip(&g3.stdout)));
        }
    }
    Ok(!want.out.is_empty())
}

// ------------------------------------------------------------------ P21
fn p21_gen(r: &mut Rng, _i: u64) -> Case {
    let which = *r.pick(&["cat", "cat", "catn", "catn", "cgrep", "cgrep", "cut", "cut", "sample", "sort", "merge", "merge", "binsearch"]);
    let mut m = Cmd { name: which.to_string(), ..Cmd::default() };
    let ncol = r.range(1, 4);
    let k = r.range(1, ncol);
    let mut a: Vec<String> = vec![match which {
        "catn" => "cat".into(),
        "merge" => "sort".into(),
        x => x.to_string(),
    }];
    match which {
        "cat" => {
            if r.pct(50) {
                a.extend(["-p".into(), (*r.pick(&["yes", "no", "end"])).into()]);
            }
        }
        "catn" => match r.below(3) {
            0 => a.push("-b".into()),
            1 => a.extend(["-n".into(), "num,5,end".into()]),
            _ => a.extend(["-r".into(), "prefix,zzz".into()]),
        },
        "cgrep" => {
            a.extend(["-p".into(), format!("{k},infix,{}", plain_word(r, 1, 3))]);
            if r.pct(50) {
                a.push("-v".into());
            }
        }
        "cut" => {
            let v: Vec<String> = (0..r.range(1, 3)).map(|_| r.range(1, ncol).to_string()).collect();
            a.extend(["-f".into(), v.join(","), "-D".into(), "Allow".into()]);
        }
        "sample" => a.extend(["-r".into(), format!("1-{}", r.range(2, 60))]),
        "binsearch" => {
            a.extend(["-k".into(), k.to_string(), plain_word(r, 2, 3)]);
        }
        _ => {
            if which == "merge" {
                a.push("-m".into());
            }
            a.extend(["-k".into(), k.to_string()]);
            if r.pct(30) {
                a.push("-u".into());
            }
            if r.pct(30) {
                a.push((*r.pick(&["-a", "-A"])).into());
            }
        }
    }
    // headers without a mark: the first line of every file
    let unmarked = matches!(which, "cat" | "catn" | "cgrep" | "cut" | "sample") && r.pct(30);
    if unmarked {
        a.extend(["--text-in".into(), "yt".into()]);
    }
    m.args = a;
    let base = unmarked || r.pct(65);
    let calm = r.pct(45);
    let nf = if r.pct(2) { r.range(6, 40) } else { *r.pick(&[2usize, 2, 2, 3, 4, 5]) };
    let vocab = *r.pick(&[1usize, 2, 4]);
    for i in 0..nf {
        let mut names: Vec<String> = COLS[..ncol].iter().map(|x| (*x).to_string()).collect();
        let mut head = base;
        match r.below(12) {
            0..=1 if !calm && !unmarked => head = !head,
            2 if !calm => {
                let x = r.below(ncol);
                names[x] = "other".into();
            }
            3 if !calm && ncol > 1 => names.rotate_left(1),
            4 if !calm => names.push("more".into()),
            5 if !calm => names[ncol - 1].push_str(r.pick(&["_", "x"])),
            6 if !calm => {
                // nearly the same name
                let x = r.below(ncol);
                let mut v: Vec<char> = names[x].chars().collect();
                let at = r.below(v.len());
                match r.below(4) {
                    0 => v[at] = v[at].to_ascii_uppercase(),
                    1 => v[at] = 'q',
                    2 if v.len() > 1 => {
                        v.remove(at);
                    }
                    _ => {
                        let y = v[0];
                        v[0] = v[v.len() - 1];
                        let z = v.len() - 1;
                        v[z] = y;
                    }
                }
                names[x] = v.into_iter().collect();
            }
            7 if !calm && ncol > 1 && k < ncol && which != "cut" => {
                names.pop();
            }
            _ => {}
        }
        let mut rows: Vec<Vec<String>> = Vec::new();
        for _ in 0..match r.below(6) {
            0 => 0,
            1 => 1,
            2..=3 => r.below(12),
            _ if nf > 5 => r.below(30),
            4 => r.below(80),
            _ => r.below(900),
        } {
            rows.push(names.iter().map(|_| plain_word(r, vocab, 3)).collect());
        }
        if matches!(which, "merge" | "binsearch") {
            rows.sort_by(|x, y| x[k - 1].as_bytes().cmp(y[k - 1].as_bytes()));
        } else if r.pct(25) && rows.len() > 1 {
            // looks like a header, but is not in the first place
            let at = r.range(1, rows.len() - 1);
            rows[at][0] = " CDX".into();
        }
        let t = Table { header: head.then_some(names), rows, final_newline: !r.pct(20) };
        let mut b = t.bytes();
        if unmarked {
            b = b.strip_prefix(b" CDX\t").unwrap_or(&b).to_vec();
        }
        if r.pct(10) {
            b.clear();
        }
        let n = ["a.txt", "b.txt", "c.tsv", "dd", "e e.txt"].get(i).map_or_else(|| format!("f{i}"), |n| (*n).to_string());
        m.files.push((n, b));
    }
    let at = if which != "binsearch" && r.pct(30) { Some(r.below(nf)) } else { None };
    for i in 0..nf {
        m.inputs.push(m.args.len());
        let n = m.files[i].0.clone();
        if at == Some(i) {
            m.args.push("-".into());
            m.stdin = Some(n);
        } else {
            m.args.push(n);
        }
    }
    let seed = r.next() >> 1;
    let mut c = m.case("", seed);
    if r.pct(70) {
        frag_all(r, &mut c, 0, 80);
    }
    c
}
fn p21_check(w: &mut World, c: &Case) -> Check {
    let r = &c.runs[0];
    let cmd = c.get("cmd");
    let unmarked = opt(r, "--text-in") == Some("yt");
    let ins = if unmarked {
        // the same files with the mark, to be read by the reference
        let mut m = c.clone();
        for f in &mut m.files {
            if !f.1.is_empty() {
                f.1 = [b" CDX\t", &f.1[..]].concat();
            }
        }
        inputs(&m, r)
    } else {
        inputs(c, r)
    };
    let mark: &[u8] = if unmarked { b" CDX\t" } else { b"" };
    let live: Vec<&Input> = ins.iter().filter(|f| !f.empty).collect();
    if ins.len() < 2 || live.iter().any(|f| f.lines.first().is_some_and(|l| l.starts_with(b" CDX"))) {
        return Ok(false);
    }
    // shrinking may have spoilt what the command asks of its input
    if live.iter().any(|f| f.names.is_empty() || f.lines.iter().any(|l| cols(l).len() != f.names.len())) {
        return Ok(false);
    }
    if let Some(k) = opt(r, "-k").and_then(|k| k.parse::<usize>().ok()) {
        let sorted = |f: &&Input| f.lines.windows(2).all(|p| cell(&p[0], k - 1) <= cell(&p[1], k - 1));
        if matches!(cmd, "merge" | "binsearch") && !live.iter().all(sorted) {
            return Ok(false);
        }
    }
    // the header the output must have if this were the only file
    let out_head = |f: &Input| -> Option<Row> {
        f.head.as_ref()?;
        let mut n = f.names.clone();
        match cmd {
            "cut" => n = opt(r, "-f").unwrap().split(',').map(|x| f.names.get(x.parse::<usize>().unwrap() - 1).cloned().unwrap_or_default()).collect(),
            "catn" => {
                if has(r, "-b") {
                    n.insert(0, "number".into());
                } else if has(r, "-n") {
                    n.push("num".into());
                }
            }
            _ => {}
        }
        Some(header(&n)[mark.len()..].to_vec())
    };
    let heads: Vec<Option<Row>> = live.iter().map(|f| out_head(f)).collect();
    let odd = ins.iter().position(|f| !f.empty && out_head(f) != heads[0]);
    let (o, got) = fresh(w, c, r);
    sane2(&o)?;
    match odd {
        Some(i) => {
            if got.status.ok() {
                return viol(&format!("{cmd}: files with different headers combined"), format!("file {} of {} does not go with the first, but exit 0: {}", i + 1, ins.len(), show(&got.stdout)));
            }
            if got.status != Status::Exit(1) || o.stderr.is_empty() {
                return viol(&format!("{cmd}: different headers not reported properly"), format!("{:?} {}", got.status, o.err_text()));
            }
            // what is already written comes from the files before
            let before = without(c, i);
            let (o2, g2) = fresh(w, &before, &before.runs[0].calm());
            sane2(&o2)?;
            if i > 0 && !g2.stdout.starts_with(&got.stdout) {
                return viol(&format!("{cmd}: output before a rejected file"), differ(&g2.stdout, &got.stdout));
            }
            w.stats.probe("rejected");
            Ok(true)
        }
        None => {
            if !got.status.ok() {
                return viol(&format!("{cmd}: files that go together rejected"), format!("{:?} {}", got.status, o.err_text()));
            }
            let mut want = heads.first().cloned().flatten().unwrap_or_default();
            let mut c2 = c.clone();
            for f in &mut c2.files {
                if unmarked {
                    let k = f.1.iter().position(|b| *b == b'\n').map_or(f.1.len(), |x| x + 1);
                    f.1.drain(..k);
                } else if let (Some(h), _) = split_file(&f.1) {
                    f.1 = f.1[h.len()..].to_vec();
                }
            }
            for a in &mut c2.runs[0].args {
                if a == "yt" {
                    *a = "nt".into();
                }
            }
            let (o2, g2) = fresh(w, &c2, &c2.runs[0].calm());
            sane2(&o2)?;
            if !g2.status.ok() {
                return viol(&format!("{cmd}: files that go together rejected"), format!("without headers {:?} {}", g2.status, o2.err_text()));
            }
            want.extend_from_slice(&g2.stdout);
            if want != got.stdout {
                return viol(&format!("{cmd}: header lost, repeated or among the data"), differ(&want, &got.stdout));
            }
            Ok(live.len() > 1)
        }
    }
}
/// the same case with only the first `n` operands
fn without(c: &Case, n: usize) -> Case {
    let mut c = c.clone();
    let at: Vec<usize> = c.list("operands").iter().filter_map(|x| x.parse().ok()).collect();
    if let Some(k) = at.get(n) {
        c.runs[0].args.truncate(*k);
        c.set_list("operands", &at[..n].iter().map(|x| x.to_string()).collect::<Vec<_>>());
    }
    c
}

// ------------------------------------------------------------------ history prefix oracle
/// what had been delivered from each input and written to each output before log entry `k`
fn state_before(o: &Out, k: usize) -> (BTreeMap<Ch, i64>, BTreeMap<Ch, i64>) {
    let mut rd = BTreeMap::new();
    let mut wr = BTreeMap::new();
    for e in &o.log[..k] {
        if e.err != 0 || e.len <= 0 {
            continue;
        }
        if let Some(Some(ch)) = o.chname.get(e.chan as usize) {
            match e.op as i32 {
                OP_READ => *rd.entry(ch.clone()).or_insert(0) += e.len,
                OP_WRITE => *wr.entry(ch.clone()).or_insert(0) += e.len,
                _ => {}
            }
        }
    }
    (rd, wr)
}
use std::collections::BTreeMap;
/// the case with every input cut to the complete lines delivered so far
fn prefix_case(c: &Case, rd: &BTreeMap<Ch, i64>, done: &[String]) -> Case {
    let mut d = c.clone();
    for (n, b) in &mut d.files {
        if done.contains(n) {
            continue;
        }
        let k = rd.get(&chan_of(&c.runs[0], n)).copied().unwrap_or(0) as usize;
        let k = k.min(b.len());
        let end = b[..k].iter().rposition(|x| *x == b'\n').map_or(0, |p| p + 1);
        b.truncate(end);
    }
    d
}
fn lcp(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).take_while(|x| x.0 == x.1).count()
}
/// log entries that are reads of an input
fn read_events(o: &Out) -> Vec<usize> {
    (0..o.log.len())
        .filter(|k| {
            let e = &o.log[*k];
            e.op as i32 == OP_READ && (e.chan as i32 == CH_STDIN || e.chan as i32 >= CH_FIRST)
        })
        .collect()
}

// ------------------------------------------------------------------ P12
fn p12_gen(r: &mut Rng, _i: u64) -> Case {
    let mut m = Cmd { name: "calc".into(), ..Cmd::default() };
    m.args.push("calc".into());
    if r.pct(15) {
        m.args.extend([(*r.pick(&["-f", "--fmt"])).to_string(), (*r.pick(&exprs::FORMATS)).to_string()]);
    }
    let nf = if r.pct(70) { 1 } else { r.range(2, 3) };
    let fmt = r.pct(20);
    for i in 0..nf {
        let mut b = Vec::new();
        let n = match r.below(10) {
            0 => 0,
            1 => r.range(200, 1500),
            2..=4 => r.range(10, 80),
            _ => r.range(1, 10),
        };
        for _ in 0..n {
            if fmt && r.pct(15) {
                let e = match r.below(3) {
                    0 => exprs::expr(r, &[]),
                    1 => ((r.next() >> r.below(60)) as i64).to_string(),
                    _ => r.below(5000).to_string(),
                };
                b.extend_from_slice(format!("{},{e}\n", r.pick(&exprs::FORMATS)).as_bytes());
                continue;
            }
            let e = if r.pct(10) { (*r.pick(&exprs::BAD)).to_string() } else { exprs::expr(r, &[]) };
            b.extend_from_slice(e.as_bytes());
            b.push(b'\n');
        }
        if r.pct(15) {
            b.pop();
        }
        m.files.push((["a.txt", "b.txt", "dd"][i].to_string(), b));
    }
    let at = r.below(nf);
    if nf == 1 && r.pct(60) {
        m.stdin = Some("a.txt".into());
    } else {
        for i in 0..nf {
            m.inputs.push(m.args.len());
            if i == at {
                m.args.push("-".into());
                m.stdin = Some(m.files[i].0.clone());
            } else {
                m.args.push(m.files[i].0.clone());
            }
        }
    }
    let seed = r.next() >> 1;
    let mut c = m.case("", seed);
    c.set("at1", r.below(1_000_001));
    c.set("at2", r.below(1_000_001));
    frag_all(r, &mut c, 0, 90);
    if r.pct(30) {
        let f = frag(r, 400);
        c.runs[0].frags.push((Ch::Stdout, f));
    }
    c
}
fn p12_check(w: &mut World, c: &Case) -> Check {
    let r = &c.runs[0];
    let (o, got) = fresh(w, c, r);
    sane2(&o)?;
    if !got.status.ok() {
        return viol("calculator fails", format!("{:?}; stderr {}", got.status, o.err_text()));
    }
    let files = operands(c, r);
    // a format holds for its line and the following ones
    let mut fmt = "short".to_string();
    if let Some(i) = r.args.iter().position(|a| a == "-f" || a == "--fmt") {
        fmt.clone_from(&r.args[i + 1]);
    }
    let mut want: Vec<(f64, String)> = Vec::new();
    let mut bad = 0;
    for n in &files {
        for l in String::from_utf8_lossy(c.file(n)).lines() {
            let mut l = l;
            if let Some((a, b)) = l.split_once(',') {
                if exprs::FORMATS.contains(&a) {
                    fmt = a.to_string();
                    l = b;
                }
            }
            match exprs::eval(l, &|_| None) {
                Some(v) => want.push((v, fmt.clone())),
                None if exprs::BAD.contains(&l) => bad += 1,
                None => return Ok(false), // not judged here, or left by shrinking
            }
        }
    }
    let text = String::from_utf8_lossy(&got.stdout).to_string();
    let have: Vec<&str> = text.lines().collect();
    if have.len() != want.len() {
        return viol("results", format!("{} results for {} valid expressions; {}", have.len(), want.len(), o.err_text()));
    }
    if let Some(k) = (0..want.len()).find(|k| !exprs::shows(have[*k], want[*k].0, &want[*k].1)) {
        return viol("value of an expression", format!("result {} is {} instead of {} as {}", k + 1, have[k], want[k].0, want[k].1));
    }
    if bad > 0 && o.stderr.is_empty() {
        return viol("no diagnostic for an invalid line", format!("{bad} invalid lines"));
    }
    // at a moment when it waits for input, everything received so far has been answered
    let evs = read_events(&o);
    if o.log_full || evs.is_empty() {
        return Ok(false);
    }
    let mut worth = false;
    for k in ["at1", "at2"] {
        let e = evs[(evs.len() - 1) * c.num(k) as usize / 1_000_000];
        let (rd, wr) = state_before(&o, e);
        // files before the one being read are complete
        let cur = o.chname[o.log[e].chan as usize].clone().unwrap();
        let mut done = Vec::new();
        for n in &files {
            if chan_of(r, n) == cur {
                break;
            }
            done.push(n.clone());
        }
        let p = prefix_case(c, &rd, &done);
        let (o2, part) = fresh(w, &p, &r.calm());
        sane2(&o2)?;
        let have = wr.get(&Ch::Stdout).copied().unwrap_or(0) as usize;
        let need = part.stdout.len();
        if !got.stdout.starts_with(&part.stdout) {
            return viol("answers depend on later input", differ(&part.stdout, &got.stdout));
        }
        if have < need {
            return viol("waits for input before answering", format!("{have} of {need} bytes of results written when it asked for more input"));
        }
        worth |= need > 0;
    }
    Ok(worth)
}

// ------------------------------------------------------------------ P13
fn p13_gen(r: &mut Rng, _i: u64) -> Case {
    let kind = r.below(10);
    let (mut c, cmd) = if kind < 5 {
        let (m, c) = cmd_case(r, Want { cap: 20_000, ..Want::default() });
        (c, m.name)
    } else if kind < 8 {
        let mut m = Cmd { name: "filegen".into(), ..Cmd::default() };
        m.args.push("filegen".into());
        let n = match r.below(10) {
            0 => 0,
            1 => r.range(500, 3000),
            _ => r.range(1, 60),
        };
        if r.pct(90) {
            m.args.extend(["-n".into(), n.to_string()]);
        }
        for _ in 0..r.below(5) {
            let g = (*r.pick(&[
                "grid", "count", "count,7", "count,-2", "null", "decimal", "decimal,-NNN", "decimal,NN.NNN", "decimal,-N.N", "decimal,NNNNN", "normal", "normal,5,2", "normal,0,1,plain", "expr,line+col", "expr,line*100",
            ]))
            .to_string();
            if r.pct(25) {
                m.args.extend(["-m".into(), format!("{},{g}", r.range(1, 4))]);
            } else {
                m.args.extend(["-c".into(), g]);
            }
        }
        if r.pct(50) {
            m.args.push("-h".into());
        }
        let seed = r.next() >> 1;
        (m.case("", seed), "random-filegen".to_string())
    } else {
        let mut m = Cmd { name: "sort".into(), ..Cmd::default() };
        let sh = Shape { cols: r.range(1, 3), header: r.pct(50), ragged: false, weird: r.pct(30) };
        m.args.push("sort".into());
        if r.pct(30) {
            m.args.extend(["-k".into(), "1".into()]);
        }
        let rnd = *r.pick(&[",random", "1,random", ",random.rev"]);
        m.args.extend(["-k".into(), rnd.into()]);
        for i in 0..r.range(1, 2) {
            let n = ["a.txt", "b.txt"][i];
            let s = size(r).min(8000);
            let mut b = table(r, &sh, s).bytes();
            if b.is_empty() && sh.header {
                b = b"".to_vec();
            }
            m.files.push((n.into(), b));
            m.inputs.push(m.args.len());
            m.args.push(n.into());
        }
        if r.pct(50) {
            m.env.push(format!("CDX_SIM_SORT_BUDGET={}", r.pick(&[400usize, 2000, 8000])));
        }
        let seed = r.next() >> 1;
        (m.case("", seed), "random-sort".to_string())
    };
    if cmd == "filegen" {
        // random data has cases of its own
        for x in &mut c.runs[0].args {
            if x.starts_with("decimal") || x.starts_with("normal") {
                *x = "grid".into();
            }
        }
    }
    c.set("cmd", &cmd);
    for k in 0..2 {
        let mut run = c.runs[0].clone();
        run.rand_seed = r.next() >> 1;
        run.pid = r.range(2, 4_000_000) as i32;
        run.clock = [
            *r.pick(&[0i64, 1, 1_000_000, 1_700_000_000_000_000, 4_102_444_800_000_000, 1_600_000_000_123_456]),
            *r.pick(&[0i64, 1, 10, 50_000]),
            *r.pick(&[0i64, 2, 5]),
            *r.pick(&[0i64, -3_600_000_000, 86_400_000_000, -1_000]),
        ];
        if !matches!(cmd.as_str(), "tabs") {
            run.rows = *r.pick(&[0, 24, 1, 400]);
            run.cols = *r.pick(&[0, 80, 1, 500]);
        }
        let _ = k;
        c.runs.push(run);
    }
    c
}
fn shape_ok(args: &[String], out: &[u8]) -> Result<(), Viol> {
    let mut gens: Vec<String> = Vec::new();
    let mut n = 10usize;
    let mut head = false;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "-n" => {
                n = args[i + 1].parse().unwrap();
                i += 1;
            }
            "-c" => {
                gens.push(args[i + 1].clone());
                i += 1;
            }
            "-m" => {
                let (a, b) = args[i + 1].split_once(',').unwrap();
                for _ in 0..a.parse::<usize>().unwrap() {
                    gens.push(b.to_string());
                }
                i += 1;
            }
            "-h" => head = true,
            _ => {}
        }
        i += 1;
    }
    if gens.is_empty() {
        gens.push("grid".into());
    }
    let mut lines: Vec<&[u8]> = out.split_inclusive(|b| *b == b'\n').collect();
    if head {
        let want = header(&(1..=gens.len()).map(|k| format!("c{k}")).collect::<Vec<_>>());
        if lines.first() != Some(&want.as_slice()) {
            return viol("generated header", show(out));
        }
        lines.remove(0);
    }
    if lines.len() != n {
        return viol("generated number of lines", format!("{} instead of {n}", lines.len()));
    }
    for (k, l) in lines.iter().enumerate() {
        if l.last() != Some(&b'\n') {
            return viol("generated line without end", show(l));
        }
        let v = cols(l);
        if v.len() != gens.len() {
            return viol("generated number of columns", format!("{} instead of {}: {}", v.len(), gens.len(), show(l)));
        }
        for (j, g) in gens.iter().enumerate() {
            let t = String::from_utf8_lossy(v[j]).to_string();
            let (kind, p) = g.split_once(',').unwrap_or((g, ""));
            let good = match kind {
                "grid" => t == format!("{}_{}", k + 1, j + 1),
                "null" => t.is_empty(),
                "count" => t == (k as i64 + p.parse::<i64>().unwrap_or(0)).to_string(),
                "expr" => t.parse::<f64>().ok() == Some(if p == "line+col" { k + j + 2 } else { (k + 1) * 100 } as f64),
                "normal" => t.parse::<f64>().is_ok_and(|x| x.is_finite() && x.abs() < 1000.0),
                "decimal" => {
                    let neg = p.starts_with('-');
                    let p = p.trim_start_matches('-');
                    let p = if p.is_empty() { "NNNN" } else { p };
                    let (a, b) = p.split_once('.').unwrap_or((p, ""));
                    let body = if neg { t.strip_prefix('-').unwrap_or(&t) } else { &t };
                    let (x, y) = body.split_once('.').unwrap_or((body, ""));
                    let dig = |s: &str| !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit());
                    dig(x) && x.len() <= a.len() && (if b.is_empty() { y.is_empty() && !body.contains('.') } else { dig(y) && y.len() == b.len() })
                }
                _ => true,
            };
            if !good {
                return viol("generated value", format!("column {} of line {}: '{t}' for {g}", j + 1, k + 1));
            }
        }
    }
    Ok(())
}
fn p13_check(w: &mut World, c: &Case) -> Check {
    let cmd = c.get("cmd").to_string();
    let (o, base) = fresh(w, c, &c.runs[0]);
    sane(&o)?;
    for (k, r) in c.runs.iter().enumerate() {
        let (o2, got) = if k == 0 { (o.clone(), base.clone()) } else { fresh(w, c, r) };
        sane2(&o2)?;
        match cmd.as_str() {
            "random-filegen" => {
                if !got.status.ok() {
                    return viol("generator fails", format!("{:?}; {}", got.status, o2.err_text()));
                }
                shape_ok(&r.args, &got.stdout)?;
            }
            "random-sort" => {
                if !got.status.ok() {
                    return viol("random order fails", format!("{:?}; {}", got.status, o2.err_text()));
                }
                let ins = inputs(c, r);
                let mut all: Vec<Row> = ins.iter().flat_map(|f| f.lines.clone()).collect();
                let (h, mut l) = split_file(&got.stdout);
                let want = ins.iter().find_map(|f| f.head.clone());
                if h != want {
                    return viol("random order: header", show(&got.stdout));
                }
                if opt_values(&r.args, "-k").len() > 1 && !l.windows(2).all(|p| cell(&p[0], 0) <= cell(&p[1], 0)) {
                    return viol("random order: first key", show(&got.stdout));
                }
                all.sort();
                l.sort();
                if all != l {
                    return viol("random order is not a permutation", format!("{} lines became {}", all.len(), l.len()));
                }
            }
            _ => {
                compare("result depends on randomness, clock, process id or terminal", &base, &got, &o2)?;
            }
        }
    }
    Ok(!base.stdout.is_empty())
}

// ------------------------------------------------------------------ P17
const LAG: usize = 65_536;
fn big_table(r: &mut Rng, sh: &Shape, target: usize, keys: bool) -> Vec<u8> {
    let mut t = Table { header: sh.header.then(|| COLS[..sh.cols].iter().map(|x| (*x).to_string()).collect()), rows: vec![], final_newline: true };
    let mut n = 0;
    let mut k = 0;
    let w = r.range(3, 30);
    while n < target {
        let mut row = Vec::new();
        for j in 0..sh.cols {
            if j == 0 && keys {
                if r.pct(70) {
                    k += 1;
                }
                row.push(format!("k{k:07}"));
            } else {
                row.push(plain_word(r, w, 4));
            }
        }
        n += row.iter().map(|x| x.len() + 1).sum::<usize>();
        t.rows.push(row);
    }
    t.bytes()
}
fn p17_gen(r: &mut Rng, _i: u64) -> Case {
    let early = r.pct(40);
    let which = if early { *r.pick(&["sample", "sample", "transpose", "paste"]) } else { *r.pick(&["cat", "catn", "cgrep", "cut", "uniq", "paste", "join"]) };
    let sh = Shape { cols: r.range(2, 4), header: r.pct(50), ragged: false, weird: false };
    let mut m = Cmd { name: which.into(), ..Cmd::default() };
    m.args.push(if which == "catn" { "cat".into() } else { which.to_string() });
    let mut nf = 1;
    match which {
        "catn" => m.args.push((*r.pick(&["-b", "-e"])).into()),
        "cat" => nf = r.range(1, 2),
        "cgrep" => {
            m.args.extend(["-p".into(), format!("2,not.prefix,{}", plain_word(r, 2, 4))]);
            nf = r.range(1, 2);
        }
        "cut" => m.args.extend(["-f".into(), "1-".into()]),
        "uniq" => {
            m.args.extend(["-k".into(), "1".into()]);
            if r.pct(50) {
                m.args.extend(["-c".into(), "cnt".into()]);
            }
        }
        "paste" => {
            nf = 2;
            m.args.extend(["-D".into(), "Numeric".into(), "-e".into(), if early { "early" } else { "late" }.into()]);
        }
        "join" => {
            nf = 2;
            m.args.push("-k1".into());
            if r.pct(60) {
                m.args.extend(["-a".into(), "1,un1.out".into()]);
                m.outs.push("un1.out".into());
            }
            if r.pct(40) {
                m.args.extend(["-a".into(), "2,un2.out".into()]);
                m.outs.push("un2.out".into());
            }
        }
        "sample" => {
            if r.pct(50) {
                m.args.extend(["-r".into(), format!("{}-{}", r.range(1, 5), r.range(5, 400))]);
            } else {
                m.args.extend(["-f".into(), format!("{},{},{}", r.range(1, 5), r.range(1, 5), r.range(5, 400))]);
            }
        }
        _ => m.args.extend(["-n".into(), r.range(1, 60).to_string()]),
    }
    for i in 0..nf {
        let target = if early && which == "paste" && i == 0 { r.below(5000) } else { r.range(110_000, 260_000) };
        let keys = matches!(which, "uniq" | "join");
        m.files.push((["a.txt", "b.txt"][i].into(), big_table(r, &sh, target, keys)));
    }
    if early && which == "paste" && r.pct(50) {
        m.files.swap(0, 1);
        let (a, b) = (m.files[0].0.clone(), m.files[1].0.clone());
        m.files[0].0 = b;
        m.files[1].0 = a;
    }
    let at = if r.pct(50) { Some(r.below(nf)) } else { None };
    for i in 0..nf {
        let n = ["a.txt", "b.txt"][i];
        m.inputs.push(m.args.len());
        if at == Some(i) {
            m.args.push("-".into());
            m.stdin = Some(n.into());
        } else {
            m.args.push(n.into());
        }
    }
    let seed = r.next() >> 1;
    let mut c = m.case("", seed);
    c.set("mode", if early { "early" } else { "lag" });
    c.set("at1", r.range(500_000, 1_000_000));
    c.set("at2", 1_000_000);
    for n in ["a.txt", "b.txt"].iter().take(nf) {
        if r.pct(60) {
            let f = frag(r, 200_000);
            let ch = chan_of(&c.runs[0], n);
            c.runs[0].frags.push((ch, f));
        }
    }
    c
}
/// bytes of `data` up to the end of data line `n`
fn through_line(data: &[u8], n: usize) -> usize {
    let (h, l) = split_file(data);
    h.map_or(0, |x| x.len()) + l.iter().take(n).map(Vec::len).sum::<usize>()
}
fn p17_check(w: &mut World, c: &Case) -> Check {
    let r = &c.runs[0];
    let (o, got) = fresh(w, c, r);
    sane2(&o)?;
    if !got.status.ok() {
        return viol("fails", format!("{:?}; {}", got.status, o.err_text()));
    }
    let files = operands(c, r);
    if c.get("mode") == "early" {
        let mut worth = false;
        let need: Vec<usize> = match c.get("cmd") {
            "sample" => {
                let n: usize = match opt(r, "-r") {
                    Some(x) => x.split_once('-').unwrap().1.parse().unwrap(),
                    None => opt(r, "-f").unwrap().split(',').nth(2).unwrap().parse().unwrap(),
                };
                files.iter().map(|f| through_line(c.file(f), n)).collect()
            }
            "transpose" => vec![through_line(c.file(&files[0]), opt(r, "-n").unwrap().parse().unwrap())],
            _ => {
                let n = files.iter().map(|f| split_file(c.file(f)).1.len()).min().unwrap();
                files.iter().map(|f| through_line(c.file(f), n)).collect()
            }
        };
        for (f, k) in files.iter().zip(need) {
            let got = o.chan(&chan_of(r, f)).bytes_r as usize;
            let len = c.file(f).len();
            if got > k + LAG {
                return viol("reads on after the last line it needs", format!("{got} bytes of {f} read, {k} needed, {len} there"));
            }
            worth |= len > k + LAG;
        }
        return Ok(worth);
    }
    let evs = read_events(&o);
    if o.log_full || evs.is_empty() {
        return Ok(false);
    }
    let mut worth = false;
    for k in ["at1", "at2"] {
        let e = evs[(evs.len() - 1) * c.num(k) as usize / 1_000_000];
        let (rd, wr) = state_before(&o, e);
        let p = prefix_case(c, &rd, &[]);
        let (o2, part) = fresh(w, &p, &r.calm());
        sane2(&o2)?;
        let mut pairs = vec![(Ch::Stdout, got.stdout.clone(), part.stdout.clone())];
        for (i, n) in c.list("outs").into_iter().enumerate() {
            pairs.push((Ch::File(n), got.outs[i].clone().unwrap_or_default(), part.outs[i].clone().unwrap_or_default()));
        }
        for (ch, full, part) in pairs {
            let need = lcp(&full, &part);
            let have = wr.get(&ch).copied().unwrap_or(0) as usize;
            if have + LAG < need {
                return viol("output does not keep up with input", format!("{}: {have} bytes written when {need} were determined by the input received", ch.text()));
            }
            worth |= need > LAG;
        }
    }
    Ok(worth)
}
