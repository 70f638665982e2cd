//! Text formats: delimiters, quotes and backslashes.
use super::records::{has, opt};
use super::*;

pub fn all() -> Vec<Prop> {
    vec![Prop {
        id: "P23",
        gen: p23_gen,
        check: p23_check,
        quick: 70_000,
        thorough: 2_800_000,
        rule: "Random cells holding delimiters, newlines, quotes and backslashes, encoded plainly, with quotes or with backslashes under several delimiters and header modes, delivered in random pieces (records with embedded newlines cut anywhere), through cut, cgrep, uniq, sample, cat, paste and wc; the output is decoded by an independent decoder and compared with the values, and commands that only select lines must write them as they were.",
        shrink_files: true,
        real: REAL,
        stub: STUB,
    }]
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Fmt {
    head: u8,
    delim: u8,
    quote: u8,
    repl: u8,
}
impl Fmt {
    fn parse(s: &str) -> Self {
        let b = s.as_bytes();
        let esc = |x: u8| match x {
            b't' => b'\t',
            b's' => b' ',
            x => x,
        };
        Self {
            head: *b.first().unwrap_or(&b'm'),
            delim: b.get(1).map_or(b'\t', |x| esc(*x)),
            quote: *b.get(2).unwrap_or(&b'p'),
            repl: b.get(3).map_or(b' ', |x| esc(*x)),
        }
    }
}
type Cell = Vec<u8>;
/// one record as written in the file, with its newline, and its values
#[derive(Clone, Debug)]
struct Rec {
    raw: Vec<u8>,
    cells: Vec<Cell>,
}

fn encode(r: &mut Rng, f: &Fmt, v: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    match f.quote {
        b'p' => o.extend(v.iter().filter(|b| **b != f.delim && **b != b'\n')),
        b'b' => {
            for &b in v {
                let e = match b {
                    b'\n' => b'n',
                    b'\t' => b't',
                    b'\r' => b'r',
                    x => x,
                };
                if b == b'\n' || b == f.delim || b == b'\\' || (e != b && r.pct(40)) || (!b.is_ascii_alphanumeric() && r.pct(10)) {
                    o.extend([b'\\', e]);
                } else {
                    o.push(b);
                }
            }
        }
        _ => {
            let need = v.iter().any(|b| *b == f.delim || *b == b'\n' || *b == b'"');
            // a quote inside a bare value may also be doubled
            if need && v.first().is_some_and(|b| *b != b'"') && !v.iter().any(|b| *b == f.delim || *b == b'\n') && r.pct(30) {
                for &b in v {
                    o.push(b);
                    if b == b'"' {
                        o.push(b);
                    }
                }
            } else if need || r.pct(15) {
                o.push(b'"');
                for &b in v {
                    o.push(b);
                    if b == b'"' {
                        o.push(b);
                    }
                }
                o.push(b'"');
            } else {
                o.extend(v);
            }
        }
    }
    o
}
/// records of `data`; `None` if it is not well formed
fn decode(f: &Fmt, data: &[u8]) -> Option<Vec<Rec>> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < data.len() {
        let from = i;
        let mut cells: Vec<Cell> = vec![vec![]];
        loop {
            // one cell
            let quoted = f.quote == b'q' && data.get(i) == Some(&b'"');
            if quoted {
                i += 1;
                loop {
                    match data.get(i)? {
                        b'"' if data.get(i + 1) == Some(&b'"') => {
                            cells.last_mut()?.push(b'"');
                            i += 2;
                        }
                        b'"' => {
                            i += 1;
                            break;
                        }
                        x => {
                            cells.last_mut()?.push(*x);
                            i += 1;
                        }
                    }
                }
                match data.get(i) {
                    None => {}
                    Some(x) if *x == f.delim || *x == b'\n' => {}
                    Some(_) => return None,
                }
            }
            while let Some(&b) = data.get(i) {
                if b == f.delim || b == b'\n' {
                    break;
                }
                if f.quote == b'q' && b == b'"' {
                    if data.get(i + 1) != Some(&b'"') {
                        return None;
                    }
                    i += 1;
                } else if f.quote == b'b' && b == b'\\' {
                    i += 1;
                    let e = match data.get(i)? {
                        b'\n' => return None,
                        b'n' => b'\n',
                        b't' => b'\t',
                        b'r' => b'\r',
                        x => *x,
                    };
                    cells.last_mut()?.push(e);
                    i += 1;
                    continue;
                }
                cells.last_mut()?.push(b);
                i += 1;
            }
            match data.get(i) {
                Some(b) if *b == f.delim => {
                    cells.push(vec![]);
                    i += 1;
                }
                Some(_) => {
                    i += 1;
                    break;
                }
                None => break,
            }
        }
        let mut raw = data[from..i].to_vec();
        if raw.last() != Some(&b'\n') || (i == data.len() && data[i - 1] != b'\n') {
            raw.push(b'\n');
        }
        out.push(Rec { raw, cells });
    }
    Some(out)
}
/// what a reader of the output format gets for a value
fn seen(f: &Fmt, v: &[u8]) -> Cell {
    if f.quote == b'p' {
        v.iter().map(|b| if *b == f.delim || *b == b'\n' { f.repl } else { *b }).collect()
    } else {
        v.to_vec()
    }
}
struct Doc {
    names: Option<Vec<String>>,
    recs: Vec<Rec>,
    head_len: usize,
    empty: bool,
}
fn doc(f: &Fmt, data: &[u8]) -> Option<Doc> {
    if data.is_empty() {
        return Some(Doc { names: None, recs: vec![], head_len: 0, empty: true });
    }
    let cdx = data.starts_with(b" CDX");
    let head = match f.head {
        b'y' => true,
        b'm' => cdx,
        _ => false,
    };
    if f.head != b'm' && cdx {
        return None;
    }
    let k = if head { data.iter().position(|b| *b == b'\n')? + 1 } else { 0 };
    let names = head.then(|| {
        let l = String::from_utf8_lossy(&data[..k - 1]).to_string();
        let t = if cdx { l.get(5..).unwrap_or("") } else { &l };
        t.split(f.delim as char).map(str::to_string).collect()
    });
    Some(Doc { names, recs: decode(f, &data[k..])?, head_len: k, empty: false })
}
fn head_line(f: &Fmt, names: &[String]) -> Vec<u8> {
    let d = (f.delim as char).to_string();
    let mark = if f.head == b'm' { format!(" CDX{d}") } else { String::new() };
    format!("{mark}{}\n", names.join(&d)).into_bytes()
}

fn spec(r: &mut Rng, head: &str) -> String {
    let d = *r.pick(&["t", ",", ",", ";", "|", "s"]);
    let q = *r.pick(&["p", "q", "q", "b", "b"]);
    let e = if d == "s" || r.pct(15) { *r.pick(&["_", ".", "-"]) } else { "" };
    format!("{head}{d}{q}{e}")
}
fn value(r: &mut Rng, f: &Fmt, vocab: usize) -> Cell {
    let n = *r.pick(&[0usize, 1, 1, 2, 3, 5]);
    let wild = r.pct(45);
    let mut v = Vec::new();
    for _ in 0..n {
        if wild && r.pct(45) {
            v.push(*r.pick(&[f.delim, b'\n', b'"', b'\\', b'\t', b',', b'\r', b'n', b't', b' ', 0xc3, 0x80]));
        } else {
            v.push(b'a' + r.below(vocab) as u8);
        }
    }
    if r.pct(2) {
        v.extend(vec![*r.pick(&[b'x', b'"', b'\n']); r.range(100, 9000)]);
    }
    v
}

fn p23_gen(r: &mut Rng, _i: u64) -> Case {
    let which = *r.pick(&["cut", "cut", "cut", "cgrep", "cgrep", "uniq", "uniq", "uniqagg", "sample", "catn", "paste", "wc"]);
    let head = *r.pick(&["m", "m", "n", "y"]);
    let tin = spec(r, head);
    let f = Fmt::parse(&tin);
    let ncol = r.range(1, 4);
    let vocab = *r.pick(&[1usize, 2, 4]);
    let k = r.range(1, ncol);
    let mut a: Vec<String> = vec![match which {
        "catn" => "cat".into(),
        "uniqagg" => "uniq".into(),
        x => x.into(),
    }];
    a.extend(["--text-in".into(), tin]);
    let mut nf = 1;
    match which {
        "cut" => {
            let v: Vec<String> = (0..r.range(1, 4)).map(|_| r.range(1, ncol).to_string()).collect();
            a.extend(["-f".into(), v.join(","), "-D".into(), "Allow".into()]);
            nf = r.range(1, 3);
        }
        "cgrep" => {
            let v = value(r, &f, vocab);
            let t: String = v.iter().filter(|b| b.is_ascii() && **b != b'\r').map(|b| *b as char).collect();
            a.extend(["-p".into(), format!("{k},{},{t}", r.pick(&["exact", "infix", "prefix", "suffix"]))]);
            if r.pct(40) {
                a.push("-v".into());
            }
            if r.pct(40) {
                a.extend(["-l".into(), (*r.pick(&["line", "bytes", "line,bytes"])).into()]);
            }
            nf = r.range(1, 3);
        }
        "uniq" => {
            a.extend(["-k".into(), k.to_string()]);
            match r.below(3) {
                0 => a.extend(["-c".into(), (*r.pick(&["n", "n,end"])).into()]),
                1 => a.extend(["-w".into(), (*r.pick(&["last", "first"])).into()]),
                _ => {}
            }
        }
        "uniqagg" => a.extend(["-k".into(), k.to_string(), "-a".into(), format!("{},count", r.range(1, ncol))]),
        "sample" => {
            let x = r.range(1, 6);
            a.extend(["-r".into(), format!("{x}-{}", x + r.below(20))]);
            nf = r.range(1, 3);
        }
        "catn" => {
            a.push((*r.pick(&["-b", "-e"])).into());
            nf = r.range(1, 3);
        }
        "paste" => {
            a.extend(["-e".into(), (*r.pick(&["exact", "early"])).into(), "-D".into(), "Numeric".into()]);
            nf = r.range(1, 3);
        }
        _ => {
            a.extend(["-l".into(), "-b".into(), "-F".into(), "plain".into()]);
            nf = r.range(1, 3);
        }
    }
    if matches!(which, "cut" | "paste" | "uniqagg") && r.pct(60) {
        let h = if head == "n" { "n" } else { *r.pick(&["m", "y"]) };
        let t = spec(r, h);
        a.extend(["--text-out".into(), t]);
    }
    let mut m = Cmd { name: which.to_string(), args: a, ..Cmd::default() };
    let heads = head == "y" || head == "m" && r.pct(60);
    let nrow = match r.below(6) {
        0 => r.below(3),
        1..=3 => r.below(15),
        4 => r.below(120),
        _ => r.below(700),
    };
    for i in 0..nf {
        let names: Vec<String> = COLS[..ncol].iter().map(|x| (*x).to_string()).collect();
        let mut b = if heads { head_line(&f, &names) } else { vec![] };
        let mut last: Option<Cell> = None;
        for _ in 0..if r.pct(80) { nrow } else { r.below(9) } {
            let mut cells: Vec<Cell> = (0..ncol).map(|_| value(r, &f, vocab)).collect();
            // runs of equal keys, written in different ways
            if let (Some(x), true) = (&last, r.pct(50)) {
                cells[k - 1] = x.clone();
            }
            last = Some(cells[k - 1].clone());
            let enc: Vec<Vec<u8>> = cells.iter().map(|v| encode(r, &f, v)).collect();
            b.extend(enc.join(&f.delim));
            b.push(b'\n');
        }
        if r.pct(20) && b.len() > 1 && b[b.len() - 2] != b'\n' {
            b.pop();
        }
        let n = ["a.txt", "b.txt", "c.tsv"][i];
        m.files.push((n.to_string(), b));
    }
    let at = if r.pct(30) { Some(r.below(nf)) } else { None };
    for i in 0..nf {
        m.inputs.push(m.args.len());
        let n = m.files[i].0.clone();
        if at == Some(i) {
            m.args.push("-".into());
            m.stdin = Some(n);
        } else {
            m.args.push(n);
        }
    }
    let seed = r.next() >> 1;
    let mut c = m.case("", seed);
    if r.pct(80) {
        frag_all(r, &mut c, 0, 80);
    }
    c
}

fn p23_check(w: &mut World, c: &Case) -> Check {
    let r = &c.runs[0];
    let cmd = c.get("cmd").to_string();
    let fi = Fmt::parse(opt(r, "--text-in").unwrap_or("m"));
    let fo = opt(r, "--text-out").map_or(fi, Fmt::parse);
    let mut docs = Vec::new();
    for n in super::sorts::operands(c, r) {
        match doc(&fi, c.file(&n)) {
            Some(d) => docs.push(d),
            None => return Ok(false),
        }
    }
    let live: Vec<&Doc> = docs.iter().filter(|d| !d.empty).collect();
    if live.is_empty() || live.len() != docs.len() && matches!(cmd.as_str(), "paste" | "wc") {
        return Ok(false);
    }
    let ncol = live[0].names.as_ref().map_or_else(|| live[0].recs[0].cells.len(), Vec::len);
    // every record has the same columns
    if live.iter().any(|d| d.names != live[0].names || d.recs.iter().any(|x| x.cells.len() != ncol)) {
        return Ok(false);
    }
    let names: Vec<String> = live[0].names.clone().unwrap_or_default();
    let headed = live[0].names.is_some();
    let num = |x: &str| x.parse::<usize>().ok().filter(|k| *k >= 1 && *k <= ncol).map(|k| k - 1);
    // the columns and records to be seen in the output
    let mut want: Vec<Vec<Cell>> = Vec::new();
    // the exact bytes, for commands that do not touch the columns
    let mut exact: Option<Vec<u8>> = None;
    let mut out_names = names.clone();
    let count = |n: usize| n.to_string().into_bytes();
    match cmd.as_str() {
        "cut" => {
            let Some(sel) = opt(r, "-f").unwrap_or("").split(',').map(num).collect::<Option<Vec<_>>>() else { return Ok(false) };
            if headed {
                out_names = sel.iter().map(|k| names[*k].clone()).collect();
            }
            for d in &live {
                for x in &d.recs {
                    want.push(sel.iter().map(|k| x.cells[*k].clone()).collect());
                }
            }
        }
        "cgrep" => {
            let p: Vec<&str> = opt(r, "-p").unwrap_or("").splitn(3, ',').collect();
            let [k, how, t] = p[..] else { return Ok(false) };
            let Some(k) = num(k) else { return Ok(false) };
            let t = t.as_bytes();
            let loc: Vec<&str> = opt(r, "-l").map_or(vec![], |x| x.split(',').collect());
            let mut o = Vec::new();
            for d in &live {
                let mut off = d.head_len;
                for (i, x) in d.recs.iter().enumerate() {
                    let v = &x.cells[k];
                    let hit = match how {
                        "exact" => v == t,
                        "prefix" => v.starts_with(t),
                        "suffix" => v.ends_with(t),
                        _ => t.is_empty() || v.windows(t.len()).any(|y| y == t),
                    };
                    if hit != has(r, "-v") {
                        for l in &loc {
                            o.extend(count(if *l == "line" { i + 1 } else { off }));
                            o.push(fi.delim);
                        }
                        o.extend(&x.raw);
                    }
                    off += x.raw.len();
                }
            }
            for (i, l) in loc.iter().enumerate() {
                out_names.insert(i, (*l).to_string());
            }
            exact = Some(o);
        }
        "uniq" | "uniqagg" => {
            let Some(k) = opt(r, "-k").and_then(num) else { return Ok(false) };
            let mut g: Vec<Vec<&Rec>> = Vec::new();
            for x in &live[0].recs {
                match g.last_mut() {
                    Some(y) if y[0].cells[k] == x.cells[k] => y.push(x),
                    _ => g.push(vec![x]),
                }
            }
            if cmd == "uniqagg" {
                let Some(a) = opt(r, "-a").and_then(|x| num(x.split(',').next().unwrap())) else { return Ok(false) };
                for y in g {
                    let mut v = y[0].cells.clone();
                    v[a] = count(y.len());
                    want.push(v);
                }
            } else {
                let mut o = Vec::new();
                for y in &g {
                    let x = if opt(r, "-w") == Some("last") { y[y.len() - 1] } else { y[0] };
                    let line = &x.raw[..x.raw.len() - 1];
                    match opt(r, "-c") {
                        Some("n") => o.extend([&count(y.len())[..], &[fi.delim], line].concat()),
                        Some(_) => o.extend([line, &[fi.delim], &count(y.len())[..]].concat()),
                        None => o.extend(line),
                    }
                    o.push(b'\n');
                }
                match opt(r, "-c") {
                    Some("n") => out_names.insert(0, "n".into()),
                    Some(_) => out_names.push("n".into()),
                    None => {}
                }
                exact = Some(o);
            }
        }
        "sample" => {
            let Some((x, y)) = opt(r, "-r").and_then(|x| x.split_once('-')) else { return Ok(false) };
            let (Ok(x), Ok(y)) = (x.parse::<usize>(), y.parse::<usize>()) else { return Ok(false) };
            // in each file
            exact = Some(live.iter().flat_map(|d| d.recs.iter().enumerate()).filter(|(i, _)| i + 1 >= x && i < &y).flat_map(|(_, x)| x.raw.clone()).collect());
        }
        "catn" => {
            let mut o = Vec::new();
            for (i, x) in live.iter().flat_map(|d| d.recs.iter()).enumerate() {
                let line = &x.raw[..x.raw.len() - 1];
                if has(r, "-b") {
                    o.extend([&count(i + 1)[..], &[fi.delim], line].concat());
                } else {
                    o.extend([line, &[fi.delim], &count(i + 1)[..]].concat());
                }
                o.push(b'\n');
            }
            if has(r, "-b") {
                out_names.insert(0, "number".into());
            } else {
                out_names.push("number".into());
            }
            exact = Some(o);
        }
        "paste" => {
            let n = live.iter().map(|d| d.recs.len()).min().unwrap_or(0);
            if opt(r, "-e") == Some("exact") && live.iter().any(|d| d.recs.len() != n) {
                return Ok(false);
            }
            for i in 0..n {
                want.push(live.iter().flat_map(|d| d.recs[i].cells.clone()).collect());
            }
        }
        _ => {
            let mut o = Vec::new();
            let mut tot = (0, 0);
            for (d, n) in live.iter().zip(c.list("operands").iter()) {
                if d.recs.is_empty() {
                    return Ok(false);
                }
                let x = (d.recs.len(), d.recs.iter().map(|x| x.raw.len()).sum::<usize>());
                tot = (tot.0 + x.0, tot.1 + x.1);
                if live.len() > 1 {
                    let at: usize = n.parse().unwrap_or(0);
                    o.extend(r.args[at].as_bytes());
                    o.push(fi.delim);
                }
                o.extend(format!("{}{}{}\n", x.0, fi.delim as char, x.1).bytes());
            }
            if live.len() > 1 {
                o.extend(format!("totals{d}{}{d}{}\n", tot.0, tot.1, d = fi.delim as char).bytes());
            }
            exact = Some(o);
        }
    }
    let (o, got) = fresh(w, c, r);
    sane2(&o)?;
    if !got.status.ok() {
        return viol(&format!("{cmd}: fails"), format!("{:?} {}", got.status, o.err_text()));
    }
    let mut body = &got.stdout[..];
    if cmd == "wc" {
        // its own header
        let k = body.iter().position(|b| *b == b'\n').map_or(0, |x| x + 1);
        let h = if live.len() > 1 { format!("file{d}lines{d}bytes\n", d = fi.delim as char) } else { format!("lines{}bytes\n", fi.delim as char) };
        if !body[..k].ends_with(h.as_bytes()) {
            return viol("wc: header", show(&body[..k]));
        }
        body = &body[k..];
    } else if headed && cmd == "paste" {
        let k = body.iter().position(|b| *b == b'\n').map_or(0, |x| x + 1);
        let t = if fo.head == b'm' { &body[5.min(k)..k] } else { &body[..k] };
        let n = t.iter().filter(|b| **b == fo.delim).count() + 1;
        if n != ncol * live.len() {
            return viol("paste: header", show(&body[..k]));
        }
        body = &body[k..];
    } else if headed {
        let h = head_line(&fo, &out_names);
        match body.strip_prefix(&h[..]) {
            Some(x) => body = x,
            None => return viol(&format!("{cmd}: header"), differ(&h, body)),
        }
    }
    if let Some(e) = exact {
        if e != body {
            return viol(&format!("{cmd}: lines not written as read"), differ(&e, body));
        }
        return Ok(!e.is_empty());
    }
    let Some(back) = decode(&fo, body) else {
        return viol(&format!("{cmd}: output not in the output format"), show(body));
    };
    if back.len() != want.len() {
        return viol(&format!("{cmd}: number of records"), format!("{} instead of {}: {}", back.len(), want.len(), show(body)));
    }
    for (i, (b, x)) in back.iter().zip(&want).enumerate() {
        let x: Vec<Cell> = x.iter().map(|v| seen(&fo, v)).collect();
        if b.cells != x {
            return viol(&format!("{cmd}: values"), format!("record {i}: {} decodes to {} instead of {}", show(&b.raw), show(&b.cells.join(&b"<>"[..])), show(&x.join(&b"<>"[..]))));
        }
    }
    Ok(!want.is_empty())
}
