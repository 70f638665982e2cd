//! Commands that lay out cells: transpose, tabs, filegen.
use super::records::{cell, cols, has, inputs, opt, Input};
use super::*;

pub fn all() -> Vec<Prop> {
    vec![Prop {
        id: "P24",
        gen: p24_gen,
        check: p24_check,
        quick: 130_000,
        thorough: 6_000_000,
        rule: "Random tables (empty, header only, one column, unterminated, wide, wider and longer than the terminal) through transpose, tabs on terminals of every size or none, and tables made by filegen with deterministic generators, inputs delivered and output accepted in random pieces; the output is compared with a reference layout of the cells.",
        shrink_files: true,
        real: REAL,
        stub: STUB,
    }]
}

fn cell_text(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 if r.pct(8) => plain_word(r, 2000, 5),
        1 => plain_word(r, 40, 5),
        2 => {
            // accented and wide letters anywhere in the word
            let mut v: Vec<char> = plain_word(r, 6, 4).chars().collect();
            for _ in 0..r.range(1, 4) {
                let at = r.below(v.len() + 1);
                v.insert(at, *r.pick(&['é', 'ß', '日', '本', '語', 'Ａ', '😀']));
            }
            v.into_iter().collect()
        }
        3 => format!("{} {}", plain_word(r, 6, 4), plain_word(r, 6, 4)),
        4 => r.below(1_000_000).to_string(),
        _ => plain_word(r, 9, 5),
    }
}
fn p24_gen(r: &mut Rng, _i: u64) -> Case {
    let which = *r.pick(&["transpose", "transpose", "tabs", "tabs", "filegen"]);
    let mut m = Cmd { name: which.to_string(), ..Cmd::default() };
    let mut a: Vec<String> = vec![which.into()];
    if which == "filegen" {
        if r.pct(70) {
            a.extend(["-n".into(), (if r.pct(4) { r.range(250, 4000) } else { *r.pick(&[0usize, 1, 2, 7, 30, 200]) }).to_string()]);
        }
        if r.pct(50) {
            a.push("-h".into());
        }
        for _ in 0..r.below(4) {
            let g = match r.below(6) {
                0 => "grid".to_string(),
                1 => "count".to_string(),
                2 => format!("count,{}", r.range(0, 2000) as i64 - 1000),
                3 => "null".to_string(),
                _ => format!("expr,plain,{}", exprs::expr(r, &["line".into(), "col".into()])),
            };
            if r.pct(35) {
                a.extend(["-m".into(), format!("{},{g}", if r.pct(3) { r.range(5, 300) } else { r.range(1, 4) })]);
            } else {
                a.extend(["-c".into(), g]);
            }
        }
        m.args = a;
    } else {
        let nf = if which == "tabs" { *r.pick(&[1usize, 1, 2, 3]) } else { 1 };
        if which == "transpose" {
            if r.pct(35) {
                a.push("-h".into());
            }
            if r.pct(40) {
                a.extend(["-n".into(), r.pick(&[0usize, 1, 2, 3, 10, 100]).to_string()]);
            }
        } else {
            m.rows = *r.pick(&[0, 0, 1, 2, 3, 5, 8, 24, 25, 60, 300]);
            m.cols = *r.pick(&[1, 2, 5, 10, 20, 39, 40, 80, 80, 132, 500]);
        }
        for i in 0..nf {
            let n = match r.below(10) {
                0 => 1,
                1 => r.range(8, 40),
                2 if r.pct(10) => r.range(100, 400),
                _ => r.range(1, 6),
            };
            let names: Vec<String> = (0..n).map(|k| format!("{}{k}", plain_word(r, 12, 5))).collect();
            let rows = match r.below(8) {
                0 => 0,
                1 => 1,
                2 => r.range(20, 400),
                3 if n < 6 && r.pct(10) => r.range(400, 4000),
                _ => r.range(1, 15),
            };
            let t = Table { header: r.pct(55).then_some(names), rows: (0..rows).map(|_| (0..n).map(|_| cell_text(r)).collect()).collect(), final_newline: !r.pct(20) };
            let mut b = t.bytes();
            if r.pct(4) {
                b.clear();
            }
            m.files.push((["a.txt", "bb.tsv", "c c"][i].to_string(), b));
        }
        m.args = a;
        let at = if r.pct(40) { Some(r.below(nf)) } else { None };
        for i in 0..nf {
            m.inputs.push(m.args.len());
            if at == Some(i) {
                m.args.push("-".into());
                m.stdin = Some(m.files[i].0.clone());
            } else {
                m.args.push(m.files[i].0.clone());
            }
        }
    }
    let seed = r.next() >> 1;
    let mut c = m.case("", seed);
    frag_all(r, &mut c, 0, 70);
    if r.pct(40) {
        let f = frag(r, 400);
        c.runs[0].frags.push((Ch::Stdout, f));
    }
    c
}

fn transposed(f: &Input, head: bool, n: usize) -> Vec<u8> {
    let mut out = Vec::new();
    if f.empty {
        return out;
    }
    if head {
        out.extend_from_slice(b" CDX\t");
    }
    for i in 0..f.names.len() {
        let mut v: Vec<&[u8]> = Vec::new();
        if f.head.is_some() {
            v.push(f.names[i].as_bytes());
        }
        v.extend(f.lines.iter().take(n).map(|l| cell(l, i)));
        out.extend(v.join(&b'\t'));
        out.push(b'\n');
    }
    out
}
/// cells of the screen a letter takes: only letters made by cell_text matter
fn cells(c: char) -> usize {
    match c {
        '\u{1100}'..='\u{115f}' | '\u{2e80}'..='\u{a4cf}' | '\u{ac00}'..='\u{d7a3}' | '\u{f900}'..='\u{faff}' | '\u{fe30}'..='\u{fe6f}' | '\u{ff00}'..='\u{ff60}' | '\u{1f300}'..='\u{1f64f}' => 2,
        _ => 1,
    }
}
fn width(s: &str) -> usize {
    s.chars().map(cells).sum()
}
/// the longest beginning that fits
fn begin(s: &str, room: usize) -> String {
    let mut out = String::new();
    let mut used = 0;
    for c in s.chars() {
        used += cells(c);
        if used > room {
            break;
        }
        out.push(c);
    }
    out
}
/// the lines of one file fitted to a box, and the width of the box used
fn fitted(f: &Input, wide: usize, high: usize) -> (Vec<String>, usize) {
    if f.empty {
        return (vec![], 0);
    }
    let mut rows: Vec<Vec<String>> = Vec::new();
    if f.head.is_some() {
        rows.push(f.names.clone());
    }
    for l in &f.lines {
        if rows.len() >= high {
            break;
        }
        rows.push(cols(l).iter().map(|x| String::from_utf8_lossy(x).to_string()).collect());
    }
    let n = rows.iter().map(Vec::len).chain([f.names.len()]).max().unwrap_or(0);
    let mut sz: Vec<usize> = (0..n).map(|i| rows.iter().map(|x| x.get(i).map_or(0, |c| width(c))).max().unwrap_or(0)).collect();
    while sz.iter().sum::<usize>() + n > wide && sz.iter().any(|x| *x > 0) {
        let m = *sz.iter().max().unwrap();
        let k = sz.iter().position(|x| *x == m).unwrap();
        sz[k] -= 1;
    }
    let mut out = Vec::new();
    for (k, row) in rows.iter().enumerate() {
        let v: Vec<String> = row
            .iter()
            .enumerate()
            .map(|(i, x)| {
                let t = begin(x, sz[i]);
                let pad = sz[i] - width(&t);
                let left = if k == 0 && f.head.is_some() { pad / 2 } else { 0 };
                format!("{}{t}{}", " ".repeat(left), " ".repeat(pad - left))
            })
            .collect();
        out.push(v.join(" "));
    }
    (out, sz.iter().sum::<usize>() + n)
}
fn tabbed(ins: &[Input], wide: usize, high: usize) -> Vec<u8> {
    let mut out = String::new();
    if ins.len() == 1 {
        for l in fitted(&ins[0], wide, high).0 {
            out.push_str(&l);
            out.push('\n');
        }
        return out.into_bytes();
    }
    let mut left = (high + 1).saturating_sub(2 * ins.len());
    for (i, f) in ins.iter().enumerate() {
        let (v, real) = fitted(f, wide, left / (ins.len() - i));
        if f.name.len() <= real {
            let pad = real - f.name.len();
            out.push_str(&format!("{}{}{}\n", " ".repeat(pad / 2), f.name, " ".repeat(pad - pad / 2)));
        }
        for l in &v {
            out.push_str(l);
            out.push('\n');
        }
        left = left.saturating_sub(v.len());
        if i + 1 < ins.len() {
            out.push_str(&"-".repeat(real));
            out.push('\n');
        }
    }
    out.into_bytes()
}
fn generated(r: &Run) -> Option<Vec<u8>> {
    let mut gens: Vec<String> = Vec::new();
    for w in r.args.windows(2) {
        match w[0].as_str() {
            "-c" => gens.push(w[1].clone()),
            "-m" => {
                let (n, g) = w[1].split_once(',')?;
                for _ in 0..n.parse::<usize>().ok()? {
                    gens.push(g.to_string());
                }
            }
            _ => {}
        }
    }
    if gens.is_empty() {
        gens.push("grid".into());
    }
    let n: usize = opt(r, "-n").map_or(Some(10), |x| x.parse().ok())?;
    let mut out = String::new();
    if has(r, "-h") {
        out.push_str(" CDX");
        for i in 1..=gens.len() {
            out.push_str(&format!("\tc{i}"));
        }
        out.push('\n');
    }
    for l in 1..=n {
        for (c, g) in gens.iter().enumerate() {
            if c > 0 {
                out.push('\t');
            }
            let (kind, arg) = g.split_once(',').unwrap_or((g, ""));
            match kind {
                "grid" => out.push_str(&format!("{l}_{}", c + 1)),
                "count" => out.push_str(&(l as i64 - 1 + arg.parse::<i64>().unwrap_or(0)).to_string()),
                "null" => {}
                _ => {
                    let e = arg.strip_prefix("plain,")?;
                    let v = exprs::eval(e, &|n| match n {
                        "line" => Some(l as f64),
                        "col" => Some((c + 1) as f64),
                        _ => None,
                    })?;
                    out.push_str(&v.to_string());
                }
            }
        }
        out.push('\n');
    }
    Some(out.into_bytes())
}
fn p24_check(w: &mut World, c: &Case) -> Check {
    let r = &c.runs[0];
    let cmd = c.get("cmd");
    let want = if cmd == "filegen" {
        match generated(r) {
            Some(x) => x,
            None => return Ok(false),
        }
    } else {
        let ins = inputs(c, r);
        // lines as wide as the first one, and text a terminal can show
        let fine = |f: &Input| !f.lines.iter().any(|l| cols(l).len() != f.names.len() || l.iter().any(|b| (*b < b' ' && *b != b'\n' && *b != b'\t') || *b == 127) || std::str::from_utf8(l).is_err());
        if ins.is_empty() || !ins.iter().all(fine) || ins.iter().any(|f| !f.empty && f.names.is_empty()) {
            return Ok(false);
        }
        if cmd == "transpose" {
            let n = opt(r, "-n").and_then(|x| x.parse().ok()).unwrap_or(usize::MAX);
            transposed(&ins[0], has(r, "-h"), n)
        } else if r.rows == 0 {
            tabbed(&ins, 100, 24)
        } else {
            tabbed(&ins, r.cols as usize, (r.rows - 1) as usize)
        }
    };
    if want.len() > 300_000 {
        return Ok(false);
    }
    let (o, got) = fresh(w, c, r);
    sane2(&o)?;
    if !got.status.ok() {
        return viol(&format!("{cmd}: fails"), format!("{:?} {}", got.status, o.err_text()));
    }
    if got.stdout != want {
        return viol(&format!("{cmd}: wrong layout"), differ(&want, &got.stdout));
    }
    w.stats.probe(cmd);
    Ok(!want.is_empty())
}
