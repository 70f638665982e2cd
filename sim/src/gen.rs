//! Workload generation: tables, command lines over every subcommand, delivery schedules.
use crate::case::*;
use crate::rng::Rng;
use crate::shm::*;

pub static COLS: [&str; 300] = [
    "one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "eleven", "twelve", "thirteen", "fourteen", "n15", "n16", "n17", "n18", "n19", "n20",
    "n21", "n22", "n23", "n24", "n25", "n26", "n27", "n28", "n29", "n30", "n31", "n32", "n33", "n34", "n35", "n36", "n37", "n38", "n39", "n40",
    "n41", "n42", "n43", "n44", "n45", "n46", "n47", "n48", "n49", "n50", "n51", "n52", "n53", "n54", "n55", "n56", "n57", "n58", "n59", "n60",
    "n61", "n62", "n63", "n64", "n65", "n66", "n67", "n68", "n69", "n70", "n71", "n72", "n73", "n74", "n75", "n76", "n77", "n78", "n79", "n80",
    "n81", "n82", "n83", "n84", "n85", "n86", "n87", "n88", "n89", "n90", "n91", "n92", "n93", "n94", "n95", "n96", "n97", "n98", "n99", "n100",
    "n101", "n102", "n103", "n104", "n105", "n106", "n107", "n108", "n109", "n110", "n111", "n112", "n113", "n114", "n115", "n116", "n117", "n118", "n119", "n120",
    "n121", "n122", "n123", "n124", "n125", "n126", "n127", "n128", "n129", "n130", "n131", "n132", "n133", "n134", "n135", "n136", "n137", "n138", "n139", "n140",
    "n141", "n142", "n143", "n144", "n145", "n146", "n147", "n148", "n149", "n150", "n151", "n152", "n153", "n154", "n155", "n156", "n157", "n158", "n159", "n160",
    "n161", "n162", "n163", "n164", "n165", "n166", "n167", "n168", "n169", "n170", "n171", "n172", "n173", "n174", "n175", "n176", "n177", "n178", "n179", "n180",
    "n181", "n182", "n183", "n184", "n185", "n186", "n187", "n188", "n189", "n190", "n191", "n192", "n193", "n194", "n195", "n196", "n197", "n198", "n199", "n200",
    "n201", "n202", "n203", "n204", "n205", "n206", "n207", "n208", "n209", "n210", "n211", "n212", "n213", "n214", "n215", "n216", "n217", "n218", "n219", "n220",
    "n221", "n222", "n223", "n224", "n225", "n226", "n227", "n228", "n229", "n230", "n231", "n232", "n233", "n234", "n235", "n236", "n237", "n238", "n239", "n240",
    "n241", "n242", "n243", "n244", "n245", "n246", "n247", "n248", "n249", "n250", "n251", "n252", "n253", "n254", "n255", "n256", "n257", "n258", "n259", "n260",
    "n261", "n262", "n263", "n264", "n265", "n266", "n267", "n268", "n269", "n270", "n271", "n272", "n273", "n274", "n275", "n276", "n277", "n278", "n279", "n280",
    "n281", "n282", "n283", "n284", "n285", "n286", "n287", "n288", "n289", "n290", "n291", "n292", "n293", "n294", "n295", "n296", "n297", "n298", "n299", "n300",
];
const WORDS: [&str; 24] = [
    "aaa", "bbb", "ccc", "ddd", "a", "ab", "abc", "foo", "bar", "Foo", "BAR", "zebra", "x", "", "42", "7", "-3", "1.5", "100", "é", "naïve", "日本", "a b", " lead",
];

#[derive(Clone, Debug)]
pub struct Table {
    pub header: Option<Vec<String>>,
    pub rows: Vec<Vec<String>>,
    pub final_newline: bool,
}
impl Table {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        if let Some(h) = &self.header {
            v.extend_from_slice(b" CDX");
            for x in h {
                v.push(b'\t');
                v.extend_from_slice(x.as_bytes());
            }
            v.push(b'\n');
        }
        for r in &self.rows {
            v.extend_from_slice(r.join("\t").as_bytes());
            v.push(b'\n');
        }
        if !self.final_newline && !self.rows.is_empty() {
            v.pop();
        }
        v
    }
}
pub fn word(r: &mut Rng) -> String {
    (*r.pick(&WORDS)).to_string()
}
/// simple word that never needs care: lower case letters
pub fn plain_word(r: &mut Rng, maxlen: usize, alpha: usize) -> String {
    let n = r.range(1, maxlen);
    (0..n).map(|_| (b'a' + r.below(alpha) as u8) as char).collect()
}
/// target size in bytes, swarm style
pub fn size(r: &mut Rng) -> usize {
    match r.below(100) {
        0..=4 => 0,
        5..=39 => r.range(1, 200),
        40..=69 => r.range(200, 3000),
        70..=84 => {
            let base = *r.pick(&[4096usize, 8192, 8192, 16384, 16384, 32768]);
            (base + r.below(80)).saturating_sub(40)
        }
        85..=95 => r.range(6000, 40000),
        99 if r.pct(12) => r.range(140_000, 400_000),
        _ => r.range(40000, 140_000),
    }
}
pub struct Shape {
    pub cols: usize,
    pub header: bool,
    pub ragged: bool,
    pub weird: bool,
}
pub fn shape(r: &mut Rng) -> Shape {
    let top = match r.below(200) {
        0..=1 => 300,
        2..=30 => 14,
        _ => 5,
    };
    Shape { cols: r.range(1, top), header: r.pct(60), ragged: r.pct(4), weird: r.pct(30) }
}
pub fn table(r: &mut Rng, s: &Shape, target: usize) -> Table {
    let vocab = *r.pick(&[2usize, 5, 20, 400]);
    let lens = *r.pick(&[3usize, 8, 30]);
    let long = r.pct(10);
    let mut rows = Vec::new();
    let mut n = 0;
    let exact = r.pct(60);
    while n < target {
        let mut row = Vec::new();
        let k = if s.ragged && r.pct(10) { r.range(1, 6) } else { s.cols };
        for c in 0..k {
            row.push(match c {
                1 => {
                    if s.weird && r.pct(10) {
                        word(r)
                    } else {
                        r.below(vocab * 3).to_string()
                    }
                }
                _ => {
                    if s.weird && r.pct(25) {
                        word(r)
                    } else if long && r.pct(3) {
                        let n = *r.pick(&[500usize, 8191, 8192, 9000, 20000, 66_000, 140_000]);
                        "L".repeat(n.min(target))
                    } else {
                        let mut w = plain_word(r, lens, 4);
                        if vocab >= 20 {
                            w.push_str(&r.below(vocab).to_string());
                        }
                        w
                    }
                }
            });
        }
        n += row.iter().map(|x| x.len() + 1).sum::<usize>();
        rows.push(row);
    }
    // hit the exact size, so that buffer boundaries fall on line ends
    if exact && n > target && !rows.is_empty() {
        let l = rows.last_mut().unwrap();
        let cut = n - target;
        let last = l.last_mut().unwrap();
        if last.is_ascii() && last.len() > cut {
            last.truncate(last.len() - cut);
        }
    }
    Table {
        header: s.header.then(|| COLS[..s.cols].iter().map(|x| (*x).to_string()).collect()),
        rows,
        final_newline: !r.pct(15),
    }
}

pub fn frag(r: &mut Rng, len: usize) -> Frag {
    let mut f = Frag { seed: r.next() >> 1, ..Frag::default() };
    match r.below(100) {
        0..=24 => {
            f.mode = M_FIXED;
            f.p1 = if len < 20_000 { 1 } else { r.range(5, 60) as i32 };
        }
        25..=39 => {
            f.mode = M_FIXED;
            f.p1 = r.range(2, 9) as i32;
            if len > 60_000 {
                f.p1 *= 16;
            }
        }
        40..=54 => {
            f.mode = M_RANDOM;
            f.p1 = *r.pick(&[2, 3, 5, 17, 100, 1000, 5000]);
            if len > 40_000 && f.p1 < 17 {
                f.p1 = 17;
            }
        }
        55..=64 => {
            f.mode = M_MIX;
            f.p1 = r.range(1, 8) as i32;
            f.p2 = if len > 40_000 { 4000 } else { *r.pick(&[0, 10, 200, 3000]) };
        }
        65..=94 => {
            f.mode = M_CUTS;
            for _ in 0..r.range(1, 6) {
                let c = match r.below(4) {
                    0 => r.range(1, 6),
                    1 => (*r.pick(&[8192usize, 16384, 4096]) + r.below(5)).saturating_sub(2),
                    2 => len.saturating_sub(r.below(4)),
                    _ => r.below(len.max(1)),
                };
                if c > 0 {
                    f.cuts.push(c as i32);
                }
            }
        }
        _ => {}
    }
    if r.pct(35) {
        f.eintr = *r.pick(&[30, 300, 700]);
        f.eintr_max = *r.pick(&[1, 3, 20, 100]);
    }
    f
}

#[derive(Clone, Debug, Default)]
pub struct Cmd {
    pub name: String,
    pub args: Vec<String>,
    /// positions in `args` of the input operands
    pub inputs: Vec<usize>,
    /// files read although they are not operands
    pub extra: Vec<String>,
    pub files: Vec<(String, Vec<u8>)>,
    pub stdin: Option<String>,
    pub outs: Vec<String>,
    /// may legitimately stop before the end of the input
    pub early: bool,
    pub env: Vec<String>,
    pub rows: i32,
    pub cols: i32,
}
impl Cmd {
    pub fn case(&self, prop: &str, seed: u64) -> Case {
        let mut c = Case { prop: prop.into(), seed, files: self.files.clone(), ..Case::default() };
        c.runs.push(Run {
            args: self.args.clone(),
            env: self.env.clone(),
            stdin: self.stdin.clone(),
            seed,
            rand_seed: seed ^ 0x55,
            rows: self.rows,
            cols: self.cols,
            ..Run::default()
        });
        c.set("cmd", &self.name);
        c.set("early", i32::from(self.early));
        c.set_list("outs", &self.outs);
        c.set_list("inputs", &self.input_files());
        c.set_list("operands", &self.inputs.iter().map(|x| x.to_string()).collect::<Vec<_>>());
        c
    }
    /// names of all files this command reads
    pub fn input_files(&self) -> Vec<String> {
        let mut v: Vec<String> = self.inputs.iter().map(|i| self.args[*i].clone()).filter(|x| x != "-").collect();
        v.extend(self.extra.clone());
        if let Some(x) = &self.stdin {
            v.push(x.clone());
        }
        v.dedup();
        v
    }
    pub fn in_len(&self) -> usize {
        self.files.iter().map(|f| f.1.len()).sum()
    }
}
/// the channel through which `name` is delivered in run `r`
pub fn chan_of(r: &Run, name: &str) -> Ch {
    if r.stdin.as_deref() == Some(name) {
        Ch::Stdin
    } else {
        Ch::File(name.to_string())
    }
}

#[derive(Clone, Copy, Default)]
pub struct Want {
    /// no binsearch (memory mapped, needs a plain regular file)
    pub stream_only: bool,
    /// only commands that read some input
    pub input_only: bool,
    /// only commands writing to stdout
    pub stdout: bool,
    pub no_calc: bool,
    pub only: Option<&'static str>,
    pub cap: usize,
}

fn s(x: &str) -> String {
    x.to_string()
}

pub fn col(r: &mut Rng, sh: &Shape) -> String {
    let i = r.below(sh.cols);
    if sh.header && r.pct(40) {
        COLS[i].to_string()
    } else {
        (i + 1).to_string()
    }
}
pub fn key_spec(r: &mut Rng, sh: &Shape) -> String {
    let c = col(r, sh);
    if r.pct(4) {
        return format!(",{}", r.pick(&["plain", "lower", "length", "rev"]));
    }
    if r.pct(4) && sh.cols > 1 {
        return s(",expr,c2*2");
    }
    let c = if r.pct(4) { format!("{c}+lower") } else { c };
    match r.below(18) {
        0..=3 => c,
        4 => format!("{c},rev"),
        5 => format!("{c},lower"),
        6 => format!("{c},float"),
        7 => format!("{c},numeric"),
        8 => format!("{c},length"),
        9 => format!("{c},plain.rev"),
        10 => format!("{c},float.rev"),
        11 => format!("{c},ip"),
        12 => format!("{c},float.strict"),
        13 => format!("{c},numeric.low"),
        14 => format!("{c},float.trail.low"),
        15 => format!("{c},equal"),
        16 => format!("{c},numeric.strict.rev"),
        _ => format!("{c},lower.rev"),
    }
}
/// column lists: single, ranges, exclusions, offsets from the end, transforms
pub fn col_list(r: &mut Rng, sh: &Shape) -> String {
    let a = r.range(1, sh.cols);
    let b = r.range(a, sh.cols);
    let nm = |r: &mut Rng, k: usize| if sh.header && r.pct(40) { COLS[k - 1].to_string() } else { k.to_string() };
    if sh.cols > 5 && r.pct(35) {
        // long exclusions of wide tables
        let x = r.range(1, 3);
        let y = r.range(x + 1, sh.cols - 1);
        return format!("~{}-{}", nm(r, x), nm(r, y));
    }
    match r.below(16) {
        0 => s("1-"),
        1 => s("-"),
        2 => format!("{}-{}", nm(r, a), nm(r, b)),
        3 => format!("-{}", nm(r, b)),
        4 => format!("{}-", nm(r, a)),
        5 => format!("~{}", nm(r, a)),
        6 => format!("~{a}-{b}"),
        7 => format!("+{a}"),
        8 => format!("{},{}", nm(r, b), nm(r, a)),
        9 => format!("~{},~{}", nm(r, a), nm(r, b)),
        10 => format!("{}+lower", nm(r, a)),
        11 => format!("{}+{}", nm(r, a), r.pick(&["upper", "normspace", "to_base64", "from_base64", "lower.utf8", "to_base64+from_base64", "upper+normspace"])),
        12 => format!("{}+bytes,{}", nm(r, a), r.pick(&["1-2", "2", "3-5"])),
        13 => format!("nn:{}-{}", nm(r, a), nm(r, b)),
        14 if sh.header => s(r.pick(&["(range,<,three)", "(range,>=,four)", "(prefix,t)", "(infix,e)"])),
        _ => nm(r, a),
    }
}
pub fn matcher(r: &mut Rng, sh: &Shape, extra: &mut Vec<(String, Vec<u8>)>) -> String {
    let c = col(r, sh);
    let c = match r.below(20) {
        0 => s("1-"),
        1 => s("-"),
        2 => format!("~{c}"),
        3 => format!("{c}+lower"),
        _ => c,
    };
    match r.below(30) {
        0 => format!("{c},,aaa"),
        1 => format!("{c},prefix,a"),
        2 => format!("{c},regex,a+"),
        3 => format!("{c},integer"),
        4 => format!("{c},length,2,4"),
        5 => format!("{c},glob,{}", r.pick(&["a*", "*b?", "a*b*c", "[ab]*", "?"])),
        6 => format!("{c},infix,b"),
        7 => format!("{c},float"),
        8 => format!("{c},suffix,c"),
        9 => format!("{c},empty"),
        10 => format!("{c},not.infix,a"),
        11 => format!("{c},case.prefix,A"),
        12 => format!("{c},or.prefix,^a^b"),
        13 => format!("{c},number"),
        14 => format!("{c},range,<,aaa"),
        15 if sh.cols > 1 => s(",expr,c2<20"),
        16 => format!("{c},ip"),
        17 => format!("{c},yes"),
        18 => format!("{c},blank"),
        19 => format!("{c},comment,%"),
        20 => format!("{c},hash"),
        21 => format!("{c},slash"),
        22 => format!("{c},exact,abc"),
        23 => format!("{c},and.infix,^a^b"),
        24 => format!("{c},trim.exact,lead"),
        25 => format!("{c},null.prefix,b"),
        26 => format!("{c},utf8.case.infix,É"),
        27 => format!("{c},range,{},float,{}", r.pick(&["<", ">=", "==", "!="]), r.below(40)),
        28 => format!(",infix,{}", plain_word(r, 2, 4)),
        _ => {
            let mut b = Vec::new();
            let n = if r.pct(10) { r.range(30, 400) } else { r.below(30) };
            for _ in 0..n {
                b.extend_from_slice(plain_word(r, 3, 4).as_bytes());
                b.push(b'\n');
            }
            extra.push((s("pats.txt"), b));
            format!("{c},{}file-exact,pats.txt", r.pick(&["", "", "not.", "case."]))
        }
    }
}
pub fn agg(r: &mut Rng) -> &'static str {
    *r.pick(&["count", "count,5", "min", "max", "min,float", "max,numeric", "sum", "mean", "merge", "merge,sort.uniq", "merge,count", "merge,max_parts:3.D,-", "merge,min_len:2", "prefix", "suffix", "utf8.prefix", "asum,utf8.chars", "asum,swords", "amin,chars", "amax,awords", "amean,chars"])
}
/// a text format; quoting formats come with cells that need them
fn text_in(r: &mut Rng, a: &mut Vec<String>, pct: usize) -> char {
    if !r.pct(pct) {
        return ' ';
    }
    let m = *r.pick(&["mt", "mtq", "mtq", "mtq", "mtb", "mtb", "st", "mtp", "nt", "m,q", "m,p", "y,q", "ytp", "stq", "mtp_;", "mtq_;", "xt", "xtq", "ntq"]);
    a.push(s("--text-in"));
    a.push(s(m));
    if r.pct(25) {
        a.push(s("--text-out"));
        a.push(s(r.pick(&["mt", "mtq", "mtb", "m,p", "mtp_"])));
    }
    m.chars().nth(2).unwrap_or(' ')
}
/// put quoted or escaped cells, some of them over several lines, into a table
pub fn decorate(r: &mut Rng, b: &mut Vec<u8>, mode: char) {
    let cells: &[&str] = match mode {
        'q' => &["\"q\"", "\"two\nlines\"", "\"tab\tinside\"", "\"a \"\"b\"\" c\"", "\"\n\n\n\"", "\"\"", "un\"bal", "\"x\" y"],
        'b' => &["a\\tb", "c\\nd", "e\\\\f", "\\", "\\q", "x\\"],
        _ => return,
    };
    let lines: Vec<Vec<u8>> = b.split_inclusive(|x| *x == b'\n').map(<[u8]>::to_vec).collect();
    let often = *r.pick(&[2usize, 10, 40]);
    let wild = r.pct(15);
    let mut out = Vec::new();
    for (k, l) in lines.into_iter().enumerate() {
        let end = l.ends_with(b"\n");
        let body = l.strip_suffix(b"\n").unwrap_or(&l);
        let mut v: Vec<Vec<u8>> = body.split(|x| *x == b'\t').map(<[u8]>::to_vec).collect();
        if (k > 0 || !body.starts_with(b" CDX")) && r.pct(often) {
            let i = r.below(v.len());
            let c = *r.pick(cells);
            if wild || !(c.starts_with("un") || c == "x\\" || c == "\\") {
                v[i] = c.as_bytes().to_vec();
            }
        }
        out.extend(v.join(&b'\t'));
        if end {
            out.push(b'\n');
        }
    }
    *b = out;
}

pub fn expr(r: &mut Rng, cols: usize) -> String {
    let v: Vec<String> = (1..=cols).map(|k| format!("c{k}")).collect();
    crate::props::exprs::expr(r, &v)
}
pub fn calc_lines(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..n {
        let l = match r.below(8) {
            0 => format!("{}+{}", r.below(100), r.below(100)),
            1 => format!("({}-{})*{}", r.below(100), r.below(100), r.below(9)),
            2 => s("2*"),
            3 => s("foo("),
            4 => crate::props::exprs::expr(r, &[]),
            5 => format!("float,{}/4", r.below(100)),
            6 => s("nonsense"),
            _ => r.below(1000).to_string(),
        };
        v.extend_from_slice(l.as_bytes());
        v.push(b'\n');
    }
    v
}

/// Any command of the tool set on generated inputs.
pub fn command(r: &mut Rng, want: Want) -> Cmd {
    let mut names: Vec<(&str, usize)> = vec![
        ("cat", 12),
        ("catn", 6),
        ("cgrep", 12),
        ("cut", 12),
        ("paste", 9),
        ("sample", 8),
        ("uniq", 12),
        ("wc", 10),
        ("join", 12),
        ("verify", 6),
        ("sort", 14),
        ("merge", 10),
        ("sortcheck", 4),
        ("transpose", 5),
        ("tabs", 5),
    ];
    if !want.no_calc {
        names.push(("calc", 6));
    }
    if !want.stream_only {
        names.push(("binsearch", 8));
    }
    if !want.input_only {
        names.push(("filegen", 6));
    }
    let tot: usize = names.iter().map(|x| x.1).sum();
    let mut k = r.below(tot);
    let mut which = "cat";
    for (n, w) in names {
        if k < w {
            which = n;
            break;
        }
        k -= w;
    }
    if let Some(x) = want.only {
        which = x;
    }
    make(r, which, want)
}

pub fn sort_rows(t: &mut Table, c: usize) {
    t.rows.sort_by(|a, b| a.get(c).map_or("", |x| x).as_bytes().cmp(b.get(c).map_or("", |x| x).as_bytes()));
}

pub fn make(r: &mut Rng, which: &str, want: Want) -> Cmd {
    let mut c = Cmd { name: which.to_string(), ..Cmd::default() };
    let mut sh = shape(r);
    let cap = if want.cap > 0 { want.cap } else { 1 << 20 };
    let fname = |i: usize| ["a.txt", "b.txt", "c.tsv", "dd", "e e.txt"].get(i).map_or_else(|| format!("f{i}"), |x| (*x).to_string());
    let mut nfiles = match which {
        "uniq" | "transpose" => 1,
        "join" => 2,
        "paste" => r.range(2, 3),
        "filegen" => 0,
        "binsearch" => r.range(1, 2),
        _ if r.pct(2) => r.range(4, 70),
        _ => *r.pick(&[1usize, 1, 1, 2, 2, 3]),
    };
    let many = nfiles > 3;
    let mut args: Vec<String> = Vec::new();
    let sorted = matches!(which, "join" | "merge" | "binsearch") || (matches!(which, "uniq" | "verify" | "sortcheck") && r.pct(60));
    let mut extra = Vec::new();
    match which {
        "cat" => {
            args.push(s("cat"));
            if r.pct(50) {
                args.push(s("-p"));
                args.push(s(r.pick(&["yes", "no", "end"])));
            }
        }
        "catn" => {
            args.push(s("cat"));
            for _ in 0..r.range(1, 2) {
                match r.below(7) {
                    0 => args.push(s("-b")),
                    1 => args.push(s("-e")),
                    2 => args.extend([s("-n"), s(r.pick(&["num,5,end", "num,-4", "num", "num,2,begin"]))]),
                    3 => args.extend([s("-r"), s("empty")]),
                    4 => args.extend([s("-s"), s("prefix,a")]),
                    5 => args.extend([s("-r"), s("infix,b")]),
                    _ => args.extend([s("-n"), s("n,1,begin")]),
                }
            }
        }
        "cgrep" => {
            args.push(s("cgrep"));
            for _ in 0..r.range(1, 2) {
                args.push(format!("-p{}", matcher(r, &sh, &mut extra)));
            }
            extra.dedup_by(|a, b| a.0 == b.0);
            if r.pct(30) {
                args.push(s("-v"));
            }
            if r.pct(20) {
                args.push(s("-o"));
            }
            if r.pct(15) {
                args.extend([s("-l"), s("name.1,line,bytes")]);
            }
        }
        "cut" => {
            args.push(s("cut"));
            for _ in 0..r.range(1, 2) {
                match r.below(15) {
                    0..=3 => args.extend([s("-f"), col(r, &sh)]),
                    4 => args.extend([s("-f"), s("1-")]),
                    5 => args.extend([s("-f"), format!("{}+upper", col(r, &sh))]),
                    6 => args.extend([s("-g"), format!("{}:{}", r.pick(&[".grp", "g", ";h"]), col_list(r, &sh))]),
                    9..=14 => args.push(format!("-f{}", col_list(r, &sh))),
                    7 => args.extend([s("-c"), format!("comp:x^{{{}}}y", col(r, &sh))]),
                    _ => args.extend([s("-e"), format!("ex:{}", expr(r, sh.cols))]),
                }
            }
            args.extend([s("-D"), s(r.pick(&["Allow", "Allow", "Allow", "Numeric", "Fail"]))]);
        }
        "paste" => {
            args.push(s("paste"));
            args.extend([s("-e"), s(r.pick(&["exact", "early", "late", "late"]))]);
            args.extend([s("-D"), s("Numeric")]);
            if r.pct(40) {
                args.extend([s("-d"), s(r.pick(&["zzz", "", "q,1", "q,1-2", "w,2", "v,c1", "v,+1"]))]);
            }
            if r.pct(12) {
                args.extend([s("-r"), s(r.pick(&["one.uno", "two.x", "one.a,two.b"])), s("-R")]);
            }
            if r.pct(25) {
                args.push(s("-l"));
            }
            c.early = true;
        }
        "sample" => {
            args.push(s("sample"));
            match r.below(4) {
                0 => args.extend([s("-r"), format!("{}-{}", r.range(1, 4), r.range(4, 40))]),
                1 => args.extend([s("-r"), format!("1,{}", r.range(2, 40))]),
                2 => args.extend([s("-f"), format!("{},{},{}", r.range(1, 4), r.range(1, 4), r.range(4, 80))]),
                _ => args.extend([s("-s"), r.range(1, 20).to_string()]),
            }
            c.early = true;
        }
        "uniq" => {
            args.push(s("uniq"));
            if !r.pct(10) {
                args.extend([s("-k"), if r.pct(20) { key_spec(r, &sh) } else { col(r, &sh) }]);
                if r.pct(12) {
                    args.extend([s("-k"), key_spec(r, &sh)]);
                }
            }
            let agg = agg(r);
            match r.below(11) {
                9 => args.extend([s("-w"), format!("{},{},{}", r.pick(&["max", "min"]), col(r, &sh), r.pick(&["float", "length", "numeric"]))]),
                10 => args.extend([s("-a"), format!("{},{agg}", col(r, &sh)), s("-c"), s(r.pick(&["cc", "cc,begin", "cc,end"]))]),
                7 => args.extend([s("-a"), format!("{},{agg}", col(r, &sh))]),
                8 => args.extend([s("--agg-pre"), format!("ap,{},{agg}", col(r, &sh)), s("--agg-post"), format!("aq,{},{agg}", col(r, &sh))]),
                0 => args.extend([s("-c"), s("")]),
                1 => args.extend([s("-c"), s("cnt,end")]),
                2 => args.extend([s("-w"), s("last")]),
                3 => args.extend([s("-w"), format!("max,{}", col(r, &sh)), s("-c"), s("n")]),
                4 => args.extend([s("-a"), format!("{},count", col(r, &sh))]),
                5 => args.extend([s("--agg-post"), format!("ap,{},max", col(r, &sh))]),
                _ => {}
            }
        }
        "wc" => {
            args.push(s("wc"));
            if r.pct(20) {
                args.push(s("-C"));
            }
            for o in ["-l", "-b", "-c", "-w"] {
                if r.pct(40) {
                    args.push(s(o));
                }
            }
            if r.pct(20) {
                args.extend([s("-t"), s(r.pick(&["yes", "no", "only"]))]);
            }
            if r.pct(20) {
                args.extend([s("-f"), s(r.pick(&["yes", "no", "yes,fname"]))]);
            }
            if r.pct(20) {
                args.extend([s("-h"), s(r.pick(&["yes", "no"]))]);
            }
            if r.pct(12) {
                if r.pct(50) {
                    let g = agg(r);
                    args.extend([s("-a"), format!("nm,{g}")]);
                } else {
                    args.extend([s("-a"), s(r.pick(&["sum,sum", "mx,max", "x,count", "m,mean", "b,asum,chars", "mn,min,length"]))]);
                }
            }
            if r.pct(12) {
                args.extend([s("-F"), s(r.pick(&["float", "plain", "float.2", "short", "power2"]))]);
            }
        }
        "join" => {
            args.push(s("join"));
            match r.below(6) {
                0 => args.extend([s("-k"), s("1,lower")]),
                1 if sh.header => args.extend([s("-k"), s("one")]),
                2 => args.extend([s("-k"), s("1.1")]),
                _ => args.push(s("-k1")),
            }
            if r.pct(25) {
                args.extend([s("-o"), s(r.pick(&["1.1,2.1", "2.1-,1.1", "1.1-,2.1", "1.1"]))]);
            }
            if r.pct(40) {
                args.extend([s("-a"), s("1,un1.out")]);
                c.outs.push(s("un1.out"));
            }
            if r.pct(40) {
                args.extend([s("-a"), s("2,un2.out")]);
                c.outs.push(s("un2.out"));
            }
            if r.pct(30) && !want.stdout {
                args.extend([s("-f"), s("match.out")]);
                c.outs.push(s("match.out"));
            }
        }
        "verify" => {
            args.push(s("verify"));
            match r.below(5) {
                0 => args.push(s("-s")),
                1 => args.push(s("-u")),
                2 => args.push(format!("-p{}", matcher(r, &sh, &mut extra))),
                3 => args.extend([s("-f"), s("GT,a")]),
                _ => args.extend([s("-s"), s("-k"), key_spec(r, &sh)]),
            }
            c.early = true;
        }
        "sort" => {
            args.push(s("sort"));
            for _ in 0..r.below(3) {
                args.extend([s("-k"), key_spec(r, &sh)]);
            }
            if r.pct(30) {
                args.push(s("-u"));
            }
            if r.pct(15) {
                args.push(s("-a"));
            }
            if r.pct(50) {
                c.env.push(format!("CDX_SIM_SORT_BUDGET={}", r.pick(&[200usize, 1000, 5000, 20000, 70000])));
            }
        }
        "merge" => {
            args.extend([s("sort"), s("-m"), s("-k"), s("1")]);
            if r.pct(30) {
                args.push(s("-u"));
            }
            if r.pct(40) {
                args.push(s("-A"));
            }
            nfiles = r.range(1, 4);
        }
        "sortcheck" => {
            args.push(s("sort"));
            if r.pct(50) {
                args.push(s("-c"));
            } else {
                args.extend([s("-C"), r.range(1, 5).to_string()]);
            }
            if r.pct(30) {
                args.push(s("-u"));
            }
            c.early = true;
        }
        "transpose" => {
            args.push(s("transpose"));
            sh.ragged = false;
            if r.pct(30) {
                args.push(s("-h"));
            }
            if r.pct(40) {
                args.extend([s("-n"), r.range(1, 20).to_string()]);
                c.early = true;
            }
        }
        "tabs" => {
            args.push(s("tabs"));
            c.rows = r.range(10, 40) as i32;
            c.cols = r.range(40, 120) as i32;
            sh.ragged = false;
            c.early = true;
        }
        "calc" => {
            args.push(s("calc"));
        }
        "binsearch" => {
            args.push(s("binsearch"));
            if r.pct(60) {
                args.extend([s("-k"), s("1")]);
            }
            if r.pct(30) {
                args.extend([s("-C"), s("1,1")]);
            }
            if r.pct(30) {
                args.extend([s("-H"), s("fn:1")]);
            }
            let w = plain_word(r, 2, 4);
            args.push(w);
            c.early = true;
        }
        "filegen" => {
            args.push(s("filegen"));
            let top = if r.pct(20) { 2000 } else { 50 };
            args.extend([s("-n"), r.below(top).to_string()]);
            for _ in 0..r.range(1, 3) {
                match r.below(8) {
                    5 => args.extend([s("-c"), format!("decimal,{}", r.pick(&["100", "-5.25", "0.001"]))]),
                    6 => args.extend([s("-c"), s(r.pick(&["normal,5,2", "normal,0,1,float", "normal"]))]),
                    7 => args.extend([s("-m"), s("3,count,2")]),
                    0 => args.extend([s("-c"), s("grid")]),
                    1 => args.extend([s("-c"), s("count,5")]),
                    2 => args.extend([s("-c"), s("null")]),
                    3 => args.extend([s("-m"), s("2,grid")]),
                    _ => {
                        let e = crate::props::exprs::expr(r, &[s("line"), s("col")]);
                        args.extend([s("-c"), format!("expr,{e}")]);
                    }
                }
            }
            if r.pct(40) {
                args.push(s("-h"));
            }
        }
        x => panic!("unknown command {x}"),
    }
    let mut quoting = ' ';
    if matches!(which, "cgrep" | "cut" | "wc" | "uniq" | "sample" | "paste" | "verify" | "transpose" | "catn" | "sortcheck" | "tabs") {
        quoting = text_in(r, &mut args, if matches!(which, "cgrep" | "cut") { 20 } else { 10 });
    }
    let mut tables: Vec<Vec<u8>> = Vec::new();
    let same_size = which == "paste" && r.pct(60);
    let sz0 = size(r).min(cap);
    let long_head = which != "tabs" && r.pct(2);
    for i in 0..nfiles {
        let mut target = if which == "tabs" || which == "transpose" { r.below(2500) } else { size(r).min(cap) };
        if same_size || i == 0 && which == "paste" {
            target = sz0;
        }
        if many {
            target = target.min(1500);
        }
        if which == "calc" {
            let k = if r.pct(10) { r.below(600) } else { r.below(12) };
            tables.push(calc_lines(r, k));
            continue;
        }
        let mut sh2 = Shape { cols: sh.cols, header: sh.header, ragged: sh.ragged, weird: sh.weird };
        if r.pct(2) {
            sh2.header = !sh2.header;
        }
        if matches!(which, "join" | "paste") && r.pct(30) {
            sh2.cols = r.range(1, 5);
        }
        let mut t = table(r, &sh2, target);
        if sorted {
            sort_rows(&mut t, 0);
        }
        if same_size && i > 0 && r.pct(70) {
            // same number of rows as the first file
            let n0 = tables[0].iter().filter(|x| **x == b'\n').count();
            let cur = t.rows.len();
            if cur > n0 {
                t.rows.truncate(n0);
            }
            while t.rows.len() < n0 && cur > 0 {
                let row = t.rows[t.rows.len() % cur].clone();
                t.rows.push(row);
            }
            t.final_newline = true;
        }
        if long_head {
            if let Some(h) = &mut t.header {
                let l = h.last_mut().unwrap();
                l.push('_');
                l.push_str(&"x".repeat(9000));
            }
        }
        let mut b = t.bytes();
        decorate(r, &mut b, quoting);
        if r.pct(2) {
            b = Vec::new();
        }
        if r.pct(2) {
            // header only
            if let Some(p) = b.iter().position(|x| *x == b'\n') {
                b.truncate(p + 1);
            }
        }
        tables.push(b);
    }
    for (i, b) in tables.into_iter().enumerate() {
        c.files.push((fname(i), b));
    }
    c.args = args;
    for (n, _) in &extra {
        c.extra.push(n.clone());
    }
    let nf = c.files.len();
    c.files.extend(extra);
    // one operand may be standard input
    if nf > 0 {
        let stdin_at = if which != "binsearch" && r.pct(25) { Some(r.below(nf)) } else { None };
        if nf == 1 && stdin_at.is_some() && r.pct(60) {
            c.stdin = Some(fname(0));
        } else {
            for i in 0..nf {
                c.inputs.push(c.args.len());
                if stdin_at == Some(i) {
                    c.args.push(s("-"));
                    c.stdin = Some(fname(i));
                } else {
                    c.args.push(fname(i));
                }
            }
        }
    }
    c
}
