//! Seeded search over cases, confirmation, minimisation, replay files and evidence.
use crate::case::*;
use crate::rng::{mix, Rng};
use crate::shm::*;
use crate::world::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Viol {
    /// violation class: stays the same while a case is minimised
    pub class: String,
    pub detail: String,
}
pub fn viol<T>(class: &str, detail: String) -> Result<T, Viol> {
    Err(Viol { class: class.to_string(), detail })
}
/// Ok(true): the property was exercised; Ok(false): trivial case
pub type Check = Result<bool, Viol>;

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, u64) -> Case,
    pub check: fn(&mut World, &Case) -> Check,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub shrink_files: bool,
    pub real: &'static str,
    pub stub: &'static str,
}

pub struct Conf {
    pub verif: PathBuf,
    pub bin: PathBuf,
    pub shim: PathBuf,
    pub seed: u64,
    pub tier: String,
    pub workers: usize,
    pub cases: Option<u64>,
    pub from: u64,
}

fn scratch(tag: &str) -> PathBuf {
    static N: AtomicU64 = AtomicU64::new(0);
    PathBuf::from(format!("/dev/shm/cdxsim.{}.{}{}", std::process::id(), tag, N.fetch_add(1, Ordering::Relaxed)))
}

pub fn case_for(p: &Prop, seed: u64, i: u64) -> Case {
    let mut h = seed;
    for b in p.id.bytes() {
        h = mix(h ^ u64::from(b));
    }
    let cs = mix(h.wrapping_add(i.wrapping_mul(0x1_0001)));
    let mut rng = Rng::new(cs);
    let mut c = (p.gen)(&mut rng, i);
    c.prop = p.id.to_string();
    c
}

fn shape_of(c: &Case) -> u64 {
    // shape of a case: command line plus the kinds of disturbance, without data
    let mut h = 7u64;
    let mut add = |s: &str| {
        for b in s.bytes() {
            h = mix(h ^ u64::from(b));
        }
    };
    for r in &c.runs {
        for a in &r.args {
            if a.len() < 60 {
                add(a);
            }
        }
        for f in &r.faults {
            add(&f.kind());
        }
        for f in &r.frags {
            add(&format!("{}:{}:{}", f.0.class(), f.1.mode, i32::from(f.1.eintr > 0)));
        }
    }
    h
}

pub fn check_caught(p: &Prop, w: &mut World, c: &Case) -> Check {
    match (p.check)(w, c) {
        Err(v) if v.class == "skip" => {
            w.stats.probe("skipped");
            Ok(false)
        }
        x => x,
    }
}

fn reductions(p: &Prop, c: &Case) -> Vec<Case> {
    let mut out = Vec::new();
    // drop whole runs of a history
    if c.kv.contains_key("history") && c.runs.len() > 1 {
        for i in 0..c.runs.len() - 1 {
            let mut d = c.clone();
            d.runs.remove(i);
            out.push(d);
        }
    }
    for i in 0..c.runs.len() {
        let r = &c.runs[i];
        for j in 0..r.faults.len() {
            let mut d = c.clone();
            d.runs[i].faults.remove(j);
            out.push(d);
        }
        if r.frags.len() > 1 {
            let mut d = c.clone();
            d.runs[i].frags.clear();
            out.push(d);
        }
        for j in 0..r.frags.len() {
            let mut d = c.clone();
            d.runs[i].frags.remove(j);
            out.push(d);
            let f = &r.frags[j].1;
            if f.eintr > 0 {
                let mut d = c.clone();
                d.runs[i].frags[j].1.eintr = 0;
                out.push(d);
                if f.eintr_max > 1 {
                    let mut d = c.clone();
                    d.runs[i].frags[j].1.eintr_max = f.eintr_max / 2;
                    out.push(d);
                }
            }
            for k in 0..f.cuts.len() {
                let mut d = c.clone();
                d.runs[i].frags[j].1.cuts.remove(k);
                out.push(d);
            }
        }
        for j in 0..r.stops.len() {
            let mut d = c.clone();
            d.runs[i].stops.remove(j);
            out.push(d);
        }
    }
    if p.shrink_files {
        for i in 0..c.files.len() {
            let data = &c.files[i].1;
            let lines: Vec<&[u8]> = data.split_inclusive(|b| *b == b'\n').collect();
            let n = lines.len();
            if n == 0 || data.starts_with(&[0x1f, 0x8b]) {
                continue;
            }
            let mut k = n;
            while k >= 1 {
                let mut at = 0;
                let mut count = 0;
                while at < n && count < 12 {
                    let mut v = Vec::new();
                    for (x, l) in lines.iter().enumerate() {
                        if x < at || x >= at + k {
                            v.extend_from_slice(l);
                        }
                    }
                    let mut d = c.clone();
                    d.files[i].1 = v;
                    out.push(d);
                    at += k;
                    count += 1;
                }
                k /= 2;
            }
            if data.iter().any(|b| *b == b'\t') || lines.iter().any(|l| l.len() > 40) {
                // shorten long lines
                let mut v = Vec::new();
                for l in &lines {
                    if l.len() > 40 && !l.starts_with(b" CDX") && l.is_ascii() {
                        v.extend_from_slice(&l[..20]);
                        v.push(b'\n');
                    } else {
                        v.extend_from_slice(l);
                    }
                }
                if v != *data {
                    let mut d = c.clone();
                    d.files[i].1 = v;
                    out.push(d);
                }
            }
        }
    }
    out
}

pub fn minimise(p: &Prop, w: &mut World, c: &Case, v: &Viol, limit: Duration) -> (Case, Viol, usize) {
    let t = Instant::now();
    let mut best = c.clone();
    let mut bv = v.clone();
    let mut tries = 0;
    'outer: loop {
        for d in reductions(p, &best) {
            if t.elapsed() > limit || tries > 3000 {
                break 'outer;
            }
            tries += 1;
            if let Err(x) = check_caught(p, w, &d) {
                if x.class == bv.class {
                    best = d;
                    bv = x;
                    continue 'outer;
                }
            }
        }
        break;
    }
    (best, bv, tries)
}

pub fn render(c: &Case) -> String {
    let mut s = String::new();
    for (n, d) in &c.files {
        let show = String::from_utf8_lossy(&d[..d.len().min(60)]).replace('\n', "\\n").replace('\t', "\\t");
        s.push_str(&format!("[{} {}B \"{}\"] ", n, d.len(), show));
    }
    for r in &c.runs {
        s.push_str(&format!("$ {} ", r.line().chars().take(200).collect::<String>()));
        for (ch, f) in &r.frags {
            s.push_str(&format!("{{{} mode={} p1={} eintr={} cuts={:?}}} ", ch.class(), f.mode, f.p1, f.eintr, f.cuts));
        }
        for f in &r.faults {
            s.push_str(&format!("{{fault {} at={} repeat={}}} ", f.kind(), f.at, f.repeat));
        }
        for x in &r.resps {
            s.push_str(&format!("{{resp {}B mode={} end={} refuse={}}} ", x.bytes.len(), x.mode, x.end, x.refuse));
        }
        if !r.stops.is_empty() {
            s.push_str(&format!("{{stops {:?}}} ", r.stops));
        }
    }
    s
}

fn known(verif: &Path, prop: &str) -> Vec<(String, String)> {
    // "finding: property=P04 match=<substring of class and command> -- text"
    let mut v = Vec::new();
    if let Ok(t) = std::fs::read_to_string(verif.join("known_findings.txt")) {
        for l in t.lines() {
            if let Some(x) = l.strip_prefix("finding: ") {
                if let Some(x) = x.strip_prefix(&format!("property={prop} match=")) {
                    let (m, t) = x.split_once(" -- ").unwrap_or((x, ""));
                    v.push((m.to_string(), t.to_string()));
                }
            }
        }
    }
    v
}

/// the whole check of one property; returns the process exit status
pub fn search(p: &Prop, conf: &Conf) -> i32 {
    let t0 = Instant::now();
    let total = conf.cases.unwrap_or(if conf.tier == "thorough" { p.thorough } else { p.quick });
    let cap = Duration::from_secs(if conf.tier == "thorough" { 3000 } else { 120 });
    let next = AtomicU64::new(conf.from);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<(u64, Case, Viol)>> = Mutex::new(None);
    let stats = Mutex::new(Stats::default());
    let knowns = known(&conf.verif, p.id);
    let hits: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let last = conf.from + total;
    std::thread::scope(|sc| {
        for _ in 0..conf.workers {
            sc.spawn(|| {
                let mut w = World::new(&scratch("w"), &conf.bin, &conf.shim);
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= last || stop.load(Ordering::Relaxed) || t0.elapsed() > cap {
                        break;
                    }
                    let c = case_for(p, conf.seed, i);
                    w.stats.cases += 1;
                    *w.stats.cmds.entry(c.get("cmd").to_string()).or_insert(0) += 1;
                    let res = check_caught(p, &mut w, &c);
                    match res {
                        Ok(x) => {
                            if x {
                                w.stats.nontrivial += 1;
                                w.stats.shapes.insert(shape_of(&c));
                            }
                            if i < 4 {
                                w.stats.samples.push(format!("case {}: {}", i, render(&c)));
                            }
                        }
                        Err(v) => {
                            // must reproduce in a fresh process image before it is believed
                            w.restart();
                            let again = check_caught(p, &mut w, &c);
                            match again {
                                Err(v2) if v2.class == v.class => {
                                    let sig = format!("{} {}", v.class, c.runs.last().map_or(String::new(), |r| r.line()));
                                    if let Some(k) = knowns.iter().find(|k| sig.contains(&k.0)) {
                                        *hits.lock().unwrap().entry(k.1.clone()).or_insert(0) += 1;
                                        continue;
                                    }
                                    let mut f = found.lock().unwrap();
                                    if f.as_ref().map_or(true, |x| x.0 > i) {
                                        *f = Some((i, c, v));
                                    }
                                    stop.store(true, Ordering::Relaxed);
                                }
                                _ => {
                                    w.stats.unreproducible += 1;
                                    eprintln!("note: case {} of {} did not reproduce: {} / {}", i, p.id, v.class, v.detail);
                                }
                            }
                        }
                    }
                }
                let st = std::mem::take(&mut w.stats);
                stats.lock().unwrap().merge(st);
            });
        }
    });
    let mut st = stats.into_inner().unwrap();
    let hits = hits.into_inner().unwrap();
    for k in &knowns {
        println!("KNOWN-FINDING: property={} {} (seen {} times in this run)", p.id, k.1, hits.get(&k.1).unwrap_or(&0));
    }
    let search_s = t0.elapsed().as_secs_f64();
    let found = found.into_inner().unwrap();
    let mut code = 0;
    let mut nviol = 0;
    if let Some((i, c, v)) = found {
        nviol = 1;
        code = 1;
        println!("violation found: case {} seed {}: {}: {}", i, conf.seed, v.class, v.detail);
        let mut w = World::new(&scratch("m"), &conf.bin, &conf.shim);
        let (c2, v2, tries) = minimise(p, &mut w, &c, &v, Duration::from_secs(25));
        let dir = conf.verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-seed{}-case{}.replay", p.id, conf.seed, i));
        let mut text = format!("# property {} violated: {}\n# {}\n# seed {} case {}, minimised in {} attempts\n", p.id, v2.class, v2.detail.replace('\n', " "), conf.seed, i, tries);
        text.push_str(&format!("# {}\n", render(&c2).replace('\n', " ")));
        text.push_str(&c2.to_text());
        std::fs::write(&path, &text).expect("cannot write the replay file");
        // the file itself must reproduce the violation
        let back = Case::parse(&text);
        w.restart();
        match check_caught(p, &mut w, &back) {
            Err(x) if x.class == v2.class => println!("replay file reproduces it: {}", v2.detail),
            _ => eprintln!("note: replay file does not reproduce the violation"),
        }
        println!("minimised: {}", render(&c2));
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    st.samples.sort();
    evidence(p, conf, &st, search_s, t0.elapsed().as_secs_f64(), nviol, &hits);
    println!(
        "{}: {} cases ({} non-trivial), {} simulated runs, {:.0} runs/hour, {} distinct schedules, {} violations, {:.1} s",
        p.id,
        st.cases,
        st.nontrivial,
        st.runs,
        st.runs as f64 / search_s * 3600.0,
        st.hashes.len(),
        nviol,
        t0.elapsed().as_secs_f64()
    );
    if code == 0 && st.unreproducible > 0 {
        println!("note: {} unreproducible observations were discarded", st.unreproducible);
    }
    if code == 0 && (st.cases == 0 || st.nontrivial == 0) {
        eprintln!("harness error: nothing was exercised");
        return 3;
    }
    code
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
    format!("{{{}}}", v.join(", "))
}

fn evidence(p: &Prop, conf: &Conf, st: &Stats, search_s: f64, wall: f64, nviol: u32, hits: &BTreeMap<String, u64>) {
    let dir = conf.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let samples: Vec<String> = st.samples.iter().take(6).map(|x| jstr(&x.chars().take(900).collect::<String>())).collect();
    let t = format!(
        r#"{{
 "property": {id},
 "tier": {tier},
 "seed": {seed},
 "level": "exploration",
 "coverage": {{
  "evaluations": {cases},
  "distinct_nontrivial": {shapes},
  "rule": {rule},
  "samples": [{samples}],
  "nontrivial_cases": {nontriv},
  "simulated_runs": {runs},
  "runs_per_hour": {rph:.0},
  "seeds_per_hour": {sph:.0},
  "simulated_seconds": {simt:.3},
  "simulated_steps": {steps},
  "distinct_schedules": {hashes},
  "distinct_schedules_measure": "distinct hashes of the complete event log (operation, channel, offset, length, error) of a run",
  "short_transfers_injected": {shorts},
  "eintr_injected": {eintrs},
  "faults_fired": {faults},
  "faults_planned": {planned},
  "probes": {probes},
  "commands": {cmds},
  "known_findings_seen": {hits},
  "unreproducible_discarded": {unrep},
  "components_real": {real},
  "components_stub": {stub}
 }},
 "assumptions": [
  "the cdx binary reaches the operating system only through the interposed C library calls",
  "sampling: seeded search, not enumeration"
 ],
 "wall_s": {wall:.2},
 "violations": {nviol}
}}
"#,
        id = jstr(p.id),
        tier = jstr(&conf.tier),
        seed = conf.seed,
        cases = st.cases,
        shapes = st.shapes.len(),
        rule = jstr(&format!(
            "{} A case counts as non-trivial when the disturbance really took effect (fault fired, transfers fragmented, budget spilled) on a run that does work; distinct = distinct (command line, fault kinds, delivery modes).",
            p.rule
        )),
        samples = samples.join(", "),
        nontriv = st.nontrivial,
        runs = st.runs,
        rph = st.runs as f64 / search_s.max(0.001) * 3600.0,
        sph = st.cases as f64 / search_s.max(0.001) * 3600.0,
        simt = st.sim_us as f64 / 1e6,
        steps = st.steps,
        hashes = st.hashes.len(),
        shorts = st.shorts,
        eintrs = st.eintrs,
        faults = jmap(&st.faults),
        planned = jmap(&st.planned),
        probes = jmap(&st.probes),
        cmds = jmap(&st.cmds),
        hits = jmap(hits),
        unrep = st.unreproducible,
        real = jstr(p.real),
        stub = jstr(p.stub),
        wall = wall,
        nviol = nviol,
    );
    std::fs::write(dir.join(format!("{}.json", p.id)), t).expect("cannot write evidence");
}

pub fn replay(p: &Prop, conf: &Conf, file: &Path) -> i32 {
    let c = Case::parse(&std::fs::read_to_string(file).expect("cannot read the replay file"));
    let mut w = World::new(&scratch("r"), &conf.bin, &conf.shim);
    match check_caught(p, &mut w, &c) {
        Ok(_) => {
            println!("{}: replay does not violate the property", p.id);
            0
        }
        Err(v) => {
            println!("{}: {}", v.class, v.detail);
            println!("{}", render(&c));
            println!("VIOLATION property={} replay={}", p.id, file.display());
            1
        }
    }
}

/// run every case twice, in different worlds, and compare the event logs
pub fn determinism(p: &Prop, conf: &Conf, n: u64) -> i32 {
    let mut bad = 0;
    let mut one = |seedcases: &mut Vec<u64>, restart: bool| {
        let mut w = World::new(&scratch("d"), &conf.bin, &conf.shim);
        for i in 0..n {
            let c = case_for(p, conf.seed, i);
            w.stats.hashes.clear();
            let r = check_caught(p, &mut w, &c);
            let mut h: Vec<u64> = w.stats.hashes.iter().copied().collect();
            h.sort_unstable();
            let mut x = h.iter().fold(0, |a, b| mix(a ^ b));
            if let Err(v) = r {
                x = mix(x ^ v.class.len() as u64);
            }
            seedcases.push(x);
            if restart && i % 50 == 0 {
                w.restart();
            }
        }
    };
    let mut a = Vec::new();
    let mut b = Vec::new();
    one(&mut a, false);
    one(&mut b, true);
    for i in 0..n as usize {
        if a[i] != b[i] {
            bad += 1;
            println!("case {} differs", i);
        }
    }
    println!("{}: {} cases twice, {} differ", p.id, n, bad);
    i32::from(bad > 0)
}

pub fn logtext(o: &Out) -> String {
    let mut s = String::new();
    for e in &o.log {
        let ch = o.chname.get(e.chan as usize).and_then(|x| x.clone());
        s.push_str(&format!(
            "{} {} err={} off={} len={}\n",
            OP_NAMES.get(e.op as usize).unwrap_or(&"?"),
            ch.map_or("esc".to_string(), |c| match c {
                Ch::File(x) => x,
                c => c.class().to_string(),
            }),
            e.err,
            e.off,
            e.len
        ));
    }
    s
}
