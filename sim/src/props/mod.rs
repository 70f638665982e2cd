//! The properties: how a case is made, and how one simulated history is judged.
pub mod exprs;
mod formats;
mod io;
mod layout;
mod net;
mod records;
mod search;
mod sorts;
mod tools;
use crate::case::*;
use crate::engine::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::shm::*;
use crate::world::*;

pub const REAL: &str = "the whole cdx binary as built from /repo (argument parsing, readers, decompression, sorting, joining, merging, writers, exit path), the Rust standard library, the real file system under a scratch directory";
pub const STUB: &str = "the operating system boundary only: size and error of every read, write, open, map and directory call, clock, random source, process id, terminal size";

pub fn all() -> Vec<Prop> {
    let mut v = io::all();
    v.extend(sorts::all());
    v.extend(records::all());
    v.extend(tools::all());
    v.extend(net::all());
    v.extend(search::all());
    v.extend(formats::all());
    v.extend(layout::all());
    v.sort_by_key(|p| p.id);
    v
}

/// result of one command as a user sees it
#[derive(Clone, Debug, PartialEq)]
pub struct View {
    pub status: Status,
    pub stdout: Vec<u8>,
    pub outs: Vec<Option<Vec<u8>>>,
}
pub fn chan_files(c: &Case) -> Vec<String> {
    let mut v = World::names(&c.files);
    for o in c.list("outs") {
        if !v.contains(&o) {
            v.push(o);
        }
    }
    v
}
pub fn view(w: &World, c: &Case, o: &Out) -> View {
    View { status: o.status, stdout: o.stdout.clone(), outs: c.list("outs").iter().map(|x| w.read(x)).collect() }
}
/// `<<` argument carrying `data`
pub fn inline(data: &[u8]) -> String {
    let mut v = b"<<".to_vec();
    for b in data {
        match b {
            b'\n' => v.extend_from_slice(b"\\n"),
            b'\t' => v.extend_from_slice(b"\\t"),
            b'\\' => v.extend_from_slice(b"\\\\"),
            x => v.push(*x),
        }
    }
    String::from_utf8(v).unwrap_or_default()
}
/// resolve `@inline:NAME` arguments against the files of the case
pub fn resolve(c: &Case, r: &Run) -> Run {
    let mut r = r.clone();
    for a in &mut r.args {
        if let Some(n) = a.strip_prefix("@inline:") {
            *a = inline(c.file(n));
        }
    }
    r
}
pub fn fresh(w: &mut World, c: &Case, r: &Run) -> (Out, View) {
    w.setup(c);
    let o = w.run(&resolve(c, r), &chan_files(c));
    let v = view(w, c, &o);
    (o, v)
}
pub fn show(b: &[u8]) -> String {
    let n = b.len();
    let t = String::from_utf8_lossy(&b[..n.min(80)]).replace('\n', "\\n").replace('\t', "\\t");
    format!("{n}B \"{t}\"")
}
/// first difference of two byte strings, for reports
pub fn differ(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b.iter()).take_while(|x| x.0 == x.1).count();
    let from = k.saturating_sub(20);
    format!("lengths {} and {}, first difference at byte {}: {} against {}", a.len(), b.len(), k, show(&a[from.min(a.len())..]), show(&b[from.min(b.len())..]))
}
pub fn compare(class: &str, want: &View, got: &View, o: &Out) -> Result<(), Viol> {
    if want.status != got.status {
        return viol(&format!("{class}: exit status"), format!("{:?} became {:?}; stderr {}", want.status, got.status, o.err_text()));
    }
    if want.stdout != got.stdout {
        return viol(&format!("{class}: standard output"), differ(&want.stdout, &got.stdout));
    }
    for (a, b) in want.outs.iter().zip(got.outs.iter()) {
        if a != b {
            return viol(&format!("{class}: output file"), differ(a.as_deref().unwrap_or(b"<none>"), b.as_deref().unwrap_or(b"<none>")));
        }
    }
    Ok(())
}
/// problems of the harness itself or of the process that make every judgement void
pub fn sane(o: &Out) -> Result<(), Viol> {
    if o.lost {
        return viol("skip", "output too large".into());
    }
    sane2(o)
}
/// the same for a disturbed run, whose calm twin was sane
pub fn sane2(o: &Out) -> Result<(), Viol> {
    if o.lost {
        return viol("runaway output", "more output than expected".into());
    }
    if o.status == Status::Hang || o.over_budget || o.deadlock {
        return viol("hang", format!("status {:?} steps {} over budget {} deadlock {}", o.status, o.steps, o.over_budget, o.deadlock));
    }
    Ok(())
}
/// keep the number of transfers reasonable when the output turns out to be large
pub fn scale(r: &mut Run, ch: &Ch, len: usize) {
    let least = (len / 60_000) as i32;
    for (c, f) in &mut r.frags {
        if c == ch && least > 0 {
            f.p1 = f.p1.max(least);
            if f.mode & 0xff == M_MIX {
                f.p2 = f.p2.max(least * 50);
            }
        }
    }
}
pub fn frag_all(r: &mut Rng, c: &mut Case, k: usize, pct: usize) {
    let run = c.runs[k].clone();
    for n in World::names(&c.files) {
        if r.pct(pct) {
            let f = frag(r, c.file(&n).len());
            c.runs[k].frags.push((chan_of(&run, &n), f));
        }
    }
}
/// one undisturbed command from the generator of another property
pub fn borrow(r: &mut Rng, from: &[&str]) -> Case {
    let id = *r.pick(from);
    let p = all().into_iter().find(|p| p.id == id).unwrap();
    let c = (p.gen)(r, 0);
    let run = r.pick(&c.runs).calm();
    let mut d = Case { files: c.files.clone(), runs: vec![run], ..Case::default() };
    if c.kv.contains_key("outs") {
        d.set_list("outs", &c.list("outs"));
    }
    let run = &d.runs[0];
    let inputs: Vec<String> = World::names(&d.files).into_iter().filter(|n| run.args.contains(n) || run.stdin.as_ref() == Some(n)).collect();
    let mut cmd = run.args.first().cloned().unwrap_or_default();
    if cmd == "sort" && run.args.iter().any(|a| matches!(a.as_str(), "-c" | "-C" | "--check" | "--Check")) {
        cmd = "sortc".into();
    }
    d.set_list("inputs", &inputs);
    d.set("cmd", cmd);
    d.set("from", id);
    d
}
pub const LENDERS: [&str; 7] = ["P12", "P15", "P19", "P20", "P21", "P23", "P24"];
/// turn some inputs into pipes: no length, no seeking, no mapping, and one pass only
pub fn pipe_some(r: &mut Rng, c: &mut Case, k: usize, pct: usize) {
    let run = c.runs[k].clone();
    if run.args.first().map_or(true, |x| x == "binsearch") {
        return; // works on a mapped file by design
    }
    for n in World::names(&c.files) {
        let uses = run.args.iter().map(|a| a.matches(n.as_str()).count()).sum::<usize>() + usize::from(run.stdin.as_deref() == Some(n.as_str()));
        if uses != 1 || !r.pct(pct) {
            continue;
        }
        let ch = chan_of(&run, &n);
        match c.runs[k].frags.iter_mut().find(|x| x.0 == ch) {
            Some(f) => f.1.mode |= M_PIPE,
            None => c.runs[k].frags.push((ch, Frag { mode: M_PIPE, seed: 1, ..Frag::default() })),
        }
    }
}
/// a description of a command that passes in its undisturbed form
pub fn cmd_case(r: &mut Rng, want: Want) -> (Cmd, Case) {
    let m = command(r, want);
    let seed = r.next() >> 1;
    let c = m.case("", seed);
    (m, c)
}
