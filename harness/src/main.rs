mod adapt;
mod after;
mod dump;
mod endless;
mod history;
mod json;
mod memory;
mod ops;
mod pool;
mod profile;
mod replay;
mod scan;

use pool::{guarded, idle, Out, Viol};
use std::collections::HashMap;
use std::time::Duration;

pub struct Args {
    pub pos: Vec<String>,
    pub opt: HashMap<String, String>,
}
impl Args {
    pub fn get(&self, k: &str) -> Option<&str> {
        self.opt.get(k).map(|s| s.as_str())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map(|s| s.parse().expect("number")).unwrap_or(d)
    }
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}

/// lines of the files, each file cut at line ends
pub fn read_lines(files: &[String]) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    for f in files {
        let b = std::fs::read(f).unwrap_or_else(|e| panic!("{}: {}", f, e));
        for l in b.split(|c| *c == b'\n') {
            if l.is_empty() {
                continue;
            }
            // CSVWrite prints a TLA+ string: in quotes, with escapes
            if l[0] == b'"' {
                v.push(l[1..l.len() - 1].iter().copied().filter(|c| *c != b'\\').collect());
            } else {
                v.push(l.to_vec());
            }
        }
    }
    v
}

pub struct Total {
    pub prop: String,
    pub cases: u64,
    pub nontrivial: u64,
    pub evals: u64,
    pub excused: u64,
    pub violations: u64,
}

pub fn finish(totals: Vec<Total>, viols: Vec<Viol>, args: &Args) -> ! {
    for t in &totals {
        println!(
            "{{\"prop\":{},\"cases\":{},\"nontrivial\":{},\"evals\":{},\"excused\":{},\"violations\":{}}}",
            json::quote(&t.prop), t.cases, t.nontrivial, t.evals, t.excused, t.violations
        );
    }
    if let Some(f) = args.get("viol") {
        let l: Vec<String> = viols.iter().take(40).map(|v| v.json()).collect();
        std::fs::write(f, format!("[{}]\n", l.join(",\n"))).unwrap();
    }
    std::process::exit(if viols.is_empty() { 0 } else { 3 });
}

fn main() {
    let mut a = Args { pos: Vec::new(), opt: HashMap::new() };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        if let Some(k) = x.strip_prefix("--") {
            a.opt.insert(k.into(), it.next().unwrap_or_default());
        } else {
            a.pos.push(x);
        }
    }
    if std::env::var_os("HARNESS_LOUD").is_none() {
        std::panic::set_hook(Box::new(|_| ()));
    }
    pool::watchdog(Duration::from_secs(a.num("patience", 30)), a.get("viol").map(|s| s.to_string()));
    // deep stacks are not an excuse for recursion in the code under test: keep the default size there
    match a.pos.first().map(|s| s.as_str()) {
        Some("replay") => cmd_replay(a),
        Some("scan") => scan::cmd(a),
        Some("profile") => profile::cmd(a),
        Some("endless") => endless::cmd(a),
        Some("trace") => history::cmd_trace(a),
        Some("schedule") => history::cmd_schedule(a),
        Some("dump") => dump::cmd(a),
        Some("pairs") => dump::cmd_pairs(a),
        Some("after") => after::cmd_after(a),
        Some("digest") => dump::cmd_digest(a),
        Some("show") => {
            let t = json::parse(a.pos[1].as_bytes()).unwrap().text();
            print!("{}", ops::everything(&t));
        }
        Some("giants") => dump::cmd_giants(a),
        x => panic!("command {:?}", x),
    }
}

fn cmd_replay(a: Args) {
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    let props: Vec<String> = a.get("props").unwrap().split(',').map(|s| s.to_string()).collect();
    let lines = read_lines(&a.pos[1..]);
    let n = threads();
    let seed = a.num("seed", 1);
    let rounds = a.num("rounds", 0);
    // how many records a thread takes at a time; few when they are very long
    let batch = a.num("batch", 8) as usize;
    let mut totals: HashMap<String, Total> = HashMap::new();
    let mut viols: Vec<Viol> = Vec::new();
    let mut disputes: Vec<String> = Vec::new();
    let mut all: Vec<(Out, u64, u64)> = Vec::new();
    for p in &props {
        let next = AtomicUsize::new(0);
        // for C03, texts that have an equivalent form must meet on one thread
        let kin: Vec<u64> = if p == "C03" { in_parallel(&lines, |l| replay::kin(&replay::rec(l))) } else { vec![] };
        let res: Vec<((Out, u64, u64), replay::Keep)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n)
                .map(|k| {
                    let (lines, kin, next) = (&lines, &kin, &next);
                    s.spawn(move || {
                        let mut o = Out::new(p, k);
                        let mut keep = replay::Keep::default();
                        let (mut cases, mut nt) = (0, 0);
                        let mut one = |l: &[u8], o: &mut Out| {
                            let r = replay::rec(l);
                            o.now(&r.s);
                            cases += 1;
                            if replay::nontrivial(p, &r) {
                                nt += 1;
                            }
                            if let Err(e) = guarded(|| replay::check(p, &r, o, &mut keep)) {
                                o.fail(&format!("panics: {}", e), &r.s, "", "");
                            }
                        };
                        if p == "C20" {
                            let size = (lines.len() + n - 1) / n;
                            let recs: Vec<replay::Rec> = lines.chunks(size.max(1)).nth(k).unwrap_or(&[]).iter().map(|l| replay::rec(l)).collect();
                            let m = if rounds > 0 { rounds as usize } else { recs.len() / 2 + 1000 };
                            if !recs.is_empty() {
                                (cases, nt) = replay::boundaries(&recs, &mut o, seed * 1000 + k as u64, m);
                            }
                        } else if p == "C03" {
                            lines.iter().zip(kin).filter(|x| *x.1 % n as u64 == k as u64).for_each(|x| one(x.0, &mut o));
                        } else {
                            loop {
                                let i = next.fetch_add(batch, Relaxed);
                                if i >= lines.len() {
                                    break;
                                }
                                lines[i..(i + batch).min(lines.len())].iter().for_each(|l| one(l, &mut o));
                            }
                        }
                        idle(k);
                        ((o, cases, nt), keep)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker")).collect()
        });
        let (outs, keeps): (Vec<_>, Vec<_>) = res.into_iter().unzip();
        all.extend(outs);
        if p == "C03" {
            let mut o = Out::new(p, 0);
            replay::across(&keeps, &mut o);
            all.push((o, 0, 0));
        }
    }
    for (o, c, nt) in all {
        let t = totals.entry(o.prop.clone()).or_insert(Total { prop: o.prop.clone(), cases: 0, nontrivial: 0, evals: 0, excused: 0, violations: 0 });
        t.cases += c;
        t.nontrivial += nt;
        t.evals += o.evals;
        t.excused += o.excused;
        t.violations += o.total;
        viols.extend(o.viols);
        disputes.extend(o.disputes);
    }
    // shortest input first
    viols.sort_by_key(|v| v.input.len());
    disputes.sort_by_key(|d| d.len());
    if let Some(f) = a.get("disputes") {
        if !disputes.is_empty() {
            let l: Vec<String> = disputes.into_iter().take(400).collect();
            std::fs::write(f, l.join("\n") + "\n").unwrap();
        }
    }
    finish(props.iter().filter_map(|p| totals.remove(p)).collect(), viols, &a);
}

fn in_parallel<T: Send, U: Send + Sync>(v: &[U], f: impl Fn(&U) -> T + Sync) -> Vec<T> {
    let size = (v.len() + threads() - 1) / threads();
    std::thread::scope(|s| {
        let hs: Vec<_> = v.chunks(size.max(1)).map(|c| { let f = &f; s.spawn(move || c.iter().map(f).collect::<Vec<T>>()) }).collect();
        hs.into_iter().flat_map(|h| h.join().expect("worker")).collect()
    })
}
