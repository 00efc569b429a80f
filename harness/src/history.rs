//! Histories of API calls on live adapters: recorded for the specification to judge (`trace`), or prescribed
//! by the specification and replayed (`schedule`).
use crate::adapt::{build, Adapter, Hint, Src, Stats, CLONED};
use crate::json;
use crate::ops::Rng;
use crate::pool::{guarded, Out};
use crate::{finish, read_lines, Args, Total};
use std::fmt::Write as _;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Mutex};

pub const CHAINS: [&[&str]; 22] = [
    &["nfd"], &["nfkd"], &["nfc"], &["nfkc"], &["ss"], &["cjk"],
    &["ss", "nfc"], &["ss", "nfd"], &["nfc", "ss"], &["nfd", "ss"], &["cjk", "nfc"], &["cjk", "nfkd"],
    &["nfc", "nfd"], &["nfd", "nfc"], &["nfkc", "nfc"], &["nfkd", "nfkc"], &["ss", "nfkc"],
    &["nfkd", "ss"], &["cjk", "ss"], &["nfd", "nfd"], &["nfc", "nfc"], &["ss", "ss"],
];

struct Live {
    a: Option<Box<dyn Adapter>>,
    st: Option<Arc<Stats>>,
}

fn event(ev: &mut String, op: &str, i: usize, arg: u64, res: &[i64], st: &Option<Arc<Stats>>) {
    let (r, e) = match st {
        Some(s) => (s.reads.load(Relaxed) as i64, s.ends.load(Relaxed) as i64),
        None => (-1, -1),
    };
    if !ev.is_empty() {
        ev.push(',');
    }
    let v: Vec<String> = res.iter().map(|x| x.to_string()).collect();
    write!(ev, "[\"{}\",{},{},[{}],{},{}]", op, i, arg, v.join(","), r, e).unwrap();
}

fn opt(c: Option<char>) -> Vec<i64> {
    c.map(|c| c as i64).into_iter().collect()
}
fn items(v: &[char]) -> Vec<i64> {
    v.iter().map(|c| *c as i64).collect()
}

fn pick_chain(rng: &mut Rng) -> &'static [&'static str] {
    if rng.one_in(2) { CHAINS[rng.below(6)] } else { *rng.pick(&CHAINS) }
}

fn base(ch: &[&str], t: &[u32]) -> Vec<u32> {
    let mut a = build(ch, Src::new(t, &[], Hint::Exact));
    let mut v = Vec::new();
    while let Some(c) = a.next() {
        v.push(c as u32);
        assert!(v.len() < 40 * (t.len() + 2), "does not end");
    }
    v
}

fn head(streams: &[(&[&str], Vec<u32>)]) -> String {
    let v: Vec<String> = streams
        .iter()
        .map(|(c, t)| {
            let b = base(c, t);
            let n: Vec<String> = c.iter().map(|x| format!("\"{}\"", x)).collect();
            format!("[[{}],{},{}]", n.join(","), json::text(t), json::text(&b))
        })
        .collect();
    format!("[{}]", v.join(","))
}

fn resume(mix: &str, ch: &[&str], rng: &mut Rng) -> Vec<u32> {
    if mix == "C10" && ch.iter().any(|a| a.starts_with("nf")) && rng.one_in(3) {
        vec![0x62, 0x301, 0x1100, 0x1161]
    } else {
        vec![]
    }
}

fn hint(rng: &mut Rng) -> Hint {
    *rng.pick(&[Hint::Exact, Hint::Chars, Hint::Unknown])
}

/// one random history
fn run(mix: &str, rng: &mut Rng, texts: &[Vec<u32>]) -> String {
    let k = if mix == "C17" { 2 + rng.below(3) } else { 1 };
    let streams: Vec<(&[&str], Vec<u32>)> = (0..k).map(|_| (pick_chain(rng), rng.pick(texts).clone())).collect();
    let mut live: Vec<Live> = Vec::new();
    let mut ev = String::new();
    for (c, t) in &streams {
        let s = Src::new(t, &resume(mix, c, rng), hint(rng));
        let st = Some(s.stats.clone());
        let a = build(c, s);
        event(&mut ev, "make", live.len() + 1, 0, &[], &st);
        live.push(Live { a: Some(a), st });
    }
    let mut over = 0;
    for _ in 0..rng.below(60) + 10 {
        let cand: Vec<usize> = (0..live.len()).filter(|i| live[*i].a.is_some()).collect();
        if cand.is_empty() {
            break;
        }
        let i = *rng.pick(&cand);
        let n = i + 1;
        let op = match (mix, rng.below(100)) {
            (_, 0..=44) => "next",
            ("C09", 45..=64) => "hint",
            ("C09", 65..=79) => "nth",
            ("C09", 80..=94) => "take",
            ("C10", 45..=64) => "hint",
            ("C10", 65..=71) => "nth",
            ("C10", 72..=79) => "take",
            ("C10", 80..=84) => "find",
            ("C10", 85..=91) => "end",
            ("C11", 45..=49) => "hint",
            ("C11", 50..=69) => "clone",
            ("C11", 70..=89) => "show",
            ("C11", 90..=95) => "take",
            ("C11", 96..=97) => "end",
            ("C17", 45..=64) => "hint",
            ("C17", 65..=74) => "take",
            ("C17", 75..=79) => "drop",
            ("C17", 80..=84) => "show",
            ("C17", 85..=89) => "clone",
            _ => "next",
        };
        let st = live[i].st.clone();
        let count = live.len();
        let a = live[i].a.as_mut().unwrap();
        match op {
            "next" => {
                let r = a.next();
                if r.is_none() {
                    over += 1;
                }
                event(&mut ev, "next", n, 0, &opt(r), &st);
            }
            "hint" => {
                let h = a.size_hint();
                event(&mut ev, "hint", n, 0, &[h.0.min(1 << 30) as i64, h.1.map(|x| x.min(1 << 30) as i64).unwrap_or(-1)], &st);
            }
            "nth" => {
                let m = rng.below(4);
                let r = a.nth(m);
                event(&mut ev, "nth", n, m as u64, &opt(r), &st);
            }
            "take" => {
                let m = rng.below(4);
                let r = a.take(m);
                event(&mut ev, "take", n, m as u64, &items(&r), &st);
            }
            "find" => {
                let c = char::from_u32(*rng.pick(&streams[0].1.iter().copied().chain([0x61, 0x301]).collect::<Vec<u32>>())).unwrap();
                let r = a.find(c);
                event(&mut ev, "find", n, c as u64, &opt(r), &st);
            }
            "drop" => {
                live[i].a = None;
                event(&mut ev, "drop", n, 0, &[], &None);
            }
            "show" => {
                if let Some(s) = a.display() {
                    event(&mut ev, "show", n, 0, &items(&s.chars().collect::<Vec<_>>()), &st);
                }
            }
            "clone" if count < 7 => {
                CLONED.with(|c| c.borrow_mut().clear());
                if let Some(b) = a.try_clone() {
                    let got = CLONED.with(|c| c.borrow().clone());
                    let st2 = if got.len() == 1 { Some(got[0].clone()) } else { None };
                    let j = live.len() + 1;
                    event(&mut ev, "clone", n, j as u64, &[], &st);
                    live.push(Live { a: Some(b), st: st2 });
                }
            }
            "end" => {
                let a = live[i].a.take().unwrap();
                let m = 1 + rng.below(3);
                let (w, arg, r): (&str, u64, Vec<i64>) = match rng.below(6) {
                    0 => ("rest", 0, items(&a.fold())),
                    1 => ("rest", 0, items(&a.collect().chars().collect::<Vec<_>>())),
                    2 => ("count", 0, vec![a.count() as i64]),
                    3 => ("last", 0, opt(a.last())),
                    4 => ("step", m as u64, items(&a.step_by(m))),
                    _ => ("skip", m as u64, items(&a.skip(m))),
                };
                event(&mut ev, w, n, arg, &r, &st);
            }
            _ => {}
        }
        if over > 4 {
            break;
        }
    }
    format!("[{},[{}]]", head(&streams), ev)
}

/// several adapters, each driven by its own thread at the same time
fn run_threads(rng: &mut Rng, texts: &[Vec<u32>]) -> String {
    let k = 3 + rng.below(4);
    let streams: Vec<(&[&str], Vec<u32>)> = (0..k).map(|_| (pick_chain(rng), rng.pick(texts).clone())).collect();
    let logs: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = streams
            .iter()
            .enumerate()
            .map(|(i, (c, t))| {
                let h = hint(rng);
                let z = rng.next();
                s.spawn(move || {
                    let mut rng = Rng::new(z);
                    let src = Src::new(t, &[], h);
                    let st = Some(src.stats.clone());
                    let mut a = build(c, src);
                    let mut ev = String::new();
                    event(&mut ev, "make", i + 1, 0, &[], &st);
                    let mut over = 0;
                    while over < 2 {
                        if rng.one_in(4) {
                            let h = a.size_hint();
                            event(&mut ev, "hint", i + 1, 0, &[h.0 as i64, h.1.map(|x| x as i64).unwrap_or(-1)], &st);
                        }
                        let r = a.next();
                        over += r.is_none() as usize;
                        event(&mut ev, "next", i + 1, 0, &opt(r), &st);
                        if rng.one_in(3) {
                            std::thread::yield_now();
                        }
                    }
                    ev
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("a stream's thread panicked")).collect()
    });
    format!("[{},[{}]]", head(&streams), logs.join(","))
}

pub fn cmd_trace(a: Args) {
    let texts: Vec<Vec<u32>> = json::parse(&std::fs::read(a.get("texts").unwrap()).unwrap()).unwrap().arr().iter().map(|t| t.text()).collect();
    let mix = a.get("mix").unwrap().to_string();
    let n = a.num("count", 100);
    let mut rng = Rng::new(a.num("seed", 1));
    let mut o = Out::new(&mix, 0);
    let mut out = String::new();
    let mut made = 0u64;
    for k in 0..n {
        o.now(&[]);
        let threaded = mix == "C17" && k % 4 == 0;
        match guarded(|| if threaded { run_threads(&mut rng, &texts) } else { run(&mix, &mut rng, &texts) }) {
            Ok(s) => {
                out.push_str(&s);
                out.push('\n');
                made += 1;
            }
            Err(e) => o.fail(&format!("history panics: {}", e), &[], "", ""),
        }
    }
    std::fs::write(a.get("out").unwrap(), out).unwrap();
    let t = Total { prop: mix, cases: made, nontrivial: made, evals: made, excused: 0, violations: o.total };
    finish(vec![t], o.viols, &a);
}

/// Replays interleavings prescribed by the specification: [streams, [[stream, result], ...]] where result is a
/// code point, -1 for the end, -2 for "clone this stream" (the clone becomes the next stream), -3 for "print".
pub fn cmd_schedule(a: Args) {
    let lines = read_lines(&a.pos[1..]);
    let threaded = a.get("threads") == Some("1");
    let mut o = Out::new(a.get("prop").unwrap_or("C17"), 0);
    let mut cases = 0;
    let mut bases: std::collections::HashMap<(Vec<String>, Vec<u32>), bool> = Default::default();
    for l in &lines {
        let j = json::parse(l).expect("schedule");
        let streams: Vec<(Vec<String>, Vec<u32>, Vec<u32>)> = j.arr()[0].arr().iter()
            .map(|x| (x.arr()[0].arr().iter().map(|s| s.str().to_string()).collect(), x.arr()[1].text(), x.arr()[2].text())).collect();
        let steps: Vec<(usize, i64)> = j.arr()[1].arr().iter().map(|x| (x.arr()[0].num() as usize, x.arr()[1].num())).collect();
        cases += 1;
        let input: Vec<u32> = streams.iter().flat_map(|s| s.1.clone()).collect();
        o.now(&input);
        let ok = streams.iter().all(|(c, t, w)| {
            *bases.entry((c.clone(), t.clone())).or_insert_with(|| {
                let ch: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
                guarded(|| base(&ch, t) == *w).unwrap_or(false)
            })
        });
        if !ok {
            o.excused += 1;
            continue;
        }
        let r = guarded(|| {
            let live: Vec<Mutex<Option<Box<dyn Adapter>>>> = (0..16).map(|_| Mutex::new(None)).collect();
            for (i, (c, t, _)) in streams.iter().enumerate() {
                let ch: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
                *live[i].lock().unwrap() = Some(build(&ch, Src::new(t, &[], Hint::Exact)));
            }
            let mut made = streams.len();
            let mut bad = None;
            let mut step = |k: usize, i: usize, want: i64| {
                if want == -2 {
                    let b = live[i - 1].lock().unwrap().as_ref().unwrap().try_clone().expect("cloneable");
                    *live[made].lock().unwrap() = Some(b);
                    made += 1;
                } else if want == -3 {
                    live[i - 1].lock().unwrap().as_ref().unwrap().display();
                } else {
                    let r = live[i - 1].lock().unwrap().as_mut().unwrap().next().map(|c| c as i64).unwrap_or(-1);
                    if r != want {
                        bad = Some((k, want, r));
                    }
                }
                bad.is_none()
            };
            for (k, (i, w)) in steps.iter().enumerate() {
                let go = if threaded {
                    // every step on another thread than the one before
                    std::thread::scope(|s| s.spawn(|| step(k, *i, *w)).join().expect("step"))
                } else {
                    step(k, *i, *w)
                };
                if !go {
                    break;
                }
            }
            bad
        });
        o.evals += 1;
        match r {
            Ok(None) => {}
            Ok(Some((k, w, g))) => o.fail(&format!("step {} of the schedule {}", k, String::from_utf8_lossy(l)), &input, &w.to_string(), &g.to_string()),
            Err(e) => o.fail(&format!("schedule panics: {}", e), &input, "", ""),
        }
    }
    let t = Total { prop: o.prop.clone(), cases, nontrivial: cases, evals: o.evals, excused: o.excused, violations: o.total };
    finish(vec![t], o.viols, &a);
}

