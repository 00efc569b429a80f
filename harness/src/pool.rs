//! Worker threads, collected violations, a watchdog for calls that do not return.
use crate::json;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: String,
    pub what: String,
    pub input: Vec<u32>,
    pub want: String,
    pub got: String,
}

impl Viol {
    pub fn json(&self) -> String {
        format!(
            "{{\"property\":{},\"what\":{},\"input\":{},\"expected\":{},\"got\":{}}}",
            json::quote(&self.prop),
            json::quote(&self.what),
            json::text(&self.input),
            json::quote(&self.want),
            json::quote(&self.got)
        )
    }
}

#[derive(Default)]
pub struct Out {
    pub prop: String,
    pub slot: usize,
    pub evals: u64,
    pub excused: u64,
    pub viols: Vec<Viol>,
    pub total: u64,
    /// results that are not the specified ones, for the specification to judge: kind, form, input, other texts, result
    pub disputes: Vec<String>,
}

fn clip(s: String) -> String {
    if s.len() > 1500 {
        let mut k = 1500;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}... ({} bytes)", &s[..k], s.len())
    } else {
        s
    }
}

impl Out {
    pub fn new(prop: &str, slot: usize) -> Out {
        Out { prop: prop.into(), slot, ..Default::default() }
    }
    pub fn now(&self, input: &[u32]) {
        CURRENT.lock().unwrap()[self.slot] = Some((Instant::now(), self.prop.clone(), input.to_vec()));
    }
    pub fn fail(&mut self, what: &str, input: &[u32], want: &str, got: &str) {
        self.total += 1;
        if self.viols.len() < 5 {
            self.viols.push(Viol {
                prop: self.prop.clone(),
                what: what.into(),
                input: input.to_vec(),
                want: clip(want.into()),
                got: clip(got.into()),
            });
        }
    }
    pub fn dispute(&mut self, kind: &str, form: &str, input: &[u32], others: &[&[u32]], got: &[u32]) {
        self.excused += 1;
        if self.disputes.len() < 60 || input.len() < 12 && self.disputes.len() < 120 {
            let l: Vec<String> = others.iter().map(|t| json::list(t)).collect();
            self.disputes.push(format!("[\"{}\",\"{}\",{},[{}],{}]", kind, form, json::list(input), l.join(","), if kind == "safe" { json::blocks(got) } else { json::list(got) }));
        }
    }
    pub fn eq(&mut self, what: &str, input: &[u32], want: &[u32], got: &[u32]) {
        self.evals += 1;
        if want != got {
            self.fail(what, input, &json::text(want), &json::text(got));
        }
    }
    pub fn eq_s<T: PartialEq + Debug + ?Sized>(&mut self, what: &str, input: &[u32], want: &T, got: &T) {
        self.evals += 1;
        if want != got {
            self.fail(what, input, &format!("{:?}", want), &format!("{:?}", got));
        }
    }
    pub fn truth(&mut self, what: &str, input: &[u32], holds: bool) {
        self.evals += 1;
        if !holds {
            self.fail(what, input, "", "");
        }
    }
}

pub const SLOTS: usize = 64;
type Slot = Option<(Instant, String, Vec<u32>)>;
static CURRENT: Mutex<[Slot; SLOTS]> = Mutex::new([const { None }; SLOTS]);

pub fn idle(slot: usize) {
    CURRENT.lock().unwrap()[slot] = None;
}

/// A call that has not returned after `limit` is itself a violation; the process cannot go on.
pub fn watchdog(limit: Duration, viol_file: Option<String>) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let g = CURRENT.lock().unwrap();
        for x in g.iter().flatten() {
            if x.0.elapsed() > limit {
                let v = Viol {
                    prop: x.1.clone(),
                    what: format!("does not return within {} s", limit.as_secs()),
                    input: x.2.clone(),
                    want: String::new(),
                    got: String::new(),
                };
                if let Some(f) = &viol_file {
                    let _ = std::fs::write(f, format!("[{}]\n", v.json()));
                }
                println!("{{\"hang\":true,\"prop\":{},\"evals\":0,\"cases\":0,\"nontrivial\":0,\"excused\":0,\"violations\":1}}", json::quote(&v.prop));
                std::process::exit(3);
            }
        }
    });
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}
