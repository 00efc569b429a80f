//! The crate's adapters and chains of them as objects over an instrumented source.
use std::fmt::Display;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;
use unicode_normalization::UnicodeNormalization;

/// What a source has been asked for.
#[derive(Default, Debug)]
pub struct Stats {
    pub reads: AtomicUsize,
    pub ends: AtomicUsize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hint {
    Exact,
    Chars,
    Unknown,
    /// what an endless source says: usize::MAX at least, no upper bound
    Endless,
}

/// What comes after the text.
#[derive(Clone, Debug, Default)]
pub enum Tail {
    #[default]
    End,
    /// the text again from here on, for ever
    Again(usize),
    /// pieces of this list at random, for ever
    Random { pieces: Arc<Vec<Vec<char>>>, state: u64, piece: usize, at: usize },
}

/// An adapter over an endless source that has read this much for one item reads for ever.
pub const RUNAWAY: usize = 200_000;

thread_local! {
    /// stats of sources cloned on this thread, so that the harness can follow an adapter's clone
    pub static CLONED: std::cell::RefCell<Vec<Arc<Stats>>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// A source that counts what is read from it.  With `resume`, it goes on after having reported its end
/// (a source that is not fused).
#[derive(Debug)]
pub struct Src {
    pub text: Arc<Vec<char>>,
    pub after: Arc<Vec<char>>,
    pub pos: usize,
    pub stats: Arc<Stats>,
    pub hint: Hint,
    pub tail: Tail,
    /// how much an endless source gives out for one item (the harness resets it)
    pub since: Arc<AtomicUsize>,
}

impl Src {
    pub fn new(text: &[u32], after: &[u32], hint: Hint) -> Src {
        let f = |t: &[u32]| Arc::new(t.iter().map(|c| char::from_u32(*c).unwrap()).collect::<Vec<char>>());
        Src { text: f(text), after: f(after), pos: 0, stats: Arc::new(Stats::default()), hint, tail: Tail::End, since: Default::default() }
    }
    pub fn endless(text: &[u32], tail: Tail) -> Src {
        let mut x = Src::new(text, &[], Hint::Endless);
        x.tail = tail;
        x
    }
}

impl Clone for Src {
    fn clone(&self) -> Src {
        let stats = Arc::new(Stats {
            reads: AtomicUsize::new(self.stats.reads.load(Relaxed)),
            ends: AtomicUsize::new(self.stats.ends.load(Relaxed)),
        });
        CLONED.with(|c| c.borrow_mut().push(stats.clone()));
        Src { text: self.text.clone(), after: self.after.clone(), pos: self.pos, stats, hint: self.hint, tail: self.tail.clone(), since: Default::default() }
    }
}

impl Iterator for Src {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let n = self.text.len();
        if self.hint == Hint::Endless && self.since.fetch_add(1, Relaxed) > RUNAWAY {
            panic!("reads an endless source without delivering anything");
        }
        if self.pos < n {
            self.pos += 1;
            self.stats.reads.fetch_add(1, Relaxed);
            let c = self.text[self.pos - 1];
            if let (Tail::Again(k), true) = (&self.tail, self.pos == n) {
                self.pos = *k;
            }
            Some(c)
        } else if let Tail::Random { pieces, state, piece, at } = &mut self.tail {
            if *at == pieces[*piece].len() {
                *state = state.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                (*piece, *at) = ((*state >> 33) as usize % pieces.len(), 0);
            }
            *at += 1;
            self.stats.reads.fetch_add(1, Relaxed);
            Some(pieces[*piece][*at - 1])
        } else if self.pos == n {
            self.pos += 1;
            self.stats.ends.fetch_add(1, Relaxed);
            None
        } else if self.pos <= n + self.after.len() {
            self.pos += 1;
            self.stats.reads.fetch_add(1, Relaxed);
            Some(self.after[self.pos - n - 2])
        } else {
            self.stats.ends.fetch_add(1, Relaxed);
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let rest = self.text.len().saturating_sub(self.pos);
        match self.hint {
            Hint::Exact => (rest, Some(rest)),
            Hint::Chars => {
                let b: usize = self.text[self.text.len() - rest..].iter().map(|c| c.len_utf8()).sum();
                ((b + 3) / 4, Some(b))
            }
            Hint::Unknown => (0, None),
            Hint::Endless => (usize::MAX, None),
        }
    }
}

/// Object-safe view of an adapter.
pub trait Adapter: Send {
    fn next(&mut self) -> Option<char>;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn nth(&mut self, n: usize) -> Option<char>;
    fn take(&mut self, n: usize) -> Vec<char>;
    fn find(&mut self, c: char) -> Option<char>;
    fn all_below(&mut self, c: char) -> bool;
    fn try_fold_stop(&mut self, n: usize) -> Vec<char>;
    fn fold(self: Box<Self>) -> Vec<char>;
    fn collect(self: Box<Self>) -> String;
    fn for_each(self: Box<Self>) -> Vec<char>;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<char>;
    fn step_by(self: Box<Self>, n: usize) -> Vec<char>;
    fn skip(self: Box<Self>, n: usize) -> Vec<char>;
    fn peek(self: Box<Self>) -> (Option<char>, Vec<char>);
    fn extend(self: Box<Self>) -> String;
    fn enumerate_max(self: Box<Self>) -> Option<(usize, char)>;
    fn any(&mut self, c: char) -> bool;
    fn position(&mut self, c: char) -> Option<usize>;
    fn find_map(&mut self, c: char) -> Option<u32>;
    fn max(self: Box<Self>) -> Option<char>;
    fn min(self: Box<Self>) -> Option<char>;
    fn eq(self: Box<Self>, v: &[char]) -> bool;
    fn cmp(self: Box<Self>, v: &[char]) -> std::cmp::Ordering;
    fn partition(self: Box<Self>, c: char) -> (Vec<char>, Vec<char>);
    fn reduce(self: Box<Self>) -> Option<char>;
    fn max_by_key(self: Box<Self>) -> Option<char>;
    fn skip_while(self: Box<Self>, c: char) -> Vec<char>;
    fn take_while(self: Box<Self>, c: char) -> Vec<char>;
    fn zip(self: Box<Self>) -> Vec<(char, usize)>;
    fn chain(self: Box<Self>, v: &[char]) -> Vec<char>;
    fn fuse(self: Box<Self>) -> Vec<char>;
    fn vec(self: Box<Self>) -> Vec<char>;
    fn try_clone(&self) -> Option<Box<dyn Adapter>>;
    fn display(&self) -> Option<String>;
    /// Display with a width, a precision, ...
    fn display_as(&self, how: usize) -> String;
    /// Display into a sink that refuses to take more than n characters: success?, and what it took
    fn display_until(&self, n: usize) -> (bool, String);
    /// a copy of this one, assigned (clone_from) to a copy that has been advanced
    fn assign(&self, n: usize) -> Option<Box<dyn Adapter>>;
}

pub const HOWS: usize = 7;
struct Sink {
    room: usize,
    took: String,
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.chars() {
            if self.room == 0 {
                return Err(std::fmt::Error);
            }
            self.room -= 1;
            self.took.push(c);
        }
        Ok(())
    }
}

const CAP: usize = 1 << 26;

macro_rules! methods {
    () => {
        fn next(&mut self) -> Option<char> {
            self.0.next()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.0.size_hint()
        }
        fn nth(&mut self, n: usize) -> Option<char> {
            self.0.nth(n)
        }
        fn take(&mut self, n: usize) -> Vec<char> {
            self.0.by_ref().take(n).collect()
        }
        fn find(&mut self, c: char) -> Option<char> {
            self.0.find(|x| *x == c)
        }
        fn all_below(&mut self, c: char) -> bool {
            self.0.all(|x| x < c)
        }
        fn try_fold_stop(&mut self, n: usize) -> Vec<char> {
            let mut v = Vec::new();
            let _ = self.0.try_fold(0usize, |k, c| {
                v.push(c);
                if k + 1 == n {
                    Err(())
                } else {
                    Ok(k + 1)
                }
            });
            v
        }
        fn fold(self: Box<Self>) -> Vec<char> {
            self.0.fold(Vec::new(), |mut v, c| {
                assert!(v.len() < CAP, "adapter does not end");
                v.push(c);
                v
            })
        }
        fn collect(self: Box<Self>) -> String {
            self.0.collect()
        }
        fn for_each(self: Box<Self>) -> Vec<char> {
            let mut v = Vec::new();
            self.0.for_each(|c| v.push(c));
            v
        }
        fn count(self: Box<Self>) -> usize {
            self.0.count()
        }
        fn last(self: Box<Self>) -> Option<char> {
            self.0.last()
        }
        fn step_by(self: Box<Self>, n: usize) -> Vec<char> {
            self.0.step_by(n).collect()
        }
        fn skip(self: Box<Self>, n: usize) -> Vec<char> {
            self.0.skip(n).collect()
        }
        fn peek(self: Box<Self>) -> (Option<char>, Vec<char>) {
            let mut p = self.0.peekable();
            let x = p.peek().copied();
            (x, p.collect())
        }
        fn extend(self: Box<Self>) -> String {
            let mut s = String::new();
            s.extend(self.0);
            s
        }
        fn enumerate_max(self: Box<Self>) -> Option<(usize, char)> {
            self.0.enumerate().max_by_key(|x| (x.1, x.0))
        }
        fn any(&mut self, c: char) -> bool {
            self.0.any(|x| x == c)
        }
        fn position(&mut self, c: char) -> Option<usize> {
            self.0.position(|x| x == c)
        }
        fn find_map(&mut self, c: char) -> Option<u32> {
            self.0.find_map(|x| if x == c { Some(x as u32) } else { None })
        }
        fn max(self: Box<Self>) -> Option<char> {
            self.0.max()
        }
        fn min(self: Box<Self>) -> Option<char> {
            self.0.min()
        }
        fn eq(self: Box<Self>, v: &[char]) -> bool {
            self.0.eq(v.iter().copied())
        }
        fn cmp(self: Box<Self>, v: &[char]) -> std::cmp::Ordering {
            self.0.cmp(v.iter().copied())
        }
        fn partition(self: Box<Self>, c: char) -> (Vec<char>, Vec<char>) {
            self.0.partition(|x| *x < c)
        }
        fn reduce(self: Box<Self>) -> Option<char> {
            self.0.reduce(|a, b| if (b as u32) % 7 < (a as u32) % 7 { b } else { a })
        }
        fn max_by_key(self: Box<Self>) -> Option<char> {
            self.0.max_by_key(|x| (*x as u32) % 5)
        }
        fn skip_while(self: Box<Self>, c: char) -> Vec<char> {
            self.0.skip_while(|x| *x != c).collect()
        }
        fn take_while(self: Box<Self>, c: char) -> Vec<char> {
            self.0.take_while(|x| *x != c).collect()
        }
        fn zip(self: Box<Self>) -> Vec<(char, usize)> {
            self.0.zip(0..).collect()
        }
        fn chain(self: Box<Self>, v: &[char]) -> Vec<char> {
            self.0.chain(v.iter().copied()).collect()
        }
        fn fuse(self: Box<Self>) -> Vec<char> {
            self.0.fuse().collect()
        }
        fn vec(self: Box<Self>) -> Vec<char> {
            self.0.collect()
        }
    };
}

/// An adapter that can be cloned and displayed.
pub struct Full<I>(pub I);
impl<I> Adapter for Full<I>
where
    I: Iterator<Item = char> + Clone + Display + Send + 'static,
{
    methods!();
    fn try_clone(&self) -> Option<Box<dyn Adapter>> {
        Some(Box::new(Full(self.0.clone())))
    }
    fn display(&self) -> Option<String> {
        Some(self.0.to_string())
    }
    fn display_as(&self, how: usize) -> String {
        match how {
            0 => format!("{:>40}", self.0),
            1 => format!("{:<3}", self.0),
            2 => format!("{:.1}", self.0),
            3 => format!("{:.0}", self.0),
            4 => format!("{:#}", self.0),
            5 => format!("{:*^9.2}", self.0),
            _ => format!("{:+012}", self.0),
        }
    }
    fn display_until(&self, n: usize) -> (bool, String) {
        let mut s = Sink { room: n, took: String::new() };
        let r = std::fmt::Write::write_fmt(&mut s, format_args!("{}", self.0));
        (r.is_ok(), s.took)
    }
    fn assign(&self, n: usize) -> Option<Box<dyn Adapter>> {
        let mut b = self.0.clone();
        for _ in 0..n {
            b.next();
        }
        b.clone_from(&self.0);
        Some(Box::new(Full(b)))
    }
}

/// An adapter that cannot.
pub struct Plain<I>(pub I);
impl<I> Adapter for Plain<I>
where
    I: Iterator<Item = char> + Send + 'static,
{
    methods!();
    fn try_clone(&self) -> Option<Box<dyn Adapter>> {
        None
    }
    fn display(&self) -> Option<String> {
        None
    }
    fn display_as(&self, _: usize) -> String {
        String::new()
    }
    fn display_until(&self, _: usize) -> (bool, String) {
        (true, String::new())
    }
    fn assign(&self, _: usize) -> Option<Box<dyn Adapter>> {
        None
    }
}

fn outer_full<I: Iterator<Item = char> + Clone + Send + 'static>(a: &str, i: I) -> Box<dyn Adapter> {
    match a {
        "nfd" => Box::new(Full(i.nfd())),
        "nfkd" => Box::new(Full(i.nfkd())),
        "nfc" => Box::new(Full(i.nfc())),
        "nfkc" => Box::new(Full(i.nfkc())),
        "cjk" => Box::new(Full(i.cjk_compat_variants())),
        "ss" => Box::new(Plain(i.stream_safe())),
        _ => panic!("adapter {}", a),
    }
}

fn outer_plain<I: Iterator<Item = char> + Send + 'static>(a: &str, i: I) -> Box<dyn Adapter> {
    match a {
        "nfd" => Box::new(Plain(i.nfd())),
        "nfkd" => Box::new(Plain(i.nfkd())),
        "nfc" => Box::new(Plain(i.nfc())),
        "nfkc" => Box::new(Plain(i.nfkc())),
        "cjk" => Box::new(Plain(i.cjk_compat_variants())),
        "ss" => Box::new(Plain(i.stream_safe())),
        _ => panic!("adapter {}", a),
    }
}

/// A chain of one or two adapters over an instrumented source.
pub fn build(chain: &[&str], src: Src) -> Box<dyn Adapter> {
    match *chain {
        [a] => outer_full(a, src),
        [a, b] => match a {
            "nfd" => outer_full(b, src.nfd()),
            "nfkd" => outer_full(b, src.nfkd()),
            "nfc" => outer_full(b, src.nfc()),
            "nfkc" => outer_full(b, src.nfkc()),
            "cjk" => outer_full(b, src.cjk_compat_variants()),
            "ss" => outer_plain(b, src.stream_safe()),
            _ => panic!("adapter {}", a),
        },
        _ => panic!("chain {:?}", chain),
    }
}
