//! Just enough JSON for the records TLC writes.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    N(i64),
    B(bool),
    S(String),
    A(Vec<J>),
}

impl J {
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => panic!("array expected in {:?}", self),
        }
    }
    pub fn num(&self) -> i64 {
        match self {
            J::N(n) => *n,
            _ => panic!("number expected in {:?}", self),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => panic!("string expected in {:?}", self),
        }
    }
    /// an array of code points, or of blocks [code points, how often]
    pub fn text(&self) -> Vec<u32> {
        let a = self.arr();
        if let Some(J::A(_)) = a.first() {
            let mut v = Vec::new();
            for b in a {
                let w = b.arr()[0].text();
                for _ in 0..b.arr()[1].num() {
                    v.extend_from_slice(&w);
                }
            }
            return v;
        }
        a.iter().map(|x| x.num() as u32).collect()
    }
}

pub fn parse(b: &[u8]) -> Result<J, String> {
    let mut p = 0;
    let v = value(b, &mut p)?;
    skip(b, &mut p);
    if p == b.len() {
        Ok(v)
    } else {
        Err(format!("trailing text at {}", p))
    }
}

fn skip(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1;
    }
}

fn value(b: &[u8], p: &mut usize) -> Result<J, String> {
    skip(b, p);
    match b.get(*p) {
        Some(b'[') => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                skip(b, p);
                match b.get(*p) {
                    Some(b']') => {
                        *p += 1;
                        return Ok(J::A(v));
                    }
                    Some(b',') => *p += 1,
                    None => return Err("unterminated array".into()),
                    _ => v.push(value(b, p)?),
                }
            }
        }
        Some(b'"') => {
            *p += 1;
            let s = *p;
            while *p < b.len() && b[*p] != b'"' {
                if b[*p] == b'\\' {
                    return Err("escape in string".into());
                }
                *p += 1;
            }
            let r = String::from_utf8_lossy(&b[s..*p]).into_owned();
            *p += 1;
            Ok(J::S(r))
        }
        Some(b't') if b[*p..].starts_with(b"true") => {
            *p += 4;
            Ok(J::B(true))
        }
        Some(b'f') if b[*p..].starts_with(b"false") => {
            *p += 5;
            Ok(J::B(false))
        }
        Some(c) if *c == b'-' || c.is_ascii_digit() => {
            let neg = *c == b'-';
            if neg {
                *p += 1;
            }
            let mut n = 0i64;
            while *p < b.len() && b[*p].is_ascii_digit() {
                n = n * 10 + (b[*p] - b'0') as i64;
                *p += 1;
            }
            Ok(J::N(if neg { -n } else { n }))
        }
        x => Err(format!("unexpected {:?} at {}", x, p)),
    }
}

/// a text: its code points, or blocks of equal ones if there are very many
pub fn text(t: &[u32]) -> String {
    if t.len() > 3000 { blocks(t) } else { list(t) }
}

pub fn blocks(t: &[u32]) -> String {
    let mut v: Vec<String> = Vec::new();
    let mut i = 0;
    while i < t.len() {
        let mut j = i;
        while j < t.len() && t[j] == t[i] {
            j += 1;
        }
        v.push(format!("[[{}],{}]", t[i], j - i));
        i = j;
    }
    format!("[{}]", v.join(","))
}

pub fn list(t: &[u32]) -> String {
    let mut s = String::with_capacity(t.len() * 5 + 2);
    s.push('[');
    for (i, c) in t.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        write!(s, "{}", c).unwrap();
    }
    s.push(']');
    s
}

pub fn quote(t: &str) -> String {
    let mut s = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            '\n' => s.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => write!(s, "?").unwrap(),
            c => s.push(c),
        }
    }
    s.push('"');
    s
}
