//! Generic tree read back from the `{:?}` rendering of an AST node, and a small
//! builder vocabulary for the expected trees the generators construct.

use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    /// byte range
    S(usize, usize),
    /// bare word or number: `None`, `Eq`, `12`, `true`
    A(String),
    /// string literal (unescaped)
    Q(String),
    /// `Name { field: value, .. }`
    N(String, Vec<(String, T)>),
    /// `Name(a, b)`; tuples have an empty name
    U(String, Vec<T>),
    /// `[a, b]`
    L(Vec<T>),
}

pub fn none() -> T {
    T::A("None".into())
}
pub fn some(t: T) -> T {
    T::U("Some".into(), vec![t])
}
pub fn opt(t: Option<T>) -> T {
    match t {
        Some(t) => some(t),
        None => none(),
    }
}
pub fn a(s: impl ToString) -> T {
    T::A(s.to_string())
}
pub fn q(s: impl ToString) -> T {
    T::Q(s.to_string())
}
pub fn tup(v: Vec<T>) -> T {
    T::U(String::new(), v)
}
pub fn u(name: &str, v: Vec<T>) -> T {
    T::U(name.into(), v)
}
pub fn list(v: Vec<T>) -> T {
    T::L(v)
}
#[macro_export]
macro_rules! n {
    ($name:expr ; $($f:ident : $v:expr),* $(,)?) => {
        $crate::tree::T::N($name.to_string(), vec![$((stringify!($f).to_string(), $v)),*])
    };
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Sp(pub usize, pub usize);
impl Sp {
    pub fn t(self) -> T {
        T::S(self.0, self.1)
    }
    pub fn join(self, o: Sp) -> Sp {
        Sp(self.0.min(o.0), self.1.max(o.1))
    }
}
pub fn osp(s: Option<Sp>) -> T {
    opt(s.map(|s| s.t()))
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    src: &'a str,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\n') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn fail(&self, m: &str) -> ! {
        panic!("harness: cannot read debug output ({m}) at {}: {}", self.i, self.src)
    }
    fn eat(&mut self, c: u8) {
        if self.peek() != c {
            self.fail(&format!("expected {:?}", c as char));
        }
        self.i += 1;
    }
    fn word(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'#' || c == b'-' || c == b'+' {
                self.i += 1;
            } else if c == b'.' && self.s.get(self.i + 1) != Some(&b'.') {
                self.i += 1;
            } else {
                break;
            }
        }
        if st == self.i {
            self.fail("word");
        }
        self.src[st..self.i].to_string()
    }
    fn string(&mut self) -> String {
        self.eat(b'"');
        let mut r = String::new();
        let rest = &self.src[self.i..];
        let mut it = rest.char_indices();
        while let Some((k, c)) = it.next() {
            match c {
                '"' => {
                    self.i += k + 1;
                    return r;
                }
                '\\' => match it.next().unwrap().1 {
                    'n' => r.push('\n'),
                    't' => r.push('\t'),
                    'r' => r.push('\r'),
                    '0' => r.push('\0'),
                    'u' => {
                        let mut h = String::new();
                        it.next();
                        loop {
                            let c = it.next().unwrap().1;
                            if c == '}' {
                                break;
                            }
                            h.push(c);
                        }
                        r.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
                    }
                    c => r.push(c),
                },
                c => r.push(c),
            }
        }
        self.fail("string")
    }
    fn seq(&mut self, close: u8) -> Vec<T> {
        let mut v = Vec::new();
        loop {
            if self.peek() == close {
                self.i += 1;
                return v;
            }
            v.push(self.value());
            if self.peek() == b',' {
                self.i += 1;
            }
        }
    }
    fn value(&mut self) -> T {
        match self.peek() {
            b'"' => T::Q(self.string()),
            b'[' => {
                self.i += 1;
                T::L(self.seq(b']'))
            }
            b'(' => {
                self.i += 1;
                T::U(String::new(), self.seq(b')'))
            }
            _ => {
                let w = self.word();
                if self.s[self.i..].starts_with(b"..") {
                    self.i += 2;
                    let e = self.word();
                    return T::S(
                        w.parse().unwrap_or_else(|_| self.fail("span")),
                        e.parse().unwrap_or_else(|_| self.fail("span")),
                    );
                }
                if self.s.get(self.i) == Some(&b'(') {
                    self.i += 1;
                    return T::U(w, self.seq(b')'));
                }
                if self.s[self.i..].starts_with(b" {") {
                    self.i += 2;
                    let mut v = Vec::new();
                    loop {
                        if self.peek() == b'}' {
                            self.i += 1;
                            return T::N(w, v);
                        }
                        let f = self.word();
                        self.eat(b':');
                        let t = self.value();
                        v.push((f, t));
                        if self.peek() == b',' {
                            self.i += 1;
                        }
                    }
                }
                T::A(w)
            }
        }
    }
}

pub fn read(src: &str) -> T {
    let mut p = P {
        s: src.as_bytes(),
        i: 0,
        src,
    };
    let t = p.value();
    p.ws();
    if p.i != p.s.len() {
        p.fail("trailing");
    }
    t
}

pub fn of<D: std::fmt::Debug>(d: &D) -> T {
    read(&format!("{:?}", d))
}

impl T {
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_to(&mut s);
        s
    }
    fn show_to(&self, o: &mut String) {
        let seq = |o: &mut String, v: &Vec<T>| {
            for (i, t) in v.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                t.show_to(o);
            }
        };
        match self {
            T::S(x, y) => {
                let _ = write!(o, "{x}..{y}");
            }
            T::A(x) => o.push_str(x),
            T::Q(x) => {
                let _ = write!(o, "{x:?}");
            }
            T::N(nm, f) => {
                o.push_str(nm);
                o.push_str(" { ");
                for (i, (k, t)) in f.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    o.push_str(k);
                    o.push_str(": ");
                    t.show_to(o);
                }
                o.push_str(" }");
            }
            T::U(nm, v) => {
                o.push_str(nm);
                o.push('(');
                seq(o, v);
                o.push(')');
            }
            T::L(v) => {
                o.push('[');
                seq(o, v);
                o.push(']');
            }
        }
    }

    /// Visit every node of the tree.
    pub fn walk(&self, f: &mut impl FnMut(&T)) {
        f(self);
        match self {
            T::N(_, v) => v.iter().for_each(|(_, t)| t.walk(f)),
            T::U(_, v) | T::L(v) => v.iter().for_each(|t| t.walk(f)),
            _ => {}
        }
    }

    pub fn map_spans(&self, f: &impl Fn(usize, usize) -> (usize, usize)) -> T {
        match self {
            T::S(x, y) => {
                let (x, y) = f(*x, *y);
                T::S(x, y)
            }
            T::N(nm, v) => T::N(
                nm.clone(),
                v.iter().map(|(k, t)| (k.clone(), t.map_spans(f))).collect(),
            ),
            T::U(nm, v) => T::U(nm.clone(), v.iter().map(|t| t.map_spans(f)).collect()),
            T::L(v) => T::L(v.iter().map(|t| t.map_spans(f)).collect()),
            t => t.clone(),
        }
    }

    pub fn nodes(&self) -> usize {
        let mut c = 0;
        self.walk(&mut |_| c += 1);
        c
    }

    /// Extent of all spans in the tree.
    pub fn hull(&self) -> Option<Sp> {
        let mut h: Option<Sp> = None;
        self.walk(&mut |t| {
            if let T::S(x, y) = t {
                let s = Sp(*x, *y);
                h = Some(h.map_or(s, |h| h.join(s)));
            }
        });
        h
    }

    pub fn has(&self, name: &str) -> bool {
        let mut r = false;
        self.walk(&mut |t| match t {
            T::A(x) | T::N(x, _) | T::U(x, _) if x == name => r = true,
            _ => {}
        });
        r
    }
}

/// First difference between two trees: (path, expected, actual).
pub fn diff(e: &T, g: &T) -> Option<String> {
    fn go(e: &T, g: &T, path: &mut String) -> Option<(String, String, String)> {
        let here = |p: &String| Some((p.clone(), e.show(), g.show()));
        match (e, g) {
            (T::N(en, ef), T::N(gn, gf)) => {
                if en != gn || ef.len() != gf.len() {
                    return here(path);
                }
                for ((ek, ev), (gk, gv)) in ef.iter().zip(gf) {
                    if ek != gk {
                        return here(path);
                    }
                    let l = path.len();
                    path.push('.');
                    path.push_str(ek);
                    let r = go(ev, gv, path);
                    if r.is_some() {
                        return r;
                    }
                    path.truncate(l);
                }
                None
            }
            (T::U(en, ev), T::U(gn, gv)) => {
                if en != gn || ev.len() != gv.len() {
                    return here(path);
                }
                seq(en, ev, gv, path)
            }
            (T::L(ev), T::L(gv)) => {
                if ev.len() != gv.len() {
                    return here(path);
                }
                seq("", ev, gv, path)
            }
            _ => {
                if e == g {
                    None
                } else {
                    here(path)
                }
            }
        }
    }
    fn seq(nm: &str, ev: &[T], gv: &[T], path: &mut String) -> Option<(String, String, String)> {
        for (i, (e, g)) in ev.iter().zip(gv).enumerate() {
            let l = path.len();
            let _ = write!(path, ".{nm}[{i}]");
            let r = go(e, g, path);
            if r.is_some() {
                return r;
            }
            path.truncate(l);
        }
        None
    }
    go(e, g, &mut String::new()).map(|(p, e, g)| format!("at {p}\n  expected: {e}\n  actual:   {g}"))
}
