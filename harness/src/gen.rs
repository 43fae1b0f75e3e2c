//! Token-emitting generator.  All randomness comes from the choice tape that
//! proptest generates and shrinks; an exhausted tape always picks alternative 0,
//! which every generator keeps minimal.

use crate::dict::{self, dict, hit};
use crate::n;
use crate::tree::*;
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dia {
    Maria,
    Pg,
    Lite,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Args {
    None,
    Percent,
    Question,
    Dollar,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Opts {
    pub dia: Dia,
    pub args: Args,
    pub wq: bool,
    pub wc: bool,
    pub list: bool,
}
impl Opts {
    pub fn plain(dia: Dia) -> Opts {
        Opts {
            dia,
            args: Args::None,
            wq: false,
            wc: false,
            list: false,
        }
    }
    pub fn real(&self) -> sql_parse::ParseOptions {
        use sql_parse::{ParseOptions, SQLArguments, SQLDialect};
        ParseOptions::new()
            .dialect(match self.dia {
                Dia::Maria => SQLDialect::MariaDB,
                Dia::Pg => SQLDialect::PostgreSQL,
                Dia::Lite => SQLDialect::Sqlite,
            })
            .arguments(match self.args {
                Args::None => SQLArguments::None,
                Args::Percent => SQLArguments::Percent,
                Args::Question => SQLArguments::QuestionMark,
                Args::Dollar => SQLArguments::Dollar,
            })
            .warn_unquoted_identifiers(self.wq)
            .warn_none_capital_keywords(self.wc)
            .list_hack(self.list)
    }
    pub fn show(&self) -> String {
        format!("{:?}", self)
    }
}

/// Small deterministic generator for layout decisions (seeded from the tape).
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn c(&mut self, k: u64) -> u64 {
        self.next() % k
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    /// keyword, case-insensitive
    Kw,
    /// built-in function or other name the parser must match case-insensitively
    Fn,
    /// unquoted identifier, case preserved
    Id,
    /// quoted identifier
    Qid,
    Str,
    Num,
    P,
    Arg,
    /// text the layout may not touch (inline data, delimiter commands)
    Raw,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub k: K,
    pub text: String,
    pub sp: Sp,
    /// statement terminator
    pub delim: bool,
}

/// How tokens are separated and how keywords are cased. 0/0 is canonical.
#[derive(Clone)]
pub struct Layout {
    pub space: u32,
    pub case: u32,
    rs: Rng,
    rc: Rng,
}
impl Layout {
    pub fn new(space: u32, case: u32) -> Self {
        Layout {
            space,
            case,
            rs: Rng(space as u64 ^ 0xA5A5_0000_1111),
            rc: Rng(case as u64 ^ 0x5A5A_2222_0000),
        }
    }
    pub fn recase(&mut self, k: K, text: &str) -> String {
        if self.case == 0 || !matches!(k, K::Kw | K::Fn) {
            return text.to_string();
        }
        match self.rc.c(4) {
            0 => text.to_string(),
            1 => text.to_ascii_lowercase(),
            _ => {
                let r = &mut self.rc;
                text.chars()
                    .map(|c| {
                        if r.c(2) == 0 {
                            c.to_ascii_lowercase()
                        } else {
                            c.to_ascii_uppercase()
                        }
                    })
                    .collect()
            }
        }
    }
    /// A comment of random contents.
    fn comment(&mut self) -> String {
        const B: &[&str] = &[
            "a", "Z", "_", " ", "'", "\"", "`", ";", "(", ")", "$$", "*", "**", "/", "//", "!", "+", "-", "--", "\\", "é", "日", "?", "%s", "@@",
            "\t", "#", "SELECT", "END", ".", "/*",
        ];
        let form = self.rs.c(3);
        let mut s = String::from(["/*", "--", "//"][form as usize]);
        let mut body = String::new();
        let texts = &dict().texts;
        if !texts.is_empty() && self.rs.c(3) == 0 {
            let t = &texts[self.rs.c(texts.len() as u64) as usize];
            body.extend(t.chars().filter(|c| form == 0 || !c.is_control()));
        }
        for _ in 0..self.rs.c(7) {
            let k = self.rs.c(B.len() as u64 + 2) as usize;
            body.push_str(match B.get(k) {
                Some(b) => b,
                None if form == 0 => ["\n", "\r"][k - B.len()],
                None => " ",
            });
        }
        if form == 0 {
            while let Some(i) = body.find("*/") {
                body.remove(i);
            }
            s.push_str(&body);
            s.push_str("*/");
        } else {
            s.push_str(&body);
            s.push_str(["\n", "\r", "\r\n"][self.rs.c(3) as usize]);
        }
        s
    }
    fn filler(&mut self) -> String {
        if self.rs.c(4) == 0 {
            return self.comment();
        }
        let sizes = &dict().sizes;
        if !sizes.is_empty() && self.rs.c(16) == 0 {
            let n = sizes[self.rs.c(sizes.len() as u64) as usize];
            if n <= 300 || self.rs.c(30) == 0 {
                return " ".repeat((n + self.rs.c(3)) as usize - 1);
            }
        }
        const F: &[&str] = &[
            " ", " ", " ", " ", "\n", "\t", "  ", "\r\n", "\r", " \n ", "/* c */", "/**/", "/***/",
            "-- c\n", "--\n", "// c\n", "/* ; ' \" ` ( ) $$ */", "-- it's; \"\n", "/* é ∂ 日本 */",
            "\n\n\t", "/* // -- */", "-- /* \r", "/* a\nb\n */", "//*\n", "/*/ */", "/* * / ** */",
            "---- x\n", "/*--*/", "/*!*/", "/*! c */", "/*!50003 c */", "/*M! c */", "/*+ c */", "--+ c\n",
        ];
        F[self.rs.c(F.len() as u64) as usize].into()
    }
    /// Separator between `prev` and `next` (canonical: one space, none around . ( ) , ;)
    pub fn sep(&mut self, prev: Option<&Tok>, next: &str, nk: K) -> String {
        let Some(prev) = prev else {
            let mut s = String::new();
            if self.space != 0 {
                for _ in 0..self.rs.c(3) {
                    s.push_str(&self.filler());
                }
            }
            return s;
        };
        let need = must_separate(&prev.text, prev.k, next, nk);
        if self.space == 0 {
            let tight = !need
                && (matches!(next, "." | "," | ")" | ";")
                    || prev.text == "."
                    || prev.text == "("
                    || (next == "(" && matches!(prev.k, K::Fn)));
            return if tight { "".into() } else { " ".into() };
        }
        let mut s = String::new();
        let k = match self.rs.c(8) {
            0..=3 => 1,
            4..=5 => 0,
            6 => 2,
            _ => 3,
        };
        let k = if need && k == 0 { 1 } else { k };
        for _ in 0..k {
            s.push_str(&self.filler());
        }
        // a filler that begins with a comment opener must not fuse with an operator
        if let (Some(a), Some(b)) = (prev.text.chars().last(), s.chars().next()) {
            if (a == '-' && b == '-') || (a == '/' && (b == '/' || b == '*')) {
                s.insert(0, ' ');
            }
        }
        s
    }
}

fn wordy(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}
/// Whether two tokens need something between them to stay two tokens.
pub fn must_separate(prev: &str, pk: K, next: &str, nk: K) -> bool {
    let a = prev.chars().last().unwrap_or(' ');
    let b = next.chars().next().unwrap_or(' ');
    if matches!(a, '(' | ')' | ',' | ';' | '[' | ']') || matches!(b, '(' | ')' | ',' | ';' | '[' | ']') {
        return false;
    }
    if pk == K::Raw || nk == K::Raw {
        return false;
    }
    if pk == K::Num || nk == K::Num {
        // `1.` `.5` `1 .` are all different tokens; only operators may touch numbers
        let o = if pk == K::Num { b } else { a };
        return !matches!(o, '+' | '*' | '=' | '<' | '>' | '!' | '&' | '|' | '-' | '/')
            || (pk == K::Num && nk == K::Num);
    }
    if matches!(pk, K::Id | K::Kw | K::Fn | K::Arg | K::Qid) && next == "." {
        return false;
    }
    if prev == "." && matches!(nk, K::Id | K::Kw | K::Fn | K::Qid) {
        return false;
    }
    if prev == "." || next == "." {
        return !(next == "*");
    }
    let op = |c: char| "+-*/<>=!&|".contains(c);
    if op(a) && (wordy(b) || b == '`' || b == '\'' || b == '"') {
        return false;
    }
    if op(b) && (wordy(a) || a == '`' || a == '\'' || a == '"') {
        return false;
    }
    true
}

pub struct Gen<'t> {
    tape: &'t [u32],
    pos: usize,
    pub out: String,
    pub toks: Vec<Tok>,
    pub o: Opts,
    pub lay: Layout,
    /// number of counted placeholders so far
    pub argn: usize,
    /// remaining nesting depth
    pub depth: i32,
    /// remaining tokens before every choice becomes minimal
    pub budget: i32,
    /// feature labels reached, for evidence and non-triviality rules
    pub feat: BTreeSet<&'static str>,
    /// whether expressions may contain placeholders
    pub args_ok: bool,
    /// quoted identifiers allowed by the current profile
    pub qid_ok: bool,
    /// restrict identifier pool
    pub names: u32,
    /// expressions may use sub-queries
    pub subq_ok: bool,
    /// permits `END`-style statements etc. (inside compound statements)
    pub in_block: bool,
    /// string literals made of plain characters only
    pub plain_strings: bool,
    /// only constructs that mean the same in every dialect
    pub portable: bool,
    /// the last join before this point must carry a specification
    pub join_needs_spec: bool,
    /// weights of operators and of calls in expressions
    pub w_op: u32,
    pub w_fn: u32,
    /// operators generated
    pub ops: usize,
    /// whether one repetition may still be long
    pub wide: bool,
    /// in some cases, some of the places that choose keep to what they chose first (see `choice`)
    steady: Option<Box<Steady>>,
}
fn mix(x: u64) -> u64 {
    Rng(x).next()
}
/// What the places in the generator chose, and how often it was chosen again.
struct Steady {
    seed: u64,
    slots: [(u32, u32); 256],
}
const AGAIN: u32 = 16;

pub const NAMES: &[&str] = &[
    "a", "b", "c", "t1", "t2", "foo", "bar_baz", "Qux", "x1", "col_a", "_u", "zz9", "MixedCase", "user_id",
    "tbl", "v", "xx", "X", "x", "long_identifier_name_with_many_parts_0123456789", "e1", "n_2", "idx", "selects",
    "fromage", "whereabouts", "tablet", "ends", "ors", "andy", "nots", "_list", "LIST_", "s",
];
pub const QNAMES: &[&str] = &[
    "a", "select", "from", "weird-name", "0start", "123", "a-b-c", "ORDER", "Group", "end", "null", "t1", "-", "x",
    "", "values", "_LIST_", "interval", "first name", "ünï-日本", "a;b", "a.b", "it's", "/* x */", "-- x", "$$",
];

impl<'t> Gen<'t> {
    pub fn new(tape: &'t [u32], o: Opts) -> Self {
        Gen {
            tape,
            pos: 0,
            out: String::new(),
            toks: Vec::new(),
            o,
            lay: Layout::new(0, 0),
            argn: 0,
            depth: 6,
            budget: 400,
            feat: BTreeSet::new(),
            args_ok: true,
            qid_ok: true,
            names: 0,
            subq_ok: true,
            in_block: false,
            plain_strings: false,
            portable: false,
            join_needs_spec: false,
            w_op: 5,
            w_fn: 3,
            ops: 0,
            wide: true,
            steady: match tape {
                [a, b, ..] if tape.len() > 40 => {
                    let seed = mix((*a as u64) << 32 | *b as u64);
                    (seed >> 60 < 5).then(|| Box::new(Steady { seed, slots: [(0, 0); 256] }))
                }
                _ => None,
            },
        }
    }
    /// The next word of the tape. In about a third of the cases half of the places that choose
    /// repeat their first choice: combinations of rare choices then come up much more often
    /// (all joins alike but for their kind, no optional words at all, all names equal, ...).
    fn choice(&mut self, at: &'static std::panic::Location<'static>) -> u32 {
        let Some(s) = &self.steady else {
            return self.raw_choice();
        };
        let h = mix(s.seed ^ ((at.line() as u64) << 20 | (at.column() as u64) << 8 | at.file().len() as u64));
        if h >> 63 == 0 {
            return self.raw_choice();
        }
        let i = (h & 255) as usize;
        let (v, left) = s.slots[i];
        let v = if left > 0 { v } else { self.raw_choice() };
        if let Some(s) = &mut self.steady {
            s.slots[i] = (v, if left > 0 { left - 1 } else { AGAIN });
        }
        v
    }
    pub fn raw_choice(&mut self) -> u32 {
        let v = self.tape.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }
    /// Choice among k alternatives; 0 is the minimal one.
    #[track_caller]
    pub fn c(&mut self, k: u32) -> u32 {
        let v = self.choice(std::panic::Location::caller());
        if self.budget <= 0 {
            return 0;
        }
        v % k
    }
    /// True with probability num/den; false when minimal.
    #[track_caller]
    pub fn p(&mut self, num: u32, den: u32) -> bool {
        self.c(den) >= den - num
    }
    pub fn f(&mut self, s: &'static str) {
        self.feat.insert(s);
    }
    #[track_caller]
    pub fn pick<X: Copy>(&mut self, v: &[X]) -> X {
        v[self.c(v.len() as u32) as usize]
    }
    /// How often something is repeated: `k` times, or once in a while many times more.
    pub fn reps(&mut self, k: u32) -> u32 {
        if k > 0 && self.wide && self.budget > 60 && hit(self, &dict().counts, 20) {
            let n = dict::near(self, &dict().counts) as u32;
            if n <= 300 || self.p(1, 8) {
                self.wide = false;
                return n;
            }
        }
        if k > 0 && self.wide && self.budget > 100 && self.p(1, 120) {
            self.wide = false;
            self.f("long-repetition");
            return self.pick(&[6, 8, 9, 11, 16, 17, 33, 65, 129, 257]) + self.c(2);
        }
        k
    }
    pub fn pg(&self) -> bool {
        self.o.dia == Dia::Pg
    }
    pub fn maria(&self) -> bool {
        self.o.dia == Dia::Maria
    }
    pub fn lite(&self) -> bool {
        self.o.dia == Dia::Lite
    }

    pub fn tok(&mut self, k: K, text: &str) -> Sp {
        let text = self.lay.recase(k, text);
        let s = self.lay.sep(self.toks.last(), &text, k);
        self.out.push_str(&s);
        let st = self.out.len();
        self.out.push_str(&text);
        let sp = Sp(st, self.out.len());
        self.toks.push(Tok {
            k,
            text,
            sp,
            delim: false,
        });
        self.budget -= 1;
        sp
    }
    pub fn kw(&mut self, s: &str) -> Sp {
        self.tok(K::Kw, s)
    }
    pub fn kws(&mut self, s: &str) -> Sp {
        let mut r: Option<Sp> = None;
        for w in s.split(' ') {
            let p = self.kw(w);
            r = Some(r.map_or(p, |r| r.join(p)));
        }
        r.unwrap()
    }
    pub fn pt(&mut self, s: &str) -> Sp {
        self.tok(K::P, s)
    }
    #[track_caller]
    pub fn opt_kws(&mut self, s: &str, num: u32, den: u32) -> Option<Sp> {
        if self.p(num, den) {
            Some(self.kws(s))
        } else {
            None
        }
    }
    pub fn trailing_layout(&mut self) {
        if self.lay.space != 0 {
            let s = self.lay.sep(None, "", K::P);
            // a trailing filler after an operator-like last token is still a filler
            if self.out.ends_with('-') || self.out.ends_with('/') {
                self.out.push(' ');
            }
            self.out.push_str(&s);
        }
    }

    // ---- names -------------------------------------------------------------
    pub fn id_node(value: &str, sp: Sp) -> T {
        n!("Identifier"; value: q(value), span: sp.t())
    }
    /// Some identifier, returning the `Identifier` node and its span.
    /// `dq`: PostgreSQL double-quoted form is allowed here.
    pub fn ident_x(&mut self, dq: bool) -> (T, Sp) {
        let given = self.dict_name();
        let bare = given.as_ref().is_none_or(|w| {
            w.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
                && !w.starts_with(|c: char| c.is_ascii_digit())
                && !w.is_empty()
                && !crate::words::special(w)
        });
        let quoted = self.qid_ok && (self.p(1, 3) || !bare);
        if quoted && self.pg() {
            if dq {
                let nm = given.unwrap_or_else(|| self.pick(QNAMES).to_string());
                let sp = self.tok(K::Qid, &format!("\"{nm}\""));
                self.f("pg-quoted");
                return (Self::id_node(&nm, sp), sp);
            }
        } else if quoted {
            let nm = given.unwrap_or_else(|| self.pick(QNAMES).to_string());
            let sp = self.tok(K::Qid, &format!("`{nm}`"));
            self.f("backquoted");
            return (Self::id_node(&nm, sp), sp);
        }
        let nm = given.filter(|_| bare).unwrap_or_else(|| self.pick(NAMES).to_string());
        let sp = self.tok(K::Id, &nm);
        (Self::id_node(&nm, sp), sp)
    }
    /// A name made from the dictionary, now and then.
    fn dict_name(&mut self) -> Option<String> {
        let d = dict();
        if hit(self, &d.words, 6) {
            let w = dict::some(self, &d.words);
            return Some(dict::variant(self, w));
        }
        if hit(self, &d.keys, 12) {
            let w = dict::some(self, &d.keys);
            return Some(dict::variant(self, w));
        }
        if hit(self, &d.texts, 16) {
            let w = dict::some(self, &d.texts);
            let w = dict::variant(self, w);
            return Some(w.chars().filter(|c| !"'\"`\\".contains(*c)).collect());
        }
        if hit(self, &d.sizes, 40) {
            let n = dict::near(self, &d.sizes);
            if n <= 300 || n <= 5000 && self.p(1, 4) || self.p(1, 40) {
                let (c, l) = if self.qid_ok && self.p(1, 4) { ("é", 2) } else { ("n", 1) };
                let n = n as usize;
                return Some("a".repeat(n % l) + &c.repeat(n / l));
            }
        }
        if self.budget > 100 && self.p(1, 200) {
            let n = self.pick(&[64, 30, 31, 63, 65, 127, 128, 129, 191, 255, 256, 257, 1000, 4096]);
            self.f("long-name");
            return Some(["n", "N_", "é"][self.c(if self.qid_ok { 3 } else { 2 }) as usize].repeat(n));
        }
        None
    }
    pub fn ident(&mut self) -> (T, Sp) {
        self.ident_x(true)
    }
    pub fn dot(&mut self) -> Sp {
        self.pt(".")
    }
    /// QualifiedName node
    pub fn qname_first(&mut self, dq_first: bool) -> (T, Sp) {
        let mut prefix = Vec::new();
        let (mut id, mut sp) = self.ident_x(dq_first);
        let st = sp;
        let k = match self.c(8) {
            0..=4 => 0,
            5..=6 => 1,
            _ => 2,
        };
        let k = self.reps(k);
        for _ in 0..k {
            let d = self.dot();
            prefix.push(tup(vec![id, d.t()]));
            let (i2, s2) = self.ident();
            id = i2;
            sp = s2;
            self.f("qualified-name");
        }
        (
            n!("QualifiedName"; prefix: list(prefix), identifier: id),
            st.join(sp),
        )
    }
    pub fn qname(&mut self) -> (T, Sp) {
        self.qname_first(true)
    }
    /// Comma separated list.
    pub fn comma_list<X>(&mut self, max: u32, mut f: impl FnMut(&mut Self) -> X) -> Vec<X> {
        let k = 1 + if max > 1 {
            // favour short lists
            let m = self.c(max);
            if m > 3 && self.p(1, 2) {
                m / 2
            } else {
                m
            }
        } else {
            0
        };
        let k = self.reps(k);
        let mut v = Vec::new();
        let mut last = None;
        for i in 0..k {
            if i > 0 {
                self.pt(",");
            }
            v.push(self.twin(&mut last, &mut f));
        }
        v
    }
    /// An element of a list; now and then the same one as the last time (the choices are
    /// read again from where they were).
    pub fn twin<X>(&mut self, last: &mut Option<usize>, f: impl FnOnce(&mut Self) -> X) -> X {
        let here = match last {
            Some(at) if self.p(1, 14) => {
                self.f("repeated-element");
                Some(std::mem::replace(&mut self.pos, *at))
            }
            _ => None,
        };
        *last = Some(self.pos);
        let r = f(self);
        if let Some(h) = here {
            self.pos = self.pos.max(h);
        }
        r
    }
    pub fn ident_list(&mut self, max: u32) -> Vec<T> {
        self.comma_list(max, |g| g.ident().0)
    }
    pub fn deeper<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> R {
        self.depth -= 1;
        let r = f(self);
        self.depth += 1;
        r
    }
}

/// Render tokens again with another layout; returns the text and new spans.
pub fn render(toks: &[Tok], lay: &mut Layout) -> (String, Vec<Sp>) {
    let mut out = String::new();
    let mut sps = Vec::with_capacity(toks.len());
    let mut prev: Option<Tok> = None;
    for t in toks {
        let text = lay.recase(t.k, &t.text);
        out.push_str(&lay.sep(prev.as_ref(), &text, t.k));
        let st = out.len();
        out.push_str(&text);
        sps.push(Sp(st, out.len()));
        prev = Some(Tok {
            text,
            ..t.clone()
        });
    }
    (out, sps)
}
