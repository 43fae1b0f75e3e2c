//! Expressions.

use crate::dict::{self, dict, hit};
use crate::funcs::FUNCS;
use crate::gen::*;
use crate::n;
use crate::select::Sel;
use crate::tree::*;

pub const MAXP: u32 = 1000;

pub const UNITS: &[(&str, &str)] = &[
    ("DAY", "Day"),
    ("MICROSECOND", "Microsecond"),
    ("SECOND", "Second"),
    ("MINUTE", "Minute"),
    ("HOUR", "Hour"),
    ("WEEK", "Week"),
    ("MONTH", "Month"),
    ("QUARTER", "Quarter"),
    ("YEAR", "Year"),
    ("SECOND_MICROSECOND", "SecondMicrosecond"),
    ("MINUTE_MICROSECOND", "MinuteMicrosecond"),
    ("MINUTE_SECOND", "MinuteSecond"),
    ("HOUR_MICROSECOND", "HourMicrosecond"),
    ("HOUR_SECOND", "HourSecond"),
    ("HOUR_MINUTE", "HourMinute"),
    ("DAY_MICROSECOND", "DayMicrosecond"),
    ("DAY_SECOND", "DaySecond"),
    ("DAY_MINUTE", "DayMinute"),
    ("DAY_HOUR", "DayHour"),
    ("YEAR_MONTH", "YearMonth"),
];

/// priority, spelling, operator name
pub const BINOPS: &[(u32, &str, &str)] = &[
    (110, "=", "Eq"),
    (70, "+", "Add"),
    (140, "AND", "And"),
    (160, "OR", "Or"),
    (60, "*", "Mult"),
    (150, "XOR", "Xor"),
    (70, "-", "Subtract"),
    (60, "/", "Divide"),
    (80, "<<", "ShiftLeft"),
    (80, ">>", "ShiftRight"),
    (90, "&", "BitAnd"),
    (100, "|", "BitOr"),
    (110, "<=>", "NullSafeEq"),
    (110, ">=", "GtEq"),
    (110, ">", "Gt"),
    (110, "<=", "LtEq"),
    (110, "<", "Lt"),
    (110, "!=", "Neq"),
    (110, "<>", "Neq"),
    (110, "LIKE", "Like"),
    (110, "NOT LIKE", "NotLike"),
    (140, "&&", "And"),
    (160, "||", "Or"),
];
pub const UNOPS: &[(u32, &str, &str)] = &[
    (40, "-", "Minus"),
    (130, "NOT", "Not"),
    (30, "!", "LogicalNot"),
    (20, "BINARY", "Binary"),
];
/// Names that are not built in, callable as user functions. The last ones are
/// non-reserved keywords.
pub const USERFN: &[&str] = &[
    "foo", "my_func", "F2", "zz_top", "Blorp", "account", "backup", "temporary", "offline", "xa", "st_x",
];

fn decode_piece(dia: Dia, quote: char, p: &str) -> String {
    // `p` is one escape sequence or plain run as written between the quotes
    if p.len() == 2 && p.as_bytes()[0] == quote as u8 && p.as_bytes()[1] == quote as u8 {
        return quote.to_string();
    }
    if let Some(rest) = p.strip_prefix('\\') {
        let c = rest.chars().next().unwrap();
        if c == quote {
            return quote.to_string();
        }
        if dia == Dia::Maria {
            return match c {
                '0' => "\0".into(),
                'b' => "\x08".into(),
                'n' => "\n".into(),
                'r' => "\r".into(),
                't' => "\t".into(),
                'Z' => "\x1a".into(),
                '%' => "\\%".into(),
                '_' => "\\_".into(),
                c => c.to_string(),
            };
        }
        return p.to_string();
    }
    p.to_string()
}

impl<'t> Gen<'t> {
    // ---- literals ------------------------------------------------------------
    /// One string token; returns decoded text and span.
    fn str_tok(&mut self, dq: bool) -> (String, Sp) {
        let quote = if dq { '"' } else { '\'' };
        const PIECES: &[&str] = &[
            "a", "b", "foo", " ", "x y", "%", "_", "é", "日本", "🦀", "\n", "\r\n", "\t", ";", "--", "/*", "*/", "//", "`",
            "$$", "(", ")", ",", "?", "%s", "$1", "#", "\u{0}", "\u{a0}", "1", "SELECT", "{QQ}", "{Q}{O}", "{BQ}", "\\\\", "\\n",
            "\\t", "\\0", "\\Z", "\\b", "\\r", "\\%", "\\_", "\\x", "\\é", "{O}", "{BO}", "{QQ}{QQ}", "\\\\{QQ}", "\u{ffff}", "\u{7f}",
        ];
        let k = match self.c(10) {
            0..=4 => 1,
            5 => 0,
            6..=8 => 3,
            _ => 8,
        };
        let mut src = String::new();
        let mut val = String::new();
        let other = if dq { '\'' } else { '"' };
        let k = self.reps(k);
        let d = dict();
        let given = if !self.plain_strings && hit(self, &d.texts, 5) {
            let t = dict::some(self, &d.texts);
            Some(dict::variant(self, t).chars().filter(|c| !"'\"\\".contains(*c)).collect::<String>())
        } else if hit(self, &d.sizes, 20) {
            let n = dict::near(self, &d.sizes);
            (n <= 300 || n <= 5000 && self.p(1, 4) || self.p(1, 40)).then(|| "s".repeat(n as usize))
        } else {
            None
        };
        let k = if given.is_some() && self.p(1, 2) { 0 } else { k };
        if let Some(t) = given {
            val.push_str(&t);
            src.push_str(&t);
        }
        for _ in 0..k {
            let p = PIECES[if self.plain_strings {
                self.c(4)
            } else {
                self.c(PIECES.len() as u32)
            } as usize];
            let seq: Vec<String> = match p {
                "{QQ}" => vec![format!("{quote}{quote}")],
                "{Q}{O}" => vec![format!("{quote}{quote}"), other.to_string()],
                "{BQ}" => vec![format!("\\{quote}")],
                "{O}" => vec![other.to_string()],
                "{BO}" => vec![format!("\\{other}")],
                "{QQ}{QQ}" => vec![format!("{quote}{quote}"), format!("{quote}{quote}")],
                "\\\\{QQ}" => vec!["\\\\".into(), format!("{quote}{quote}")],
                p => vec![p.to_string()],
            };
            if seq.iter().any(|s| s.starts_with('\\')) {
                self.f("string-backslash");
            }
            if seq.iter().any(|s| s.len() == 2 && s.starts_with(quote)) {
                self.f("string-doubled-quote");
            }
            if seq.iter().any(|s| !s.is_ascii()) {
                self.f("string-multibyte");
            }
            for s in seq {
                val.push_str(&decode_piece(self.o.dia, quote, &s));
                src.push_str(&s);
            }
        }
        let sp = self.tok(K::Str, &format!("{quote}{src}{quote}"));
        (val, sp)
    }
    /// A string literal (possibly several adjacent ones): `SString` node
    pub fn sstring(&mut self) -> (T, Sp) {
        let (v, s, _) = self.sstring_v(false);
        (n!("SString"; value: q(v), span: s.t()), s)
    }
    pub fn sstring_v(&mut self, expr: bool) -> (String, Sp, u32) {
        let _ = expr;
        let dq_ok = !self.pg() && !self.portable;
        let (mut v, mut s) = {
            let dq = dq_ok && self.p(1, 3);
            self.str_tok(dq)
        };
        let more = if self.p(1, 10) { 1 + self.c(2) } else { 0 };
        let more = self.reps(more);
        for _ in 0..more {
            let dq = dq_ok && self.p(1, 3);
            let (v2, s2) = self.str_tok(dq);
            v.push_str(&v2);
            s = s.join(s2);
            self.f("string-concat");
        }
        (v, s, more)
    }
    pub fn int_text(&mut self, max: u64) -> (String, u64) {
        let given = hit(self, &dict().ints, 4);
        let v: u64 = match self.c(8) {
            _ if given => dict::near(self, &dict().ints),
            0..=3 => self.c(20) as u64,
            4 => self.raw_choice() as u64,
            5 => (self.raw_choice() as u64) << 32 | self.raw_choice() as u64,
            6 => max - (self.c(3) as u64),
            _ => [0, 1, 255, 256, 65535, 65536, 4294967295, 4294967296, i64::MAX as u64, u64::MAX]
                [self.c(10) as usize],
        };
        let v = if max == u64::MAX { v } else { v % (max + 1) };
        let mut s = v.to_string();
        if self.p(1, 12) {
            s = format!("{}{}", "0".repeat(1 + self.c(3) as usize), s);
            self.f("leading-zero");
        }
        (s, v)
    }
    /// `(value, span)` tuple node of an integer in range `0..=max`
    pub fn int_max(&mut self, max: u64) -> (T, Sp) {
        let (s, v) = self.int_text(max);
        let sp = self.tok(K::Num, &s);
        (tup(vec![a(v), sp.t()]), sp)
    }
    pub fn float_tok(&mut self) -> T {
        let mut ip = String::new();
        let k = self.c(4);
        for _ in 0..k {
            ip.push((b'0' + self.c(10) as u8) as char);
        }
        let mut fp = String::new();
        let k = if ip.is_empty() { 1 + self.c(4) } else { self.c(5) };
        for _ in 0..k {
            fp.push((b'0' + self.c(10) as u8) as char);
        }
        if self.p(1, 10) {
            ip.push_str(&"9".repeat(20));
        }
        if self.p(1, 10) {
            fp = format!("{}{}", "0".repeat(12), fp);
        }
        let s = format!("{ip}.{fp}");
        let v: f64 = s.parse().unwrap();
        let sp = self.tok(K::Num, &s);
        u("Float", vec![tup(vec![a(format!("{v:?}")), sp.t()])])
    }
    pub fn int_expr(&mut self) -> T {
        let (t, _) = self.int_max(u64::MAX);
        u("Integer", vec![t])
    }
    pub fn ident_part(t: T) -> T {
        u("Name", vec![t])
    }
    pub fn column(&mut self, qualified: bool, star: bool) -> T {
        let (i, _) = self.ident();
        let mut parts = vec![Self::ident_part(i)];
        let k = if qualified { 1 + self.c(3) } else { 0 };
        let k = self.reps(k);
        for j in 0..k {
            self.dot();
            if star && j + 1 == k && self.p(1, 4) {
                let s = self.pt("*");
                parts.push(u("Star", vec![s.t()]));
                self.f("qualified-star");
                break;
            }
            let (i, _) = self.ident();
            parts.push(Self::ident_part(i));
        }
        u("Identifier", vec![list(parts)])
    }
    pub fn star(&mut self) -> T {
        let s = self.pt("*");
        u("Identifier", vec![list(vec![u("Star", vec![s.t()])])])
    }
    /// A placeholder of the configured style.
    pub fn arg(&mut self) -> Option<T> {
        if !self.args_ok {
            return None;
        }
        if self.o.list && self.p(1, 3) {
            let s = self.tok(K::Kw, "_LIST_");
            let k = self.argn;
            self.argn += 1;
            self.f("list-hack");
            return Some(u("ListHack", vec![tup(vec![a(k), s.t()])]));
        }
        let (k, s) = match self.o.args {
            Args::None => return None,
            Args::Question | Args::Percent => {
                let k = self.argn;
                self.argn += 1;
                let t = if self.o.args == Args::Question { "?" } else { "%s" };
                (k, self.tok(K::Arg, t))
            }
            Args::Dollar => {
                let given = hit(self, &dict().ints, 4);
                let k = match self.c(4) {
                    _ if given => dict::near(self, &dict().ints).min(u32::MAX as u64) as usize,
                    0 | 1 => self.c(9) as usize,
                    2 => self.c(30) as usize,
                    _ => self.raw_choice() as usize,
                };
                (k, self.tok(K::Arg, &format!("${}", k + 1)))
            }
        };
        self.f("placeholder");
        Some(u("Arg", vec![tup(vec![a(k), s.t()])]))
    }

    // ---- atoms ---------------------------------------------------------------
    pub fn simple_atom(&mut self) -> T {
        match self.c(16) {
            0..=4 => {
                let star = false;
                self.column(false, star)
            }
            5 | 6 => self.int_expr(),
            7 | 8 => {
                let (v, s, _) = self.sstring_v(true);
                u("String", vec![n!("SString"; value: q(v), span: s.t())])
            }
            9 => self.column(true, false),
            10..=12 => match self.arg() {
                Some(t) => t,
                None => self.column(true, false),
            },
            13 => {
                let s = self.kw("NULL");
                u("Null", vec![s.t()])
            }
            14 => {
                let b = self.p(1, 2);
                let s = self.kw(if b { "TRUE" } else { "FALSE" });
                u("Bool", vec![a(b), s.t()])
            }
            _ => self.float_tok(),
        }
    }
    pub fn unit(&mut self) -> T {
        let (k, v) = self.pick(UNITS);
        let s = self.kw(k);
        tup(vec![a(v), s.t()])
    }
    /// `INTERVAL n UNIT`
    pub fn interval(&mut self) -> T {
        self.f("interval");
        let i = self.kw("INTERVAL");
        let ti = if self.p(1, 2) {
            let k = 1 + self.c(7);
            let mut s = String::new();
            let mut v = Vec::new();
            for j in 0..k {
                if j > 0 {
                    s.push(self.pick(&[':', ' ', '.', ',', '!', '-']));
                }
                let (t, x) = self.int_text(i64::MAX as u64);
                s.push_str(&t);
                v.push(a(x));
            }
            let q = if self.o.dia != Dia::Pg && self.p(1, 4) { '"' } else { '\'' };
            let sp = self.tok(K::Str, &format!("{q}{s}{q}"));
            tup(vec![list(v), sp.t()])
        } else {
            let (s, v) = self.int_text(i64::MAX as u64);
            let sp = self.tok(K::Num, &s);
            tup(vec![list(vec![a(v)]), sp.t()])
        };
        let un = self.unit();
        n!("Interval"; interval_span: i.t(), time_interval: ti, time_unit: un)
    }
    pub fn order_list(&mut self) -> T {
        let v = self.comma_list(3, |g| {
            let e = g.expr();
            let f = match g.c(3) {
                0 => a("None"),
                1 => u("Asc", vec![g.kw("ASC").t()]),
                _ => u("Desc", vec![g.kw("DESC").t()]),
            };
            tup(vec![e, f])
        });
        list(v)
    }
    /// Argument of a function call: expression or bare SELECT.
    pub fn outer_expr(&mut self) -> T {
        if self.subq_ok && self.depth > 1 && self.p(1, 14) {
            self.f("bare-select-argument");
            let t = self.deeper(|g| g.select(Sel::Free));
            return u("Subquery", vec![u("Select", vec![t])]);
        }
        self.expr()
    }
    pub fn call_args(&mut self, lo: u32, hi: u32) -> Vec<T> {
        let k = lo + self.c(hi - lo + 1);
        let k = self.reps(k);
        self.pt("(");
        let mut v = Vec::new();
        let mut last = None;
        for i in 0..k {
            if i > 0 {
                self.pt(",");
            }
            let e = self.twin(&mut last, |g| if i + 1 == k { g.deeper(|g| g.outer_expr()) } else { g.deeper(|g| g.expr()) });
            v.push(e);
        }
        self.pt(")");
        v
    }
    pub fn function(&mut self) -> T {
        let (func, s, user) = match self.c(6) {
            0 => {
                let mut nm = self.pick(USERFN).to_string();
                if hit(self, &dict().words, 4) {
                    let w = dict::some(self, &dict().words);
                    let w = dict::variant(self, w);
                    if !crate::words::special(&w) && !FUNCS.iter().any(|(f, _)| f.eq_ignore_ascii_case(&w)) {
                        nm = w;
                    }
                }
                let s = self.tok(K::Id, &nm);
                self.f("user-function");
                (u("Other", vec![q(nm)]), s, true)
            }
            1 if self.p(1, 2) => {
                const BARE: &[(&str, &str)] = &[
                    ("CURRENT_TIMESTAMP", "CurrentTimestamp"),
                    ("CURRENT_DATE", "CurDate"),
                    ("CURRENT_TIME", "CurTime"),
                    ("LOCALTIME", "Now"),
                    ("LOCALTIMESTAMP", "Now"),
                    ("UTC_TIMESTAMP", "UtcTimeStamp"),
                    ("UTC_DATE", "UtcDate"),
                    ("UTC_TIME", "UtcTime"),
                ];
                let (k, v) = self.pick(BARE);
                let s = self.kw(k);
                self.f("bare-function");
                return u("Function", vec![a(v), list(vec![]), s.t()]);
            }
            _ => {
                let (k, v) = self.pick(FUNCS);
                let s = self.tok(K::Fn, k);
                (a(v), s, false)
            }
        };
        let _ = user;
        self.f("function");
        let args = self.call_args(0, 4);
        if self.p(1, 5) {
            let over = self.kw("OVER");
            self.pt("(");
            let o = self.kws("ORDER BY");
            let v = self.deeper(|g| g.order_list());
            self.pt(")");
            self.f("window");
            return n!("WindowFunction"; function: func, args: list(args), function_span: s.t(), over_span: over.t(),
                window_spec: n!("WindowSpec"; order_by: tup(vec![o.t(), v])));
        }
        u("Function", vec![func, list(args), s.t()])
    }
    pub fn case_expr(&mut self) -> T {
        self.f("case");
        let c = self.kw("CASE");
        let value = if self.p(1, 2) {
            Some(self.deeper(|g| g.expr()))
        } else {
            None
        };
        let k = 1 + self.c(3);
        let mut whens = Vec::new();
        let k = self.reps(k);
        let mut last = None;
        for _ in 0..k {
            whens.push(self.twin(&mut last, |g| {
                let ws = g.kw("WHEN");
                let w = g.deeper(|g| g.expr());
                let ts = g.kw("THEN");
                let t = g.deeper(|g| g.expr());
                n!("When"; when_span: ws.t(), when: w, then_span: ts.t(), then: t)
            }));
        }
        let else_ = if self.p(1, 2) {
            let s = self.kw("ELSE");
            let e = self.deeper(|g| g.expr());
            Some(tup(vec![s.t(), e]))
        } else {
            None
        };
        let e = self.kw("END");
        n!("Case"; case_span: c.t(), value: opt(value), whens: list(whens), else_: opt(else_), end_span: e.t())
    }
    pub fn complex_atom(&mut self) -> T {
        match self.c(16) {
            0..=4 => self.function(),
            5 => self.case_expr(),
            6 => {
                self.f("cast");
                let c = self.tok(K::Fn, "CAST");
                self.pt("(");
                let e = self.deeper(|g| g.expr());
                let s = self.kw("AS");
                let t = self.data_type(crate::ddl::Ctx::Cast);
                self.pt(")");
                n!("Cast"; cast_span: c.t(), expr: e, as_span: s.t(), type_: t)
            }
            7 => {
                self.f("count");
                let c = self.tok(K::Fn, "COUNT");
                self.pt("(");
                let d = self.opt_kws("DISTINCT", 1, 2);
                let e = if self.p(1, 3) {
                    self.star()
                } else {
                    self.deeper(|g| g.outer_expr())
                };
                self.pt(")");
                n!("Count"; count_span: c.t(), distinct_span: osp(d), expr: e)
            }
            8 => {
                self.f("group_concat");
                let c = self.tok(K::Fn, "GROUP_CONCAT");
                self.pt("(");
                let d = self.opt_kws("DISTINCT", 1, 2);
                let e = self.deeper(|g| g.outer_expr());
                self.pt(")");
                n!("GroupConcat"; group_concat_span: c.t(), distinct_span: osp(d), expr: e)
            }
            9 => {
                self.f("extract");
                let c = self.tok(K::Fn, "EXTRACT");
                self.pt("(");
                let un = self.unit();
                let f = self.kw("FROM");
                let e = self.deeper(|g| g.outer_expr());
                self.pt(")");
                n!("Extract"; extract_span: c.t(), time_unit: un, from_span: f.t(), date: e)
            }
            10 => self.interval(),
            11 => {
                self.f("timestampadd");
                let add = self.p(1, 2);
                let c = self.tok(K::Fn, if add { "TIMESTAMPADD" } else { "TIMESTAMPDIFF" });
                self.pt("(");
                let un = self.unit();
                self.pt(",");
                let x = self.deeper(|g| g.expr());
                self.pt(",");
                let y = self.deeper(|g| g.outer_expr());
                self.pt(")");
                if add {
                    n!("TimestampAdd"; timestamp_add_span: c.t(), unit: un, interval: x, datetime: y)
                } else {
                    n!("TimestampDiff"; timestamp_diff_span: c.t(), unit: un, e1: x, e2: y)
                }
            }
            12 => {
                self.f("variable");
                let gl = self.p(1, 2);
                let s = self.tok(K::Kw, if gl { "@@GLOBAL" } else { "@@SESSION" });
                let d = self.dot();
                let (v, vs) = if self.p(1, 2) {
                    let s = self.tok(K::Kw, "TIME_ZONE");
                    (a("TimeZone"), s)
                } else if self.qid_ok && !self.pg() && self.p(1, 3) {
                    // in quotes it is no keyword
                    let nm = if self.p(1, 3) { self.pick(&["time_zone", "TIME_ZONE"]) } else { self.pick(QNAMES) };
                    let s = self.tok(K::Qid, &format!("`{nm}`"));
                    (u("Other", vec![q(nm)]), s)
                } else {
                    let nm = self.pick(NAMES);
                    let s = self.tok(K::Id, nm);
                    (u("Other", vec![q(nm)]), s)
                };
                n!("Variable"; global: if gl { some(s.t()) } else { none() }, session: if gl { none() } else { some(s.t()) },
                    dot: some(d.t()), variable: v, variable_span: vs.t())
            }
            13 => {
                if !self.subq_ok {
                    return self.case_expr();
                }
                self.f("exists");
                self.kw("EXISTS");
                self.pt("(");
                let t = self.deeper(|g| g.compound_query());
                self.pt(")");
                u("Exists", vec![t])
            }
            _ => {
                if !self.subq_ok {
                    return self.function();
                }
                self.paren_select()
            }
        }
    }
    /// `(SELECT ..)` as an operand
    pub fn paren_select(&mut self) -> T {
        self.f("scalar-subquery");
        self.pt("(");
        let t = self.deeper(|g| g.compound_query_select_first());
        self.pt(")");
        u("Subquery", vec![t])
    }
    pub fn paren(&mut self) -> T {
        self.pt("(");
        self.f("paren");
        let t = self.deeper(|g| g.ex(MAXP, MAXP));
        self.pt(")");
        t
    }
    pub fn expr(&mut self) -> T {
        self.ex(MAXP, MAXP)
    }
    /// Expression for the restricted positions (LIMIT, DEFAULT): no operators but unary minus.
    pub fn inner_expr(&mut self) -> T {
        if self.p(1, 10) {
            let s = self.pt("-");
            let o = self.inner_atom();
            return n!("Unary"; op: a("Minus"), op_span: s.t(), operand: o);
        }
        self.inner_atom()
    }
    fn inner_atom(&mut self) -> T {
        match self.c(8) {
            0..=3 => self.int_expr(),
            4 | 5 => match self.arg() {
                Some(t) => t,
                None => self.int_expr(),
            },
            6 if self.depth > 0 => self.paren(),
            7 if self.depth > 0 => self.function(),
            _ => self.float_tok(),
        }
    }
    /// An expression that may stand where operators of priority up to `limit` are
    /// operands; whatever follows binds with at least priority `follow`.
    pub fn ex(&mut self, limit: u32, follow: u32) -> T {
        if self.depth <= 0 || self.budget <= 0 {
            return self.simple_atom();
        }
        let tot = 6 + self.w_op + 2 + self.w_fn;
        let r = self.c(tot);
        if r < 6 {
            return self.simple_atom();
        }
        if r < 8 {
            return self.paren();
        }
        if r < 8 + self.w_fn {
            return self.complex_atom();
        }
        self.deeper(|g| g.op_expr(limit, follow))
    }
    pub fn op_expr(&mut self, limit: u32, follow: u32) -> T {
        // binary operators, then prefix operators, then IS and IN
        let k = self.c(BINOPS.len() as u32 + 10);
        let nb = BINOPS.len() as u32;
        if k < nb {
            let (p, text, name) = BINOPS[k as usize];
            if p > limit {
                return self.paren_force(|g| g.binary(p, text, name, MAXP));
            }
            self.binary(p, text, name, follow)
        } else if k < nb + 5 {
            let (p, text, name) = UNOPS[[0usize, 1, 2, 3, 1][(k - nb) as usize]];
            if p > limit && follow < p {
                return self.paren_force(|g| g.unary(p, text, name, MAXP));
            }
            if p > limit {
                self.f("loose-prefix-operand");
            }
            self.unary(p, text, name, follow)
        } else {
            let is = k < nb + 7;
            if limit < 110 {
                return self.paren_force(|g| g.is_in(is));
            }
            self.is_in(is)
        }
    }
    fn paren_force(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        self.pt("(");
        self.f("paren");
        let t = f(self);
        self.pt(")");
        t
    }
    fn op_tok(&mut self, text: &str) -> Sp {
        if text.as_bytes()[0].is_ascii_alphabetic() {
            self.kws(text)
        } else {
            self.pt(text)
        }
    }
    pub fn binary(&mut self, p: u32, text: &str, name: &'static str, follow: u32) -> T {
        self.f("binary");
        self.ops += 1;
        let mut last = None;
        let lhs = self.twin(&mut last, |g| g.ex(p, p));
        let s = self.op_tok(text);
        let rhs = self.twin(&mut last, |g| g.ex(p - 1, follow));
        n!("Binary"; op: a(name), op_span: s.t(), lhs: lhs, rhs: rhs)
    }
    pub fn unary(&mut self, p: u32, text: &str, name: &'static str, follow: u32) -> T {
        self.f("unary");
        self.ops += 1;
        let s = self.op_tok(text);
        let o = self.ex(p, follow);
        n!("Unary"; op: a(name), op_span: s.t(), operand: o)
    }
    pub fn is_in(&mut self, is: bool) -> T {
        self.ops += 1;
        let lhs = self.ex(110, 110);
        if is {
            self.f("is");
            let s = self.kw("IS");
            let not = self.p(1, 2);
            if not {
                self.kw("NOT");
            }
            let (k, v) = self.pick(&[("NULL", "Null"), ("TRUE", "True"), ("FALSE", "False"), ("UNKNOWN", "Unknown")]);
            let e = self.kw(k);
            let nm = if not { format!("Not{v}") } else { v.to_string() };
            u("Is", vec![lhs, a(nm), s.join(e).t()])
        } else {
            self.f("in");
            let not = self.p(1, 2);
            let s = self.kws(if not { "NOT IN" } else { "IN" });
            self.pt("(");
            let rhs = self.deeper(|g| {
                if g.subq_ok && g.depth > 1 && g.p(1, 5) {
                    g.f("in-subquery");
                    let t = g.compound_query_select_first();
                    vec![u("Subquery", vec![t])]
                } else {
                    g.comma_list(4, |g| g.expr())
                }
            });
            self.pt(")");
            n!("In"; lhs: lhs, rhs: list(rhs), in_span: s.t(), not_in: a(not))
        }
    }
}
