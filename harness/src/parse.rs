//! Running the parser under test.

use crate::gen::Opts;
use crate::run::subject;
use crate::tree::*;
use sql_parse::{Issues, Level};

#[derive(Clone, Debug, PartialEq)]
pub struct Iss {
    pub err: bool,
    pub msg: String,
    pub sp: (usize, usize),
    pub seg: String,
    pub frags: Vec<(String, (usize, usize), String)>,
}

#[derive(Clone, Debug)]
pub struct Parsed {
    /// statements: one or none for the single-statement entry point
    pub stmts: Vec<T>,
    pub issues: Vec<Iss>,
    pub shown: String,
}

impl Parsed {
    pub fn errors(&self) -> usize {
        self.issues.iter().filter(|i| i.err).count()
    }
    pub fn first_error(&self) -> Option<&Iss> {
        self.issues.iter().find(|i| i.err)
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for i in &self.issues {
            s.push_str(&format!(
                "  {} {} at {}..{} {:?}\n",
                if i.err { "error" } else { "warning" },
                i.msg,
                i.sp.0,
                i.sp.1,
                i.seg
            ));
        }
        for t in &self.stmts {
            s.push_str(&format!("  {}\n", t.show()));
        }
        s
    }
}

pub fn issues(i: &Issues) -> Vec<Iss> {
    i.get()
        .iter()
        .map(|i| Iss {
            err: i.level == Level::Error,
            msg: i.message.to_string(),
            sp: (i.span.start, i.span.end),
            seg: i.sql_segment.to_string(),
            frags: i
                .fragments
                .iter()
                .map(|f| (f.message.to_string(), (f.span.start, f.span.end), f.sql_segment.to_string()))
                .collect(),
        })
        .collect()
}

/// `parse_statement` / `parse_statements` with the debug tree; `Err` on a panic.
pub fn parse(src: &str, o: &Opts, script: bool) -> Result<Parsed, String> {
    let (dbg, issues) = subject(|| {
        let mut iss = Issues::new(src);
        let ro = o.real();
        let v: Vec<String> = if script {
            sql_parse::parse_statements(src, &mut iss, &ro).iter().map(|s| format!("{s:?}")).collect()
        } else {
            sql_parse::parse_statement(src, &mut iss, &ro).iter().map(|s| format!("{s:?}")).collect()
        };
        (v, issues(&iss))
    })
    .map_err(|m| format!("{m}\n{}", input(src, o)))?;
    Ok(Parsed {
        stmts: dbg.iter().map(|d| read(d)).collect(),
        issues,
        shown: String::new(),
    })
}
pub fn one(src: &str, o: &Opts) -> Result<Parsed, String> {
    parse(src, o, false)
}
pub fn script(src: &str, o: &Opts) -> Result<Parsed, String> {
    parse(src, o, true)
}

pub fn input(src: &str, o: &Opts) -> String {
    format!("input ({}):\n{src}\n(escaped: {src:?})", o.show())
}

/// The statement(s) must parse without error to exactly these trees.
pub fn expect(src: &str, o: &Opts, script: bool, want: &[T]) -> Result<Parsed, String> {
    let p = parse(src, o, script)?;
    if let Some(e) = p.first_error() {
        return Err(format!(
            "an error is reported for a well-formed statement: {} at {}..{} ({:?})\n{}",
            e.msg,
            e.sp.0,
            e.sp.1,
            e.seg,
            input(src, o)
        ));
    }
    if p.stmts.len() != want.len() {
        return Err(format!(
            "{} statements returned where {} were written\n{}\n{}",
            p.stmts.len(),
            want.len(),
            input(src, o),
            p.show()
        ));
    }
    for (i, (w, g)) in want.iter().zip(&p.stmts).enumerate() {
        if let Some(d) = diff(w, g) {
            return Err(format!("statement {i} differs {d}\n{}", input(src, o)));
        }
    }
    Ok(p)
}

pub fn sub<'a>(src: &'a str, s: Sp) -> &'a str {
    &src[s.0..s.1]
}
