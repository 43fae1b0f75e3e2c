//! P25 and P26: the public values around the parser, and parsing as a function.

use crate::dict;
use crate::gen::*;
use crate::mutate::*;
use crate::parse::*;
use crate::run::*;
use sql_parse::{Identifier, Issues, OptSpanned, ParseOptions, SQLArguments, SQLDialect, SString, Span, Spanned};
use std::borrow::{Borrow, Cow};
use std::collections::BTreeMap;

fn rand_span(g: &mut Gen) -> Span {
    const E: &[usize] = &[0, 1, 2, 3, 5, 8, 13, 40, 1000, usize::MAX];
    let (mut a, b) = (g.pick(E), g.pick(E));
    if dict::hit(g, &dict::dict().ints, 4) {
        a = dict::near(g, &dict::dict().ints) as usize;
    }
    a.min(b)..a.max(b)
}
fn rand_word(g: &mut Gen) -> String {
    const A: &[&str] = &["a", "b", "A", "B", "_", "1", " ", "é", "日", "z", "`", "\"", "\\", "'"];
    if dict::hit(g, &dict::dict().texts, 4) {
        let t = dict::some(g, &dict::dict().texts);
        return dict::variant(g, t);
    }
    let n = g.c(5);
    (0..n).map(|_| g.pick(A)).collect()
}

// ---- P25 -----------------------------------------------------------------------------
fn p25_names(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = Gen::new(tape, Opts::plain(Dia::Maria));
    let n = 1 + g.c(7) as usize;
    let v: Vec<(String, Span)> = (0..n)
        .map(|_| {
            let w = if g.p(1, 6) { soup_word(&mut g) } else { rand_word(&mut g) };
            (w, rand_span(&mut g))
        })
        .collect();
    let probe = rand_word(&mut g);
    let width = g.c(9) as usize;
    let prec = g.c(4) as usize;
    rec.extra = (n * n) as u64;
    rec.case(n > 1, &(&v, &probe), || format!("names {v:?}, looked up {probe:?}"));
    let bad = |m: String| Err(format!("{m}\nnames with spans: {v:?}, looked up {probe:?}, width {width}, precision {prec}"));
    let ids: Vec<Identifier> = v.iter().map(|(s, p)| Identifier::new(s, p.clone())).collect();
    let strs: Vec<&str> = v.iter().map(|(s, _)| s.as_str()).collect();
    for (i, (a, x)) in ids.iter().zip(&strs).enumerate() {
        if a.as_str() != *x || a.value != *x || <Identifier as Borrow<str>>::borrow(a) != *x || &**a != *x {
            return bad(format!("the text of name {i} reads as {:?}", a.as_str()));
        }
        if a.span() != v[i].1 || a.span != v[i].1 || a.opt_span() != Some(v[i].1.clone()) {
            return bad(format!("the span of name {i} reads as {:?}", a.span()));
        }
        if a.to_string() != *x || format!("{a:>width$}|{a:<width$}|{a:*^width$}|{a:.prec$}|{a:#}|{a:+}|{a:-}|{a:03}") != format!("{x:>width$}|{x:<width$}|{x:*^width$}|{x:.prec$}|{x:#}|{x:+}|{x:-}|{x:03}") {
            return bad(format!("name {i} is displayed as {a}"));
        }
        // what a string slice can do, through Deref
        if a.len() != x.len() || a.to_uppercase() != x.to_uppercase() || a.chars().count() != x.chars().count() {
            return bad(format!("name {i} does not act as its text"));
        }
        for cow in [Cow::Borrowed(*x), Cow::Owned(x.to_string())] {
            let s = SString::new(cow, v[i].1.clone());
            let c = s.clone();
            if s.as_str() != *x || &*s != *x || s.value != *x || s.span() != v[i].1 || c.as_str() != *x || c.span() != v[i].1 {
                return bad(format!("string {i} reads as {:?} at {:?}", s.as_str(), s.span()));
            }
        }
        for (j, (b, y)) in ids.iter().zip(&strs).enumerate() {
            if (a == b) != (x == y) || (a != b) != (x != y) {
                return bad(format!("names {i} and {j} compare as equal: {}", a == b));
            }
            if a.cmp(b) != x.cmp(y) || a.partial_cmp(b) != x.partial_cmp(y) || (a < b) != (x < y) || (a >= b) != (x >= y) {
                return bad(format!("names {i} and {j} compare as {:?}", a.cmp(b)));
            }
        }
        let c = a.clone();
        if c != *a || c.span() != a.span() {
            return bad(format!("name {i} differs from its copy"));
        }
    }
    // as keys of an ordered map, looked up by text
    let mut m = BTreeMap::new();
    let mut model = BTreeMap::new();
    for (i, (a, x)) in ids.iter().zip(&strs).enumerate() {
        m.insert(a.clone(), i);
        model.insert(*x, i);
    }
    if m.len() != model.len() || !m.iter().map(|(k, v)| (k.as_str(), *v)).eq(model.iter().map(|(k, v)| (*k, *v))) {
        return bad(format!("as keys they make {m:?}"));
    }
    for k in strs.iter().copied().chain([probe.as_str()]) {
        if m.get(k) != model.get(k) {
            return bad(format!("{k:?} finds {:?}", m.get(k)));
        }
    }
    Ok(())
}

/// The smallest span around all of them.
fn cover(v: &[Option<Span>]) -> Option<Span> {
    let a = v.iter().flatten().map(|s| s.start).min()?;
    Some(a..v.iter().flatten().map(|s| s.end).max().unwrap())
}
fn p25_spans(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = Gen::new(tape, Opts::plain(Dia::Maria));
    let opt = |g: &mut Gen| if g.p(3, 4) { Some(rand_span(g)) } else { None };
    let (a, b, c) = (rand_span(&mut g), rand_span(&mut g), rand_span(&mut g));
    let (x, y) = (opt(&mut g), opt(&mut g));
    let n = g.c(6);
    let v: Vec<Option<Span>> = (0..n).map(|_| opt(&mut g)).collect();
    rec.case(n > 0 && v.iter().flatten().count() > 0, &(&a, &b, &c, &x, &y, &v), || format!("{a:?} {b:?} {c:?} {x:?} {y:?} {v:?}"));
    rec.extra = 24;
    let bad = |what: &str, got: String| Err(format!("{what} is {got}\na {a:?}, b {b:?}, c {c:?}, x {x:?}, y {y:?}, v {v:?}"));
    let some = |s: &Span| Some(s.clone());
    let full = |l: &[Option<Span>]| cover(l).unwrap();
    let mut v_of = v.clone();
    v_of.extend([some(&a)]);
    macro_rules! must {
        ($($e:expr => $w:expr),* $(,)?) => {$(
            let got = $e;
            if got != $w {
                return bad(stringify!($e), format!("{got:?} instead of {:?}", $w));
            }
        )*};
    }
    let full_v: Vec<Span> = v.iter().flatten().cloned().collect();
    let strs = ["a", "", "x y"];
    must! {
        a.span() => a,
        a.opt_span() => some(&a),
        x.opt_span() => x.clone(),
        Some(Some(a.clone())).opt_span() => some(&a),
        Some(None::<Span>).opt_span() => None::<Span>,
        v.opt_span() => cover(&v),
        v[..].opt_span() => cover(&v),
        full_v.opt_span() => cover(&v),
        vec![v.clone(), vec![x.clone()], vec![]].opt_span() => cover(&[v.opt_span(), x.clone()]),
        a.join_span(&b) => full(&[some(&a), some(&b)]),
        b.join_span(&a) => full(&[some(&a), some(&b)]),
        a.join_span(&b).join_span(&c) => full(&[some(&a), some(&b), some(&c)]),
        a.join_span(&b.join_span(&c)) => full(&[some(&a), some(&b), some(&c)]),
        a.join_span(&x) => full(&[some(&a), x.clone()]),
        a.join_span(&v) => full(&v_of),
        a.join_span(&a) => a,
        x.opt_join_span(&y) => cover(&[x.clone(), y.clone()]),
        y.opt_join_span(&x) => cover(&[x.clone(), y.clone()]),
        x.opt_join_span(&v) => cover(&[cover(&v), x.clone()]),
        v.opt_join_span(&x) => cover(&[cover(&v), x.clone()]),
        a.opt_join_span(&x) => cover(&[some(&a), x.clone()]),
        Box::new(a.clone()).span() => a,
        Box::new(Box::new(a.clone())).opt_span() => some(&a),
        (a.clone(), x.clone()).span() => full(&[some(&a), x.clone()]),
        (a.clone(), b.clone()).span() => full(&[some(&a), some(&b)]),
        (a.clone(), v.clone()).span() => full(&v_of),
        (a.clone(), x.clone(), y.clone()).span() => full(&[some(&a), x.clone(), y.clone()]),
        (a.clone(), b.clone(), c.clone()).span() => full(&[some(&a), some(&b), some(&c)]),
        (a.clone(), v.clone(), x.clone()).span() => full(&[some(&a), cover(&v), x.clone()]),
        (7usize, a.clone()).span() => a,
        (7usize, 9usize, a.clone()).span() => a,
        (7u32, a.clone()).span() => a,
        (7u64, a.clone()).span() => a,
        (7.5f64, a.clone()).span() => a,
        (true, a.clone()).span() => a,
        (strs[n as usize % 3], a.clone()).span() => a,
        (Cow::Borrowed(strs[n as usize % 3]), a.clone()).span() => a,
        ((a.clone(), x.clone()), (b.clone(), y.clone())).span() => full(&[some(&a), some(&b), x.clone(), y.clone()]),
    }
    Ok(())
}

/// What the options make of a set of texts.
fn outcome(o: &ParseOptions, texts: &[String]) -> Result<Vec<String>, String> {
    texts
        .iter()
        .map(|t| {
            subject(|| {
                let mut i = Issues::new(t);
                let s = sql_parse::parse_statements(t, &mut i, o);
                format!("{s:?} {:?}", i.get())
            })
        })
        .collect()
}
fn dialect(i: u32) -> SQLDialect {
    match i {
        0 => SQLDialect::MariaDB,
        1 => SQLDialect::PostgreSQL,
        _ => SQLDialect::Sqlite,
    }
}
fn arguments(i: u32) -> SQLArguments {
    match i {
        0 => SQLArguments::None,
        1 => SQLArguments::Percent,
        2 => SQLArguments::QuestionMark,
        _ => SQLArguments::Dollar,
    }
}
fn set(o: ParseOptions, k: u32, v: u32) -> ParseOptions {
    match k {
        0 => o.dialect(dialect(v % 3)),
        1 => o.arguments(arguments(v % 4)),
        2 => o.warn_unquoted_identifiers(v % 2 == 1),
        3 => o.warn_none_capital_keywords(v % 2 == 1),
        _ => o.list_hack(v % 2 == 1),
    }
}
/// Texts that come out differently under every two settings.
const PROBES: &[&str] = &[
    "SELECT ?",
    "SELECT %s",
    "SELECT $1",
    "SELECT `a`",
    "SELECT \"a\"",
    "select 1",
    "SELECT `a` IN (_LIST_)",
    "DROP INDEX `a` ON `b`",
    "CREATE TABLE \"a\" (b INT)",
];
fn p25_options(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = Gen::new(tape, Opts::plain(Dia::Maria));
    let n = g.c(10);
    let calls: Vec<(u32, u32)> = (0..n).map(|_| (g.c(5), g.c(12))).collect();
    let mut texts: Vec<String> = PROBES.iter().map(|s| format!("{s};")).collect();
    texts.push(anything(&mut g).0);
    let mut last = [0u32; 5];
    for (k, v) in &calls {
        last[*k as usize] = *v;
    }
    rec.case(n > 1, &(&calls, &texts[PROBES.len()]), || format!("calls (option, value) {calls:?} on {:?}", texts[PROBES.len()]));
    rec.extra = 3 * texts.len() as u64;
    let what = || format!("calls in order (0 dialect, 1 arguments, 2 warn_unquoted_identifiers, 3 warn_none_capital_keywords, 4 list_hack; value): {calls:?}");
    let start = if g.p(1, 2) { ParseOptions::default() } else { ParseOptions::new() };
    let a = calls.iter().fold(start, |o, (k, v)| set(o, *k, *v));
    // every option once, in a fixed order, unset ones at their documented defaults
    let b = (0..5).fold(ParseOptions::new(), |o, k| set(o, k, last[k as usize]));
    // the same in the opposite order
    let c = (0..5).rev().fold(ParseOptions::new(), |o, k| set(o, k, last[k as usize]));
    for o in [&a, &a.clone(), &b, &c] {
        let d = o.get_dialect();
        let w = last[0] % 3;
        if (d.is_maria(), d.is_postgresql(), d.is_sqlite()) != (w == 0, w == 1, w == 2) {
            return Err(format!("the dialect reads as {d:?}\n{}", what()));
        }
    }
    let want = outcome(&b, &texts)?;
    for o in [a.clone(), a, c] {
        let got = outcome(&o, &texts)?;
        if let Some(i) = (0..texts.len()).find(|i| got[*i] != want[*i]) {
            return Err(format!(
                "options set to the same values in another order parse {:?} differently:\n{}\ninstead of\n{}\n{}",
                texts[i],
                got[i],
                want[i],
                what()
            ));
        }
    }
    // the settings show in the probes
    let o = b;
    let q = [1, 2, 3].map(|k| (last[1] % 4 == [2, 1, 3][k - 1]) as u32);
    for (i, on) in q.iter().enumerate() {
        let mut iss = Issues::new(PROBES[i]);
        let oo = o.clone().warn_none_capital_keywords(false);
        let ok = sql_parse::parse_statement(PROBES[i], &mut iss, &oo).is_some() && iss.is_ok();
        if ok != (*on == 1) {
            return Err(format!("{:?} is {}accepted\n{}", PROBES[i], if ok { "" } else { "not " }, what()));
        }
    }
    let warned = |s: &str, o: &ParseOptions| {
        let mut iss = Issues::new(s);
        sql_parse::parse_statement(s, &mut iss, o);
        !iss.is_ok()
    };
    for (s, k) in [("SELECT a", 2), ("select 1", 3)] {
        if warned(s, &o) != (last[k] % 2 == 1) {
            return Err(format!("{s:?} gives {} issues\n{}", if warned(s, &o) { "some" } else { "no" }, what()));
        }
    }
    Ok(())
}

// ---- P26 -----------------------------------------------------------------------------
/// The result and the issues that a call adds to `iss`.
fn call<'a>(src: &'a str, iss: &mut Issues<'a>, o: &ParseOptions, script: bool) -> String {
    if script {
        format!("{:?}", sql_parse::parse_statements(src, iss, o))
    } else {
        format!("{:?}", sql_parse::parse_statement(src, iss, o))
    }
}
fn p26_pure(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    let a = match g.c(4) {
        0 => {
            let t = valid_tokens(&mut g);
            text(&t, g.lay.space)
        }
        1 => mixture(&mut g),
        _ => anything(&mut g).0,
    };
    g.budget = 300;
    let other = if g.p(1, 3) { mixture(&mut g) } else { anything(&mut g).0 };
    g.budget = 300;
    let o2 = Opts { dia: g.pick(&crate::faithful::DIAS), args: g.pick(&[Args::None, Args::Percent, Args::Question, Args::Dollar]), wq: g.p(1, 2), wc: g.p(1, 2), list: g.p(1, 2) };
    let pre = g.c(4);
    let ends: Vec<usize> = (0..=a.len()).filter(|i| a.is_char_boundary(*i)).collect();
    rec_(rec, &a, &other, &o);
    for script in [false, true] {
        rec.extra += 5;
        let bad = |m: &str, x: &str, y: &str| {
            Err(format!(
                "{m}:\n{x}\ninstead of\n{y}\nentry point: {}\n{}\nother text: {other:?}",
                if script { "parse_statements" } else { "parse_statement" },
                input(&a, &o)
            ))
        };
        let ro = o.real();
        let mut first = Issues::new(&a);
        let want = subject(|| call(&a, &mut first, &ro, script))?;
        let want_iss = issues(&first);
        // again, with the same options value, after another text with other options
        let mut between = Issues::new(&other);
        subject(|| {
            call(&other, &mut between, &o2.real(), !script);
            call(&other, &mut between, &ro, script)
        })?;
        let mut second = Issues::new(&a);
        let got = subject(|| call(&a, &mut second, &ro, script))?;
        if got != want || issues(&second) != want_iss {
            return bad("parsed a second time it gives", &format!("{got} {second}"), &format!("{want} {first}"));
        }
        // into issues that hold some already
        let mut used = Issues::new(&a);
        for k in 0..pre {
            let (x, y) = (g.pick(&ends), g.pick(&ends));
            let s = x.min(y)..x.max(y);
            if k % 2 == 0 {
                used.err("before", &s).frag("part", &s);
            } else {
                used.warn("before", &s);
            }
        }
        let before = issues(&used);
        let got = subject(|| call(&a, &mut used, &ro, script))?;
        let after = issues(&used);
        if got != want || after.len() < before.len() || after[..before.len()] != before[..] || after[before.len()..] != want_iss[..] {
            return bad(&format!("with {pre} issues already there it gives"), &format!("{got} {used}"), &format!("{want} {first}"));
        }
        // the two calls on one list of issues
        let mut twice = Issues::new(&a);
        let x = subject(|| call(&a, &mut twice, &ro, script))?;
        let y = subject(|| call(&a, &mut twice, &ro, script))?;
        let w: Vec<Iss> = want_iss.iter().chain(&want_iss).cloned().collect();
        if x != want || y != want || issues(&twice) != w {
            return bad("parsed twice into one list of issues it gives", &format!("{x} {y} {twice}"), &format!("{want} {first} twice"));
        }
        // from another place in memory, a part of a larger text
        let big = format!("é'`{a}`'/*");
        let part = &big[4..4 + a.len()];
        let mut third = Issues::new(part);
        let got = subject(|| call(part, &mut third, &ro, script))?;
        if got != want || issues(&third) != want_iss {
            return bad("as a part of a larger text it gives", &format!("{got} {third}"), &format!("{want} {first}"));
        }
    }
    Ok(())
}
/// Some texts in a row with delimiters, DELIMITER commands and inline data between them.
fn mixture(g: &mut Gen) -> String {
    const SEP: &[&str] = &[
        "; ", ";\n", " $$ ", "\nDELIMITER $$\n", "\nDELIMITER ;\n", "; DELIMITER : ", "\ndelimiter x\n", ";\nCOPY a (b) FROM STDIN;\n1\n\\.\n",
        " ? ", "; SELECT ?; ", "; SELECT $2; ", "; select a; ", " (", "; BEGIN ", " END; ",
    ];
    let mut s = String::new();
    let n = 1 + g.c(4);
    for k in 0..n {
        g.budget = 60;
        let piece = if g.p(1, 2) {
            let t = valid_tokens(g);
            text(&t, g.lay.space)
        } else {
            anything(g).0
        };
        s.push_str(&piece);
        if k + 1 < n || g.p(2, 3) {
            s.push_str(g.pick(SEP));
        }
    }
    s
}
fn opts_str(o: &Opts) -> String {
    let d = crate::faithful::DIAS.iter().position(|d| *d == o.dia).unwrap();
    let a = ARGS.iter().position(|a| *a == o.args).unwrap();
    format!("{d} {a} {} {} {}", o.wq as u8, o.wc as u8, o.list as u8)
}
const ARGS: [Args; 4] = [Args::None, Args::Percent, Args::Question, Args::Dollar];
/// The process of one call: options, entry point and text from standard input, result to
/// standard output.
pub fn fresh_call() -> i32 {
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    let (head, src) = s.split_once('\n').unwrap();
    let v: Vec<usize> = head.split(' ').map(|x| x.parse().unwrap()).collect();
    let o = Opts { dia: crate::faithful::DIAS[v[0]], args: ARGS[v[1]], wq: v[2] == 1, wc: v[3] == 1, list: v[4] == 1 };
    let src = src.to_string();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut iss = Issues::new(&src);
            let r = call(&src, &mut iss, &o.real(), v[5] == 1);
            print!("{r} {iss}");
        })
        .unwrap()
        .join()
        .map_or(2, |_| 0)
}
/// The same call in this process, after others, and in a process that does nothing else.
fn p26_fresh(rec: &mut Rec, tape: &[u32]) -> Res {
    use std::io::Write;
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    let a = mixture(&mut g);
    let other = mixture(&mut g);
    let o2 = Opts { dia: g.pick(&crate::faithful::DIAS), args: g.pick(&ARGS), wq: g.p(1, 2), wc: g.p(1, 2), list: g.p(1, 2) };
    let script = !g.p(1, 8);
    rec.case(a.trim().len() >= 4, &(&a, &other, o.show()), || format!("{:?} {:?}: {a}", o.dia, o.args));
    rec.extra += 4;
    let ro = o.real();
    let here = subject(|| {
        let mut i = Issues::new(&other);
        call(&other, &mut i, &o2.real(), script);
        call(&other, &mut i, &ro, true);
        let mut i = Issues::new(&a);
        call(&a, &mut i, &ro, script);
        let mut i = Issues::new(&a);
        let r = call(&a, &mut i, &ro, script);
        format!("{r} {i}")
    })?;
    let exe = std::env::current_exe().unwrap();
    for attempt in 0.. {
        let ch = std::process::Command::new(&exe)
            .arg("fresh")
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .spawn();
        let out = ch.and_then(|mut ch| {
            ch.stdin.take().unwrap().write_all(format!("{} {}\n{a}", opts_str(&o), script as u8).as_bytes())?;
            ch.wait_with_output()
        });
        match out {
            Ok(out) if out.status.code() == Some(0) => {
                let there = String::from_utf8_lossy(&out.stdout).to_string();
                if there != here {
                    return Err(format!(
                        "in a process of its own it gives\n{there}\ninstead of, after other calls,\n{here}\nentry point: {}\n{}\nother text: {other:?}",
                        if script { "parse_statements" } else { "parse_statement" },
                        input(&a, &o)
                    ));
                }
                break;
            }
            // no process could be made: an error of the machine, not of the parser
            _ if attempt < 3 => std::thread::sleep(std::time::Duration::from_millis(200)),
            _ => break,
        }
    }
    Ok(())
}
fn rec_(rec: &mut Rec, a: &str, other: &str, o: &Opts) {
    rec.case(a.trim().len() >= 4, &(a, other, o.show()), || format!("{:?} {:?}: {a}", o.dia, o.args));
}
/// Eight threads parsing the same texts at once.
const AGAIN: &[(&str, Args)] = &[
    ("SELECT ?, a FROM b WHERE c = ?", Args::Question),
    ("SELECT %s; UPDATE a SET b = %s WHERE c IN (_LIST_); SELECT ?", Args::Percent),
    ("SELECT $2; select $1; SELECT $0", Args::Dollar),
    ("DELIMITER $$\nCREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW BEGIN SET c = 'x''y'; SET d = 1.5; END $$ SELECT 1 $$", Args::None),
    ("CREATE TABLE a (b INT, c VARCHAR(10) DEFAULT 'x'); ALTER TABLE a ADD INDEX (b); DROP TABLE a", Args::None),
    ("SELECT ( FROM a; INSERT INTO a VALUES (1; SELECT 2", Args::Question),
    ("COPY a (b) FROM STDIN;\n1\n\\.\nSELECT 1; select `a` FROM b", Args::None),
    ("IF a THEN SET b = ?; END IF; DO $$ BEGIN RETURN ?; END $$", Args::Question),
];
fn p26_again_count() -> usize {
    AGAIN.len() * 6
}
/// The same text very many times in a row.
fn p26_again(rec: &mut Rec, tape: &[u32]) -> Res {
    let i = tape.first().copied().unwrap_or(0) as usize % p26_again_count();
    let (a, args) = AGAIN[i / 6];
    let o = Opts { dia: crate::faithful::DIAS[i % 3], args, wq: true, wc: true, list: true };
    let script = i / 3 % 2 == 0;
    let ro = o.real();
    rec.case(true, &i, || format!("{:?} {:?}: {a}", o.dia, o.args));
    let again = || {
        let mut i = Issues::new(a);
        let r = call(a, &mut i, &ro, script);
        format!("{r} {i:?}")
    };
    let bad = subject(|| {
        let want = again();
        (1..70_000).find_map(|n| {
            let r = again();
            (r != want).then(|| format!("the result is not the same when the text is parsed for time {}:\n{r}\ninstead of\n{want}", n + 1))
        })
    })?;
    rec.extra += 70_000;
    match bad {
        Some(m) => Err(format!("{m}\n{}", input(a, &o))),
        None => Ok(()),
    }
}
fn p26_threads(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    let texts: Vec<String> = (0..8)
        .map(|_| {
            g.budget = 200;
            if g.p(1, 3) {
                mixture(&mut g)
            } else {
                anything(&mut g).0
            }
        })
        .collect();
    rec.case(texts.iter().any(|t| t.len() > 10), &(&texts, o.show()), || format!("{:?} {:?}: {texts:?}", o.dia, o.args));
    rec.extra = 32;
    let ro = o.real();
    let run = |t: &str| {
        let mut i = Issues::new(t);
        let s = call(t, &mut i, &ro, true);
        format!("{s} {i}")
    };
    let want: Vec<String> = subject(|| texts.iter().map(|t| run(t)).collect())?;
    let got: Vec<Vec<String>> = std::thread::scope(|s| {
        let h: Vec<_> = (0..3)
            .map(|k| {
                let (texts, run) = (&texts, &run);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                    (0..texts.len()).map(|i| subject(|| run(&texts[(i + k) % texts.len()]))).collect::<Result<Vec<_>, _>>()
                }).unwrap()
            })
            .collect();
        h.into_iter().map(|h| h.join().unwrap()).collect::<Result<Vec<_>, _>>()
    })?;
    for (k, v) in got.iter().enumerate() {
        for (i, s) in v.iter().enumerate() {
            let j = (i + k) % texts.len();
            if *s != want[j] {
                return Err(format!("in a thread beside others it gives\n{s}\ninstead of\n{}\n{}", want[j], input(&texts[j], &o)));
            }
        }
    }
    Ok(())
}

// ---- P27 -----------------------------------------------------------------------------
/// A statement of the dialect with its text in some layout, if it is free of errors.
fn clean(g: &mut Gen, o: &Opts, script: bool) -> Result<Option<Vec<Tok>>, String> {
    let mut t = Vec::new();
    if script {
        for _ in 0..g.c(3) {
            g.budget = 30;
            t.extend(valid_tokens(g));
            t.push(tok_of(";"));
        }
    }
    g.budget = 80;
    t.extend(valid_tokens(g));
    g.budget = 300;
    if script {
        t.push(tok_of(";"));
    }
    Ok((!crate::meta::unrecorded(&t) && parse(&text(&t, 0), o, script)?.errors() == 0).then_some(t))
}
fn p27_place(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    let script = g.p(1, 3);
    let Some(t) = clean(&mut g, &o, script)? else {
        return Ok(());
    };
    rec_text(rec, &text(&t, 0), &o, t.len() > 3);
    for k in 0..12 {
        let i = g.c(t.len() as u32 + 1) as usize;
        let long;
        let c = match k % 3 {
            0 if g.p(1, 8) => {
                // a token without an end, of any length
                let (q, x) = (g.pick(&["'", "`", "\"", "/*"]), g.pick(&["b", "é", "ab c", "7", "\n", "日"]));
                let n = [3, 20, 300, 5_000, 70_000][g.c(5) as usize];
                long = format!("{q}{}", x.repeat(n / x.len()));
                if q == "\"" && o.dia != Dia::Pg { "\\" } else { &long }
            }
            0 => g.pick(&["\\", "{", "}", "[", "]", "^", "é", "日本", "\u{1F600}"]),
            // the statement cut short and ended there
            1 if script => ";",
            _ => "",
        };
        let space = if g.p(1, 2) { 0 } else { 1 + g.c(1000) };
        let before = text(&t[..i], space);
        let gap = if i == 0 { "" } else { g.pick(&[" ", "\n", " /* x */ ", "\t-- y\n"]) };
        let at = before.len() + gap.len();
        let s = match c {
            "" => format!("{before}{gap}"),
            _ if c.len() > 1 && c.is_ascii() || c.starts_with(['\'', '`', '"', '/']) => format!("{before}{gap}{c}"),
            _ => format!("{before}{gap}{c} {}", text(&t[i..], 0)),
        };
        let p = parse(&s, &o, script)?;
        let Some(e) = p.first_error() else {
            if c.is_empty() || c == ";" {
                continue;
            }
            return Err(format!("no error is reported for {c:?} at {at}\n{}\n{}", input(&s, &o), p.show()));
        };
        rec.extra += 1;
        // at the token, or anywhere between the last one and the end of the text
        let first = before.len()..=at + c.len();
        let mut ok = first.contains(&e.sp.0) && first.contains(&e.sp.1) && (c.is_empty() || (e.sp.0 == at && e.sp.1 > at));
        if c == ";" && e.sp.0 > at {
            // what is left stands alone, or (in a block) the delimiter ends a part of it
            let head = t[..i].iter().rposition(|t| t.text == ";").map_or(0, |n| n + 1);
            let part = &t[head..i];
            ok = part.is_empty()
                || t[..i].iter().any(|t| ["THEN", "BEGIN", "ELSE", "DO"].iter().any(|w| t.text.eq_ignore_ascii_case(w)))
                || parse(&text(part, 0), &o, false)?.errors() == 0;
        }
        // a word that only what follows can justify
        if !ok && e.sp.1 == before.len() && i > 0 {
            let word = t[i - 1].text.chars().all(|c| c.is_alphanumeric() || c == '_');
            let drop = t[..i].iter().rev().take_while(|t| t.text != ";").any(|t| t.text.eq_ignore_ascii_case("DROP"));
            ok = (word && e.sp.0 == before.len() - t[i - 1].text.len()) || drop;
        }
        if !ok {
            return Err(format!(
                "the first error is {:?} at {}..{} where the text goes wrong at {at}\n{}\n{}",
                e.msg,
                e.sp.0,
                e.sp.1,
                input(&s, &o),
                p.show()
            ));
        }
    }
    Ok(())
}
/// The first error depends on nothing behind it.
fn p27_prefix(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    let script = g.p(1, 3);
    let Some(mut t) = clean(&mut g, &o, script)? else {
        return Ok(());
    };
    // one token of it replaced, left out, doubled or preceded
    let keep = t.len();
    for _ in 0..1 + g.c(2) {
        mutate(&mut g, &mut t, 1);
    }
    t.extend([tok_of("a"), tok_of("b"), tok_of("c")]);
    let s = text(&t, 0);
    let p = parse(&s, &o, script)?;
    let Some(e) = p.first_error() else { return Ok(()) };
    let n = (0..t.len()).find(|n| text(&t[..*n], 0).len() >= e.sp.1).unwrap_or(t.len()) + 1;
    if n > t.len() {
        return Ok(());
    }
    rec_text(rec, &s, &o, keep > 3);
    for _ in 0..4 {
        let mut v = t[..n].to_vec();
        g.budget = 80;
        if g.p(1, 2) {
            v.extend(soup(&mut g, 12));
        } else {
            v.extend(valid_tokens(&mut g));
        }
        let s2 = text(&v, 0);
        let q = parse(&s2, &o, script)?;
        rec.extra += 1;
        let f = q.first_error();
        if f != Some(e) {
            return Err(format!(
                "the first error is {:?} at {}..{} in\n{s}\nbut, with another text after the token behind it, {}\n{}\n{}",
                e.msg,
                e.sp.0,
                e.sp.1,
                f.map_or("none".to_string(), |f| format!("{:?} at {}..{}", f.msg, f.sp.0, f.sp.1)),
                input(&s2, &o),
                q.show()
            ));
        }
    }
    Ok(())
}
fn rec_text(rec: &mut Rec, src: &str, o: &Opts, nontrivial: bool) {
    rec.case(nontrivial, &(src, o.show()), || format!("{:?} {:?}: {}", o.dia, o.args, src));
}

pub fn props() -> Vec<Prop> {
    let t = |name, len, quick, f| Sub { name, how: How::Tape(len), quick, times: 25, f };
    vec![
        Prop {
            id: "P25",
            rule: "names: lists of identifiers and strings with random texts (equal ones, quotes, multi-byte, words) and spans, every pair compared, displayed with widths and precisions, used as map keys looked up by text, against plain string slices. spans: random spans joined directly and through options, boxes, lists and every tuple form, against the smallest enclosing range. options: random sequences of up to nine builder calls against every option set once to its last value, judged by what they make of nine probe texts and a random one, and by direct probes. Non-trivial: more than one name, a non-empty list, more than one call.",
            subs: vec![t("names", 60, 200_000, p25_names), t("spans", 40, 200_000, p25_spans), t("options", 200, 40_000, p25_options)],
        },
        Prop {
            id: "P26",
            rule: "pure: valid, malformed and random texts through both entry points; parsed again after another text with other options, into a list that holds issues already, twice into one list, and from inside a larger text, each result and its issues must be those of the first call. threads: eight texts parsed by three threads at once against one after the other. fresh: texts in a row with delimiters, DELIMITER commands and inline data between them, parsed after others and in a process that does nothing else. again: eight texts parsed 70000 times in a row in every dialect through both entry points. Non-trivial: four characters or more (pure), a text above ten characters (threads).",
            subs: vec![t("pure", 400, 100_000, p26_pure), t("threads", 500, 4_000, p26_threads), t("fresh", 400, 3_000, p26_fresh), Sub { name: "again", how: How::Each(p26_again_count), quick: 0, times: 1, f: p26_again }],
        },
        Prop {
            id: "P27",
            rule: "place: a statement or script without errors, a token that can stand nowhere put at eight places or the text cut there, in random layout; the first error must be at that token (or between the last token and the end of the text), or at the word before it where only what follows could justify that word. prefix: a statement or script without errors, one or two tokens of it replaced, left out, doubled or inserted; everything after the token behind the first error is replaced by other tokens or another statement, and the first error must stay the same. far: the repetitions of P04 (lists, bodies, chains, nesting), a fault or the end of the text put at every token boundary behind n of them; the first error must lie equally far behind them for every n up to 1030. Non-trivial: more than three tokens (far: every one that is free of errors without the fault).",
            subs: vec![
                t("place", 300, 60_000, p27_place),
                t("prefix", 400, 80_000, p27_prefix),
                Sub { name: "far", how: How::Each(crate::counts::p27_far_count), quick: 0, times: 1, f: crate::counts::p27_far },
            ],
        },
    ]
}
