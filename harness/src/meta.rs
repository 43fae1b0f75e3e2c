//! Checks over arbitrary and malformed input: P01-P04, and spans: P16.

use crate::faithful::DIAS;
use crate::gen::*;
use crate::mutate::*;
use crate::parse::*;
use crate::run::*;
use crate::tree::*;
use crate::words::KEYWORDS;
use sql_parse::{Issues, Spanned};

// ---- P01 -----------------------------------------------------------------------------
/// Everything a caller can do with a result, without looking at it.
fn exercise(src: &str, o: &Opts) -> Res {
    for script in [false, true] {
        subject(|| {
            let mut iss = Issues::new(src);
            let ro = o.real();
            let v = if script {
                sql_parse::parse_statements(src, &mut iss, &ro)
            } else {
                sql_parse::parse_statement(src, &mut iss, &ro).into_iter().collect()
            };
            let mut n = format!("{iss}").len() + format!("{iss:?}").len();
            for s in &v {
                n += s.span().len();
                n += format!("{s:?}").len();
            }
            n
        })
        .map_err(|m| format!("{m}\nentry point: {}\n{}", if script { "parse_statements" } else { "parse_statement" }, input(src, o)))?;
    }
    Ok(())
}
fn rec_text(rec: &mut Rec, src: &str, o: &Opts, nontrivial: bool) {
    rec.case(nontrivial, &(src, o.show()), || format!("{:?} {:?}: {}", o.dia, o.args, src));
}
fn p01_any(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    let (s, l) = anything(&mut g);
    rec.labels.insert(l);
    rec.extra = 1;
    rec_text(rec, &s, &o, s.trim().len() >= 4);
    exercise(&s, &o)
}
/// Scripts that change the delimiter, to anything, around damaged statements.
fn p01_delimited(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    let s = delimited(&mut g);
    rec.extra = 1;
    rec_text(rec, &s, &o, s.len() > 20);
    exercise(&s, &o)
}
fn p01_prefixes(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    g.budget = 60;
    let t = valid_tokens(&mut g);
    let s = text(&t, g.lay.space);
    rec_text(rec, &s, &o, t.len() > 3);
    for p in prefixes(&s) {
        rec.extra += 2;
        exercise(p, &o)?;
    }
    Ok(())
}
/// Statements with long words, names, strings, numbers, comments or gaps in them.
fn p01_long(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    let s = inflated(&mut g);
    rec.extra = 1;
    rec_long(rec, &s, &o);
    exercise(&s, &o)
}
fn rec_long(rec: &mut Rec, s: &str, o: &Opts) {
    rec.case(s.len() > 300, &(s, o.show()), || clip_to(s, o, 200));
}
/// Every token of a valid statement left out, doubled, or replaced by one word.
fn p01_edits(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    g.budget = 40;
    let t = valid_tokens(&mut g);
    g.budget = 100;
    let w = tok_of(&soup_word(&mut g));
    rec_text(rec, &format!("{} / {}", text(&t, 0), w.text), &o, t.len() > 3);
    for i in 0..t.len() {
        for how in 0..4 {
            let mut v = t.clone();
            match how {
                0 => drop(v.remove(i)),
                1 => v.insert(i, t[i].clone()),
                2 => v[i] = w.clone(),
                _ => v.insert(i, w.clone()),
            }
            rec.extra += 2;
            exercise(&text(&v, 0), &o)?;
        }
    }
    Ok(())
}
/// Pairs of words at the start of a statement and after each statement keyword.
fn p01_pairs_count() -> usize {
    KEYWORDS.len() * STARTS.len()
}
const STARTS: &[&str] = &[
    "", "SELECT", "SELECT a FROM b", "SELECT a FROM b WHERE c", "CREATE", "CREATE TABLE a (b", "CREATE TABLE a (b INT",
    "CREATE TABLE a (b INT)", "CREATE OR REPLACE", "CREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW", "CREATE FUNCTION a()",
    "CREATE FUNCTION a() RETURNS INT", "ALTER", "ALTER TABLE a", "ALTER TABLE a ADD", "ALTER TABLE a ALTER COLUMN b",
    "ALTER TABLE a ADD FOREIGN KEY (a) REFERENCES b (c)", "DROP", "DROP TABLE a", "INSERT", "INSERT INTO a",
    "INSERT INTO a VALUES (1)", "INSERT INTO a SELECT 1 ON", "UPDATE a", "UPDATE a SET b=1", "DELETE", "DELETE FROM a", "WITH a AS (",
    "SELECT 1 UNION", "SELECT a FROM b LEFT", "SELECT a FROM b JOIN c", "SELECT CASE", "SELECT a OVER (", "SELECT COUNT(*) OVER (",
    "SELECT CAST(a AS", "SELECT INTERVAL 1", "SELECT EXTRACT(", "SELECT GROUP_CONCAT(a", "SELECT a IS", "SELECT a NOT",
    "SELECT f(a", "SELECT (", "BEGIN", "START", "IF a THEN", "IF a THEN SET a=1;", "CASE WHEN a THEN SET a=1;", "CASE", "DO $$ BEGIN",
    "DELIMITER", "COPY", "COPY a (b) FROM", "SET", "SET a=1", "SIGNAL", "SIGNAL SQLSTATE '1' SET", "RETURN", "TRUNCATE", "RENAME",
    "RENAME TABLE a TO", "SELECT a FROM b ORDER BY c", "SELECT a FROM b FOR", "SELECT a FROM b USE INDEX", "CREATE INDEX a ON b (c",
    "SELECT a FROM b LIMIT 1", "SELECT $1::", "SELECT @@session.", "REPLACE", "SELECT a LIKE", "SELECT a IN (", "SELECT TIMESTAMPADD(",
];
fn p01_pairs(rec: &mut Rec, tape: &[u32]) -> Res {
    let i = tape.first().copied().unwrap_or(0) as usize % p01_pairs_count();
    let (k, s) = (KEYWORDS[i / STARTS.len()], STARTS[i % STARTS.len()]);
    let src = format!("{s} {k}");
    rec_text(rec, &src, &Opts::plain(Dia::Maria), true);
    for (j, dia) in DIAS.into_iter().enumerate() {
        let mut o = Opts::plain(dia);
        o.args = crate::faithful::STYLES[(i + j) % 4];
        o.wc = i % 2 == 0;
        o.wq = i % 2 == 1;
        o.list = j == 0;
        rec.extra += 4;
        exercise(&src, &o)?;
        exercise(&format!("{src} (a, 'b') ; x"), &o)?;
    }
    Ok(())
}

// ---- P02 -----------------------------------------------------------------------------
/// What one parse costs: CPU seconds, bytes allocated, issues, statements.
fn cost(src: &str, o: &Opts, script: bool) -> Result<(f64, u64, usize, usize), String> {
    subject(|| {
        let mut iss = Issues::new(src);
        let ro = o.real();
        let a0 = crate::alloc_bytes();
        let t0 = cpu_now();
        let v = if script {
            sql_parse::parse_statements(src, &mut iss, &ro)
        } else {
            sql_parse::parse_statement(src, &mut iss, &ro).into_iter().collect()
        };
        let t = cpu_now() - t0;
        (t, crate::alloc_bytes() - a0, iss.get().len(), v.len())
    })
    .map_err(|m| format!("{m}\n{}", clip(src, o)))
}
fn clip(src: &str, o: &Opts) -> String {
    clip_to(src, o, 3000)
}
pub fn clip_to(src: &str, o: &Opts, max: usize) -> String {
    if src.len() < max {
        return input(src, o);
    }
    let mut e = max / 2;
    while !src.is_char_boundary(e) {
        e += 1;
    }
    format!("{} (first {e} of {} bytes)", input(&src[..e], o), src.len())
}
/// Allowance per byte of input, and for any input.
const BYTES_PER: u64 = 8_000;
const CPU_PER: f64 = 5e-6;
fn within(src: &str, o: &Opts, script: bool) -> Res {
    let n = src.len();
    let mut c = cost(src, o, script)?;
    let lim_t = 0.5 + CPU_PER * n as f64;
    if c.0 > lim_t {
        // the machine may be busy: the best of three counts
        for _ in 0..2 {
            let d = cost(src, o, script)?;
            c.0 = c.0.min(d.0);
        }
    }
    let entry = if script { "parse_statements" } else { "parse_statement" };
    if c.0 > lim_t {
        return Err(format!("{entry} took {:.2} s of CPU time for {n} bytes (limit {lim_t:.2} s)\n{}", c.0, clip(src, o)));
    }
    let lim_b = 200_000 + BYTES_PER * n as u64;
    if c.1 > lim_b {
        return Err(format!("{entry} allocated {} bytes for {n} bytes of input (limit {lim_b})\n{}", c.1, clip(src, o)));
    }
    if c.2 > 2 * n + 4 {
        return Err(format!("{entry} reported {} issues for {n} bytes of input\n{}", c.2, clip(src, o)));
    }
    if c.3 > n + 1 {
        return Err(format!("{entry} returned {} statements for {n} bytes of input\n{}", c.3, clip(src, o)));
    }
    Ok(())
}
fn p02_small(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    let (s, l) = anything(&mut g);
    rec.labels.insert(l);
    rec.extra = 1;
    rec_text(rec, &s, &o, s.trim().len() >= 4);
    within(&s, &o, false)?;
    within(&s, &o, true)
}
/// A few tokens repeated up to tens of kilobytes, between a prefix and a suffix.
fn p02_repeat(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    let valid = g.p(1, 2);
    let mut pre = String::new();
    let mut suf = String::new();
    let unit = if valid {
        let mut t = valid_tokens(&mut g);
        g.budget = 300;
        let n = t.len() as u32;
        let i = g.c(n) as usize;
        let j = (i + 1 + g.c(12) as usize).min(t.len());
        pre = text(&t[..i], 0);
        suf = text(&t[j..], 0);
        t.drain(..i);
        t.truncate(j - i);
        t
    } else {
        if g.p(2, 3) {
            pre = g.pick(STARTS).to_string();
        }
        soup(&mut g, 6)
    };
    let sep = if g.p(3, 4) { " " } else { "" };
    let unit = format!("{}{sep}", text(&unit, 0));
    let size = [2_000, 10_000, 40_000, 120_000][g.c(4) as usize];
    // brackets in the unit may nest: stay within a depth every stack can hold
    let opens = unit.matches(|c: char| "([{!-~".contains(c)).count() + nesting_words(&unit);
    let mut k = size / unit.len().max(1);
    if opens > 0 {
        k = k.min(700 / opens.max(1)).max(1);
        rec.labels.insert("nesting unit");
    }
    let s = format!("{pre} {}{suf}", unit.repeat(k));
    rec.extra = 1;
    rec.case(k > 20, &(&pre, &unit, k, o.show()), || format!("{:?}: {pre} ({unit}) x {k} {suf}", o.dia));
    within(&s, &o, false)?;
    within(&s, &o, true)
}
fn nesting_words(u: &str) -> usize {
    u.split(|c: char| !c.is_ascii_alphanumeric() && c != '_')
        .filter(|w| {
            ["IF", "CASE", "BEGIN", "NOT", "SELECT", "DO", "EXISTS", "INTERVAL", "BINARY", "TRIGGER", "THEN", "ELSE", "WHEN", "ELSEIF",
             "COLLATE", "JOIN", "UNION", "WITH", "AS", "XOR", "OR", "AND"]
                .iter()
                .any(|k| k.eq_ignore_ascii_case(w))
        })
        .count()
}
/// Inputs large in one respect, at sizes where anything quadratic shows.
pub const BIG: &[(&str, &str, &str, &str)] = &[
    // name, prefix, unit, suffix
    ("white space", "SELECT", " \n", "1"),
    ("comments", "SELECT 1", "/* x */", ""),
    ("line comments", "SELECT 1", "-- x\n", ""),
    ("one comment", "SELECT 1 /*", "* ", "*/"),
    ("unterminated comment", "SELECT 1 /*", "* /", ""),
    ("one string", "SELECT '", "ab''\\'", "'"),
    ("unterminated string", "SELECT '", "ab''", ""),
    ("adjacent strings", "SELECT", " 'a'", ""),
    ("quoted name", "SELECT `", "ab ", "`"),
    ("unterminated name", "SELECT `", "ab ", ""),
    ("one word", "SELECT ", "a", ""),
    ("one number", "SELECT ", "7", ""),
    ("one decimal", "SELECT 1.", "7", ""),
    ("dollar digits", "SELECT $1", "7", ""),
    ("select list", "SELECT 1", ", a", ""),
    ("select list with aliases", "SELECT 1", ", a AS b", " FROM t"),
    ("left-associative chain", "SELECT 1", " || a", ""),
    ("function arguments", "SELECT f(1", ", a", ")"),
    ("IN list", "SELECT a IN (1", ", 2", ")"),
    ("values rows", "INSERT INTO t (a) VALUES (1)", ", (1)", ""),
    ("values in a row", "INSERT INTO t (a) VALUES (1", ", 1", ")"),
    ("columns", "CREATE TABLE t (a INT", ", b INT NOT NULL", ")"),
    ("column properties", "CREATE TABLE t (a INT", " NOT NULL", ")"),
    ("enum values", "CREATE TABLE t (a ENUM('a'", ", 'b'", "))"),
    ("table options", "CREATE TABLE t (a INT)", " COMMENT 'x'", ""),
    ("alterations", "ALTER TABLE t DROP COLUMN a", ", DROP COLUMN b", ""),
    ("index columns", "CREATE INDEX i ON t (a", ", b", ")"),
    ("dropped tables", "DROP TABLE a", ", b", ""),
    ("renamed tables", "RENAME TABLE a TO b", ", a TO b", ""),
    ("assignments", "UPDATE t SET a = 1", ", a = 1", ""),
    ("joins", "SELECT a FROM b", " JOIN c ON 1", ""),
    ("comma joins", "SELECT a FROM b", ", c", ""),
    ("unions", "SELECT 1", " UNION SELECT 1", ""),
    ("order by", "SELECT a FROM b ORDER BY a", ", b DESC", ""),
    ("group by", "SELECT a FROM b GROUP BY a", ", b", ""),
    ("qualified name", "SELECT a", ".b", ""),
    ("qualified table", "SELECT a FROM a", ".b", ""),
    ("when branches", "SELECT CASE", " WHEN 1 THEN 2", " END"),
    ("elseif branches", "IF a THEN SET a=1;", " ELSEIF a THEN SET a=1;", " END IF"),
    ("block statements", "CREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW BEGIN", " SET a=1;", " END"),
    ("statements", "SELECT 1", "; SELECT 1", ";"),
    ("empty statements", "", ";", ""),
    ("delimiter commands", "", "DELIMITER $$\nDELIMITER ;\n", ""),
    ("bad statements", "", "SELECT FROM;", ""),
    ("bad tokens", "SELECT 1;", " \\", ""),
    ("bad characters", "", "é", ""),
    ("bad punctuation", "SELECT", " ,", ""),
    ("bad select items", "SELECT a", ", ]", ""),
    ("bad call arguments", "SELECT f(a", ", ,", ")"),
    ("bad rows", "INSERT INTO t VALUES (1)", ", (]", ""),
    ("bad columns", "CREATE TABLE t (a INT", ", b ]", ")"),
    ("bad alterations", "ALTER TABLE t ADD", ", ADD ]", ""),
    ("bad operands", "SELECT 1", " + ]", ""),
    ("closing brackets", "SELECT 1", ")", ""),
    ("closing braces", "SELECT 1", " ]})", ""),
    ("bad block statements", "CREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW BEGIN", " SET ];", " END"),
    ("copy data", "COPY a (b) FROM STDIN;\n", "x\t\\.\n\\\n\\.x\n", "\\.\n"),
    ("copies", "", "COPY a (b) FROM STDIN;\nx\n\\.\n", ""),
    ("placeholders", "SELECT ?", ", ?", ""),
    ("keyword soup", "", "SELECT INSERT FROM WHERE ", ""),
    ("word soup", "", "a ", ""),
    ("index hints", "SELECT a FROM b", " USE INDEX (c)", ""),
    ("options", "CREATE", " OR REPLACE", " VIEW a AS SELECT 1"),
    ("function parameters", "CREATE FUNCTION f(a INT", ", b INT", ") RETURNS INT RETURN 1"),
    ("WITH blocks", "WITH a AS (SELECT 1)", ", b AS (SELECT 1)", " SELECT 1"),
    ("signal information", "SIGNAL SQLSTATE '1' SET MESSAGE_TEXT='a'", ", MESSAGE_TEXT='b'", ""),
];
fn p02_big_count() -> usize {
    big_rows() * 3
}
fn big_rows() -> usize {
    BIG.len() + crate::counts::more()
}
fn big_row(i: usize) -> (&'static str, &'static str, &'static str, &'static str) {
    if i < BIG.len() {
        BIG[i]
    } else {
        crate::counts::more_row(i - BIG.len())
    }
}
fn p02_big(rec: &mut Rec, tape: &[u32]) -> Res {
    let i = tape.first().copied().unwrap_or(0) as usize % p02_big_count();
    let (name, pre, unit, suf) = big_row(i / 3);
    let mut o = Opts::plain(DIAS[i % 3]);
    o.args = Args::Question;
    o.wc = true;
    o.wq = true;
    let mut last = 0.0;
    for size in [20_000usize, 400_000] {
        let s = format!("{pre}{}{suf}", unit.repeat(size / unit.len()));
        rec.extra += 2;
        for script in [false, true] {
            within(&s, &o, script)?;
            // both settings of the lints
            within(&s, &Opts::plain(o.dia), script)?;
        }
        last = size as f64;
    }
    rec.case(true, &i, || format!("{:?} {name}: {pre}({unit}){suf} up to {last} bytes", o.dia));
    Ok(())
}
/// Where skipping over unknown text starts, with brackets it opens and closes.
const SKIPPED: [&str; 12] = [
    "SELECT 1 + ] ",
    "SELECT f(a ] ",
    "SELECT a IN (b ] ",
    "SELECT CAST(a ] ",
    "INSERT INTO a VALUES (b ] ",
    "INSERT INTO a (b ] ",
    "CREATE TABLE a (b ] ",
    "CREATE TABLE a (b ENUM('c' ] ",
    "ALTER TABLE a ADD ] ",
    "CREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW BEGIN ] ",
    "GRANT ",
    "IF a THEN ] ",
];
const OPENED: [&str; 5] = ["(", "[", "{", "([{", "({"];
const CLOSED: [&str; 6] = [")", "]", "}", "}])", ")]}", ")("];
fn p02_brackets_count() -> usize {
    SKIPPED.len() * OPENED.len() * CLOSED.len()
}
/// The same number of opening brackets and other closing ones.
fn p02_brackets(rec: &mut Rec, tape: &[u32]) -> Res {
    let i = tape.first().copied().unwrap_or(0) as usize % p02_brackets_count();
    let (pre, rest) = (SKIPPED[i % SKIPPED.len()], i / SKIPPED.len());
    let (open, close) = (OPENED[rest % OPENED.len()], CLOSED[rest / OPENED.len()]);
    let o = Opts::plain(DIAS[i % 3]);
    for size in [10_000usize, 300_000] {
        rec.extra += 1;
        for s in [
            format!("{pre}{}{}", open.repeat(size / 2 / open.len()), close.repeat(size / 2 / close.len())),
            format!("{pre}{}{}; SELECT 1", open.repeat(size / 4 / open.len()), close.repeat(size / 2 / close.len())),
        ] {
            within(&s, &o, true)?;
        }
    }
    rec.case(true, &i, || format!("{:?} {pre}({open})({close}) up to 300000 bytes", o.dia));
    Ok(())
}
/// The same ten times as large: the time may grow little more than the size.
fn p02_huge(rec: &mut Rec, tape: &[u32]) -> Res {
    let i = tape.first().copied().unwrap_or(0) as usize % big_rows();
    let (name, pre, unit, suf) = big_row(i);
    let mut o = Opts::plain(DIAS[i % 3]);
    if i % 2 == 0 {
        o.args = Args::Question;
        o.wc = true;
        o.wq = true;
    }
    let text = |size: usize| format!("{pre}{}{suf}", unit.repeat(size / unit.len()));
    let (a, b) = (text(300_000), text(3_000_000));
    rec.extra += 1;
    rec.case(true, &i, || format!("{:?} {name}: {pre}({unit}){suf} of {} bytes against {}", o.dia, b.len(), a.len()));
    let (mut small, mut large) = (f64::MAX, f64::MAX);
    for _ in 0..3 {
        small = small.min(cost(&a, &o, true)?.0);
        large = large.min(cost(&b, &o, true)?.0);
        if large <= 0.3 + 25.0 * small {
            return Ok(());
        }
    }
    Err(format!("parse_statements took {large:.2} s of CPU time for {} bytes and {small:.3} s for {}\n{}", b.len(), a.len(), clip(&b, &o)))
}
/// Nesting brackets: depth up to 600, where exponential behaviour shows at depth 30.
pub const NEST: &[(&str, &str, &str, &str, &str)] = &[
    // prefix, open, middle, close, suffix
    ("SELECT ", "(", "1", ")", ""),
    ("SELECT ", "f(", "1", ")", ""),
    ("SELECT ", "f(a, ", "1", ")", ""),
    ("SELECT ", "(SELECT ", "1", ")", ""),
    ("SELECT ", "1 + (", "1", ")", ""),
    ("SELECT ", "NOT ", "1", "", ""),
    ("SELECT ", "- ", "1", "", ""),
    ("SELECT ", "! ", "1", "", ""),
    ("SELECT ", "a IN (", "1", ")", ""),
    ("SELECT ", "EXISTS (SELECT ", "1", ")", ""),
    ("SELECT ", "CASE WHEN a THEN ", "1", " END", ""),
    ("SELECT ", "CASE a WHEN 1 THEN 2 ELSE ", "1", " END", ""),
    ("SELECT ", "CAST(", "1", " AS CHAR)", ""),
    ("SELECT ", "COUNT(DISTINCT ", "1", ")", ""),
    ("SELECT ", "IF(a, ", "1", ", c)", ""),
    ("SELECT ", "INTERVAL ", "1", " DAY", ""),
    ("SELECT ", "a = b AND c OR NOT (", "1", ")", ""),
    ("SELECT a FROM ", "(SELECT a FROM ", "b", ") AS c", ""),
    ("SELECT a FROM b WHERE ", "a IN (SELECT c FROM d WHERE ", "1", ")", ""),
    ("", "(", "SELECT 1", ")", ""),
    ("", "(SELECT 1) UNION (", "SELECT 1", ")", ""),
    ("", "IF a THEN ", "SET a=1;", " END IF;", ""),
    ("", "CASE WHEN a THEN ", "SET a=1;", " END CASE;", ""),
    ("CREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW ", "BEGIN ", "SET a=1;", " END;", ""),
    ("WITH a AS ", "(SELECT (", "SELECT 1", "))", " SELECT 1"),
    ("CREATE TABLE a (b INT DEFAULT ", "(", "1", ")", ")"),
];
fn p02_nest_count() -> usize {
    NEST.len() * 6
}
fn p02_nest(rec: &mut Rec, tape: &[u32]) -> Res {
    let i = tape.first().copied().unwrap_or(0) as usize % p02_nest_count();
    let (pre, open, mid, close, suf) = NEST[i / 6];
    let o = Opts::plain(DIAS[i % 3]);
    // complete, then cut before the closing parts or without a middle
    let broken = i / 3 % 2 == 1;
    for n in [5, 20, 60, 200, 600] {
        for v in 0..3 {
            let s = match (broken, v) {
                (false, 0) => format!("{pre}{}{mid}{}{suf}", open.repeat(n), close.repeat(n)),
                (true, 0) => format!("{pre}{}", open.repeat(n)),
                (true, 1) => format!("{pre}{}{}{suf}", open.repeat(n), close.repeat(n)),
                (true, _) => format!("{pre}{}{mid} ] {mid}{};{suf}", open.repeat(n), close.repeat(n / 2)),
                _ => continue,
            };
            rec.extra += 2;
            within(&s, &o, false)?;
            within(&s, &o, true)?;
        }
    }
    rec.case(true, &i, || format!("{:?} {pre} {open}..{mid}..{close} {suf} nested up to 600, {}", o.dia, if broken { "broken" } else { "complete" }));
    Ok(())
}

// ---- P03 -----------------------------------------------------------------------------
fn line_of(src: &str, pos: usize) -> usize {
    1 + src.as_bytes()[..pos].iter().filter(|b| **b == b'\n').count()
}
fn issues_ok(src: &str, o: &Opts, script: bool, rec: &mut Rec) -> Res {
    let (iss, shown, ok) = subject(|| {
        let mut iss = Issues::new(src);
        let ro = o.real();
        if script {
            drop(sql_parse::parse_statements(src, &mut iss, &ro));
        } else {
            drop(sql_parse::parse_statement(src, &mut iss, &ro));
        }
        (crate::parse::issues(&iss), format!("{iss}"), iss.is_ok())
    })
    .map_err(|m| format!("{m}\n{}", input(src, o)))?;
    let bad = |m: String| Err(format!("{m}\n{}", input(src, o)));
    if ok != iss.is_empty() {
        return bad(format!("is_ok() is {ok} with {} issues", iss.len()));
    }
    let mut want = if iss.is_empty() { "No issues\n".to_string() } else { "Issues:\n".to_string() };
    for i in &iss {
        let parts = std::iter::once((&i.msg, i.sp, &i.seg)).chain(i.frags.iter().map(|f| (&f.0, f.1, &f.2)));
        for (n, (m, (s, e), seg)) in parts.enumerate() {
            if n > 0 {
                rec.labels.insert("fragments");
            }
            if s > e || e > src.len() || !src.is_char_boundary(s) || !src.is_char_boundary(e) {
                return bad(format!("issue {m:?} has the span {s}..{e}, which is not a piece of the source"));
            }
            if &src[s..e] != seg {
                return bad(format!("issue {m:?} at {s}..{e} carries {seg:?}, the source there is {:?}", &src[s..e]));
            }
            if m.trim().is_empty() {
                return bad(format!("issue with an empty message at {s}..{e}"));
            }
            if n == 0 {
                want.push_str(if i.err { "  Error " } else { "  Warning " });
            } else {
                want.push_str("  ");
            }
            want.push_str(&format!("{m}\n    At line {}, code {seg}\n", line_of(src, s)));
        }
    }
    if want != shown {
        return bad(format!("the issues are displayed as\n{shown}where their contents give\n{want}"));
    }
    if !iss.is_empty() {
        rec.nontrivial = true;
    }
    Ok(())
}
/// The text of a case, spread over lines and with multi-byte characters.
fn p03_any(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    let (mut s, l) = anything(&mut g);
    rec.labels.insert(l);
    match g.c(4) {
        0 => s = s.replace(' ', "\n"),
        1 => s = s.replace(' ', " /* é日\n */ "),
        2 => s = s.replace(' ', "\r\n"),
        _ => {}
    }
    rec.extra = 1;
    rec_text(rec, &s, &o, false);
    issues_ok(&s, &o, false, rec)?;
    issues_ok(&s, &o, true, rec)
}
fn p03_long(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    let s = inflated(&mut g);
    rec.extra = 1;
    rec_long(rec, &s, &o);
    issues_ok(&s, &o, false, rec)?;
    issues_ok(&s, &o, true, rec)
}
/// Valid statements under both lints: many warnings.
fn p03_lint(rec: &mut Rec, tape: &[u32]) -> Res {
    let (mut o, rest) = any_opts(tape);
    o.wq = true;
    o.wc = true;
    let mut g = Gen::new(rest, o);
    let t = valid_tokens(&mut g);
    let lay = g.raw_choice();
    let (s, _) = render(&t, &mut Layout::new(1 + lay % 1000, 1 + lay / 1000 % 1000));
    rec_text(rec, &s, &o, false);
    issues_ok(&s, &o, false, rec)?;
    issues_ok(&s, &o, true, rec)
}

/// Issues added by hand, as later stages do, with fragments anywhere around them.
fn p03_api(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = Gen::new(tape, Opts::plain(Dia::Maria));
    const A: &[&str] = &["a", "SELECT", " ", "\n", "\n", "\r\n", "é", "日", "'x'", ";", "{}", "\t", "%"];
    let n = g.c(30);
    let src: String = (0..n).map(|_| g.pick(A)).collect();
    let ends: Vec<usize> = (0..=src.len()).filter(|i| src.is_char_boundary(*i)).collect();
    let sp = |g: &mut Gen| {
        let (a, b) = (g.pick(&ends), g.pick(&ends));
        a.min(b)..a.max(b)
    };
    let msg = |g: &mut Gen| g.pick(&["bad", "two words", "line\nline", "é", "Issues:"]);
    let k = g.c(5);
    let mut want: Vec<(bool, Vec<(&str, std::ops::Range<usize>)>)> = Vec::new();
    for _ in 0..k {
        let err = g.p(1, 2);
        let m = 1 + g.c(4);
        let mut v: Vec<_> = (0..m).map(|_| (msg(&mut g), sp(&mut g))).collect();
        if err && m == 1 && g.p(1, 2) {
            v[0].0 = g.pick(&["ice", "todo"]);
        }
        want.push((err, v));
    }
    let mut macros = Vec::new();
    rec.case(want.iter().any(|w| w.1.len() > 1), &(&src, &want), || format!("{src:?} with {want:?}"));
    let mut iss = Issues::new(&src);
    let mut shown = if k == 0 { "No issues\n".to_string() } else { "Issues:\n".to_string() };
    for (err, parts) in &want {
        if let ("ice" | "todo", s) = &parts[0] {
            // the macros for later stages: an error with the place in the program
            let line = if parts[0].0 == "ice" {
                sql_parse::issue_ice!(iss, s);
                line!() - 1
            } else {
                sql_parse::issue_todo!(iss, s);
                line!() - 1
            };
            let Some(i) = iss.get().last() else {
                return Err(format!("the macro for {:?} adds no issue", parts[0]));
            };
            if i.level != sql_parse::Level::Error || i.span != *s || i.sql_segment != &src[s.clone()] || !i.fragments.is_empty() {
                return Err(format!("the macro for {:?} adds {i:?}, source {src:?}", parts[0]));
            }
            if !i.message.contains(file!()) || !i.message.contains(&line.to_string()) {
                return Err(format!("the macro for {:?} says {:?} in {} line {line}", parts[0], i.message, file!()));
            }
            shown.push_str(&format!("  Error {}\n    At line {}, code {}\n", i.message, line_of(&src, s.start), &src[s.clone()]));
            macros.push(i.message.to_string());
            continue;
        }
        let (m, s) = &parts[0];
        let mut h = if *err { iss.err(*m, s) } else { iss.warn(m.to_string(), s) };
        for (m, s) in &parts[1..] {
            h.frag(*m, s);
        }
        for (i, (m, s)) in parts.iter().enumerate() {
            let lead = if i > 0 {
                "  "
            } else if *err {
                "  Error "
            } else {
                "  Warning "
            };
            shown.push_str(&format!("{lead}{m}\n    At line {}, code {}\n", line_of(&src, s.start), &src[s.clone()]));
        }
    }
    let bad = |m: String| Err(format!("{m}\nsource {src:?}, issues {want:?}"));
    if format!("{iss}") != shown {
        return bad(format!("the issues are displayed as\n{iss}where their contents give\n{shown}"));
    }
    if iss.is_ok() != want.is_empty() {
        return bad(format!("is_ok() is {} with {k} issues", iss.is_ok()));
    }
    let seen = |v: &[sql_parse::Issue]| -> Vec<(bool, Vec<(String, std::ops::Range<usize>, String)>)> {
        v.iter()
            .map(|i| {
                let mut p = vec![(i.message.to_string(), i.span.clone(), i.sql_segment.to_string())];
                p.extend(i.fragments.iter().map(|f| (f.message.to_string(), f.span.clone(), f.sql_segment.to_string())));
                (i.level == sql_parse::Level::Error, p)
            })
            .collect()
    };
    let mut macros = macros.into_iter();
    let full: Vec<_> =
        want.iter().map(|(e, p)| (*e, p.iter().map(|(m, s)| (if matches!(*m, "ice" | "todo") { macros.next().unwrap_or_default() } else { m.to_string() }, s.clone(), src[s.clone()].to_string())).collect::<Vec<_>>())).collect();
    if seen(iss.get()) != full {
        return bad(format!("get() gives {:?}", iss.get()));
    }
    let v = iss.into_vec();
    if seen(&v) != full {
        return bad(format!("into_vec() gives {v:?}"));
    }
    Ok(())
}

// ---- P04 -----------------------------------------------------------------------------
/// Whether text is only white space and complete comments.
pub fn filler(s: &str) -> bool {
    strip_filler(s).is_some_and(|v| v.is_empty())
}
/// The text without white space and comments; `None` when a comment is not terminated.
pub fn strip_filler(s: &str) -> Option<String> {
    let mut o = String::new();
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        let two = (c[i], c.get(i + 1).copied().unwrap_or(' '));
        if c[i].is_ascii_whitespace() {
            i += 1;
        } else if two == ('-', '-') || two == ('/', '/') {
            while i < c.len() && c[i] != '\n' && c[i] != '\r' {
                i += 1;
            }
        } else if two == ('/', '*') {
            let mut j = i + 2;
            while j + 1 < c.len() && (c[j], c[j + 1]) != ('*', '/') {
                j += 1;
            }
            if j + 1 >= c.len() {
                return None;
            }
            i = j + 2;
        } else {
            o.push(c[i]);
            i += 1;
        }
    }
    Some(o)
}
fn invalid_node(t: &T) -> bool {
    let mut r = false;
    t.walk(&mut |t| match t {
        T::A(x) if x == "Invalid" => r = true,
        T::U(x, _) | T::N(x, _) if x == "Invalid" => r = true,
        _ => {}
    });
    r
}
pub fn show_tree(p: &Parsed) -> String {
    p.show()
}
fn p04_clean(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    let mut t = valid_tokens(&mut g);
    g.budget = 300;
    let n = g.c(4);
    mutate(&mut g, &mut t, n);
    let s = glued(&mut g, &t);
    rec.labels.insert(if n == 0 { "valid" } else { "mutated" });
    rec.extra = 1;
    rec_text(rec, &s, &o, false);
    for script in [false, true] {
        let p = parse(&s, &o, script)?;
        if p.errors() > 0 {
            rec.labels.insert("with errors");
            continue;
        }
        rec.nontrivial = true;
        let bad = |m: &str| Err(format!("no error is reported, but {m}\n{}\n{}", input(&s, &o), show_tree(&p)));
        if !script && p.stmts.len() != 1 {
            return bad("no statement is returned");
        }
        if p.stmts.iter().any(invalid_node) {
            return bad("the result contains a placeholder for invalid input");
        }
        if !script {
            let h = p.stmts[0].hull();
            let Some(h) = h else { return bad("the statement records no position") };
            if h.1 > s.len() || !s.is_char_boundary(h.0) || !s.is_char_boundary(h.1) {
                return bad("a recorded position is outside the source");
            }
            let a = strip_filler(&s[..h.0]);
            let b = strip_filler(&s[h.1..]);
            let (Some(a), Some(b)) = (a, b) else { return bad("a comment is not terminated") };
            let b = b.strip_suffix(';').unwrap_or(&b).to_string();
            if let Some(m) = lexical_fault(&s) {
                if !unrecorded(&t) {
                    return bad(&m);
                }
            }
            let ok = a.chars().all(|c| c == '(') && b.chars().all(|c| matches!(c, '(' | ')'));
            if !ok && !unrecorded(&t) {
                if std::env::var("SHOWGAP").is_ok() {
                    eprintln!("GAP {a:?} {b:?} {s}");
                    continue;
                }
                return bad(&format!("the recorded parts leave out the text {a:?} before and {b:?} after them"));
            }
        }
    }
    Ok(())
}

/// What makes a text wrong whatever the grammar: brackets that do not match, quotes or
/// comments left open, characters no token starts with.
fn lexical_fault(s: &str) -> Option<String> {
    let c: Vec<char> = s.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    let mut depth = 0;
    while i < c.len() {
        match c[i] {
            '\'' | '"' => {
                let quote = c[i];
                i += 1;
                loop {
                    if i >= c.len() {
                        return Some(format!("a {quote} is not closed"));
                    }
                    if c[i] == '\\' {
                        i += 2;
                    } else if c[i] == quote && at(i + 1) == quote {
                        i += 2;
                    } else if c[i] == quote {
                        break;
                    } else {
                        i += 1;
                    }
                }
            }
            '`' => {
                i += 1;
                while at(i) != '`' {
                    if i >= c.len() {
                        return Some("a ` is not closed".into());
                    }
                    i += 1;
                }
            }
            '-' if at(i + 1) == '-' => {
                while i < c.len() && c[i] != '\n' && c[i] != '\r' {
                    i += 1;
                }
            }
            '/' if at(i + 1) == '/' => {
                while i < c.len() && c[i] != '\n' && c[i] != '\r' {
                    i += 1;
                }
            }
            '/' if at(i + 1) == '*' => {
                i += 2;
                while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                    i += 1;
                }
                if i >= c.len() {
                    return Some("a comment is not closed".into());
                }
                i += 1;
            }
            '(' => depth += 1,
            ')' => {
                depth -= 1;
                if depth < 0 {
                    return Some("a ) has no (".into());
                }
            }
            x if "[]{}\\#^".contains(x) || !x.is_ascii() || (x.is_ascii_control() && !x.is_ascii_whitespace()) => {
                return Some(format!("the character {x:?} has no meaning in SQL"));
            }
            _ => {}
        }
        i += 1;
    }
    (depth > 0).then(|| "a ( is not closed".into())
}

/// One corruption that no valid statement survives: an error must be reported.
fn p04_corrupt(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    g.budget = 80;
    let t = valid_tokens(&mut g);
    g.budget = 300;
    let dollars: Vec<usize> = (0..t.len()).filter(|i| t[*i].text == "$$" && t[*i].k != K::Str).collect();
    if !dollars.is_empty() && parse(&text(&t, 0), &o, false)?.errors() == 0 {
        for i in dollars {
            let mut v = t.clone();
            v.remove(i);
            let s = text(&v, 0);
            rec.extra += 1;
            rec.labels.insert("a $$ left out");
            rec_text(rec, &s, &o, t.len() > 3);
            let q = parse(&s, &o, false)?;
            if q.errors() == 0 {
                return Err(format!("no error is reported with one of the $$ left out\n{}\n{}", input(&s, &o), show_tree(&q)));
            }
        }
    }
    if unrecorded(&t) || t.is_empty() {
        return Ok(());
    }
    let whole = text(&t, 0);
    if parse(&whole, &o, false)?.errors() > 0 {
        return Ok(());
    }
    for _ in 0..4 {
        let mut v = t.clone();
        let i = g.c(t.len() as u32 + 1) as usize;
        let what;
        let s = match g.c(8) {
            0 => {
                what = "a character without meaning inserted";
                let c = g.pick(&["\\", "{", "}", "[", "]", "^", "\u{0}", "é", "日本", "\u{1F600}", "#", "\u{a0}", "\u{feff}"]);
                v.insert(i, tok_of(c));
                text(&v, 0)
            }
            1 => {
                what = "a bracket inserted";
                let c = g.pick(&["(", ")"]);
                v.insert(i, tok_of(c));
                text(&v, 0)
            }
            2 => {
                what = "a bracket left out";
                let b: Vec<usize> = (0..t.len()).filter(|i| matches!(t[*i].text.as_str(), "(" | ")")).collect();
                if b.is_empty() {
                    continue;
                }
                v.remove(b[g.c(b.len() as u32) as usize]);
                text(&v, 0)
            }
            3 => {
                what = "an unterminated comment appended";
                let tail = g.pick(&["/*", "/* x", "/* x *", "/*/", "/**", "/* ; /"]);
                format!("{whole} {tail}")
            }
            4 => {
                what = "an unterminated quote appended";
                let tail = g.pick(&["'", "\"", "`", "'a", "\"a", "`a", "'a''", "'a\\'", "'''", "AS 'a", "x'1", "'a' 'b"]);
                format!("{whole} {tail}")
            }
            5 => {
                what = "a dangling operator appended";
                let tail = g.pick(&[
                    "+", "*", "/", "=", "<", ">", "<=", ">=", "<>", "!=", "<=>", "AND", "OR", "XOR", "&&", "||", "&", "|", ".", "LIKE", "-",
                    "<<", ">>", "!", "~", "IS", "IS NOT", "IN", "NOT", "(", "IN (", ":=", "::", "@", ":", "%",
                ]);
                format!("{whole} {tail}")
            }
            6 => {
                what = "another statement appended without a delimiter";
                let tail = g.pick(&[
                    "SELECT 1", "INSERT INTO a VALUES (1)", "DELETE FROM a", "DROP TABLE a", "CREATE TABLE a (b INT)",
                    "ALTER TABLE a DROP COLUMN b", "TRUNCATE TABLE a", "RENAME TABLE a TO b",
                ]);
                format!("{whole} {tail}")
            }
            _ => {
                what = "another statement appended after a delimiter, for the single statement entry point";
                let tail = g.pick(&["SELECT 1", "x", "COMMIT;", ")", "'", "SET a=1"]);
                format!("{whole} ; {tail}")
            }
        };
        rec.extra += 1;
        rec.labels.insert(what);
        rec_text(rec, &s, &o, t.len() > 3);
        let q = parse(&s, &o, false)?;
        if q.errors() == 0 {
            return Err(format!(
                "no error is reported for a valid statement with {what}\nwithout it: {whole}\n{}\n{}",
                input(&s, &o),
                q.show()
            ));
        }
        // scripts see the same faults, except that a delimiter separates statements
        if !what.contains("single") {
            let q = parse(&format!("{s};"), &o, true)?;
            if q.errors() == 0 {
                return Err(format!(
                    "no error is reported for a script of a valid statement with {what}\nwithout it: {whole}\n{}\n{}",
                    input(&s, &o),
                    q.show()
                ));
            }
        }
    }
    Ok(())
}

/// Constructs the syntax tree is documented not to record in full.
pub fn unrecorded(t: &[Tok]) -> bool {
    t.iter().any(|t| t.text.eq_ignore_ascii_case("FOREIGN") || t.text == "$$" || t.text.eq_ignore_ascii_case("EXCEPTION"))
}
fn is(t: Option<&Tok>, w: &str) -> bool {
    t.is_some_and(|t| t.text.eq_ignore_ascii_case(w))
}
/// Whether leaving out or adding this token legitimately changes nothing.
fn optional(t: &Tok, prev: Option<&Tok>, next: Option<&Tok>) -> bool {
    let w = t.text.to_ascii_uppercase();
    let s = |t: Option<&Tok>| t.is_some_and(|t| t.text.starts_with(['\'', '"']));
    let option = |w: &str| is(prev, w);
    matches!(w.as_str(), ";" | "OUTER")
        || (w == "=" && ["ENGINE", "CHARSET", "COLLATE", "COMMENT", "ROW_FORMAT", "SET"].iter().any(|w| option(w)))
        || w == "()"
        || (w == "COLUMN" && is(prev, "MODIFY"))
        || (w == "CASE" && is(prev, "END"))
        || w.ends_with("_OPS")
        || ((w.starts_with('\'') || w.starts_with('"')) && (s(prev) || s(next)))
        || (s(prev) && s(next))
        || filler(&t.text)
}
/// A quoted or unquoted name without its quotes.
fn bare(s: &str) -> &str {
    let t = s.trim_matches(['`', '"']);
    if t.is_empty() || t.starts_with(|c: char| c.is_ascii_digit()) {
        t.trim_start_matches('0')
    } else {
        t
    }
}
/// Spellings of the same thing.
fn synonyms(a: &str, b: &str) -> bool {
    let (a, b) = (a.to_ascii_uppercase(), b.to_ascii_uppercase());
    let t: &[&[&str]] = &[
        &["AND", "&&"], &["OR", "||"], &["<>", "!="], &["KEY", "INDEX"], &["VALUE", "VALUES"], &["DATABASE", "SCHEMA"],
        &["INT", "INTEGER"], &["NOT", "!"], &["CHARSET", "CHARACTER"], &["POW", "POWER"], &["CEIL", "CEILING"],
        &["DISTINCT", "DISTINCTROW"], &["LCASE", "LOWER"], &["UCASE", "UPPER"], &["NOW", "CURRENT_TIMESTAMP"],
    ];
    let f = |w: &str| crate::funcs::FUNCS.iter().find(|f| f.0 == w).map(|f| f.1);
    t.iter().any(|s| s.contains(&a.as_str()) && s.contains(&b.as_str())) || (f(&a).is_some() && f(&a) == f(&b))
}
const CUSTOM_TYPES: &[&str] = &["uuid", "citext", "my_type", "MONEY", "tsvector", "SERIAL", "bool", "int4range"];
/// Single-token insertions, deletions and replacements must change the tree or be an error.
fn p04_noop(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    g.budget = 60;
    let t = valid_tokens(&mut g);
    g.budget = 300;
    if unrecorded(&t) {
        return Ok(());
    }
    let s = text(&t, 0);
    rec_text(rec, &s, &o, t.len() > 3);
    let p = parse(&s, &o, false)?;
    if p.errors() > 0 || p.stmts.len() != 1 {
        return Ok(());
    }
    let base = p.stmts[0].map_spans(&|_, _| (0, 0));
    for _ in 0..12 {
        let mut v = t.clone();
        let i = g.c(t.len() as u32) as usize;
        let mut old = None;
        let (what, j) = match g.c(4) {
            0 => {
                v.remove(i);
                ("left out", i)
            }
            1 => {
                v.insert(i, tok_of(&soup_word(&mut g)));
                ("inserted", i)
            }
            2 => {
                v[i] = tok_of(&soup_word(&mut g));
                old = Some(t[i].clone());
                // LIMIT a, a is LIMIT a OFFSET a
                let (x, y) = (v[i].text.to_ascii_uppercase(), t[i].text.to_ascii_uppercase());
                if (x == "OFFSET" && y == ",") || (x == "," && y == "OFFSET") {
                    continue;
                }
                if bare(&v[i].text).eq_ignore_ascii_case(bare(&t[i].text))
                    || synonyms(&v[i].text, &t[i].text)
                    || CUSTOM_TYPES.contains(&t[i].text.as_str()) {
                    continue;
                }
                ("replaced", i)
            }
            _ => {
                v.insert(i, t[i].clone());
                ("doubled", i)
            }
        };
        let full = if v.len() > t.len() { &v } else { &t };
        let prev = j.checked_sub(1).map(|j| &full[j]);
        if optional(&full[j], prev, full.get(j + 1)) || (old.is_some() && optional(&v[j], prev, full.get(j + 1))) {
            continue;
        }
        let s2 = text(&v, 0);
        let q = parse(&s2, &o, false)?;
        rec.extra += 1;
        if q.errors() > 0 || q.stmts.len() != 1 {
            continue;
        }
        if q.stmts[0].map_spans(&|_, _| (0, 0)) == base {
            if std::env::var("SHOWGAP").is_ok() {
                eprintln!("GAP {what} {:?} by {:?}  ## {s2}", full[j].text, v.get(i).map(|t| t.text.clone()));
                continue;
            }
            return Err(format!(
                "with the token {:?} {what} the statement still parses without error to the same tree\nwithout the change: {s}\n{}\n{}",
                full[j].text,
                input(&s2, &o),
                q.show()
            ));
        }
    }
    Ok(())
}

/// Every token of a statement left out and doubled, every pair of neighbours exchanged, and a
/// comma, a semicolon or a word put before each: the tree changes, or it is an error.
fn p04_every(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    g.budget = 40;
    let t = valid_tokens(&mut g);
    g.budget = 300;
    if unrecorded(&t) || t.len() > 80 {
        return Ok(());
    }
    let s = text(&t, 0);
    rec_text(rec, &s, &o, t.len() > 3);
    let p = parse(&s, &o, false)?;
    if p.errors() > 0 || p.stmts.len() != 1 {
        return Ok(());
    }
    let base = p.stmts[0].map_spans(&|_, _| (0, 0));
    let word = soup_word(&mut g);
    for i in 0..=t.len() {
        for k in 0..6 {
            let mut v = t.clone();
            let what = match k {
                0 if i < t.len() => {
                    v.remove(i);
                    "left out"
                }
                1 if i < t.len() => {
                    v.insert(i, t[i].clone());
                    "doubled"
                }
                2 if i + 1 < t.len() => {
                    v.swap(i, i + 1);
                    // brackets that group nothing are not recorded
                    let moved = |t: &Tok| matches!(t.text.as_str(), "(" | ")" | ";");
                    if bare(&v[i].text).eq_ignore_ascii_case(bare(&t[i].text)) || moved(&t[i]) || moved(&v[i]) {
                        continue;
                    }
                    "behind its neighbour"
                }
                3 | 4 | 5 => {
                    v.insert(i, tok_of([",", ";", word.as_str()][k - 3]));
                    "inserted"
                }
                _ => continue,
            };
            let full = if v.len() > t.len() { &v } else { &t };
            let prev = i.checked_sub(1).map(|j| &full[j]);
            if k == 4 {
                // between the statements of a list they may stand in any number
                if ["THEN", "ELSE", "BEGIN", "DO", "$$", ";"].iter().any(|w| is(prev, w))
                    || [";", "END", "WHEN", "ELSE", "ELSEIF"].iter().any(|w| is(full.get(i + 1), w))
                    || i == t.len()
                {
                    continue;
                }
            } else if optional(&full[i], prev, full.get(i + 1)) {
                continue;
            }
            let s2 = text(&v, 0);
            let q = parse(&s2, &o, false)?;
            rec.extra += 1;
            if q.errors() > 0 || q.stmts.len() != 1 {
                continue;
            }
            if q.stmts[0].map_spans(&|_, _| (0, 0)) == base {
                if std::env::var("SHOWGAP").is_ok() {
                    eprintln!("GAP {what} {:?}  ## {s2}", full[i].text);
                    continue;
                }
                return Err(format!(
                    "with the token {:?} {what} the statement still parses without error to the same tree\nwithout the change: {s}\n{}\n{}",
                    full[i].text,
                    input(&s2, &o),
                    q.show()
                ));
            }
        }
    }
    Ok(())
}

/// Runs of two to seven tokens left out, doubled or copied to another place: the tree changes,
/// or it is an error.
fn p04_runs(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    g.budget = 60;
    let t = valid_tokens(&mut g);
    g.budget = 300;
    if unrecorded(&t) || t.len() > 80 {
        return Ok(());
    }
    let s = text(&t, 0);
    rec_text(rec, &s, &o, t.len() > 3);
    let p = parse(&s, &o, false)?;
    if p.errors() > 0 || p.stmts.len() != 1 {
        return Ok(());
    }
    let base = p.stmts[0].map_spans(&|_, _| (0, 0));
    for i in 0..t.len() {
        for n in 2..=7.min(t.len() - i) {
            for k in 0..3 {
                let mut v = t.clone();
                let run = &t[i..i + n];
                let at = match k {
                    0 => i + n,
                    1 => i,
                    _ => g.c(t.len() as u32 + 1) as usize,
                };
                let what = ["doubled", "left out", "copied"][k];
                if k == 1 {
                    v.drain(i..i + n);
                } else {
                    for (d, x) in run.iter().enumerate() {
                        v.insert(at + d, x.clone());
                    }
                }
                let full = if v.len() > t.len() { &v } else { &t };
                let at = if k == 1 { i } else { at };
                if (at..at + n).all(|j| full[j].text == "(" || full[j].text == ")" || optional(&full[j], j.checked_sub(1).map(|j| &full[j]), full.get(j + 1))) {
                    continue;
                }
                let s2 = text(&v, 0);
                let q = parse(&s2, &o, false)?;
                rec.extra += 1;
                if q.errors() > 0 || q.stmts.len() != 1 {
                    continue;
                }
                if q.stmts[0].map_spans(&|_, _| (0, 0)) == base {
                    let r: Vec<&str> = run.iter().map(|t| t.text.as_str()).collect();
                    if std::env::var("SHOWGAP").is_ok() {
                        eprintln!("GAP {what} {:?}  ## {s2}", r.join(" "));
                        continue;
                    }
                    return Err(format!(
                        "with the tokens {:?} {what} the statement still parses without error to the same tree\nwithout the change: {s}\n{}\n{}",
                        r.join(" "),
                        input(&s2, &o),
                        q.show()
                    ));
                }
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let t = |name, len, quick, f| Sub { name, how: How::Tape(len), quick, times: 25, f };
    let e = |name, n, f| Sub { name, how: How::Each(n), quick: 0, times: 1, f };
    vec![
        Prop {
            id: "P01",
            rule: "any: token soups, token-mutated statements, character-mutated statements and random characters; delimited: scripts that change the delimiter to a word, punctuation or characters at random, then up to three statements parted by it, half of them damaged; prefixes: every prefix of a valid statement; edits: every token of a valid statement left out, doubled, replaced and preceded by a word; long: statements with words, names, strings, numbers, comments or gaps of 12 to 65539 bytes, of one- to four-byte characters, whole or cut open; pairs: every keyword after each of 66 statement beginnings. Each text goes through both entry points with random options; the issues are displayed and the result is debug-printed and asked for its spans. Non-trivial: at least four non-blank bytes (any), more than 20 bytes (delimited), more than 300 bytes (long), or more than three tokens.",
            subs: vec![
                t("any", 300, 240_000, p01_any),
                t("delimited", 200, 60_000, p01_delimited),
                t("prefixes", 200, 3_000, p01_prefixes),
                t("edits", 200, 4_000, p01_edits),
                t("long", 200, 40_000, p01_long),
                e("pairs", p01_pairs_count, p01_pairs),
            ],
        },
        Prop {
            id: "P02",
            rule: "small: the malformed and random texts of P01; repeat: some tokens of a statement or a soup repeated up to 120 kB; big: lists, chains and error repetitions of 66 kinds up to 400 kB; brackets: 360 ways to skip over as many opening as (other) closing brackets, 300 kB; huge: the same as big at 3 MB, against the time of 300 kB; nest: 26 nestings up to depth 600, complete and broken. CPU time, allocated bytes, issues and statements must stay below a bound linear in the size. Non-trivial: at least four non-blank bytes (small), more than 20 repetitions (repeat).",
            subs: vec![
                t("small", 300, 60_000, p02_small),
                t("repeat", 250, 1_500, p02_repeat),
                e("big", p02_big_count, p02_big),
                e("brackets", p02_brackets_count, p02_brackets),
                e("huge", big_rows, p02_huge),
                e("nest", p02_nest_count, p02_nest),
            ],
        },
        Prop {
            id: "P03",
            rule: "any: the malformed and random texts of P01, spread over lines and with multi-byte comments; long: statements with words, names, strings, numbers, comments or gaps of 12 to 65539 bytes; lint: valid statements in random layout and letter case under both lint options; api: issues and fragments with random spans added through the public Issues type. Non-trivial: at least one issue is reported (any, lint), more than 300 bytes (long), a fragment is added (api).",
            subs: vec![t("any", 300, 480_000, p03_any), t("long", 200, 40_000, p03_long), t("lint", 250, 160_000, p03_lint), t("api", 80, 240_000, p03_api)],
        },
        Prop {
            id: "P04",
            rule: "clean: valid and token-mutated statements; when no error is reported the text must be lexically whole (quotes, comments and brackets closed, no meaningless characters), give one statement without placeholder nodes, and leave nothing but brackets outside the recorded positions. noop: one token of a valid statement left out, doubled, replaced or preceded by a word; either an error is reported or the tree changes (spans aside), save for a list of optional words and synonyms. every: the same at every token of a statement in turn, and with a comma, a semicolon or a word before each. runs: the same for every run of two to seven tokens left out, doubled or copied to another place. hidden: foreign keys, exception handlers and operator class lists (of which the tree keeps little) edited at random, accepted exactly when a recogniser written for them accepts. counts: lists, chains, repeated errors and nestings of 140 kinds from 20 to 66000 times: from 20 on, every kind of node, issue and short piece of source must occur a fixed number of times more with each two. lists: the same for an element of a list, or some tokens with their brackets, in random statements, to 1030 times. corrupt: one corruption no statement survives must give an error. wrong: 407 malformed statements (a missing, doubled, misplaced or misspelt part of every clause) filled with random parts and put into other statements must give an error in every dialect, the statements they resemble none. Non-trivial: no error (clean), more than three tokens.",
            subs: vec![t("clean", 300, 120_000, p04_clean), t("noop", 300, 60_000, p04_noop), t("every", 250, 12_000, p04_every),
                t("runs", 150, 6_000, p04_runs), t("corrupt", 250, 60_000, p04_corrupt), t("wrong", 120, 60_000, crate::wrong::p04_wrong), t("hidden", 60, 60_000, crate::wrong::p04_hidden), t("sysvar", 60, 8_000, crate::wrong::p04_sysvar), t("lists", 250, 8_000, crate::counts::p04_lists), e("counts", crate::counts::count, crate::counts::p04_counts)],
        },
    ]
}
