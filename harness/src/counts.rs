//! Repetitions: what is written n times is in the tree n times (P04).

use crate::faithful::DIAS;
use crate::gen::*;
use crate::misc::Kind;
use crate::mutate::*;
use crate::meta::{BIG, NEST};
use crate::parse::*;
use crate::run::*;
use crate::tree::T;
use std::collections::BTreeMap;

/// More lists (all well-formed in the dialect given, or in all of them).
const MORE: &[(&str, &str, &str, &str, &str)] = &[
    // name, dialect, prefix, unit, suffix
    ("further conditions", "", "SELECT 1 FROM a WHERE b = 1", " AND b = 2", ""),
    ("alternatives", "", "SELECT 1 FROM a WHERE b = 1", " OR b = 2", ""),
    ("sums", "", "SELECT 1", " + 2", ""),
    ("products and sums", "", "SELECT 1", " * 2 + 3", ""),
    ("comparisons", "", "SELECT a", " = 1", ""),
    ("flags", "m", "SELECT", " HIGH_PRIORITY", " 1"),
    ("subqueries", "", "SELECT 1", ", (SELECT a FROM b)", ""),
    ("named calls", "", "SELECT 1", ", COUNT(*)", ""),
    ("casts", "", "SELECT 1", ", CAST(a AS CHAR)", ""),
    ("cases", "", "SELECT 1", ", CASE a WHEN 1 THEN 2 END", ""),
    ("window order", "", "SELECT RANK() OVER (ORDER BY a", ", b DESC", ") FROM c"),
    ("left joins", "", "SELECT a FROM b", " LEFT JOIN c USING (d)", ""),
    ("join columns", "", "SELECT a FROM b JOIN c USING (d", ", e", ")"),
    ("conditions", "", "SELECT a FROM b HAVING c", " AND NOT d", ""),
    ("tests", "", "SELECT a", " IS NULL", ""),
    ("insert columns", "", "INSERT INTO t (a", ", b", ") VALUES (1)"),
    ("insert set", "m", "INSERT INTO t SET a = 1", ", b = 2", ""),
    ("duplicate keys", "m", "INSERT INTO t (a) VALUES (1) ON DUPLICATE KEY UPDATE a = 1", ", b = 2", ""),
    ("returned", "p", "INSERT INTO t (a) VALUES (1) RETURNING a", ", b", ""),
    ("conflict set", "p", "INSERT INTO t (a) VALUES (1) ON CONFLICT (a) DO UPDATE SET a = 1", ", b = 2", ""),
    ("conflict columns", "p", "INSERT INTO t (a) VALUES (1) ON CONFLICT (a", ", b", ") DO NOTHING"),
    ("insert flags", "m", "INSERT", " IGNORE", " INTO t (a) VALUES (1)"),
    ("updated tables", "m", "UPDATE t", ", u", " SET a = 1"),
    ("deleted tables", "m", "DELETE t", ", u", " FROM t, u"),
    ("deleted from", "m", "DELETE t FROM t", ", u", ""),
    ("values of a SET type", "m", "CREATE TABLE t (a SET('a'", ", 'b'", "))"),
    ("named columns", "", "CREATE TABLE t (a INT", ", b VARCHAR(10) DEFAULT 'x'", ")"),
    ("constraints", "", "CREATE TABLE t (a INT", ", CONSTRAINT b FOREIGN KEY (c) REFERENCES d (e)", ")"),
    ("dropped views", "", "DROP VIEW a", ", b", ""),
    ("enum labels", "p", "CREATE TYPE t AS ENUM ('a'", ", 'b'", ")"),
    ("characteristics", "m", "CREATE FUNCTION f() RETURNS INT", " DETERMINISTIC", " RETURN 1"),
    ("comments", "m", "CREATE FUNCTION f() RETURNS INT", " COMMENT 'a'", " RETURN 1"),
    ("case branches", "", "CASE a WHEN 1 THEN SET a=1;", " WHEN 2 THEN SET a=2;", " END CASE"),
    ("handlers", "", "CREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW BEGIN SET a=1; EXCEPTION", " WHEN a THEN 1;", " END"),
    ("added columns", "", "ALTER TABLE t ADD COLUMN a INT", ", ADD COLUMN b INT", ""),
    ("added keys", "m", "ALTER TABLE t ADD INDEX a (b)", ", ADD UNIQUE KEY c (d, e)", ""),
    ("key columns", "m", "ALTER TABLE t ADD INDEX a (b", ", c", ")"),
    ("set variables", "", "SET a = 1", ", b = 2", ""),
    ("executions", "", "SELECT 1;", "SELECT 2;", ""),
    ("changed delimiters", "", "SELECT 1;", "DELIMITER $$\nSELECT 1 $$\nDELIMITER ;\n", ""),
    ("triggers", "", "", "CREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW SET a = 1;", ""),
    ("numbered", "", "SELECT $1", ", $2", ""),
    ("lists", "m", "SELECT a IN (_LIST_)", ", a IN (_LIST_)", ""),
    ("strings", "", "SELECT 'a'", ", 'it''s'", ""),
    ("quoted names", "m", "SELECT `a`", ", `b c`.`d`", ""),
    ("intervals", "m", "SELECT 1", " + INTERVAL 1 DAY", ""),
    ("system variables", "m", "SELECT 1", ", @@global.a", ""),
    ("long texts", "", "SELECT 1", ", 'abc', a /* x */ -- y\n", ""),
    ("referenced columns", "", "ALTER TABLE t ADD FOREIGN KEY (a) REFERENCES b (c", ", d", ")"),
    ("foreign key columns", "", "ALTER TABLE t ADD FOREIGN KEY (a", ", b", ") REFERENCES c (d)"),
    ("constraint columns", "", "CREATE TABLE t (a INT, CONSTRAINT b FOREIGN KEY (c", ", d", ") REFERENCES e (f))"),
    ("columns a constraint references", "", "CREATE TABLE t (a INT, CONSTRAINT b FOREIGN KEY (c) REFERENCES d (e", ", f", "))"),
    ("foreign key actions", "", "ALTER TABLE t ADD FOREIGN KEY (a) REFERENCES b (c)", " ON DELETE SET NULL", ""),
    ("index options", "", "ALTER TABLE t ADD INDEX a (b)", " COMMENT 'x'", ""),
    ("index types", "", "ALTER TABLE t ADD INDEX a (b)", " USING HASH", ""),
    ("tables deleted from", "", "DELETE FROM t", ", u", " USING v"),
    ("tables deleted with", "", "DELETE FROM t USING u", ", v AS w", " WHERE a"),
    ("deleted rows", "", "DELETE FROM t RETURNING a", ", b + 1", ""),
    ("delete flags", "", "DELETE", " QUICK", " FROM t"),
    ("update flags", "", "UPDATE", " IGNORE", " t SET a = 1"),
    ("updated rows", "p", "UPDATE t SET a = 1 RETURNING b", ", c", ""),
    ("updated joins", "", "UPDATE t", " JOIN u ON a = b", " SET c = 1"),
    ("assigned column", "", "UPDATE t SET a", ".b", " = 1"),
    ("excluded", "", "SELECT a NOT IN (1", ", 2", ")"),
    ("hinted indexes", "m", "SELECT a FROM b USE INDEX (c", ", d", ")"),
    ("locked tables", "p", "SELECT a FROM b FOR UPDATE OF b", ", c", ""),
    ("copied columns", "", "COPY a (b", ", c", ") FROM STDIN;\n1\n\\.\n"),
    ("ordered union", "", "SELECT 1 UNION (SELECT 2) ORDER BY a", ", b DESC", ""),
    ("union in brackets", "", "SELECT 1", " UNION ALL (SELECT 2)", ""),
    ("qualified tables", "", "DROP TABLE a", ", b.c", ""),
    ("negations", "", "SELECT a IN (1", ", NOT b", ")"),
    ("casts to types", "", "SELECT 1", ", CAST(a AS VARCHAR(10))", ""),
    ("column defaults", "", "CREATE TABLE t (a INT", ", b INT DEFAULT 1 COMMENT 'c' UNIQUE", ")"),
    ("collations", "", "CREATE TABLE t (a TEXT", " CHARACTER SET b COLLATE c", ")"),
    ("sets of a signal", "", "SIGNAL SQLSTATE '1' SET MESSAGE_TEXT = 1", ", MYSQL_ERRNO = 2", ""),
    ("compound conditions", "", "IF a", " OR b", " THEN SELECT 1; END IF"),
    ("function body", "p", "CREATE FUNCTION f() RETURNS INT AS $$", " x ( ] 'y'", " $$"),
    ("function bodies", "p", "", "CREATE FUNCTION f() RETURNS INT AS $$ x $$ LANGUAGE SQL;", ""),
    ("anonymous blocks", "p", "", "DO $$ BEGIN SET a = 1; END $$;", ""),
    ("named blocks", "", "CREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW BEGIN", " BEGIN SET a=1; END;", " END"),
    ("conditions in a body", "", "CREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW BEGIN", " IF a THEN SET b=1; ELSE SET c=1; END IF;", " END"),
    ("timestamps", "", "SELECT 1", ", TIMESTAMPADD(DAY, 1, a)", ""),
    ("interval parts", "", "SELECT INTERVAL '1", "-1", "' DAY"),
];
/// How many more rows there are.
pub fn more() -> usize {
    MORE.len()
}
pub fn more_row(i: usize) -> (&'static str, &'static str, &'static str, &'static str) {
    let (name, _, pre, unit, suf) = MORE[i];
    (name, pre, unit, suf)
}
/// How often each kind of node, short string, short piece of source and message occurs.
fn census(src: &str, o: &Opts) -> Result<BTreeMap<String, i64>, String> {
    let p = parse(src, o, true)?;
    let mut m = BTreeMap::new();
    let mut add = |k: String, n: i64| *m.entry(k).or_insert(0) += n;
    for t in &p.stmts {
        t.walk(&mut |t| match t {
            T::S(x, y) => match src.get(*x..*y) {
                Some(s) if s.len() <= 12 => add(format!("{s:?} in the source"), 1),
                Some(_) => add("long spans".into(), 1),
                None => add("wrong spans".into(), 1),
            },
            T::A(s) if s.parse::<f64>().is_ok() => add("numbers".into(), 1),
            T::A(s) => add(s.clone(), 1),
            T::Q(s) => {
                add("bytes of strings".into(), s.len() as i64);
                if s.len() <= 12 {
                    add(format!("string {s:?}"), 1);
                }
            }
            T::N(n, _) | T::U(n, _) => add(n.clone(), 1),
            T::L(v) => add("elements".into(), v.len() as i64),
        });
    }
    add("statements".into(), p.stmts.len() as i64);
    for i in &p.issues {
        add(format!("{} {:?} at {:?}", if i.err { "error" } else { "warning" }, i.msg.split(['`', '\'']).next().unwrap_or(""), if i.seg.len() <= 12 { &i.seg } else { "" }), 1);
    }
    Ok(m)
}
/// A row of the tables: name, dialect it is well-formed in (None: not known to be), the text of n repetitions.
struct Row {
    name: &'static str,
    valid: Option<&'static str>,
    pre: &'static str,
    unit: &'static str,
    mid: &'static str,
    close: &'static str,
    suf: &'static str,
    nest: bool,
}
impl Row {
    fn get(row: usize) -> Row {
        if row < BIG.len() {
            let (name, pre, unit, suf) = BIG[row];
            Row { name, valid: None, pre, unit, mid: "", close: "", suf, nest: false }
        } else if row < BIG.len() + MORE.len() {
            let (name, dia, pre, unit, suf) = MORE[row - BIG.len()];
            Row { name, valid: Some(dia), pre, unit, mid: "", close: "", suf, nest: false }
        } else {
            let (pre, unit, mid, close, suf) = NEST[row - BIG.len() - MORE.len()];
            Row { name: "nesting", valid: None, pre, unit, mid, close, suf, nest: true }
        }
    }
    fn show(&self) -> String {
        format!("{}: {}({}){}({}){}", self.name, self.pre, self.unit, self.mid, self.close, self.suf)
    }
    /// values, not counts
    fn skip(&self) -> bool {
        ["one number", "one decimal", "dollar digits"].contains(&self.name)
    }
    /// Whether the property is about what is repeated.
    fn of(&self, p: u32) -> bool {
        let first = self.pre.split(' ').chain(self.mid.split(' ')).chain(self.unit.trim_start().split(' ')).find(|w| !w.is_empty()).unwrap_or("");
        let has = |w: &str| self.pre.contains(w) || self.unit.contains(w) || self.mid.contains(w);
        let compound = has("BEGIN") || has("IF a THEN") || has("CASE WHEN a THEN SET") || has("CASE a WHEN 1 THEN SET") || has("SIGNAL");
        let query = ["SELECT", "WITH", "(", "(SELECT"].contains(&first);
        match p {
            5 => query && !has("FROM") && !has(";"),
            7 => query && (self.unit.contains('(') || self.pre.ends_with("(1") || has("CASE")) && !has(";"),
            8 => query && !has(";"),
            9 => has("FROM") || first == "UPDATE" || first == "DELETE",
            10 => ["INSERT", "UPDATE", "DELETE"].contains(&first),
            11 => self.pre.starts_with("CREATE TABLE"),
            12 => first == "CREATE" && !self.pre.starts_with("CREATE TABLE") && !compound,
            13 => first == "ALTER",
            14 => ["DROP", "RENAME", "SET"].contains(&first),
            15 => compound,
            _ => true,
        }
    }
}
fn rows() -> usize {
    BIG.len() + MORE.len() + NEST.len()
}
pub fn count() -> usize {
    rows() * 3
}
pub fn p04_counts(rec: &mut Rec, tape: &[u32]) -> Res {
    let i = tape.first().copied().unwrap_or(0) as usize % count();
    let (row, d) = (i / 3, i % 3);
    let sizes: &[usize] = if d == row % 3 { &[24, 34, 66, 130, 258, 600, 1_030, 66_000] } else { &[24, 258, 4_100] };
    counts(rec, row, d, sizes)
}
fn counts(rec: &mut Rec, row: usize, d: usize, sizes: &[usize]) -> Res {
    let r = Row::get(row);
    let mut o = Opts::plain(DIAS[d]);
    let valid = match r.valid {
        Some("m") => o.dia == Dia::Maria,
        Some("p") => o.dia == Dia::Pg,
        Some(_) => true,
        None => false,
    };
    if r.skip() {
        return Ok(());
    }
    o.args = if r.unit.contains('$') { Args::Dollar } else { Args::Question };
    o.list = true;
    o.wc = (row + d) % 2 == 0;
    o.wq = (row + d) % 4 < 2;
    let text = |n: usize| {
        let s = format!("{}{}{}{}{}", r.pre, r.unit.repeat(n), r.mid, r.close.repeat(n), r.suf);
        let end = if valid && !s.trim_end().ends_with(';') { ";" } else { "" };
        s + end
    };
    let a = census(&text(20), &o)?;
    if valid && a.keys().any(|k| k.starts_with("error")) {
        return Err(format!("an error is reported for a well-formed text: {a:?}\n{}", input(&text(20), &o)));
    }
    rec.case(true, &(row, d), || format!("{:?} {}", o.dia, r.show()));
    let sizes: &[usize] = if r.nest { &[24, 34, 66, 130, 200] } else { sizes };
    affine(rec, &o, &text, sizes)
}
/// The same for the rows of one property, up to the next power of two.
fn long(rec: &mut Rec, tape: &[u32], p: u32) -> Res {
    let i = tape.first().copied().unwrap_or(0) as usize;
    let v = of(p);
    if v.is_empty() {
        return Ok(());
    }
    counts(rec, v[i / 3 % v.len()], i % 3, if i % 3 == i / 3 % 3 { &[24, 34, 66, 130, 258, 600, 1_030, 4_098, 32_768, 65_536, 131_072] } else { &[26, 70, 520, 2_050] })
}
fn of(p: u32) -> Vec<usize> {
    (0..rows()).filter(|r| Row::get(*r).of(p)).collect()
}
macro_rules! longs {
    ($($n:ident $c:ident $l:ident $p:literal $k:expr;)*) => {$(
        fn $c() -> usize {
            of($p).len() * 3
        }
        fn $n(rec: &mut Rec, tape: &[u32]) -> Res {
            long(rec, tape, $p)
        }
        fn $l(rec: &mut Rec, tape: &[u32]) -> Res {
            lists(rec, tape, &$k)
        }
    )*
        /// The checks of repetitions of a property of the statements.
        pub fn subs(p: u32) -> Vec<Sub> {
            match p {
                $($p => vec![
                    Sub { name: "long", how: How::Each($c), quick: 0, times: 1, f: $n },
                    Sub { name: "lists", how: How::Tape(200), quick: 2_000, times: 25, f: $l },
                ],)*
                _ => vec![],
            }
        }
    };
}
longs! {
    p05_long p05_count p05_lists 5 [Kind::Query];
    p07_long p07_count p07_lists 7 [Kind::Query];
    p08_long p08_count p08_lists 8 [Kind::Query];
    p09_long p09_count p09_lists 9 [Kind::Query, Kind::Update, Kind::Delete];
    p10_long p10_count p10_lists 10 [Kind::Insert, Kind::Insert, Kind::Update, Kind::Delete];
    p11_long p11_count p11_lists 11 [Kind::CreateTable];
    p12_long p12_count p12_lists 12 [Kind::CreateOther];
    p13_long p13_count p13_lists 13 [Kind::Alter];
    p14_long p14_count p14_lists 14 [Kind::Drop, Kind::Drop, Kind::Admin];
    p15_long p15_count p15_lists 15 [Kind::Compound];
}
/// From 20 repetitions on, everything occurs a fixed number of times more with each two.
fn affine(rec: &mut Rec, o: &Opts, text: &dyn Fn(usize) -> String, sizes: &[usize]) -> Res {
    let (a, b) = (census(&text(20), o)?, census(&text(22), o)?);
    for &n in sizes {
        let src = text(n);
        if src.len() > 4_000_000 {
            continue;
        }
        rec.extra += 1;
        let c = census(&src, o)?;
        let keys: std::collections::BTreeSet<&String> = a.keys().chain(b.keys()).chain(c.keys()).collect();
        for k in keys {
            let [x, y, z] = [&a, &b, &c].map(|m| m.get(k).copied().unwrap_or(0));
            if 2 * (z - x) != (y - x) * (n as i64 - 20) {
                return Err(format!("{k}: {z} with {n} repetitions, where 20 give {x} and 22 give {y}\n20 repetitions: {}", input(&text(20), o)));
            }
        }
    }
    Ok(())
}
/// An element of a list in any statement repeated: with its comma, or a clause as it is.
pub fn p04_lists(rec: &mut Rec, tape: &[u32]) -> Res {
    lists(rec, tape, &[])
}
fn lists(rec: &mut Rec, tape: &[u32], kinds: &[Kind]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    g.budget = 60;
    let t = if kinds.is_empty() {
        valid_tokens(&mut g)
    } else {
        let k = g.pick(kinds);
        g.statement(k);
        std::mem::take(&mut g.toks)
    };
    if t.len() < 3 {
        return Ok(());
    }
    let commas: Vec<usize> = (0..t.len()).filter(|i| t[*i].text == ",").collect();
    let (i, j) = if commas.is_empty() || g.p(1, 3) {
        // some tokens with their brackets
        let i = 1 + g.c(t.len() as u32 - 1) as usize;
        (i, (i + 1 + g.c(8) as usize).min(t.len()))
    } else {
        let i = commas[g.c(commas.len() as u32) as usize];
        // up to the next comma or closing bracket
        let mut depth = 0;
        let j = (i + 1..t.len()).find(|j| {
            match t[*j].text.as_str() {
                "(" => depth += 1,
                ")" => depth -= 1,
                _ => {}
            }
            depth < 0 || depth == 0 && t[*j].text == ","
        });
        (i, j.unwrap_or(t.len()))
    };
    let mut depth = 0i32;
    for x in &t[i..j] {
        depth += match x.text.as_str() {
            "(" => 1,
            ")" => -1,
            _ => 0,
        };
        if depth < 0 {
            return Ok(());
        }
    }
    if depth != 0 {
        return Ok(());
    }
    let (pre, unit, suf) = (&t[..i], &t[i..j], &t[j..]);
    let [pre, unit, suf] = [pre, unit, suf].map(|t| render(t, &mut Layout::new(0, 0)).0);
    let text = |n: usize| format!("{pre} {} {suf};", format!("{unit} ").repeat(n));
    rec.case(true, &(&pre, &unit, &suf, o.show()), || format!("{:?} {pre} ({unit}) {suf}", o.dia));
    affine(rec, &o, &text, &[24, 70, [130, 260, 300, 600, 1_030][g.c(5) as usize]])
}

// ---- P27 -----------------------------------------------------------------------------
const FAULTS: [&str; 6] = ["", "\\", "]", "^", ";", "é"];
pub fn p27_far_count() -> usize {
    rows() * 3 * FAULTS.len()
}
/// What goes wrong behind n repetitions is reported at the same distance behind them for every n.
pub fn p27_far(rec: &mut Rec, tape: &[u32]) -> Res {
    let i = tape.first().copied().unwrap_or(0) as usize % p27_far_count();
    let (row, d, c) = (i / 3 / FAULTS.len(), i % 3, FAULTS[i / 3 % FAULTS.len()]);
    let r = Row::get(row);
    if r.name.starts_with("one ") || r.name.starts_with("unterminated") || r.name == "quoted name" || r.name == "interval parts" || r.skip() {
        return Ok(());
    }
    let mut o = Opts::plain(DIAS[d]);
    o.args = if r.unit.contains('$') { Args::Dollar } else { Args::Question };
    o.list = true;
    let whole = |n: usize| format!("{}{}{}{}{};", r.pre, r.unit.repeat(n), r.mid, r.close.repeat(n), r.suf);
    if parse(&whole(3), &o, true)?.errors() > 0 || parse(&whole(4), &o, true)?.errors() > 0 {
        return Ok(());
    }
    rec.case(true, &(row, d, c), || format!("{:?} {} with {c:?}", o.dia, r.show()));
    // the fault stands behind the repetitions, in the next one, or behind it in what follows
    let next = format!("{}{}{}{}", r.unit, r.mid, r.close, r.suf);
    let mut cuts: Vec<usize> = next.match_indices([' ', ',', '(', ')', ';']).map(|(i, _)| i).collect();
    cuts.extend([0, r.unit.len(), next.len()]);
    cuts.sort_unstable();
    cuts.dedup();
    let sizes: &[usize] = if r.nest { &[4, 5, 6, 9, 17, 34, 66, 130] } else { &[4, 5, 6, 7, 9, 13, 17, 33, 34, 65, 129, 258, 600, 1_030] };
    for cut in cuts {
        for rest in ["", " a, b; SELECT 1;"] {
            if c.is_empty() && !rest.is_empty() {
                continue;
            }
            let first = |n: usize| -> Result<Option<(i64, i64)>, String> {
                let head = format!("{}{}", r.pre, r.unit.repeat(n));
                let src = format!("{head}{} {c}{rest}", &next[..cut]);
                let p = parse(&src, &o, true)?;
                Ok(p.first_error().map(|e| (e.sp.0 as i64 - head.len() as i64, e.sp.1 as i64 - head.len() as i64)))
            };
            let want = first(3)?;
            for &n in sizes {
                rec.extra += 1;
                let got = first(n)?;
                if got != want {
                    return Err(format!(
                        "behind 3 repetitions the first error is at {want:?}, behind {n} at {got:?} (counted from the end of the repetitions)\n{}",
                        input(&format!("{}{}{} {c}{rest}", r.pre, r.unit.repeat(3), &next[..cut]), &o)
                    ));
                }
            }
        }
    }
    Ok(())
}
