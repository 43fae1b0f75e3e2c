//! P23 dialect gates and portable statements, P24 names.

use crate::dict;
use crate::faithful::DIAS;
use crate::gen::*;
use crate::misc::Kind;
use crate::mutate::*;
use crate::parse::*;
use crate::run::*;
use crate::select::Sel;
use crate::tree::*;
use crate::words::*;

const M: u8 = 1;
const P: u8 = 2;
const L: u8 = 4;
pub fn bit(d: Dia) -> u8 {
    match d {
        Dia::Maria => M,
        Dia::Pg => P,
        Dia::Lite => L,
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Wrap {
    /// a SELECT: may stand in other statements
    Sel,
    /// a data statement: may stand in compound statements
    Data,
    No,
}
/// Constructs, the dialects that have them, and the same statement without them.
/// {e} expression, {t} table name, {i} name, {q} query, {s} string.
const GATES: &[(&str, &str, u8, Wrap)] = &[
    ("INSERT INTO {t} ({i}) VALUES ({e}) ON DUPLICATE KEY UPDATE {i} = {e}", "INSERT INTO {t} ({i}) VALUES ({e})", M, Wrap::Data),
    ("INSERT INTO {t} SET {i} = {e} ON DUPLICATE KEY UPDATE {i} = {e}, {i} = {e}", "INSERT INTO {t} SET {i} = {e}", M, Wrap::Data),
    ("INSERT INTO {t} ({i}) SELECT {e} FROM {t} ON DUPLICATE KEY UPDATE {i} = {e}", "INSERT INTO {t} ({i}) SELECT {e} FROM {t}", M, Wrap::Data),
    ("REPLACE INTO {t} ({i}) VALUES ({e}) ON DUPLICATE KEY UPDATE {i} = {e}", "REPLACE INTO {t} ({i}) VALUES ({e})", M, Wrap::Data),
    ("REPLACE {t} SET {i} = {e} ON DUPLICATE KEY UPDATE {i} = {e}", "REPLACE {t} SET {i} = {e}", M, Wrap::Data),
    ("INSERT IGNORE INTO {t} ({i}) VALUES ({e}) ON DUPLICATE KEY UPDATE {i} = {e} RETURNING {e}", "INSERT IGNORE INTO {t} ({i}) VALUES ({e}) RETURNING {e}", M, Wrap::Data),
    ("REPLACE INTO {t} ({i}) VALUES ({e}) ON CONFLICT DO NOTHING", "REPLACE INTO {t} ({i}) VALUES ({e})", P, Wrap::Data),
    ("REPLACE INTO {t} ({i}) SELECT {e} FROM {t} WHERE {e} ON CONFLICT ({i}) DO UPDATE SET {i} = {e} WHERE {e}", "REPLACE INTO {t} ({i}) VALUES ({e})", P, Wrap::Data),
    ("INSERT INTO {t} ({i}) SELECT {e} FROM {t} ON CONFLICT ON CONSTRAINT {i} DO UPDATE SET {i} = {e}", "INSERT INTO {t} ({i}) SELECT {e} FROM {t}", P, Wrap::Data),
    ("INSERT INTO {t} ({i}) VALUES ({e}) ON CONFLICT DO NOTHING", "INSERT INTO {t} ({i}) VALUES ({e})", P, Wrap::Data),
    ("INSERT INTO {t} ({i}) VALUES ({e}) ON CONFLICT ({i}) DO UPDATE SET {i} = {e}", "INSERT INTO {t} ({i}) VALUES ({e})", P, Wrap::Data),
    ("INSERT INTO {t} ({i}, {i}) VALUES ({e}, {e}), ({e}, {e}) ON CONFLICT ({i}, {i}) DO UPDATE SET {i} = {e} WHERE {e} RETURNING {e}", "INSERT INTO {t} ({i}) VALUES ({e})", P, Wrap::Data),
    ("INSERT INTO {t} ({i}) VALUES ({e}) ON CONFLICT ON CONSTRAINT {i} DO NOTHING", "INSERT INTO {t} ({i}) VALUES ({e})", P, Wrap::Data),
    ("SELECT {e} FROM {t} USE INDEX ({i})", "SELECT {e} FROM {t}", M, Wrap::Sel),
    ("SELECT {e} FROM {t} AS x IGNORE INDEX FOR JOIN ({i}, {i}) WHERE {e}", "SELECT {e} FROM {t} AS x WHERE {e}", M, Wrap::Sel),
    ("SELECT {e} FROM {t}, {t} FORCE INDEX ({i})", "SELECT {e} FROM {t}, {t}", M, Wrap::Sel),
    ("SELECT {e} FROM {t} JOIN {t} USE INDEX FOR ORDER BY ({i}) ON {e}", "SELECT {e} FROM {t} JOIN {t} ON {e}", M, Wrap::Sel),
    ("UPDATE {t} USE INDEX ({i}) SET {i} = {e}", "UPDATE {t} SET {i} = {e}", M, Wrap::Data),
    ("WITH {i} AS ({q}) {q}", "{q}", P, Wrap::No),
    ("WITH {i} AS ({q}), {i} AS ({q}) UPDATE {t} SET {i} = {e}", "UPDATE {t} SET {i} = {e}", P, Wrap::No),
    ("WITH {i} AS ({q}) DELETE FROM {t}", "DELETE FROM {t}", P, Wrap::No),
    ("UPDATE {t} SET {i} = {e} RETURNING {e}", "UPDATE {t} SET {i} = {e}", P, Wrap::Data),
    ("UPDATE {t} SET {i} = {e} WHERE {e} RETURNING {e} AS x, {e}", "UPDATE {t} SET {i} = {e} WHERE {e}", P, Wrap::Data),
    ("SELECT {e} FROM {t} FOR NO KEY UPDATE", "SELECT {e} FROM {t} FOR UPDATE", P, Wrap::Sel),
    ("SELECT {e} FROM {t} FOR KEY SHARE OF x NOWAIT", "SELECT {e} FROM {t} FOR SHARE OF x NOWAIT", P, Wrap::Sel),
    ("SELECT {e} FROM {t} WHERE {e} LIMIT 1 FOR KEY SHARE SKIP LOCKED", "SELECT {e} FROM {t} WHERE {e} LIMIT 1 FOR UPDATE SKIP LOCKED", P, Wrap::Sel),
    ("CREATE TYPE {i} AS ENUM ({s}, {s})", "SET {i} = {e}", P, Wrap::No),
    ("CREATE INDEX {i} ON {t} ({i} TEXT_PATTERN_OPS)", "CREATE INDEX {i} ON {t} ({i})", P, Wrap::No),
    ("CREATE INDEX {i} ON {t} ({i}, {i} varchar_pattern_ops)", "CREATE INDEX {i} ON {t} ({i}, {i})", P, Wrap::No),
    ("CREATE UNIQUE INDEX {i} ON {t} ({i} INT8_OPS, {i})", "CREATE UNIQUE INDEX {i} ON {t} ({i}, {i})", P, Wrap::No),
    ("CREATE INDEX {i} ON {t} ({i} INT4_OPS)", "CREATE INDEX {i} ON {t} ({i})", P, Wrap::No),
    ("CREATE INDEX {i} ON {t} ({i} INT2_OPS)", "CREATE INDEX {i} ON {t} ({i})", P, Wrap::No),
    ("CREATE INDEX {i} ON {t} ({i} BPCHAR_PATTERN_OPS)", "CREATE INDEX {i} ON {t} ({i})", P, Wrap::No),
    ("CREATE INDEX {i} ON {t} ({i}) WHERE {e}", "CREATE INDEX {i} ON {t} ({i})", P | L, Wrap::No),
    ("CREATE UNIQUE INDEX IF NOT EXISTS {i} ON {t} ({i}, {i}) WHERE {e}", "CREATE UNIQUE INDEX IF NOT EXISTS {i} ON {t} ({i}, {i})", P | L, Wrap::No),
    ("DROP INDEX {i} ON {t}", "DROP TABLE {t}", M | L, Wrap::No),
    ("DROP INDEX IF EXISTS {i} ON {t}", "DROP TABLE {t}", M | L, Wrap::No),
    ("DROP INDEX {i}", "DROP TABLE {t}", P | L, Wrap::No),
    ("DROP INDEX IF EXISTS {i}", "DROP TABLE {t}", P | L, Wrap::No),
    ("ALTER TABLE {t} ADD COLUMN IF NOT EXISTS {i} INT", "ALTER TABLE {t} ADD COLUMN {i} INT", P | L, Wrap::No),
    ("ALTER TABLE {t} DROP COLUMN {i}, ADD COLUMN IF NOT EXISTS {i} TEXT NOT NULL", "ALTER TABLE {t} DROP COLUMN {i}, ADD COLUMN {i} TEXT NOT NULL", P | L, Wrap::No),
    ("DROP TABLE {t} CASCADE", "DROP TABLE {t}", P, Wrap::No),
    ("DROP TABLE IF EXISTS {t}, {t} CASCADE", "DROP TABLE IF EXISTS {t}, {t}", P, Wrap::No),
    ("SELECT {e} FROM \"a\"", "SELECT {e} FROM a", P, Wrap::Sel),
    ("SELECT {e} FROM a.\"b\" WHERE {e}", "SELECT {e} FROM a.b WHERE {e}", P, Wrap::Sel),
    ("SELECT {e} FROM {t} AS \"x y\"", "SELECT {e} FROM {t} AS x", P, Wrap::Sel),
    ("SELECT a.\"b\"", "SELECT a.b", P, Wrap::Sel),
    ("INSERT INTO {t} (\"a\") VALUES ({e})", "INSERT INTO {t} (a) VALUES ({e})", P, Wrap::Data),
    ("INSERT INTO \"t\" (a) VALUES ({e})", "INSERT INTO t (a) VALUES ({e})", P, Wrap::Data),
    ("UPDATE {t} SET \"a\" = {e}", "UPDATE {t} SET a = {e}", P, Wrap::Data),
    ("DELETE FROM \"a\" WHERE {e}", "DELETE FROM a WHERE {e}", P, Wrap::Data),
    ("CREATE TABLE \"a\" (a INT)", "CREATE TABLE a (a INT)", P, Wrap::No),
    ("CREATE TABLE a (\"a\" INT)", "CREATE TABLE a (a INT)", P, Wrap::No),
    ("CREATE VIEW \"v\" AS {q}", "CREATE VIEW v AS {q}", P, Wrap::No),
    ("CREATE INDEX \"a\" ON {t} (a)", "CREATE INDEX a ON {t} (a)", P, Wrap::No),
    ("ALTER TABLE {t} DROP COLUMN \"a\"", "ALTER TABLE {t} DROP COLUMN a", P, Wrap::No),
    ("DROP TABLE \"a\"", "DROP TABLE a", P, Wrap::No),
    ("TRUNCATE TABLE a.\"b\"", "TRUNCATE TABLE a.b", P, Wrap::No),
    ("SELECT {e} FROM `a`", "SELECT {e} FROM a", M | L, Wrap::Sel),
    ("SELECT {e} FROM a.`b` WHERE {e}", "SELECT {e} FROM a.b WHERE {e}", M | L, Wrap::Sel),
    ("SELECT {e} AS `x` FROM {t}", "SELECT {e} AS x FROM {t}", M | L, Wrap::Sel),
    ("SELECT {e} FROM {t} AS `x y`", "SELECT {e} FROM {t} AS x", M | L, Wrap::Sel),
    ("SELECT {e} FROM {t} WHERE `a` = {e}", "SELECT {e} FROM {t} WHERE a = {e}", M | L, Wrap::Sel),
    ("SELECT {e}, a.`b`", "SELECT {e}, a.b", M | L, Wrap::Sel),
    ("SELECT {e} FROM {t} JOIN {t} USING (`a`)", "SELECT {e} FROM {t} JOIN {t} USING (a)", M | L, Wrap::Sel),
    ("INSERT INTO {t} (a, `b`) VALUES ({e}, {e})", "INSERT INTO {t} (a, b) VALUES ({e}, {e})", M | L, Wrap::Data),
    ("UPDATE {t} SET `a` = {e}", "UPDATE {t} SET a = {e}", M | L, Wrap::Data),
    ("DELETE FROM `a`", "DELETE FROM a", M | L, Wrap::Data),
    ("CREATE TABLE a (a INT, `b` INT)", "CREATE TABLE a (a INT, b INT)", M | L, Wrap::No),
    ("CREATE TABLE `a` (a INT)", "CREATE TABLE a (a INT)", M | L, Wrap::No),
    ("CREATE VIEW `v` AS {q}", "CREATE VIEW v AS {q}", M | L, Wrap::No),
    ("ALTER TABLE {t} MODIFY `a` INT", "ALTER TABLE {t} MODIFY a INT", M | L, Wrap::No),
    ("DROP VIEW {t}, `a`", "DROP VIEW {t}, a", M | L, Wrap::No),
    ("RENAME TABLE {t} TO `a`", "RENAME TABLE {t} TO a", M | L, Wrap::No),
    ("CREATE TABLE {t} ({i} my_type)", "CREATE TABLE {t} ({i} INT)", P, Wrap::No),
    ("ALTER TABLE {t} ADD COLUMN {i} uuid NOT NULL", "ALTER TABLE {t} ADD COLUMN {i} INT NOT NULL", P, Wrap::No),
    ("SELECT CAST({e} AS citext)", "SELECT CAST({e} AS CHAR)", P, Wrap::Sel),
    ("CREATE TABLE {t} ({i} DOUBLE PRECISION)", "CREATE TABLE {t} ({i} INT)", P, Wrap::No),
    ("CREATE TABLE {t} ({i} DOUBLE)", "CREATE TABLE {t} ({i} INT)", M | L, Wrap::No),
    ("CREATE TABLE {t} ({i} INT GENERATED ALWAYS AS IDENTITY)", "CREATE TABLE {t} ({i} INT)", P, Wrap::No),
    ("CREATE TABLE {t} ({i} INT GENERATED ALWAYS AS ({e}))", "CREATE TABLE {t} ({i} INT)", M | L, Wrap::No),
    ("CREATE FUNCTION {i} ({i} INT) RETURNS INT RETURN {e}", "SET {i} = {e}", M, Wrap::No),
    ("CREATE FUNCTION {i} ({i} INT) RETURNS INT AS $$ x $$ LANGUAGE SQL", "SET {i} = {e}", P, Wrap::No),
    ("CREATE FUNCTION {i} ({i} INT) RETURNS INT LANGUAGE SQL", "SET {i} = {e}", P | L, Wrap::No),
];
pub const WRAPS: &[(Wrap, &str)] = &[
    (Wrap::No, "{}"),
    (Wrap::Sel, "SELECT * FROM ({}) AS d"),
    (Wrap::Sel, "SELECT ({}) AS s"),
    (Wrap::Sel, "SELECT a FROM b WHERE EXISTS ({})"),
    (Wrap::Sel, "SELECT a FROM b WHERE c IN ({})"),
    (Wrap::Sel, "({}) UNION ALL SELECT 1"),
    (Wrap::Sel, "SELECT 1 UNION ({})"),
    (Wrap::Sel, "INSERT INTO t (a) {}"),
    (Wrap::Sel, "CREATE VIEW v AS {}"),
    (Wrap::Sel, "UPDATE t SET a = ({})"),
    (Wrap::Sel, "DELETE FROM t WHERE a = ({})"),
    (Wrap::Data, "CREATE TRIGGER x BEFORE INSERT ON t FOR EACH ROW {}"),
    (Wrap::Data, "CREATE TRIGGER x AFTER UPDATE ON t FOR EACH ROW BEGIN SET a = 1; {}; END"),
    (Wrap::Data, "IF a THEN {}; END IF"),
    (Wrap::Data, "IF a THEN SET b = 1; ELSE {}; END IF"),
    (Wrap::Data, "CASE WHEN a THEN {}; END CASE"),
    (Wrap::Data, "DO $$ BEGIN {}; END $$"),
];
fn piece(g: &mut Gen, f: impl FnOnce(&mut Gen)) -> String {
    g.out.clear();
    g.toks.clear();
    g.budget = 25;
    f(g);
    std::mem::take(&mut g.out)
}
pub fn fill(g: &mut Gen, t: &str) -> String {
    let mut r = String::new();
    let mut rest = t;
    while let Some(p) = rest.find('{') {
        r.push_str(&rest[..p]);
        r.push_str(&match &rest[p + 1..p + 2] {
            "e" => {
                // brackets: no operator of the expression may reach into what follows
                let e = piece(g, |g| {
                    g.depth = 2;
                    g.deeper(|g| g.expr());
                });
                format!("({e})")
            }
            "t" => piece(g, |g| {
                g.qname();
            }),
            "i" => piece(g, |g| {
                g.ident();
            }),
            "s" => piece(g, |g| {
                g.sstring();
            }),
            // flags of REPLACE
            "r" => (0..g.c(5)).map(|_| g.pick(&["LOW_PRIORITY", "DELAYED"])).collect::<Vec<_>>().join(" "),
            _ => piece(g, |g| {
                g.depth = 2;
                g.select(Sel::Free);
            }),
        });
        rest = &rest[p + 3..];
    }
    r.push_str(rest);
    r
}
pub fn portable(tape: &[u32]) -> Gen<'_> {
    let mut g = Gen::new(tape, Opts::plain(Dia::Maria));
    g.portable = true;
    g.plain_strings = true;
    g.qid_ok = false;
    g
}
fn p23_gates(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = portable(tape);
    // enumerate the constructs; the rest of the tape fills them
    let (c, without, who, wrap) = GATES[g.raw_choice() as usize % GATES.len()];
    let ws: Vec<&str> = WRAPS.iter().filter(|w| w.0 == Wrap::No || w.0 == wrap).map(|w| w.1).collect();
    let w = ws[g.raw_choice() as usize % ws.len()];
    let s = w.replace("{}", &fill(&mut g, c));
    let b = w.replace("{}", &fill(&mut g, without));
    rec.case(true, &s, || s.clone());
    rec.extra = 5;
    for d in DIAS {
        let o = Opts::plain(d);
        let q = one(&b, &o)?;
        if let Some(e) = q.first_error() {
            return Err(format!("an error is reported for a statement of every dialect: {} at {:?}\n{}", e.msg, e.sp, input(&b, &o)));
        }
        let p = one(&s, &o)?;
        if who & bit(d) != 0 {
            if let Some(e) = p.first_error() {
                return Err(format!("a construct of the dialect is an error: {} at {:?}\n{}", e.msg, e.sp, input(&s, &o)));
            }
        } else if p.errors() == 0 {
            return Err(format!("a construct of other dialects is accepted\n{}\n{}", input(&s, &o), p.show()));
        }
    }
    Ok(())
}
fn all_same(rec: &mut Rec, s: &str, args: Args, script: bool) -> Result<Parsed, String> {
    let mut first: Option<(Opts, Parsed)> = None;
    for d in DIAS {
        let mut o = Opts::plain(d);
        o.args = args;
        let p = parse(s, &o, script)?;
        rec.extra += 1;
        match &first {
            None => first = Some((o, p)),
            Some((o0, p0)) => {
                if p0.stmts != p.stmts || p0.issues != p.issues {
                    let df = p0.stmts.iter().zip(&p.stmts).find_map(|(a, b)| diff(a, b)).unwrap_or_default();
                    return Err(format!(
                        "text without constructs of one dialect parses differently {df}\n{}\n{:?}:\n{}\n{:?}:\n{}",
                        input(s, &o), o0.dia, p0.show(), d, p.show()
                    ));
                }
            }
        }
    }
    Ok(first.unwrap().1)
}
fn p23_portable(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = portable(tape);
    g.o.args = crate::faithful::STYLES[g.c(4) as usize];
    let args = g.o.args;
    g.budget = 200;
    g.any_statement();
    let s = g.out.clone();
    rec.labels = g.feat.clone();
    rec.case(g.toks.len() > 5, &s, || s.clone());
    let p = all_same(rec, &s, args, false)?;
    if let Some(e) = p.first_error() {
        return Err(format!("an error is reported for a statement of every dialect: {} at {:?}\n{}", e.msg, e.sp, input(&s, &Opts::plain(Dia::Maria))));
    }
    Ok(())
}
/// Malformed queries and data statements without words that belong to one dialect.
fn p23_mutants(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = portable(tape);
    g.o.args = crate::faithful::STYLES[g.c(4) as usize];
    let args = g.o.args;
    let script = g.p(1, 3);
    g.budget = 120;
    let k = g.pick(&[Kind::Query, Kind::Query, Kind::Insert, Kind::Update, Kind::Delete, Kind::Admin, Kind::Drop]);
    g.statement(k);
    let mut t = std::mem::take(&mut g.toks);
    g.budget = 300;
    let n = 1 + g.c(3);
    mutate(&mut g, &mut t, n);
    const GATED: &[&str] = &[
        "DUPLICATE", "CONFLICT", "USE", "FORCE", "IGNORE", "WITH", "RETURNING", "KEY", "TYPE", "CREATE", "ALTER", "CAST", "INDEX", "CASCADE",
        "CONVERT", "DELIMITER", "FUNCTION", "GENERATED", "REAL", "DOUBLE",
    ];
    t.retain(|t| {
        crate::layout::plain_token(t) && !t.text.contains(['"', '`', '\\', ':']) && !GATED.iter().any(|w| t.text.eq_ignore_ascii_case(w))
    });
    let s = glued(&mut g, &t);
    let ok = all_same(rec, &s, args, script)?.errors() == 0;
    rec.labels.insert(if ok { "accepted" } else { "rejected" });
    rec.case(t.len() > 3, &s, || s.clone());
    Ok(())
}

// ---- P24 -----------------------------------------------------------------------------
/// Statements with a name at {}.  Dialects, and whether the place is an expression.
const PLACES: &[(&str, u8)] = &[
    ("SELECT 1 FROM {}", 7),
    ("SELECT 1 FROM {} WHERE 1", 7),
    ("SELECT 1 FROM a.{}", 7),
    ("SELECT 1 FROM {}.a", 7),
    ("SELECT 1 FROM a AS {}", 7),
    ("SELECT 1 FROM a AS {} JOIN b ON 1", 7),
    ("SELECT 1 FROM a, {}", 7),
    ("SELECT 1 FROM a JOIN {} ON 1", 7),
    ("SELECT 1 FROM a LEFT JOIN {} USING (a)", 7),
    ("SELECT 1 FROM a JOIN b USING ({})", 7),
    ("SELECT 1 FROM a JOIN b USING (a, {})", 7),
    ("SELECT 1 FROM (SELECT 1) AS {}", 7),
    ("SELECT 1 FROM a USE INDEX ({})", M),
    ("SELECT 1 AS {}", 7),
    ("SELECT 1 AS {} FROM a", 7),
    ("SELECT 1 FROM a FOR UPDATE OF {}", 7),
    ("SELECT a.{}", 7),
    ("SELECT a.{} FROM a", 7),
    ("SELECT a.b.{} FROM a", 7),
    ("INSERT INTO {} (a) VALUES (1)", 7),
    ("INSERT INTO a.{} (a) VALUES (1)", 7),
    ("INSERT INTO a ({}) VALUES (1)", 7),
    ("INSERT INTO a (b, {}, c) VALUES (1, 2, 3)", 7),
    ("INSERT INTO a SET {} = 1", 7),
    ("INSERT INTO a (b) VALUES (1) ON CONFLICT ({}) DO NOTHING", P),
    ("INSERT INTO a (b) VALUES (1) ON CONFLICT ON CONSTRAINT {} DO NOTHING", P),
    ("INSERT INTO a (b) VALUES (1) ON DUPLICATE KEY UPDATE {} = 1", M),
    ("REPLACE INTO {} (a) VALUES (1)", 7),
    ("UPDATE {} SET a = 1", 7),
    ("UPDATE a SET {} = 1", 7),
    ("UPDATE a SET b = 1, {} = 2 WHERE 1", 7),
    ("UPDATE a SET {}.b = 1", 7),
    ("DELETE FROM {}", 7),
    ("DELETE FROM {} WHERE 1", 7),
    ("DELETE FROM a USING {} WHERE 1", 7),
    ("WITH {} AS (SELECT 1) SELECT 1", P),
    ("WITH a AS (SELECT 1), {} AS (SELECT 1) SELECT 1", P),
    ("WITH a AS (SELECT 1), b AS (SELECT 1), {} AS (SELECT 1) DELETE FROM a", P),
    ("CREATE TABLE {} (a INT)", 7),
    ("CREATE TABLE IF NOT EXISTS {} (a INT)", 7),
    ("CREATE TABLE a ({} INT)", 7),
    ("CREATE TABLE a (b INT, {} INT)", 7),
    ("CREATE VIEW {} AS SELECT 1", 7),
    ("CREATE INDEX {} ON a (b)", 7),
    ("CREATE INDEX a ON {} (b)", 7),
    ("CREATE INDEX a ON b ({})", 7),
    ("CREATE INDEX a ON b (c, {})", 7),
    ("CREATE TRIGGER {} BEFORE INSERT ON a FOR EACH ROW SET b = 1", 7),
    ("CREATE TRIGGER a BEFORE INSERT ON {} FOR EACH ROW SET b = 1", 7),
    ("CREATE FUNCTION {} (a INT) RETURNS INT LANGUAGE SQL", P | L),
    ("CREATE FUNCTION {} (a INT) RETURNS INT RETURN 1", M),
    ("CREATE FUNCTION a ({} INT) RETURNS INT RETURN 1", M),
    ("CREATE TYPE {} AS ENUM ('a')", P),
    ("ALTER TABLE {} DROP COLUMN a", 7),
    ("ALTER TABLE a.{} DROP COLUMN a", 7),
    ("ALTER TABLE a ADD COLUMN {} INT", 7),
    ("ALTER TABLE a MODIFY {} INT", 7),
    ("ALTER TABLE a DROP COLUMN {}", 7),
    ("ALTER TABLE a ADD CONSTRAINT {} PRIMARY KEY (b)", 7),
    ("ALTER TABLE a ADD FOREIGN KEY (b) REFERENCES {} (c)", 7),
    ("ALTER TABLE a ADD FOREIGN KEY ({}) REFERENCES b (c)", 7),
    ("ALTER TABLE a ADD INDEX {} (b)", 7),
    ("ALTER TABLE a ADD INDEX b ({})", 7),
    ("ALTER TABLE a ALTER COLUMN {} SET NOT NULL", 7),
    ("ALTER TABLE a OWNER TO {}", 7),
    ("DROP TABLE {}", 7),
    ("DROP TABLE a, {}", 7),
    ("DROP VIEW {}", 7),
    ("DROP DATABASE {}", 7),
    ("DROP SERVER {}", 7),
    ("DROP FUNCTION {}", 7),
    ("DROP PROCEDURE {}", 7),
    ("DROP TRIGGER {}", 7),
    ("DROP EVENT {}", 7),
    ("DROP INDEX {} ON a", M | L),
    ("DROP INDEX {}", P | L),
    ("TRUNCATE TABLE {}", 7),
    ("RENAME TABLE {} TO a", 7),
    ("RENAME TABLE a TO {}", 7),
    ("RENAME TABLE a TO b, {} TO c", 7),
    ("COPY {} (a) FROM STDIN", 7),
    ("COPY a ({}) FROM STDIN", 7),
];
/// Places where a name is a column in an expression.
const COLUMNS: &[(&str, u8)] = &[
    ("SELECT {} FROM a", 7),
    ("SELECT 1, {}", 7),
    ("SELECT a + {} * 2", 7),
    ("SELECT f({})", 7),
    ("SELECT f(1, {}, 2)", 7),
    ("SELECT {}.a FROM b", 7),
    ("SELECT {}.a.b FROM b", 7),
    ("SELECT {}.* FROM b", 7),
    ("SELECT CASE WHEN {} THEN 1 END", 7),
    ("SELECT CASE {} WHEN 1 THEN {} ELSE 1 END", 7),
    ("SELECT ({})", 7),
    ("SELECT - {}", 7),
    ("SELECT NOT {}", 7),
    ("SELECT {} IS NULL", 7),
    ("SELECT {} LIKE 'a'", 7),
    ("SELECT a IN (1, {})", 7),
    ("SELECT CAST({} AS CHAR)", 7),
    ("SELECT COUNT(DISTINCT {})", 7),
    ("SELECT 1 FROM a WHERE {} = 1", 7),
    ("SELECT 1 FROM a WHERE 1 = {}", 7),
    ("SELECT 1 FROM a WHERE b AND {}", 7),
    ("SELECT 1 FROM a GROUP BY {}", 7),
    ("SELECT 1 FROM a GROUP BY b, {} HAVING {}", 7),
    ("SELECT 1 FROM a ORDER BY {}", 7),
    ("SELECT 1 FROM a ORDER BY b DESC, {} ASC", 7),
    ("SELECT 1 FROM a JOIN b ON {} = 1", 7),
    ("INSERT INTO a (b) VALUES ({})", 7),
    ("INSERT INTO a (b) VALUES (1) ON DUPLICATE KEY UPDATE b = {}", M),
    ("UPDATE a SET b = {}", 7),
    ("UPDATE a SET b = 1 WHERE {}", 7),
    ("DELETE FROM a WHERE {} < 1", 7),
    ("IF {} THEN SELECT 1; END IF", 7),
    ("CREATE VIEW v AS SELECT {}", 7),
];
/// Replace the identifier at the place and move what follows it.
fn renamed(t: &T, at: usize, old: usize, value: &str, new: usize) -> T {
    let mv = |x: usize| if x >= at + old { x + new - old } else { x };
    fn put(t: &T, at: usize, value: &str) -> T {
        match t {
            T::N(n, f) => {
                let here = n == "Identifier" && matches!(f.last(), Some((_, T::S(x, _))) if *x == at);
                T::N(
                    n.clone(),
                    f.iter()
                        .map(|(k, v)| (k.clone(), if here && k == "value" { T::Q(value.to_string()) } else { put(v, at, value) }))
                        .collect(),
                )
            }
            T::U(n, v) => T::U(n.clone(), v.iter().map(|t| put(t, at, value)).collect()),
            T::L(v) => T::L(v.iter().map(|t| put(t, at, value)).collect()),
            t => t.clone(),
        }
    }
    put(t, at, value).map_spans(&|x, y| (mv(x), mv(y)))
}
/// A name that is certainly accepted: the tree to compare with.
fn model(place: &str, o: &Opts) -> Result<(Parsed, usize), String> {
    let at = place.find("{}").unwrap();
    let s = place.replace("{}", "zzz");
    let p = one(&s, o)?;
    if let Some(e) = p.first_error() {
        return Err(format!("an error is reported for a well-formed statement: {} at {:?}\n{}", e.msg, e.sp, input(&s, o)));
    }
    Ok((p, at))
}
fn is_name(place: &str, o: &Opts, written: &str, value: &str) -> Res {
    let (m, at) = model(place, o)?;
    let s = place.replace("{}", written);
    let p = one(&s, o)?;
    if let Some(e) = p.first_error() {
        return Err(format!("{written} is not accepted as a name: {} at {:?}\n{}", e.msg, e.sp, input(&s, o)));
    }
    let want: Vec<T> = m.stmts.iter().map(|t| renamed(t, at, 3, value, written.len())).collect();
    if let Some(d) = want.iter().zip(&p.stmts).find_map(|(a, b)| diff(a, b)) {
        return Err(format!("with {written} as a name the tree differs {d}\n{}", input(&s, o)));
    }
    Ok(())
}
fn case_of(w: &str, k: usize) -> String {
    match k {
        0 => w.to_string(),
        1 => w.to_ascii_lowercase(),
        _ => {
            let mut r = Rng(w.len() as u64 * 77 + w.bytes().map(u64::from).sum::<u64>());
            w.chars().map(|c| if r.c(2) == 0 { c.to_ascii_lowercase() } else { c }).collect()
        }
    }
}
fn p24_words_count() -> usize {
    KEYWORDS.len() * PLACES.len()
}
/// Every word at every place, quoted and unquoted.
fn p24_words(rec: &mut Rec, tape: &[u32]) -> Res {
    let i = tape.first().copied().unwrap_or(0) as usize % p24_words_count();
    let w = KEYWORDS[i % KEYWORDS.len()];
    let (place, who) = PLACES[i / KEYWORDS.len()];
    rec.case(true, &i, || format!("{w} at {place}"));
    for d in DIAS {
        if who & bit(d) == 0 {
            continue;
        }
        let o = Opts::plain(d);
        let w = case_of(w, i % 3);
        let quoted = if d == Dia::Pg { format!("\"{w}\"") } else { format!("`{w}`") };
        is_name(place, &o, &quoted, &w)?;
        rec.extra += 1;
        if reserved(&w) {
            let s = place.replace("{}", &w);
            let p = one(&s, &o)?;
            if p.errors() == 0 {
                return Err(format!("the reserved word {w} is accepted as a name\n{}\n{}", input(&s, &o), p.show()));
            }
        } else {
            is_name(place, &o, &w, &w)?;
        }
    }
    Ok(())
}
fn p24_columns_count() -> usize {
    KEYWORDS.len() * COLUMNS.len()
}
/// Every word as a column.
fn p24_columns(rec: &mut Rec, tape: &[u32]) -> Res {
    let i = tape.first().copied().unwrap_or(0) as usize % p24_columns_count();
    let w = KEYWORDS[i % KEYWORDS.len()];
    let (place, who) = COLUMNS[i / KEYWORDS.len()];
    if place.matches("{}").count() > 1 {
        // the second place is filled with a plain name
        let p = place.find("{}").unwrap();
        let rest = place[p + 2..].replace("{}", "zz");
        return column(rec, i, w, &format!("{}{}", &place[..p + 2], rest), who);
    }
    column(rec, i, w, place, who)
}
fn column(rec: &mut Rec, i: usize, w: &str, place: &str, who: u8) -> Res {
    rec.case(true, &i, || format!("{w} at {place}"));
    for d in DIAS {
        if who & bit(d) == 0 {
            continue;
        }
        let o = Opts::plain(d);
        let w = case_of(w, i % 3);
        let quoted = if d == Dia::Pg { format!("\"{w}\"") } else { format!("`{w}`") };
        is_name(place, &o, &quoted, &w)?;
        rec.extra += 1;
        // words that are operands without being names, and ones read as calls or flags
        const OPERANDS: &[&str] = &[
            "CURRENT_DATE", "CURRENT_TIME", "CURRENT_TIMESTAMP", "FALSE", "LOCALTIME", "LOCALTIMESTAMP", "NULL", "TRUE", "UTC_DATE", "UTC_TIME",
            "UTC_TIMESTAMP",
        ];
        const CALLS: &[&str] = &["CAST", "COUNT", "EXTRACT", "GROUP_CONCAT", "SQL_BUFFER_RESULT", "SQL_NO_CACHE", "TIMESTAMPADD", "TIMESTAMPDIFF"];
        let is = |v: &[&str]| v.iter().any(|x| x.eq_ignore_ascii_case(&w));
        if reserved(&w) {
            let s = place.replace("{}", &w);
            let p = one(&s, &o)?;
            if p.errors() == 0 && !is(OPERANDS) {
                return Err(format!("the reserved word {w} is accepted as a column\n{}\n{}", input(&s, &o), p.show()));
            }
        } else if !is(CALLS) {
            is_name(place, &o, &w, &w)?;
        }
    }
    Ok(())
}
const CALL_PLACES: &[&str] =
    &["SELECT 1 + {}(1, 2)", "UPDATE a SET b = {}(1, 2)", "SELECT ({}(1, 2))", "SELECT 1 FROM a WHERE {}(1, 2) = 1", "SELECT f({}(1, 2))"];
fn p24_calls_count() -> usize {
    KEYWORDS.len() * CALL_PLACES.len()
}
/// Every word as the name of a function.
fn p24_calls(rec: &mut Rec, tape: &[u32]) -> Res {
    let i = tape.first().copied().unwrap_or(0) as usize % p24_calls_count();
    let w = KEYWORDS[i % KEYWORDS.len()];
    let place = CALL_PLACES[i / KEYWORDS.len()];
    // reserved words that are functions, and words with a call syntax of their own
    const FUNCTIONS: &[&str] = &["INSERT", "LEFT", "REPEAT", "RIGHT"];
    const SYNTAX: &[&str] = &["CAST", "CHAR", "COUNT", "EXTRACT", "GROUP_CONCAT", "TIMESTAMPADD", "TIMESTAMPDIFF", "INTERVAL", "TRIM", "POSITION"];
    if SYNTAX.contains(&w) {
        return Ok(());
    }
    rec.case(true, &i, || format!("{w} at {place}"));
    for d in DIAS {
        let o = Opts::plain(d);
        let s = place.replace("{}", &case_of(w, i % 3));
        let p = one(&s, &o)?;
        rec.extra += 1;
        if reserved(w) && !EXPR_WORDS.contains(&w) && !FUNCTIONS.contains(&w) {
            if p.errors() == 0 {
                return Err(format!("the reserved word {w} is accepted as the name of a function\n{}\n{}", input(&s, &o), p.show()));
            }
        } else if let Some(e) = p.first_error() {
            return Err(format!("{w} is not accepted as the name of a function: {} at {:?}\n{}", e.msg, e.sp, input(&s, &o)));
        }
    }
    Ok(())
}
fn p24_variables_count() -> usize {
    (KEYWORDS.len() + 1) * 6
}
/// Every word in quotes as a system variable: never the keyword.
fn p24_variables(rec: &mut Rec, tape: &[u32]) -> Res {
    let i = tape.first().copied().unwrap_or(0) as usize % p24_variables_count();
    let w = KEYWORDS.get(i / 6).copied().unwrap_or("TIME_ZONE");
    let w = case_of(w, i % 3);
    let scope = ["session", "GLOBAL"][i / 3 % 2];
    rec.case(true, &i, || format!("@@{scope}.`{w}`"));
    for d in [Dia::Maria, Dia::Lite] {
        let o = Opts::plain(d);
        for place in ["SELECT @@{}", "SET a = 1 + @@{}", "SELECT a FROM b WHERE f(@@{}, c)"] {
            let tree = |n: &str| -> Result<String, String> {
                let s = place.replace("{}", &format!("{scope}.`{n}`"));
                let p = one(&s, &o)?;
                rec_ok(&p, &s, &o)?;
                let t: Vec<T> = p.stmts.iter().map(|t| t.map_spans(&|_, _| (0, 0))).collect();
                Ok(format!("{t:?}"))
            };
            let (want, got) = (tree("zzz")?, tree(&w)?);
            rec.extra += 1;
            if want.replace("zzz", &w) != got {
                return Err(format!("the system variable {scope}.`{w}` is read as {got}, {scope}.`zzz` as {want}"));
            }
        }
    }
    Ok(())
}
fn rec_ok(p: &Parsed, s: &str, o: &Opts) -> Res {
    match p.first_error() {
        Some(e) => Err(format!("an error is reported for a well-formed statement: {} at {:?}\n{}", e.msg, e.sp, input(s, o))),
        None => Ok(()),
    }
}
/// Random names: words close to keywords, odd characters between quotes.
fn p24_random(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = Gen::new(tape, Opts::plain(Dia::Maria));
    let (place, who) = g.pick(PLACES);
    let d = DIAS[g.c(3) as usize];
    if who & bit(d) == 0 {
        return Ok(());
    }
    let o = Opts::plain(d);
    let mut w = String::new();
    if g.p(1, 2) {
        w = case_of(g.pick(KEYWORDS), g.c(3) as usize);
        if dict::hit(&mut g, &dict::dict().words, 4) {
            w = dict::some(&mut g, &dict::dict().words);
        }
        match g.c(4) {
            _ if dict::hit(&mut g, &dict::dict().words, 4) => w = dict::variant(&mut g, w),
            0 => w.push(['_', 'x', '0', 'S'][g.c(4) as usize]),
            1 => {
                w.pop();
            }
            2 => w.insert(0, ['_', 'x', 'A'][g.c(3) as usize]),
            _ => {
                let i = g.c(w.len() as u32) as usize;
                w.remove(i);
            }
        }
    } else {
        const A: &[char] = &['a', 'b', 'Z', '_', '0', '9', 'é', ' ', '-', '.', ';', '(', '\'', '$', '\\', '日', '\n', '/', '*', '@', '?', '%'];
        let n = 1 + g.c(12);
        for _ in 0..n {
            w.push(g.pick(A));
        }
        if g.p(1, 3) {
            w = "long_name_".repeat(1 + g.c(40) as usize);
        }
    }
    if w.is_empty() {
        w.push('q');
    }
    let (quoted, v) = if d == Dia::Pg { (format!("\"{w}\""), w.clone()) } else { (format!("`{w}`"), w.clone()) };
    // a backslash hides the quote of a double-quoted name
    let quotable = !(d == Dia::Pg && w.contains('\\'));
    rec.case(w.len() > 2, &(d as u8, place, &w), || format!("{d:?}: {w} at {place}"));
    if quotable {
        is_name(place, &o, &quoted, &v)?;
    }
    let word = w.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !w.starts_with(|c: char| c.is_ascii_digit());
    if word && !special(&w) {
        rec.extra += 1;
        rec.labels.insert("unquoted");
        is_name(place, &o, &w, &w)?;
    }
    Ok(())
}

/// The places of the names of the tree.
fn names_of(p: &Parsed) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    for t in &p.stmts {
        t.walk(&mut |t| {
            if let T::N(n, f) = t {
                if let ("Identifier", Some((_, T::Q(_))), Some((_, T::S(x, y)))) = (n.as_str(), f.first(), f.last()) {
                    v.push((*x, *y));
                }
            }
        });
    }
    v
}
/// No name of an accepted text is a reserved word without quotes.
fn no_reserved(p: &Parsed, s: &str, o: &Opts) -> Res {
    for (x, y) in names_of(p) {
        if reserved(&s[x..y]) {
            return Err(format!("the reserved word {} at {x}..{y} is accepted as a name\n{}\n{}", &s[x..y], input(s, o), p.show()));
        }
    }
    Ok(())
}
/// Any name of a random statement as a quoted keyword, and as a reserved word.
fn p24_anywhere(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    g.budget = 80;
    let t = valid_tokens(&mut g);
    g.budget = 300;
    let s = text(&t, 0);
    rec.case(t.len() > 3, &(&s, o.show()), || format!("{:?} {:?}: {s}", o.dia, o.args));
    let p = one(&s, &o)?;
    if p.errors() > 0 || p.stmts.len() != 1 {
        return Ok(());
    }
    let ids = names_of(&p);
    if ids.is_empty() {
        return Ok(());
    }
    for _ in 0..4 {
        let (x, y) = g.pick(&ids);
        let w = case_of(g.pick(KEYWORDS), g.c(3) as usize);
        let q = if o.dia == Dia::Pg { format!("\"{w}\"") } else { format!("`{w}`") };
        let s2 = format!("{}{q}{}", &s[..x], &s[y..]);
        let r = one(&s2, &o)?;
        rec.extra += 2;
        let bad = |m: String| Err(format!("{m}\nthe statement with a name there: {s}\n{}\n{}", input(&s2, &o), r.show()));
        if let Some(e) = r.first_error() {
            return bad(format!("{q} is not accepted as a name: {} at {:?}", e.msg, e.sp));
        }
        let want = renamed(&p.stmts[0], x, y - x, &w, q.len());
        if r.stmts.len() != 1 {
            return bad(format!("with {q} as a name there are {} statements", r.stmts.len()));
        }
        if let Some(d) = diff(&want, &r.stmts[0]) {
            return bad(format!("with {q} as a name the tree differs {d}"));
        }
        let w = case_of(g.pick(RESERVED), g.c(3) as usize);
        let s2 = format!("{}{w}{}", &s[..x], &s[y..]);
        let r = one(&s2, &o)?;
        if r.errors() == 0 {
            no_reserved(&r, &s2, &o)?;
        }
    }
    Ok(())
}
/// Texts damaged at random: where they are accepted no reserved word is a name.
fn p24_mutants(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    g.budget = 80;
    let mut t = valid_tokens(&mut g);
    g.budget = 300;
    let n = g.c(3);
    mutate(&mut g, &mut t, n);
    for _ in 0..1 + g.c(2) {
        if !t.is_empty() {
            let i = g.c(t.len() as u32) as usize;
            let w = tok_of(&case_of(g.pick(RESERVED), g.c(3) as usize));
            if g.p(1, 2) {
                t[i] = w;
            } else {
                t.insert(i, w);
            }
        }
    }
    let s = text(&t, 0);
    let r = one(&s, &o)?;
    rec.case(r.errors() == 0 && t.len() > 3, &(&s, o.show()), || format!("{:?} {:?}: {s}", o.dia, o.args));
    if r.errors() == 0 {
        no_reserved(&r, &s, &o)?;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let t = |name, len, quick, f| Sub { name, how: How::Tape(len), quick, times: 25, f };
    vec![
        Prop {
            id: "P23",
            rule: "gates: 79 constructs of one or two dialects, filled with random expressions, names and queries and put into other statements, must be accepted exactly under their dialects, and the same statement without them under all; portable: random statements without such constructs parse to equal trees and issues in all dialects; mutants: likewise token-mutated queries and data statements. Non-trivial: every gate; more than five (portable) or three (mutants) tokens.",
            subs: vec![t("gates", 150, 240_000, p23_gates), t("portable", 250, 240_000, p23_portable), t("mutants", 250, 240_000, p23_mutants)],
        },
        Prop {
            id: "P24",
            rule: "words: every keyword of the dialects (fixed list) at 82 name positions under the dialects that have them, quoted and unquoted; the tree must be that of a plain name with the value and spans replaced, a reserved word unquoted an error; columns: the same at 33 places of expressions; calls: every word as a function name at 5 places, an error for reserved words other than the 15 that are functions; variables: every word in quotes as a system variable, never the keyword; random: words near keywords and names of odd characters likewise; anywhere: any name of a random statement of any kind written as a quoted keyword (the same tree, value and spans aside) and as a reserved word (an error, or no name of the tree lies on it); mutants: token-mutated statements with reserved words put in: where accepted no name of the tree is a reserved word. Non-trivial: every word; random names of more than two bytes; more than three tokens (anywhere), and accepted (mutants).",
            subs: vec![
                Sub { name: "words", how: How::Each(p24_words_count), quick: 0, times: 1, f: p24_words },
                Sub { name: "columns", how: How::Each(p24_columns_count), quick: 0, times: 1, f: p24_columns },
                Sub { name: "calls", how: How::Each(p24_calls_count), quick: 0, times: 1, f: p24_calls },
                Sub { name: "variables", how: How::Each(p24_variables_count), quick: 0, times: 1, f: p24_variables },
                t("random", 40, 240_000, p24_random),
                t("anywhere", 200, 80_000, p24_anywhere),
                t("mutants", 200, 160_000, p24_mutants),
            ],
        },
    ]
}
