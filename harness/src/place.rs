//! P28: a construct means the same wherever it may stand.

use crate::gen::*;
use crate::misc::Kind;
use crate::mutate::*;
use crate::parse::*;
use crate::run::*;
use crate::select::Sel;
use crate::tree::*;

/// The number in every placeholder.
const MARK: &str = "1234567";

/// What is put into the places: its placeholder, where its meaning is read off, and the other places.
struct What {
    name: &'static str,
    mark: &'static str,
    base: (&'static str, &'static str),
    /// dialects (any of m, p, s), text before and behind; `|` is a whole script
    places: &'static [(&'static str, &'static str, &'static str)],
    piece: fn(&mut Gen) -> Vec<Tok>,
}
const TRIGGER: &str = "CREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW BEGIN ";
const WHATS: &[What] = &[
    What {
        name: "expression",
        mark: "1234567",
        base: ("SELECT (", ")"),
        places: &[
            ("mps", "SELECT 1, (", ") AS b"),
            ("mps", "SELECT a FROM b WHERE (", ")"),
            ("mps", "SELECT a FROM b HAVING (", ")"),
            ("mps", "SELECT a FROM b GROUP BY c, (", ")"),
            ("mps", "SELECT a FROM b ORDER BY (", ") DESC"),
            ("mps", "SELECT a FROM b LIMIT (", ")"),
            ("mps", "SELECT a FROM b JOIN c ON (", ")"),
            ("mps", "SELECT a FROM b, c LEFT JOIN d ON (", ") WHERE e"),
            ("mps", "SELECT f(a, (", "), b)"),
            ("mps", "SELECT -(", ")"),
            ("mps", "SELECT NOT (", ")"),
            ("mps", "SELECT 1 + (", ") * 2"),
            ("mps", "SELECT a AND (", ") OR b"),
            ("mps", "SELECT (", ") IS NULL"),
            ("mps", "SELECT (", ") = 1"),
            ("mps", "SELECT a LIKE (", ")"),
            ("mps", "SELECT a IN (1, (", "), 2)"),
            ("mps", "SELECT (", ") NOT IN (1)"),
            ("mps", "SELECT CASE (", ") WHEN 1 THEN 2 END"),
            ("mps", "SELECT CASE WHEN (", ") THEN 2 END"),
            ("mps", "SELECT CASE a WHEN 1 THEN (", ") ELSE 3 END"),
            ("mps", "SELECT CASE a WHEN 1 THEN 2 ELSE (", ") END"),
            ("mps", "SELECT CAST((", ") AS CHAR)"),
            ("mps", "SELECT COUNT(DISTINCT (", "))"),
            ("mps", "SELECT COUNT((", "))"),
            ("m", "SELECT GROUP_CONCAT(DISTINCT (", "))"),
            ("mps", "SELECT IF((", "), a, b)"),
            ("mps", "SELECT EXTRACT(DAY FROM (", "))"),
            ("mps", "SELECT TIMESTAMPADD(DAY, (", "), a)"),
            ("mps", "SELECT RANK() OVER (ORDER BY (", "))"),
            ("mps", "SELECT EXISTS (SELECT (", "))"),
            ("mps", "SELECT a FROM (SELECT (", ") AS b) AS c"),
            ("mps", "SELECT 1 UNION SELECT (", ")"),
            ("mps", "INSERT INTO a (b, c) VALUES (1, (", ")), (2, 3)"),
            ("m", "INSERT INTO a SET b = (", "), c = 1"),
            ("m", "INSERT INTO a (b) VALUES (1) ON DUPLICATE KEY UPDATE c = (", ")"),
            ("p", "INSERT INTO a (b) VALUES (1) ON CONFLICT (b) DO UPDATE SET c = (", ")"),
            ("p", "INSERT INTO a (b) VALUES (1) RETURNING (", ")"),
            ("m", "REPLACE INTO a (b) VALUES ((", "))"),
            ("mps", "UPDATE a SET b = 1, c = (", ") WHERE d"),
            ("mps", "UPDATE a SET b = 1 WHERE (", ")"),
            ("mps", "DELETE FROM a WHERE (", ")"),
            ("mps", "CREATE TABLE a (b INT DEFAULT (", "), c INT)"),
            ("mps", "CREATE TABLE a (b INT, c INT AS ((", ")))"),
            ("mps", "ALTER TABLE a ADD COLUMN b INT DEFAULT (", ")"),
            ("mps", "CREATE VIEW a AS SELECT (", ")"),
            ("mps", "SET a = (", ")"),
            ("mps", "IF (", ") THEN SELECT 1; END IF"),
            ("mps", "IF a THEN SELECT 1; ELSEIF (", ") THEN SELECT 2; END IF"),
            ("mps", "CASE WHEN (", ") THEN SELECT 1; END CASE"),
            ("mps", "CASE (", ") WHEN 1 THEN SELECT 1; END CASE"),
            ("m", "CREATE FUNCTION f() RETURNS INT RETURN (", ")"),
            ("mps", "SIGNAL SQLSTATE '1' SET MESSAGE_TEXT = (", ")"),
            ("p", "WITH a AS (SELECT (", ")) SELECT 1"),
            ("p", "DELETE FROM a RETURNING (", ")"),
            ("mps", "(SELECT (", ")) UNION (SELECT 2) ORDER BY 1"),
            ("mps", "|SELECT 1; SELECT (", "); SELECT 2;"),
        ],
        piece: |g| {
            g.expr();
            std::mem::take(&mut g.toks)
        },
    },
    // without brackets: only where all operators may follow
    What {
        name: "bare expression",
        mark: "1234567",
        base: ("SELECT a FROM b WHERE ", " GROUP BY c"),
        places: &[
            ("mps", "SELECT 1, ", ""),
            ("mps", "SELECT 1, ", " AS b"),
            ("mps", "SELECT 1, ", ", 1 FROM b"),
            ("mps", "SELECT a FROM b WHERE ", " ORDER BY c"),
            ("mps", "SELECT a FROM b HAVING ", " LIMIT 1"),
            ("mps", "SELECT a FROM b GROUP BY ", ", c"),
            ("mps", "SELECT a FROM b ORDER BY c, ", " DESC"),
            ("mps", "SELECT a FROM b JOIN c ON ", " JOIN d"),
            ("mps", "SELECT f(a, ", ", b)"),
            ("mps", "SELECT ABS(", ")"),
            ("mps", "SELECT a IN (1, ", ", 2)"),
            ("mps", "SELECT CASE ", " WHEN 1 THEN 2 END"),
            ("mps", "SELECT CASE WHEN ", " THEN 2 END"),
            ("mps", "SELECT CASE a WHEN ", " THEN 2 END"),
            ("mps", "SELECT CASE a WHEN 1 THEN ", " ELSE 3 END"),
            ("mps", "SELECT CASE a WHEN 1 THEN ", " WHEN 2 THEN 3 END"),
            ("mps", "SELECT CASE a WHEN 1 THEN 2 ELSE ", " END"),
            ("mps", "SELECT CAST(", " AS CHAR)"),
            ("mps", "SELECT COUNT(DISTINCT ", ")"),
            ("mps", "SELECT IF(", ", a, b)"),
            ("mps", "SELECT EXTRACT(DAY FROM ", ")"),
            ("mps", "SELECT TIMESTAMPADD(DAY, ", ", a)"),
            ("mps", "SELECT RANK() OVER (ORDER BY ", ")"),
            ("mps", "SELECT 1 UNION SELECT 1, ", ""),
            ("mps", "INSERT INTO a (b, c) VALUES (1, ", "), (2, 3)"),
            ("m", "INSERT INTO a SET b = ", ", c = 1"),
            ("m", "INSERT INTO a (b) VALUES (1) ON DUPLICATE KEY UPDATE c = ", ", d = 1"),
            ("p", "INSERT INTO a (b) VALUES (1) ON CONFLICT (b) DO UPDATE SET c = ", ", d = 1"),
            ("p", "INSERT INTO a (b) VALUES (1) RETURNING ", ""),
            ("mps", "UPDATE a SET b = ", " WHERE d"),
            ("mps", "UPDATE a SET b = 1, c = ", ""),
            ("mps", "DELETE FROM a WHERE ", ""),
            ("mps", "CREATE TABLE a (b INT, c INT AS (", "))"),
            ("mps", "CREATE VIEW a AS SELECT 1 FROM b WHERE ", ""),
            ("mps", "SET a = ", ", b = 1"),
            ("mps", "IF ", " THEN SELECT 1; END IF"),
            ("mps", "IF a THEN SELECT 1; ELSEIF ", " THEN SELECT 2; END IF"),
            ("mps", "CASE WHEN ", " THEN SELECT 1; END CASE"),
            ("mps", "CASE ", " WHEN 1 THEN SELECT 1; END CASE"),
            ("m", "CREATE FUNCTION f() RETURNS INT RETURN ", ""),
            ("mps", "SELECT (", ") * 2"),
            ("mps", "|SELECT 1; SELECT 1, ", "; SELECT 2;"),
        ],
        piece: |g| {
            g.expr();
            std::mem::take(&mut g.toks)
        },
    },
    What {
        name: "query",
        mark: "SELECT 1234567",
        base: ("SELECT EXISTS (", ")"),
        places: &[
            ("mps", "SELECT a IN (", ")"),
            ("mps", "SELECT a NOT IN (", ") AND b"),
            ("mps", "SELECT f((", "), 1)"),
            ("mps", "SELECT 1 + (", ")"),
            ("mps", "SELECT a FROM b WHERE EXISTS (", ")"),
            ("mps", "SELECT a FROM b WHERE c = (", ") AND d"),
            ("mps", "SELECT a FROM (", ") AS c"),
            ("mps", "SELECT a FROM b JOIN (", ") AS c ON d"),
            ("mps", "INSERT INTO a (b) VALUES ((", "))"),
            ("mps", "CREATE VIEW a AS ", ""),
            ("p", "WITH a AS (SELECT b FROM (", ") AS c) SELECT 1"),
            ("mps", "UPDATE a SET b = (", ")"),
            ("mps", "DELETE FROM a WHERE b IN (", ")"),
            ("mps", "|", ";"),
            ("mps", "|IF EXISTS (", ") THEN SELECT 1; END IF;"),
            ("mps", "|IF a THEN ", "; END IF;"),
            ("mps", "|CREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW BEGIN ", "; END;"),
            ("mps", "SELECT CASE WHEN EXISTS (", ") THEN 1 END"),
        ],
        piece: |g| {
            match g.c(3) {
                0 => g.select(Sel::Free),
                1 => g.compound_query_select_first(),
                _ => g.statement(Kind::Query),
            };
            std::mem::take(&mut g.toks)
        },
    },
    What {
        name: "statement",
        mark: "SELECT 1234567",
        base: (TRIGGER, "; END"),
        places: &[
            ("mps", "CREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW BEGIN SELECT 1; ", "; SELECT 2; END"),
            ("mps", "CREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW BEGIN BEGIN ", "; END; END"),
            ("mps", "CREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW BEGIN IF c THEN ", "; END IF; END"),
            ("mps", "CREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW BEGIN IF c THEN SELECT 1; ELSE ", "; END IF; END"),
            ("mps", "CREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW BEGIN IF c THEN SELECT 1; ELSEIF d THEN ", "; SELECT 2; END IF; END"),
            ("mps", "CREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW BEGIN CASE WHEN c THEN ", "; WHEN d THEN SELECT 1; END CASE; END"),
            ("mps", "CREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW BEGIN CASE c WHEN 1 THEN SELECT 1; ELSE ", "; END CASE; END"),
            ("mps", "CREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW BEGIN ", "; EXCEPTION WHEN c THEN NULL; END"),
            ("m", "CREATE FUNCTION f() RETURNS INT BEGIN ", "; RETURN 1; END"),
            ("mps", "|SELECT 1; IF c THEN ", "; END IF; SELECT 2;"),
            ("mps", "|SELECT 1; IF c THEN SELECT 1; ELSE ", "; END IF; SELECT 2;"),
            ("mps", "|IF c THEN SELECT 1; ELSEIF d THEN ", "; SELECT 2; END IF; SELECT 2;"),
            ("mps", "|CASE c WHEN 1 THEN ", "; END CASE; SELECT 2;"),
            ("mps", "|CASE WHEN c THEN SELECT 1; ELSE ", "; END CASE; SELECT 2;"),
            ("mps", "|CASE c WHEN 1 THEN SELECT 1; WHEN 2 THEN SELECT 2; ", "; WHEN 3 THEN SELECT 1; END CASE;"),
            ("p", "DO $$ BEGIN ", "; END $$"),
            ("mps", "|SELECT 1; CREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW BEGIN ", "; END; SELECT 2;"),
            // outside of blocks (what only blocks have is not put there)
            ("mpst", "|", "; SELECT 2;"),
            ("mpst", "|SELECT 1; ", "; SELECT 2;"),
            ("mpst", "", ""),
            ("mpst", "|; ; ", " ;"),
        ],
        piece: |g| {
            g.in_block = true;
            g.block_statement();
            g.in_block = false;
            std::mem::take(&mut g.toks)
        },
    },
    What {
        name: "column",
        mark: "VARCHAR(1234567)",
        base: ("CREATE TABLE a (b ", ")"),
        places: &[
            ("mps", "CREATE TABLE a (c INT, b ", ", d INT)"),
            ("mps", "CREATE TABLE a (b ", ") COMMENT 'x'"),
            ("mps", "ALTER TABLE a ADD COLUMN b ", ""),
            ("mps", "ALTER TABLE a ADD COLUMN b ", ", ADD COLUMN c INT"),
            ("mps", "ALTER TABLE a MODIFY COLUMN b ", ""),
            ("mps", "ALTER TABLE a MODIFY b ", ", DROP COLUMN c"),
            ("mps", "ALTER TABLE a ALTER COLUMN b TYPE ", ""),
            ("mps", "ALTER TABLE a ALTER COLUMN b TYPE ", ", DROP COLUMN c"),
            ("mps", "|SELECT 1; CREATE TEMPORARY TABLE IF NOT EXISTS a (b ", "); SELECT 2;"),
        ],
        piece: |g| {
            g.data_type(crate::ddl::Ctx::Column);
            std::mem::take(&mut g.toks)
        },
    },
    What {
        name: "type",
        mark: "VARCHAR(1234567)",
        base: ("SELECT CAST(a AS ", ")"),
        places: &[
            ("mps", "SELECT 1 + CAST(a AS ", ") + 2"),
            ("mps", "CREATE TABLE a (b ", ")"),
            ("mps", "CREATE TABLE a (b ", ", c INT)"),
            ("mps", "ALTER TABLE a ADD COLUMN b ", ""),
            ("m", "CREATE FUNCTION f(a ", ") RETURNS INT RETURN 1"),
            ("p", "CREATE FUNCTION f(a ", ") RETURNS INT AS $$ 1 $$"),
            ("m", "CREATE FUNCTION f(a INT, b ", ", c INT) RETURNS INT RETURN 1"),
        ],
        piece: |g| {
            g.data_type(crate::ddl::Ctx::Cast);
            std::mem::take(&mut g.toks)
        },
    },
    What {
        name: "table",
        mark: "t1234567",
        base: ("SELECT 1 FROM ", ""),
        places: &[
            ("mps", "SELECT 1 FROM ", " WHERE a"),
            ("mps", "SELECT 1 FROM ", " ORDER BY a"),
            ("mps", "SELECT 1 FROM ", " LIMIT 1"),
            ("mps", "SELECT 1 FROM z, ", ""),
            ("mps", "SELECT (SELECT 1 FROM ", ")"),
            ("mps", "SELECT 1 FROM (SELECT 1 FROM ", ") AS z"),
            ("mps", "SELECT 1 UNION SELECT 2 FROM ", ""),
            ("m", "UPDATE ", " SET a = 1"),
            ("m", "DELETE z FROM ", " WHERE a"),
            ("m", "DELETE FROM z USING ", ""),
            ("p", "DELETE FROM z USING ", " WHERE a"),
            ("mps", "INSERT INTO z SELECT 1 FROM ", ""),
            ("mps", "CREATE VIEW z AS SELECT 1 FROM ", ""),
            ("p", "WITH z AS (SELECT 1 FROM ", ") SELECT 2"),
            ("mps", "|SELECT 1; SELECT 1 FROM ", "; SELECT 2;"),
        ],
        piece: |g| {
            g.table_ref();
            std::mem::take(&mut g.toks)
        },
    },
    What {
        name: "order",
        mark: "1234567",
        base: ("SELECT 1 FROM a ORDER BY ", ""),
        places: &[
            ("mps", "SELECT 1 FROM a WHERE b GROUP BY c HAVING d ORDER BY ", ""),
            ("mps", "SELECT 1 FROM a ORDER BY ", " LIMIT 1"),
            ("mps", "SELECT (SELECT 1 FROM a ORDER BY ", ")"),
            ("mps", "SELECT RANK() OVER (ORDER BY ", ") FROM a"),
            ("mps", "(SELECT 1) UNION (SELECT 2) ORDER BY ", ""),
            ("mps", "SELECT 1 FROM a ORDER BY z, ", ", y"),
            ("mps", "|SELECT 1 FROM a ORDER BY ", "; SELECT 2;"),
        ],
        piece: |g| {
            g.expr();
            if g.p(1, 2) {
                let w = g.pick(&["ASC", "DESC"]);
                g.kw(w);
            }
            std::mem::take(&mut g.toks)
        },
    },
];

/// The steps from the root to the mark.
fn path(t: &T, found: &mut Vec<Vec<usize>>, at: &mut Vec<usize>) {
    let kids: Vec<&T> = kids(t);
    match t {
        T::A(s) | T::Q(s) if s == MARK || s == "t1234567" => found.push(at.clone()),
        _ => {}
    }
    for (i, k) in kids.into_iter().enumerate() {
        at.push(i);
        path(k, found, at);
        at.pop();
    }
}
fn kids(t: &T) -> Vec<&T> {
    match t {
        T::N(_, v) => v.iter().map(|(_, t)| t).collect(),
        T::U(_, v) | T::L(v) => v.iter().collect(),
        _ => vec![],
    }
}
fn at<'t>(t: &'t T, p: &[usize]) -> Option<&'t T> {
    p.iter().try_fold(t, |t, i| kids(t).get(*i).copied())
}
/// The path of what the placeholder stands for: the mark's own path without what is inside.
fn place(p: &Parsed, w: &What) -> Option<Vec<usize>> {
    let root = T::L(p.stmts.clone());
    let mut found = Vec::new();
    path(&root, &mut found, &mut vec![]);
    let [one] = &found[..] else { return None };
    let name = match w.name {
        "expression" | "bare expression" | "order" => "Integer",
        "query" | "statement" => "Select",
        "column" | "type" => "DataType",
        _ => "Table",
    };
    // the innermost node of the name; a statement has its node around that of the variant
    let len = (0..one.len()).rev().find(|n| match at(&root, &one[..*n]) {
        Some(T::U(n, v)) => n == name && (name != "Select" || v.len() == 1),
        Some(T::N(n, _)) => n == name && name != "Select",
        _ => false,
    })?;
    let mut r = one[..len].to_vec();
    if w.name == "order" {
        // with the direction
        r.pop();
    }
    Some(r)
}
/// Whether `b` is `a` with another piece at the path: what lies behind has moved.
fn around(a: &T, b: &T, path: Option<&[usize]>, map: &dyn Fn(usize) -> Option<usize>) -> Option<String> {
    if path.is_some_and(|p| p.is_empty()) {
        return None;
    }
    let differ = || Some(format!("{} instead of {}", b.show(), a.show()));
    let ok = match (a, b) {
        (T::S(x, y), T::S(p, q)) => map(*x).is_none_or(|x| x == *p) && map(*y).is_none_or(|y| y == *q),
        (T::N(x, v), T::N(y, w)) => x == y && v.len() == w.len(),
        (T::U(x, v), T::U(y, w)) => x == y && v.len() == w.len(),
        (T::L(v), T::L(w)) => v.len() == w.len(),
        (a, b) => a == b,
    };
    if !ok {
        return differ();
    }
    kids(a).into_iter().zip(kids(b)).enumerate().find_map(|(i, (x, y))| around(x, y, path.and_then(|p| (p[0] == i).then(|| &p[1..])), map))
}
struct Case {
    piece: T,
    parsed: Parsed,
    from: usize,
}
enum Out {
    Fine(Case),
    /// the first error: message and place relative to the piece
    Wrong(Parsed, usize),
    /// the surroundings are not what they are around the placeholder
    Apart(String, Parsed),
    NoPlace,
}
/// The piece in a place, against the placeholder there.
fn put(w: &What, pre: &str, suf: &str, text: &str, o: &Opts) -> Result<Out, String> {
    let (pre, script) = match pre.strip_prefix('|') {
        Some(p) => (p, true),
        None => (pre, false),
    };
    let mark = parse(&format!("{pre}{}\n{suf}", w.mark), o, script)?;
    if mark.errors() > 0 {
        return Ok(Out::NoPlace);
    }
    let Some(p) = place(&mark, w) else { return Ok(Out::NoPlace) };
    let got = parse(&format!("{pre}{text}\n{suf}"), o, script)?;
    if got.errors() > 0 {
        return Ok(Out::Wrong(got, pre.len()));
    }
    let (x, y) = (pre.len(), pre.len() + w.mark.len());
    // pieces may have brackets of their own around them: where exactly they end is theirs
    let map = |i: usize| if i < x { Some(i) } else if i > y { Some(i + text.len() - w.mark.len()) } else { None };
    let (a, b) = (T::L(mark.stmts.clone()), T::L(got.stmts.clone()));
    if let Some(d) = around(&a, &b, Some(&p), &map) {
        return Ok(Out::Apart(d, got));
    }
    let Some(piece) = at(&b, &p) else { return Ok(Out::Apart("nothing there".into(), got)) };
    Ok(Out::Fine(Case { piece: piece.clone(), parsed: got, from: pre.len() }))
}
fn within(p: &Parsed, from: usize, len: usize) -> Vec<String> {
    let r = |n: usize| n.checked_sub(from).filter(|n| *n <= len);
    let mut v: Vec<String> = p
        .issues
        .iter()
        .filter_map(|i| Some(format!("{} {:?} at {}..{} {:?}", if i.err { "error" } else { "warning" }, i.msg, r(i.sp.0)?, r(i.sp.1)?, i.frags.iter().map(|f| (&f.0, f.1 .0.wrapping_sub(from), &f.2)).collect::<Vec<_>>())))
        .collect();
    v.sort();
    v
}
fn check(rec: &mut Rec, g: &mut Gen, w: &What, text: &str, top: bool) -> Res {
    let o = g.o;
    let d = match o.dia {
        Dia::Maria => 'm',
        Dia::Pg => 'p',
        Dia::Lite => 's',
    };
    let all: Vec<_> = w.places.iter().filter(|p| p.0.contains(d) && (top || !p.0.contains('t'))).collect();
    // what all places take in the same way may be read off anywhere
    let (bp, bs) = match w.name {
        "expression" | "column" | "order" if g.p(1, 2) => {
            let (_, p, s) = all[g.c(all.len() as u32) as usize];
            (*p, *s)
        }
        _ => w.base,
    };
    let base = put(w, bp, bs, text, &o)?;
    let fine = match base {
        Out::Fine(c) => Some(c),
        // not one piece
        Out::Apart(..) | Out::NoPlace => return Ok(()),
        Out::Wrong(..) => None,
    };
    rec.case(fine.is_some() && text.len() > 3, &(w.name, text, o.show()), || format!("{:?} {}: {text}", o.dia, w.name));
    let Some(fine) = fine else { return Ok(()) };
    let first = g.c(all.len() as u32) as usize;
    for k in 0..all.len().min(8) {
        let (_, pre, suf) = all[(first + k * 7) % all.len()];
        rec.extra += 1;
        let shown = || format!("{}\n{}", input(&format!("{}{text}\n{suf}", pre.trim_start_matches('|')), &o), input(&format!("{}{text}\n{bs}", bp.trim_start_matches('|')), &o));
        let c = match put(w, pre, suf, text, &o)? {
            Out::Fine(c) => c,
            Out::NoPlace => return Err(format!("harness: there is no place for the {} in {pre}{}{suf} ({})", w.name, w.mark, o.show())),
            Out::Wrong(p, _) => {
                let e = p.first_error().unwrap();
                return Err(format!("the {} gives the error {:?} at {}..{} in the first text, none in the second\n{}", w.name, e.msg, e.sp.0, e.sp.1, shown()));
            }
            Out::Apart(m, _) => return Err(format!("around the {}: {m}\n{}", w.name, shown())),
        };
        let want = fine.piece.map_spans(&|x, y| (x + c.from - fine.from, y + c.from - fine.from));
        if let Some(d) = diff(&want, &c.piece) {
            return Err(format!("the {} in the first text is not the one in the second: it differs {d}\n{}", w.name, shown()));
        }
        let (a, b) = (within(&fine.parsed, fine.from, text.len()), within(&c.parsed, c.from, text.len()));
        if a != b {
            return Err(format!("the {} has the issues {b:?} in the first text, {a:?} in the second\n{}", w.name, shown()));
        }
    }
    Ok(())
}
fn p28(rec: &mut Rec, tape: &[u32], mutants: bool) -> Res {
    let (mut o, rest) = any_opts(tape);
    o.list = false;
    let mut g = Gen::new(rest, o);
    g.budget = 80;
    g.depth = g.pick(&[2, 3, 4, 6]);
    let w = &WHATS[[0, 0, 1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7][g.c(13) as usize]];
    let mut t = (w.piece)(&mut g);
    g.budget = 300;
    if mutants {
        if g.p(1, 5) {
            t = soup(&mut g, 6);
        } else {
            let n = 1 + g.c(2);
            mutate(&mut g, &mut t, n);
        }
    }
    let mut depth = 0;
    for c in t.iter().filter(|t| !matches!(t.k, K::Str | K::Qid)).flat_map(|t| t.text.chars()) {
        depth += (c == '(') as i32 - (c == ')') as i32;
        if depth < 0 {
            return Ok(());
        }
    }
    let has = |w: &str| t.iter().any(|t| !matches!(t.k, K::Str | K::Qid) && t.text.to_ascii_uppercase().contains(w));
    // more than one piece, or one that goes on differently
    if w.name != "statement" && has(";") || w.name == "statement" && mutants && has("EXCEPTION") || w.name == "table" && mutants && has("SELECT") {
        return Ok(());
    }
    // a bracket in front may begin an expression as well
    if w.name == "query" && t.first().is_none_or(|t| t.text.starts_with('(')) {
        return Ok(());
    }
    let text = if g.p(1, 2) { glued(&mut g, &t) } else { render(&t, &mut Layout::new(0, 0)).0 };
    let top = !has("BEGIN") && !(mutants && (has(";") || has("END")));
    check(rec, &mut g, w, &text, top)
}
/// Every place takes its placeholder.
fn p28_places(rec: &mut Rec, tape: &[u32]) -> Res {
    let w = &WHATS[tape.first().copied().unwrap_or(0) as usize % WHATS.len()];
    let mut bad = String::new();
    for dia in crate::faithful::DIAS {
        let o = Opts::plain(dia);
        let d = "mps".chars().nth(dia as usize).unwrap();
        for (_, pre, suf) in w.places.iter().filter(|p| p.0.contains(d)).chain([&("", w.base.0, w.base.1)]) {
            rec.extra += 1;
            match put(w, pre, suf, w.mark, &o)? {
                Out::Fine(_) => {}
                Out::Wrong(p, _) => bad += &format!("{pre}{}{suf}\n{}", w.mark, p.show()),
                Out::Apart(m, _) => bad += &format!("{m}: {pre}{}{suf}\n", w.mark),
                Out::NoPlace => bad += &format!("no place: {}{:?}: {pre}{}{suf}\n{}", w.name, o.dia, w.mark, parse(&format!("{}{}{suf}", pre.trim_start_matches('|'), w.mark), &o, pre.starts_with('|'))?.show()),
            }
        }
    }
    rec.case(true, &w.name, || format!("{} in {} places", w.name, w.places.len()));
    if bad.is_empty() { Ok(()) } else { Err(bad) }
}
fn p28_valid(rec: &mut Rec, tape: &[u32]) -> Res {
    p28(rec, tape, false)
}
fn p28_mutants(rec: &mut Rec, tape: &[u32]) -> Res {
    p28(rec, tape, true)
}
pub fn props() -> Vec<Prop> {
    let t = |name, len, quick, f| Sub { name, how: How::Tape(len), quick, times: 25, f };
    vec![Prop {
        id: "P28",
        rule: "an expression (in brackets), query, statement of a block, column definition, type, table reference or ORDER BY element, random and well-formed (valid) or with one or two tokens changed or a soup of up to six (mutants), accepted in one place is put into eight others of 170: it must be accepted there, with the same tree, the same warnings, and what is around it must be what is around a placeholder. Non-trivial: accepted in the first place, more than three bytes.",
        subs: vec![Sub { name: "places", how: How::Each(|| WHATS.len()), quick: 0, times: 1, f: p28_places }, t("valid", 260, 60_000, p28_valid), t("mutants", 300, 240_000, p28_mutants)],
    }]
}
