//! Checks that compare the syntax tree with the one the generator built: P05-P15.

use crate::dict;
use crate::expr::{BINOPS, UNOPS};
use crate::funcs::FUNCS;
use crate::gen::*;
use crate::misc::Kind;
use crate::n;
use crate::parse::*;
use crate::run::*;
use crate::select::Sel;
use crate::tree::*;

pub const DIAS: [Dia; 3] = [Dia::Maria, Dia::Pg, Dia::Lite];
pub const STYLES: [Args; 4] = [Args::None, Args::Question, Args::Percent, Args::Dollar];

/// Options from the first choices of the tape.
pub fn header(tape: &[u32]) -> (Opts, &[u32]) {
    let at = |i: usize| tape.get(i).copied().unwrap_or(0) as usize;
    let mut o = Opts::plain(DIAS[at(0) % 3]);
    o.args = STYLES[at(1) % 4];
    o.list = at(1) / 4 % 3 == 2;
    (o, tape.get(2..).unwrap_or(&[]))
}
pub fn start(tape: &[u32]) -> Gen<'_> {
    let (o, rest) = header(tape);
    let mut g = Gen::new(rest, o);
    g.depth = g.pick(&[6, 6, 6, 6, 6, 6, 6, 3, 12, 40]);
    if dict::hit(&mut g, &dict::dict().counts, 12) {
        g.depth = dict::near(&mut g, &dict::dict().counts).min(100) as i32;
    }
    g
}
pub fn finish(rec: &mut Rec, g: &Gen, nontrivial: bool) {
    rec.labels = g.feat.clone();
    rec.case(nontrivial, &(g.o.dia as u8, &g.out), || format!("{:?}: {}", g.o.dia, g.out));
}
fn check1(rec: &mut Rec, g: &Gen, want: T, nontrivial: bool) -> Res {
    finish(rec, g, nontrivial);
    expect(&g.out, &g.o, false, &[want]).map(|_| ())
}

// ---- P05 -----------------------------------------------------------------------------
enum Item {
    Atom(T),
    Pre(u32, &'static str, Sp),
    Bin(u32, &'static str, Sp),
    Is(String, Sp),
    In(bool, Vec<T>, Sp),
}
/// Precedence climbing over a flat sequence: the reference for the parser.
fn climb(v: &mut std::iter::Peekable<std::vec::IntoIter<Item>>, limit: u32) -> T {
    let mut l = match v.next().unwrap() {
        Item::Pre(p, nm, s) => {
            let x = climb(v, p);
            n!("Unary"; op: a(nm), op_span: s.t(), operand: x)
        }
        Item::Atom(t) => t,
        _ => unreachable!(),
    };
    loop {
        let p = match v.peek() {
            None => return l,
            Some(Item::Bin(p, ..)) => *p,
            Some(Item::Is(..)) | Some(Item::In(..)) => 110,
            Some(_) => unreachable!(),
        };
        if p > limit {
            return l;
        }
        l = match v.next().unwrap() {
            Item::Bin(p, nm, s) => {
                let r = climb(v, p - 1);
                n!("Binary"; op: a(nm), op_span: s.t(), lhs: l, rhs: r)
            }
            Item::Is(nm, s) => u("Is", vec![l, a(nm), s.t()]),
            Item::In(not, r, s) => n!("In"; lhs: l, rhs: list(r), in_span: s.t(), not_in: a(not)),
            _ => unreachable!(),
        }
    }
}
const ISV: &[&str] = &["NULL", "TRUE", "FALSE", "UNKNOWN"];
const ISN: &[&str] = &["Null", "True", "False", "Unknown"];
fn op_item(g: &mut Gen, k: usize, v: &mut Vec<Item>) -> bool {
    let words = |g: &mut Gen, t: &str| {
        if t.as_bytes()[0].is_ascii_alphabetic() {
            g.kws(t)
        } else {
            g.pt(t)
        }
    };
    g.ops += 1;
    if k < BINOPS.len() {
        let (p, t, nm) = BINOPS[k];
        let s = words(g, t);
        v.push(Item::Bin(p, nm, s));
        return true;
    }
    let k = k - BINOPS.len();
    if k < 8 {
        let s = g.kw("IS");
        let not = k >= 4;
        if not {
            g.kw("NOT");
        }
        let e = g.kw(ISV[k % 4]);
        v.push(Item::Is(format!("{}{}", if not { "Not" } else { "" }, ISN[k % 4]), s.join(e)));
    } else {
        let not = k == 9;
        let s = g.kws(if not { "NOT IN" } else { "IN" });
        g.pt("(");
        let l = g.comma_list(2, |g| g.simple_atom());
        g.pt(")");
        v.push(Item::In(not, l, s));
    }
    false
}
const NOPS: usize = 23 + 10;
fn pre_item(g: &mut Gen, k: usize, v: &mut Vec<Item>) {
    let (p, t, nm) = UNOPS[k];
    let s = if t.len() > 1 { g.kw(t) } else { g.pt(t) };
    v.push(Item::Pre(p, nm, s));
    g.ops += 1;
}
fn wrap_select(e: T, s: Sp) -> T {
    u(
        "Select",
        vec![n!("Select"; select_span: s.t(), flags: list(vec![]),
            select_exprs: list(vec![n!("SelectExpr"; expr: e, as_: none())]), from_span: none(),
            table_references: none(), where_: none(), group_by: none(), having: none(), window_span: none(),
            order_by: none(), limit: none(), locking: none())],
    )
}
/// operand op operand op operand op operand, exhaustively over the operators
fn p05_flat3(rec: &mut Rec, tape: &[u32]) -> Res {
    let i = tape.first().copied().unwrap_or(0) as usize % (NOPS * NOPS * NOPS);
    let mut r = Rng(i as u64);
    let mut g = Gen::new(&[], Opts::plain(DIAS[r.c(3) as usize]));
    let s = g.kw("SELECT");
    let mut v = Vec::new();
    let mut want_operand = true;
    for (j, k) in [i / NOPS / NOPS, i / NOPS % NOPS, i % NOPS, usize::MAX].into_iter().enumerate() {
        if want_operand {
            if r.c(3) == 0 {
                pre_item(&mut g, r.c(4) as usize, &mut v);
            }
            let nm = ["a", "b", "c", "d"][j];
            let sp = g.tok(K::Id, nm);
            v.push(Item::Atom(u("Identifier", vec![list(vec![u("Name", vec![Gen::id_node(nm, sp)])])])));
        }
        if k < NOPS {
            want_operand = op_item(&mut g, k, &mut v);
        }
    }
    let e = climb(&mut v.into_iter().peekable(), 1000);
    check1(rec, &g, wrap_select(e, s), true)
}
fn flat(g: &mut Gen, depth: u32) -> T {
    let mut v = Vec::new();
    let n = g.c(if depth == 0 { 9 } else { 5 });
    let mut operand = true;
    for j in 0..=n {
        if operand {
            while g.p(1, 5) {
                let k = g.c(4) as usize;
                pre_item(g, k, &mut v);
            }
            if depth < 3 && g.p(1, 6) {
                g.pt("(");
                g.f("paren");
                let t = flat(g, depth + 1);
                g.pt(")");
                v.push(Item::Atom(t));
            } else if depth < 3 && g.p(1, 14) {
                // brackets of other kinds delimit operands as well
                g.f("operator-in-brackets");
                match g.c(3) {
                    0 => {
                        let s = g.tok(K::Id, "foo");
                        g.pt("(");
                        let x = flat(g, depth + 1);
                        g.pt(",");
                        let y = flat(g, depth + 1);
                        g.pt(")");
                        v.push(Item::Atom(u("Function", vec![u("Other", vec![q("foo")]), list(vec![x, y]), s.t()])));
                    }
                    1 => {
                        let c = g.kw("CASE");
                        let w = g.kw("WHEN");
                        let x = flat(g, depth + 1);
                        let t = g.kw("THEN");
                        let y = flat(g, depth + 1);
                        let e = g.kw("END");
                        v.push(Item::Atom(n!("Case"; case_span: c.t(), value: none(),
                            whens: list(vec![n!("When"; when_span: w.t(), when: x, then_span: t.t(), then: y)]),
                            else_: none(), end_span: e.t())));
                    }
                    _ => {
                        g.pt("(");
                        let s = g.kw("SELECT");
                        let x = flat(g, depth + 1);
                        g.pt(")");
                        v.push(Item::Atom(u("Subquery", vec![wrap_select(x, s)])));
                    }
                }
            } else {
                let t = g.simple_atom();
                v.push(Item::Atom(t));
            }
        }
        if j < n {
            let k = g.c(NOPS as u32) as usize;
            operand = op_item(g, k, &mut v);
        } else if matches!(v.last(), Some(Item::Bin(..)) | Some(Item::Pre(..))) {
            let t = g.simple_atom();
            v.push(Item::Atom(t));
        }
    }
    climb(&mut v.into_iter().peekable(), 1000)
}
fn p05_flat(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = start(tape);
    g.budget = 1000;
    let s = g.kw("SELECT");
    let e = flat(&mut g, 0);
    let nt = g.ops >= 2;
    check1(rec, &g, wrap_select(e, s), nt)
}
fn p05_tree(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = start(tape);
    g.w_op = 16;
    let s = g.kw("SELECT");
    let e = g.expr();
    let nt = g.ops >= 2;
    check1(rec, &g, wrap_select(e, s), nt)
}

// ---- P06 -----------------------------------------------------------------------------
/// Independent decoder of the text between the quotes.
fn decode_ref(body: &str, quote: char, dia: Dia) -> String {
    let cs: Vec<char> = body.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        let nx = cs.get(i + 1).copied();
        if c == quote {
            assert_eq!(nx, Some(quote), "harness: lone quote");
            o.push(quote);
            i += 2;
        } else if c == '\\' {
            let nx = nx.expect("harness: dangling backslash");
            if nx == quote {
                o.push(quote);
            } else if dia != Dia::Maria {
                o.push('\\');
                o.push(nx);
            } else {
                match nx {
                    '0' => o.push('\0'),
                    'b' => o.push('\u{8}'),
                    'n' => o.push('\n'),
                    'r' => o.push('\r'),
                    't' => o.push('\t'),
                    'Z' => o.push('\u{1a}'),
                    '%' | '_' => {
                        o.push('\\');
                        o.push(nx)
                    }
                    x => o.push(x),
                }
            }
            i += 2;
        } else {
            o.push(c);
            i += 1;
        }
    }
    o
}
fn any_char(g: &mut Gen) -> char {
    match g.c(8) {
        0 | 1 => (b'a' + g.c(26) as u8) as char,
        2 => (b' ' + g.c(95) as u8) as char,
        3 => g.pick(&['\'', '"', '\\', '`', '%', '_', '0', 'n', 'Z', 'b', 'r', 't']),
        4 => g.pick(&['\n', '\r', '\t', '\0', '\u{1a}', '\u{8}', '\u{7f}', ';', '/', '-', '*']),
        5 => char::from_u32(0x80 + g.c(0x700)).unwrap_or('é'),
        6 => char::from_u32(0x800 + g.c(0xc000)).unwrap_or('日'),
        _ => char::from_u32(0x10000 + g.c(0xfffff)).unwrap_or('🦀'),
    }
}
fn p06_strings(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = start(tape);
    let s = g.kw("SELECT");
    let m = 1 + if g.p(1, 3) { g.c(3) } else { 0 };
    let mut val = String::new();
    let mut sp: Option<Sp> = None;
    let mut special = 0;
    for _ in 0..m {
        let quote = if !g.pg() && g.p(1, 2) { '"' } else { '\'' };
        let k = match g.c(4) {
            0 => g.c(3),
            1 | 2 => g.c(12),
            _ => g.c(60),
        };
        let mut body = String::new();
        let mut esc = false;
        for _ in 0..k {
            let c = any_char(&mut g);
            if c == quote && !esc {
                body.push(c);
                special += 1;
            }
            if esc || c == '\\' {
                special += 1;
            }
            body.push(c);
            esc = c == '\\' && !esc;
        }
        if esc {
            body.push('\\');
        }
        val.push_str(&decode_ref(&body, quote, g.o.dia));
        let x = g.tok(K::Str, &format!("{quote}{body}{quote}"));
        sp = Some(sp.map_or(x, |o| o.join(x)));
    }
    let str_node = n!("SString"; value: q(&val), span: sp.unwrap().t());
    let nt = special > 0 || !val.is_ascii() || m > 1;
    let want = wrap_select(u("String", vec![str_node]), s);
    check1(rec, &g, want, nt)
}
fn p06_numbers(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = start(tape);
    let s = g.kw("SELECT");
    // an integer of any number of digits: exact, or an error
    let k = match g.c(4) {
        0 => 1 + g.c(4),
        1 => 1 + g.c(12),
        _ => 17 + g.c(6),
    };
    let mut t = String::new();
    for _ in 0..k {
        t.push((b'0' + g.c(10) as u8) as char);
    }
    if g.p(1, 4) {
        t = (u64::MAX as u128 + g.c(5) as u128 - 2).to_string();
    }
    let fits = t.parse::<u64>().ok();
    let which = g.c(3);
    let want = match which {
        0 => {
            let sp = g.tok(K::Num, &t);
            wrap_select(u("Integer", vec![tup(vec![a(fits.unwrap_or(0)), sp.t()])]), s)
        }
        1 => {
            let m = g.pt("-");
            let sp = g.tok(K::Num, &t);
            let i = u("Integer", vec![tup(vec![a(fits.unwrap_or(0)), sp.t()])]);
            wrap_select(n!("Unary"; op: a("Minus"), op_span: m.t(), operand: i), s)
        }
        _ => {
            let e = g.float_tok();
            wrap_select(e, s)
        }
    };
    if which < 2 && fits.is_none() {
        finish(rec, &g, true);
        let p = one(&g.out, &g.o)?;
        if p.errors() == 0 {
            return Err(format!("an integer out of range is accepted\n{}\n{}", input(&g.out, &g.o), p.show()));
        }
        return Ok(());
    }
    check1(rec, &g, want, t.len() > 2)
}
fn p06_idents(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = start(tape);
    let s = g.kw("SELECT");
    let quote = if g.pg() { '"' } else { '`' };
    let n = 1 + g.c(3);
    let mut parts = Vec::new();
    let mut quoted = false;
    for i in 0..n {
        if i > 0 {
            g.dot();
        }
        if g.p(1, 2) {
            let k = g.c(12);
            let mut body = String::new();
            for _ in 0..k {
                let c = any_char(&mut g);
                if c != quote && (c != '\\' || !g.pg()) {
                    body.push(c);
                }
            }
            quoted = true;
            let sp = g.tok(K::Qid, &format!("{quote}{body}{quote}"));
            parts.push(u("Name", vec![Gen::id_node(&body, sp)]));
        } else {
            let nm = if g.p(1, 2) {
                g.pick(NAMES).to_string()
            } else {
                let mut w = String::from("z");
                for _ in 0..g.c(20) {
                    w.push(g.pick(&['a', 'z', 'A', 'Z', '0', '9', '_', 'q']));
                }
                w
            };
            let sp = g.tok(K::Id, &nm);
            parts.push(u("Name", vec![Gen::id_node(&nm, sp)]));
        }
    }
    let want = wrap_select(u("Identifier", vec![list(parts)]), s);
    check1(rec, &g, want, quoted || n > 1)
}
/// literals and names of every kind in the positions of all statements
fn p06_positions(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = start(tape);
    g.depth = 1;
    g.w_op = 1;
    g.w_fn = 1;
    let w = g.any_statement();
    let nt = g.feat.iter().any(|f| f.starts_with("string-") || matches!(*f, "backquoted" | "pg-quoted" | "leading-zero" | "width"));
    check1(rec, &g, w, nt)
}

// ---- P07 -----------------------------------------------------------------------------
fn p07_names_count() -> usize {
    FUNCS.len() * 3 * 5 * 3
}
fn p07_names(rec: &mut Rec, tape: &[u32]) -> Res {
    let i = tape.first().copied().unwrap_or(0) as usize % p07_names_count();
    let (nm, variant) = FUNCS[i % FUNCS.len()];
    let r = i / FUNCS.len();
    let (case, arity, dia) = (r % 3, r / 3 % 5, DIAS[r / 15]);
    let mut g = Gen::new(&[], Opts::plain(dia));
    g.lay = Layout::new(0, 0);
    let s = g.kw("SELECT");
    let text: String = match case {
        0 => nm.to_string(),
        1 => nm.to_ascii_lowercase(),
        _ => nm
            .chars()
            .enumerate()
            .map(|(i, c)| if i % 2 == 0 { c.to_ascii_lowercase() } else { c })
            .collect(),
    };
    let f = g.tok(K::Fn, &text);
    g.pt("(");
    let mut args = Vec::new();
    for k in 0..arity {
        if k > 0 {
            g.pt(",");
        }
        args.push(match k {
            0 => {
                let sp = g.tok(K::Num, "17");
                u("Integer", vec![tup(vec![a(17), sp.t()])])
            }
            1 => {
                let sp = g.tok(K::Str, "'s'");
                u("String", vec![n!("SString"; value: q("s"), span: sp.t())])
            }
            _ => g.column(false, false),
        });
    }
    g.pt(")");
    let want = wrap_select(u("Function", vec![a(variant), list(args), f.t()]), s);
    check1(rec, &g, want, true)
}
/// any other word is a user function of that name
fn p07_user(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = start(tape);
    let s = g.kw("SELECT");
    let nm = match g.c(3) {
        0 => {
            // a near miss of a built-in name
            let (f, _) = g.pick(FUNCS);
            match g.c(4) {
                0 => format!("{f}_"),
                1 => format!("X{f}"),
                2 => format!("{f}2"),
                _ => format!("ST_{f}"),
            }
        }
        1 => {
            let mut w = String::from("f");
            for _ in 0..1 + g.c(10) {
                w.push(g.pick(&['a', 'z', 'A', 'Z', '0', '9', '_', 'q']));
            }
            w
        }
        _ => g.pick(crate::expr::USERFN).to_string(),
    };
    if FUNCS.iter().any(|(f, _)| f.eq_ignore_ascii_case(&nm)) || crate::words::special(&nm) {
        return Ok(());
    }
    let f = g.tok(K::Id, &nm);
    let args = g.call_args(0, 3);
    let want = wrap_select(u("Function", vec![u("Other", vec![q(&nm)]), list(args), f.t()]), s);
    check1(rec, &g, want, true)
}
fn p07_forms(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = start(tape);
    g.w_fn = 14;
    g.w_op = 2;
    let s = g.kw("SELECT");
    let e = g.expr();
    let nt = g.feat.iter().any(|f| {
        matches!(
            *f,
            "function" | "window" | "case" | "cast" | "count" | "group_concat" | "extract" | "interval" | "timestampadd"
                | "variable" | "exists" | "in" | "in-subquery" | "scalar-subquery" | "user-function" | "bare-function"
        )
    });
    check1(rec, &g, wrap_select(e, s), nt)
}

// ---- P08 - P14 ------------------------------------------------------------------------
fn p08_query(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = start(tape);
    let w = g.statement(Kind::Query);
    let nt = g.feat.iter().filter(|f| {
        matches!(
            **f,
            "select-flag" | "select-alias" | "where" | "group-by" | "having" | "order-by" | "limit" | "locking" | "union"
                | "paren-query" | "derived-table" | "scalar-subquery"
        )
    });
    let nt = nt.count() >= 2;
    check1(rec, &g, w, nt)
}
fn p08_with(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = start(tape);
    g.o.dia = Dia::Pg;
    let w = g.statement(Kind::With);
    check1(rec, &g, w, true)
}
/// flat statements: many clauses, small expressions
fn p08_clauses(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = start(tape);
    g.depth = 2;
    g.w_op = 1;
    g.w_fn = 1;
    let w = u("Select", vec![g.select(Sel::Free)]);
    let nt = g.feat.len() >= 3;
    check1(rec, &g, w, nt)
}
fn p09_tables(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = start(tape);
    g.w_op = 2;
    g.w_fn = 1;
    let w = match g.c(6) {
        0..=2 => {
            let s = g.kw("SELECT");
            let e = g.star();
            let f = g.kw("FROM");
            let r = g.table_refs();
            u("Select", vec![n!("Select"; select_span: s.t(), flags: list(vec![]),
                select_exprs: list(vec![n!("SelectExpr"; expr: e, as_: none())]), from_span: some(f.t()),
                table_references: some(r), where_: none(), group_by: none(), having: none(), window_span: none(),
                order_by: none(), limit: none(), locking: none())])
        }
        3 => u("Update", vec![g.update()]),
        4 => u("Delete", vec![g.delete()]),
        _ => u("Select", vec![g.select(Sel::Free)]),
    };
    let nt = g.feat.iter().any(|f| matches!(*f, "join" | "derived-table" | "index-hint" | "table-alias" | "bare-alias"));
    check1(rec, &g, w, nt)
}
fn kind(rec: &mut Rec, tape: &[u32], k: Kind, shallow: bool) -> Res {
    let mut g = start(tape);
    if shallow {
        g.depth = 2;
        g.w_op = 1;
        g.w_fn = 1;
    }
    let w = g.statement(k);
    let nt = g.toks.len() > 8;
    check1(rec, &g, w, nt)
}
fn p10(rec: &mut Rec, tape: &[u32]) -> Res {
    let k = [Kind::Insert, Kind::Insert, Kind::Update, Kind::Delete][tape.first().map_or(0, |x| (x / 3 % 4) as usize)];
    kind(rec, tape, k, false)
}
fn p10_shallow(rec: &mut Rec, tape: &[u32]) -> Res {
    let k = [Kind::Insert, Kind::Insert, Kind::Update, Kind::Delete][tape.first().map_or(0, |x| (x / 3 % 4) as usize)];
    kind(rec, tape, k, true)
}
fn p11(rec: &mut Rec, tape: &[u32]) -> Res {
    kind(rec, tape, Kind::CreateTable, true)
}
fn p11_deep(rec: &mut Rec, tape: &[u32]) -> Res {
    kind(rec, tape, Kind::CreateTable, false)
}
fn p12(rec: &mut Rec, tape: &[u32]) -> Res {
    kind(rec, tape, Kind::CreateOther, false)
}
fn p12_shallow(rec: &mut Rec, tape: &[u32]) -> Res {
    kind(rec, tape, Kind::CreateOther, true)
}
fn p13(rec: &mut Rec, tape: &[u32]) -> Res {
    kind(rec, tape, Kind::Alter, false)
}
fn p13_shallow(rec: &mut Rec, tape: &[u32]) -> Res {
    kind(rec, tape, Kind::Alter, true)
}
fn p14(rec: &mut Rec, tape: &[u32]) -> Res {
    let k = [Kind::Drop, Kind::Drop, Kind::Admin][tape.first().map_or(0, |x| (x / 3 % 3) as usize)];
    let mut g = start(tape);
    let w = g.statement(k);
    let nt = g.toks.len() > 3;
    check1(rec, &g, w, nt)
}

// ---- P15 -----------------------------------------------------------------------------
/// Compound statements inside a script, each followed by unrelated statements.
fn p15(rec: &mut Rec, tape: &[u32]) -> Res {
    let mut g = start(tape);
    g.w_op = 2;
    g.w_fn = 1;
    g.subq_ok = false;
    g.budget = 700;
    let n = 1 + g.c(3);
    let mut want = Vec::new();
    for _ in 0..n {
        if g.p(1, 3) {
            let k = g.pick(&[Kind::Query, Kind::Admin, Kind::Insert, Kind::Drop]);
            want.push(g.deeper(|g| g.statement(k)));
            g.pt(";");
        }
        want.push(g.statement(Kind::Compound));
        g.pt(";");
    }
    if g.p(1, 2) {
        let k = g.pick(&[Kind::Admin, Kind::Update, Kind::Query]);
        want.push(g.deeper(|g| g.statement(k)));
        g.pt(";");
    }
    let nt = g.feat.iter().filter(|f| matches!(**f, "if" | "case-statement" | "block" | "do" | "trigger" | "function-def")).count() >= 2;
    finish(rec, &g, nt);
    expect(&g.out, &g.o, true, &want).map(|_| ())
}

fn plus(p: u32, mut v: Vec<Sub>) -> Vec<Sub> {
    v.extend(crate::counts::subs(p));
    v
}
pub fn props() -> Vec<Prop> {
    let t = |name, len, quick, f| Sub { name, how: How::Tape(len), quick, times: 25, f };
    vec![
        Prop {
            id: "P05",
            rule: "flat3: every sequence of three operators (33 forms of binary operators, IS and IN) over four operands with pseudo-random prefix operators; flat: random flat operator sequences with parentheses, function, CASE and sub-query brackets, all compared with a precedence-climbing reference; tree: random expression trees printed with the parentheses the precedences require. long: the repetitions of P04 that belong here, up to 131072 times; lists: a list element or fragment of a random statement repeated up to 1030 times; counted in the tree. Non-trivial: at least two operators.",
            subs: plus(5, vec![
                Sub { name: "flat3", how: How::Each(|| NOPS * NOPS * NOPS), quick: 0, times: 1, f: p05_flat3 },
                t("flat", 160, 480_000, p05_flat),
                t("tree", 260, 320_000, p05_tree),
            ]),
        },
        Prop {
            id: "P06",
            rule: "strings: one to four adjacent string tokens of arbitrary Unicode characters, decoded by an independent reference; numbers: integers of up to 22 digits around the 64-bit limit and decimals; idents: (qualified) quoted and unquoted names; positions: whole statements of shallow expressions, compared with the generated tree. Non-trivial: a string with an escape, a doubled quote, a non-ASCII character or several pieces; an integer of more than two digits or a decimal; a quoted or qualified name; a statement containing such a literal.",
            subs: vec![
                t("strings", 120, 640_000, p06_strings),
                t("numbers", 50, 480_000, p06_numbers),
                t("idents", 80, 400_000, p06_idents),
                t("positions", 200, 320_000, p06_positions),
            ],
        },
        Prop {
            id: "P07",
            rule: "names: every built-in function name x three letter cases x 0-4 arguments x dialect; user: other names, many of them near misses of built-in names, with random arguments; forms: random expressions dominated by calls and special forms. long: the repetitions of P04 that belong here, up to 131072 times; lists: a list element or fragment of a random statement repeated up to 1030 times; counted in the tree. Non-trivial: contains a call or special form.",
            subs: plus(7, vec![
                Sub { name: "names", how: How::Each(p07_names_count), quick: 0, times: 1, f: p07_names },
                t("user", 120, 240_000, p07_user),
                t("forms", 260, 400_000, p07_forms),
            ]),
        },
        Prop {
            id: "P08",
            rule: "random queries built together with the tree they must give: query (SELECT, UNION and parenthesised queries of any nesting), clauses (one SELECT with all clauses over small expressions), with (WITH queries, PostgreSQL). long: the repetitions of P04 that belong here, up to 131072 times; lists: a list element or fragment of a random statement repeated up to 1030 times; counted in the tree. Non-trivial: at least two optional clauses or features; every WITH.",
            subs: plus(8, vec![
                t("clauses", 200, 400_000, p08_clauses),
                t("query", 350, 320_000, p08_query),
                t("with", 300, 128_000, p08_with),
            ]),
        },
        Prop {
            id: "P09",
            rule: "random FROM clauses, UPDATE table lists and DELETE target and USING lists with joins of every kind, ON and USING, aliases, derived tables and index hints, built together with the tree. long: the repetitions of P04 that belong here, up to 131072 times; lists: a list element or fragment of a random statement repeated up to 1030 times; counted in the tree. Non-trivial: contains a join, an alias, a derived table or an index hint.",
            subs: plus(9, vec![t("tables", 260, 720_000, p09_tables)]),
        },
        Prop {
            id: "P10",
            rule: "random INSERT, REPLACE, UPDATE and DELETE statements of the dialect, built together with the tree. long: the repetitions of P04 that belong here, up to 131072 times; lists: a list element or fragment of a random statement repeated up to 1030 times; counted in the tree. Non-trivial: more than eight tokens.",
            subs: plus(10, vec![t("shallow", 200, 480_000, p10_shallow), t("deep", 320, 320_000, p10)]),
        },
        Prop {
            id: "P11",
            rule: "random CREATE TABLE statements (all types, properties, constraints, options), built together with the tree. long: the repetitions of P04 that belong here, up to 131072 times; lists: a list element or fragment of a random statement repeated up to 1030 times; counted in the tree. Non-trivial: more than eight tokens.",
            subs: plus(11, vec![t("shallow", 260, 560_000, p11), t("deep", 320, 160_000, p11_deep)]),
        },
        Prop {
            id: "P12",
            rule: "random CREATE VIEW, INDEX, TRIGGER, FUNCTION and TYPE statements of the dialect, built together with the tree. long: the repetitions of P04 that belong here, up to 131072 times; lists: a list element or fragment of a random statement repeated up to 1030 times; counted in the tree. Non-trivial: more than eight tokens.",
            subs: plus(12, vec![t("shallow", 220, 400_000, p12_shallow), t("deep", 320, 200_000, p12)]),
        },
        Prop {
            id: "P13",
            rule: "random ALTER TABLE statements with one or more alterations of every kind, built together with the tree. long: the repetitions of P04 that belong here, up to 131072 times; lists: a list element or fragment of a random statement repeated up to 1030 times; counted in the tree. Non-trivial: more than eight tokens.",
            subs: plus(13, vec![t("shallow", 220, 560_000, p13_shallow), t("deep", 300, 160_000, p13)]),
        },
        Prop {
            id: "P14",
            rule: "random DROP, RENAME, TRUNCATE, SET, BEGIN, START TRANSACTION, COMMIT and END statements, built together with the tree. long: the repetitions of P04 that belong here, up to 131072 times; lists: a list element or fragment of a random statement repeated up to 1030 times; counted in the tree. Non-trivial: more than three tokens.",
            subs: plus(14, vec![t("statements", 160, 960_000, p14)]),
        },
        Prop {
            id: "P15",
            rule: "random scripts of triggers, functions, DO blocks and top-level IF and CASE statements whose bodies nest BEGIN..END, IF, CASE, SIGNAL, SET, RETURN and DML, between ordinary statements; the whole list of trees is compared. long: the repetitions of P04 that belong here, up to 131072 times; lists: a list element or fragment of a random statement repeated up to 1030 times; counted in the tree. Non-trivial: at least two kinds of compound construct.",
            subs: plus(15, vec![t("scripts", 400, 360_000, p15)]),
        },
    ]
}
