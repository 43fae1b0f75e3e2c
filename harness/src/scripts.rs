//! P20 scripts, P21 isolation of errors, P22 inline data.

use crate::dict;
use crate::gen::*;
use crate::misc::Kind;
use crate::mutate::*;
use crate::parse::*;
use crate::run::*;
use crate::tree::*;

/// Move a statement parsed on its own to an offset, its placeholders counted from `base`.
fn moved(t: &T, off: usize, base: usize, counted: bool) -> T {
    fn go(t: &T, base: usize, counted: bool) -> T {
        match t {
            T::U(n, v) if (n == "Arg" && counted) || n == "ListHack" => {
                if let Some(T::U(m, p)) = v.first() {
                    if let [T::A(i), s] = &p[..] {
                        if let Ok(i) = i.parse::<usize>() {
                            return T::U(n.clone(), vec![T::U(m.clone(), vec![a(i + base), s.clone()])]);
                        }
                    }
                }
                t.clone()
            }
            T::N(n, v) => T::N(n.clone(), v.iter().map(|(f, t)| (f.clone(), go(t, base, counted))).collect()),
            T::U(n, v) => T::U(n.clone(), v.iter().map(|t| go(t, base, counted)).collect()),
            T::L(v) => T::L(v.iter().map(|t| go(t, base, counted)).collect()),
            t => t.clone(),
        }
    }
    go(t, base, counted).map_spans(&|x, y| if (x, y) == (0, 0) { (0, 0) } else { (x + off, y + off) })
}
/// How many numbered placeholders a tree holds.
fn counted_args(v: &[T], counted: bool) -> usize {
    let mut n = 0;
    for t in v {
        t.walk(&mut |t| {
            if let T::U(m, _) = t {
                n += usize::from((m == "Arg" && counted) || m == "ListHack");
            }
        });
    }
    n
}
/// The tree with its placeholders counted from its own first one.
fn own_numbers(t: &T, counted: bool) -> T {
    let mut min = usize::MAX;
    t.walk(&mut |t| {
        if let T::U(m, v) = t {
            if m == "Arg" && counted || m == "ListHack" {
                if let Some(T::U(_, p)) = v.first() {
                    if let Some(T::A(i)) = p.first() {
                        min = min.min(i.parse().unwrap_or(usize::MAX));
                    }
                }
            }
        }
    });
    if min == usize::MAX {
        return t.clone();
    }
    renumber(t, counted, &|i| i.wrapping_sub(min))
}
fn renumber(t: &T, counted: bool, f: &dyn Fn(usize) -> usize) -> T {
    match t {
        T::U(n, v) if n == "Arg" && counted || n == "ListHack" => {
            if let Some(T::U(m, p)) = v.first() {
                if let [T::A(i), s] = &p[..] {
                    if let Ok(i) = i.parse::<usize>() {
                        return T::U(n.clone(), vec![T::U(m.clone(), vec![a(f(i)), s.clone()])]);
                    }
                }
            }
            t.clone()
        }
        T::N(n, v) => T::N(n.clone(), v.iter().map(|(k, t)| (k.clone(), renumber(t, counted, f))).collect()),
        T::U(n, v) => T::U(n.clone(), v.iter().map(|t| renumber(t, counted, f)).collect()),
        T::L(v) => T::L(v.iter().map(|t| renumber(t, counted, f)).collect()),
        t => t.clone(),
    }
}
fn moved_issue(i: &Iss, off: usize) -> Iss {
    let mut i = i.clone();
    i.sp = (i.sp.0 + off, i.sp.1 + off);
    for f in &mut i.frags {
        f.1 = (f.1 .0 + off, f.1 .1 + off);
    }
    i
}

#[derive(Clone)]
enum Item {
    /// a statement and whether it is malformed
    Stmt(String, bool),
    /// COPY .. FROM STDIN, what follows the delimiter, and the data in it
    Copy(String, String, String),
    Empty,
    /// switch to the other delimiter, or (true) name the one in force again
    Switch(String, bool),
}
struct Script {
    text: String,
    /// statement text, its offset, malformed, and the end of its delimiter
    stmts: Vec<(String, usize, bool, usize)>,
    /// inline data: index of its statement, offset, text
    data: Vec<(usize, usize, String)>,
    missing: bool,
}
fn gap(g: &mut Gen) -> String {
    const F: &[&str] = &["", " ", "\n", "\n\n", "  \t", "\r\n", " -- c ; $$\n", "/* ; */", " /* $$ */ ", "// x ; y\n", "/* DELIMITER $$ */", "\n-- é\n"];
    g.pick(F).to_string()
}
/// Lay out the items as a script; `skip`: leave the malformed ones out.
fn lay_out(items: &[Item], gaps: &[String], missing: bool, skip: bool) -> Script {
    let mut s = Script { text: String::new(), stmts: Vec::new(), data: Vec::new(), missing: false };
    let mut d = ";";
    let last = items.iter().rposition(|i| !matches!(i, Item::Switch(..)));
    for (n, i) in items.iter().enumerate() {
        let gp = |k: usize| gaps[(2 * n + k) % gaps.len()].as_str();
        match i {
            Item::Stmt(_, true) if skip => {}
            Item::Stmt(t, bad) => {
                s.text.push_str(gp(0));
                let st = s.text.len();
                s.text.push_str(t);
                // a filler after an operator would start a comment of its own
                if t.ends_with(['-', '/', '$']) || gp(1).starts_with(['-', '/']) || d == "$$" {
                    s.text.push(' ');
                }
                s.text.push_str(gp(1));
                let ends = missing && Some(n) == last && !bad && n + 1 == items.len();
                if ends {
                    s.missing = true;
                } else {
                    s.text.push_str(d);
                }
                let e = s.text.len();
                s.text.push_str(if ends { "" } else { [" ", "\n", ""][n % 3] });
                if d == "$$" {
                    s.text.push(' ');
                }
                s.stmts.push((t.clone(), st, *bad, e));
            }
            Item::Copy(t, rest, data) => {
                s.text.push_str(gp(0));
                let st = s.text.len();
                s.text.push_str(t);
                if d == "$$" {
                    s.text.push(' ');
                }
                s.text.push_str(d);
                let e = s.text.len();
                // the data starts behind white space and one line break
                let lead = rest.find('\n').map_or(rest.len(), |p| p + 1);
                s.data.push((s.stmts.len(), s.text.len() + lead, data.clone()));
                s.text.push_str(rest);
                s.stmts.push((t.clone(), st, false, e));
            }
            Item::Empty => {
                s.text.push_str(gp(0));
                s.text.push_str(d);
                s.text.push(' ');
            }
            Item::Switch(w, same) => {
                let nd = if (d == ";") != *same { "$$" } else { ";" };
                s.text.push_str(gp(0));
                s.text.push_str(w);
                s.text.push_str(" ");
                s.text.push_str(nd);
                s.text.push_str([" ", "\n", "\r\n"][n % 3]);
                d = nd;
            }
        }
    }
    s
}
fn gaps(g: &mut Gen) -> Vec<String> {
    (0..7).map(|_| gap(g)).collect()
}
fn fresh(g: &mut Gen, budget: i32) {
    g.out.clear();
    g.toks.clear();
    g.budget = budget;
    g.argn = 0;
}
/// A well-formed statement; under the `$$` delimiter one without `$$`.
fn good(g: &mut Gen, dollars: bool) -> String {
    fresh(g, 70);
    g.any_statement();
    if dollars && g.toks.iter().any(|t| t.text == "$$") {
        fresh(g, 70);
        g.statement(Kind::Admin);
    }
    g.f("statement");
    g.out.clone()
}
fn switch(g: &mut Gen) -> Item {
    let same = g.p(1, 4);
    Item::Switch(g.pick(&["DELIMITER", "delimiter", "Delimiter"]).to_string(), same)
}
fn compare(rec: &mut Rec, o: &Opts, s: &Script) -> Res {
    let counted = matches!(o.args, Args::Question | Args::Percent);
    let p = script(&s.text, o)?;
    let bad = |m: String| Err(format!("{m}\n{}\n{}", input(&s.text, o), p.show()));
    let mut want: Vec<T> = Vec::new();
    let mut iss: Vec<Iss> = Vec::new();
    let mut base = 0;
    for (i, (t, off, _, _)) in s.stmts.iter().enumerate() {
        let q = one(t, o)?;
        rec.extra += 1;
        if let Some(e) = q.first_error() {
            return Err(format!("an error is reported for a well-formed statement: {}\n{}", e.msg, input(t, o)));
        }
        want.extend(q.stmts.iter().map(|t| moved(t, *off, base, counted)));
        base += counted_args(&q.stmts, counted);
        iss.extend(q.issues.iter().map(|i| moved_issue(i, *off)));
        for (_, off, d) in s.data.iter().filter(|d| d.0 == i) {
            want.push(u("Stdin", vec![q_(d), Sp(*off, *off + d.len()).t()]));
        }
    }
    // the keyword lint may complain about the command itself
    let mut got = p.issues.clone();
    got.retain(|i| !i.seg.eq_ignore_ascii_case("delimiter"));
    iss.retain(|i| !i.seg.eq_ignore_ascii_case("delimiter"));
    if s.missing {
        let end = s.text.len();
        match got.pop() {
            Some(i) if i.err && i.sp.0 >= s.stmts.last().map_or(0, |s| s.1) && i.sp.1 <= end => {}
            _ => return bad("no error is reported for the missing delimiter at the end".into()),
        }
    }
    if p.stmts.len() != want.len() {
        return bad(format!("{} statements are returned where {} are written", p.stmts.len(), want.len()));
    }
    for (i, (w, g)) in want.iter().zip(&p.stmts).enumerate() {
        if let Some(d) = diff(w, g) {
            return bad(format!("statement {i} of the script differs {d}\nexpected {}", w.show()));
        }
    }
    for (x, y) in iss.iter().zip(&got) {
        if x != y {
            return bad(format!("an issue is {y:?}, the statement on its own has {x:?}"));
        }
    }
    if iss.len() != got.len() {
        return bad(format!("{} issues are reported, the statements on their own have {}", got.len(), iss.len()));
    }
    Ok(())
}
fn q_(s: &str) -> T {
    q(s)
}
/// A well-formed script of up to six statements.
fn any_script(g: &mut Gen) -> Script {
    let gs = gaps(g);
    let missing = g.p(1, 4);
    let n = 1 + g.c(6);
    g.budget = 101;
    let n = g.reps(n);
    let mut items = Vec::new();
    let mut last = None;
    let mut dollars = false;
    for _ in 0..n {
        g.budget = 100;
        match g.c(12) {
            0 => items.push(Item::Empty),
            1 | 2 => {
                items.push(switch(g));
                dollars ^= !matches!(items.last(), Some(Item::Switch(_, true)));
                g.f("delimiter change");
            }
            3 => {
                let c = copy(g);
                items.push(c);
                g.f("copy");
            }
            _ => {
                let t = g.twin(&mut last, |g| good(g, dollars));
                items.push(Item::Stmt(t, false));
            }
        }
    }
    let s = lay_out(&items, &gs, missing, false);
    if s.missing {
        g.f("missing delimiter");
    }
    s
}
/// Its text, and whether the last delimiter is left out.
pub fn any_script_text(g: &mut Gen) -> (String, bool) {
    let s = any_script(g);
    (s.text, s.missing)
}
fn p20_script(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    let s = any_script(&mut g);
    rec.labels.extend(g.feat.iter());
    rec.case(s.stmts.len() >= 2, &(o.dia as u8, &s.text), || format!("{:?}: {}", o.dia, s.text));
    compare(rec, &o, &s)
}
/// The mark that is not the delimiter in force separates nothing.
fn p20_other(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    let s = any_script(&mut g);
    if script(&s.text, &o)?.errors() != usize::from(s.missing) {
        return Ok(()); // `script` decides
    }
    rec.labels.extend(g.feat.iter());
    rec.case(!s.stmts.is_empty(), &(o.dia as u8, &s.text), || format!("{:?}: {}", o.dia, s.text));
    let last = s.stmts.len();
    for (n, (t, st, _, e)) in s.stmts.iter().enumerate() {
        let (d, other) = match () {
            _ if s.missing && n + 1 == last => continue,
            _ if s.text[..*e].ends_with("$$") => ("$$", ";"),
            _ => (";", "$$"),
        };
        let end = st + t.len();
        // before the statement, behind it, instead of its delimiter, behind that
        let places = [(*st, *st), (end, end), (e - d.len(), *e), (*e, *e)];
        let k = g.c(4) as usize;
        let (a, b) = places[k];
        if k == 3 && s.data.iter().any(|d| d.0 == n) {
            continue; // inside of the data
        }
        let lead = g.pick(&[" ", "\n", " /* x */ "]);
        let pre = format!("{}{lead}", &s.text[..a]);
        let x = format!("{pre}{other} {}", &s.text[b..]);
        let p = script(&x, &o)?;
        rec.extra += 1;
        let want = (pre.len(), pre.len() + other.len());
        match p.first_error() {
            Some(e) if e.sp == want => {}
            e => {
                return Err(format!(
                    "the first error is {} where {other:?} at {want:?} is not the delimiter in force\n{}\n{}",
                    e.map_or("missing".into(), |e| format!("{:?} at {:?}", e.msg, e.sp)),
                    input(&x, &o),
                    p.show()
                ))
            }
        }
    }
    Ok(())
}

// ---- P21 -----------------------------------------------------------------------------
fn balanced(t: &[Tok]) -> bool {
    let mut st = Vec::new();
    for x in t {
        match x.text.as_str() {
            "(" => st.push(")"),
            "[" => st.push("]"),
            "{" => st.push("}"),
            ")" | "]" | "}" => {
                if st.pop() != Some(x.text.as_str()) {
                    return false;
                }
            }
            _ => {}
        }
    }
    st.is_empty()
}
/// A malformed statement (most of the time) that is lexically complete.
fn broken(g: &mut Gen, dollars: bool) -> Option<String> {
    fresh(g, 60);
    let args = g.p(1, 2);
    let old = g.o.args;
    let oldl = g.o.list;
    if !args {
        g.o.args = Args::None;
        g.o.list = false;
    }
    let k = g.pick(&[
        Kind::Query, Kind::Query, Kind::Insert, Kind::Update, Kind::Delete, Kind::With, Kind::CreateTable, Kind::CreateOther, Kind::Alter,
        Kind::Drop, Kind::Admin, Kind::Compound,
    ]);
    g.statement(k);
    g.o.args = old;
    g.o.list = oldl;
    let mut t = std::mem::take(&mut g.toks);
    g.budget = 100;
    match g.c(4) {
        0 => {
            // cut
            let i = g.c(t.len() as u32) as usize;
            t.truncate(i);
            // in the middle of something else
            if g.p(1, 3) {
                let w = if g.p(1, 2) { g.pick(crate::words::KEYWORDS) } else { g.pick(crate::words::RESERVED) };
                t.push(tok_of(w));
            }
            // and closed
            if g.p(1, 2) {
                let mut open = Vec::new();
                for x in &t {
                    match x.text.as_str() {
                        "(" => open.push(")"),
                        ")" => {
                            open.pop();
                        }
                        _ => {}
                    }
                }
                while let Some(c) = open.pop() {
                    t.push(tok_of(c));
                }
            }
        }
        n => mutate(g, &mut t, n),
    }
    t.retain(|t| plain_word(t) || args && (t.k == K::Arg || ["?", "%s", "_LIST_"].contains(&t.text.as_str())));
    if !dollars {
        // a terminator inside would end it
        t.retain(|t| t.text != ";");
        // and would not end a compound statement that is still open
        let is = |t: &Tok, w: &[&str]| w.iter().any(|w| t.text.eq_ignore_ascii_case(w));
        let opens = t.iter().skip(1).any(|t| is(t, &["BEGIN"]))
            || t.iter().any(|t| is(t, &["DO"]))
            || (t.iter().any(|t| is(t, &["THEN", "ELSE"]))
                && (t.first().is_some_and(|t| is(t, &["IF", "CASE"])) || t.iter().any(|t| is(t, &["TRIGGER", "FUNCTION"]))));
        if opens {
            return None;
        }
    } else {
        // `DO $$` and `AS $$` open a body
        t.retain(|t| !t.text.eq_ignore_ascii_case("DO"));
        while t.last().is_some_and(|t| t.text.eq_ignore_ascii_case("AS")) {
            t.pop();
        }
    }
    if t.len() > 1 && g.p(1, 8) {
        // the command to change the delimiter, where it is none
        let i = 1 + g.c(t.len() as u32) as usize;
        let i = i.min(t.len());
        if g.p(1, 2) {
            t.insert(i, tok_of(if dollars { ";" } else { "$$" }));
        }
        let w = g.pick(&["DELIMITER", "delimiter"]);
        t.insert(i, tok_of(w));
    }
    if t.is_empty() || (!g.p(1, 2) && !balanced(&t)) {
        return None;
    }
    Some(render(&t, &mut Layout::new(0, 0)).0)
}
/// Where the parts of a (possibly incomplete) statement lie; missing parts are at 0..0.
fn extent(t: &T) -> Option<(usize, usize)> {
    let mut r: Option<(usize, usize)> = None;
    t.walk(&mut |t| {
        if let T::S(x, y) = *t {
            if (x, y) != (0, 0) {
                r = Some(r.map_or((x, y), |r| (r.0.min(x), r.1.max(y))));
            }
        }
    });
    r
}
fn plain_word(t: &Tok) -> bool {
    const NOT: &[&str] = &["DELIMITER", "COPY", "STDIN", "_LIST_"];
    crate::layout::plain_token(t) && t.k != K::Arg && !["?", "%s", "$$"].contains(&t.text.as_str()) && !t.text.starts_with('$')
        && !NOT.iter().any(|n| t.text.eq_ignore_ascii_case(n))
}
fn p21_isolation(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    let gs = gaps(&mut g);
    let n = 2 + g.c(4);
    let mut items = Vec::new();
    let mut dollars = g.p(1, 2);
    if dollars {
        items.push(switch(&mut g));
        dollars = matches!(items.last(), Some(Item::Switch(_, false)));
    }
    let mut any = false;
    for i in 0..n {
        g.budget = 100;
        if (i == n - 2 && !any) || g.p(1, 3) {
            if let Some(t) = broken(&mut g, dollars) {
                items.push(Item::Stmt(t, true));
                any = true;
                continue;
            }
        }
        g.budget = 100;
        if g.p(1, 10) {
            items.push(switch(&mut g));
            dollars ^= matches!(items.last(), Some(Item::Switch(_, false)));
        }
        let t = good(&mut g, dollars);
        items.push(Item::Stmt(t, false));
    }
    let s = lay_out(&items, &gs, false, false);
    let s0 = lay_out(&items, &gs, false, true);
    let p = script(&s.text, &o)?;
    let p0 = script(&s0.text, &o)?;
    rec.extra += 1;
    rec.case(p.errors() > 0, &(o.dia as u8, &s.text), || format!("{:?}: {}", o.dia, s.text));
    let bad = |m: String| Err(format!("{m}\n{}\n{}\nwithout the malformed statement:\n{}\n{}", input(&s.text, &o), p.show(), input(&s0.text, &o), p0.show()));
    if p0.errors() > 0 {
        return bad("an error is reported in the script without the malformed statement".into());
    }
    // ranges of the malformed statements
    let ranges: Vec<(usize, usize)> = s.stmts.iter().filter(|x| x.2).map(|x| (x.1, x.3)).collect();
    let within = |sp: (usize, usize)| ranges.iter().any(|r| r.0 <= sp.0 && sp.1 <= r.1);
    for i in p.issues.iter().filter(|i| i.err) {
        if !within(i.sp) {
            return bad(format!("the error {:?} at {:?} is outside the malformed statement", i.msg, i.sp));
        }
    }
    // offsets: text behind a malformed statement moved
    let good: Vec<&(String, usize, bool, usize)> = s.stmts.iter().filter(|x| !x.2).collect();
    let shift = |x: usize| -> usize {
        let k = s0.stmts.iter().rposition(|y| y.1 <= x).unwrap_or(0);
        x - s0.stmts[k].1 + good[k].1
    };
    let want: Vec<T> = p0
        .stmts
        .iter()
        .map(|t| t.map_spans(&|x, y| if (x, y) == (0, 0) { (0, 0) } else { (shift(x), shift(x) + (y - x)) }))
        .collect();
    let got: Vec<&T> = p.stmts.iter().filter(|t| !extent(t).is_some_and(within)).collect();
    if got.len() != want.len() {
        return bad(format!("{} statements are returned next to the malformed ones, {} are written", got.len(), want.len()));
    }
    let counted = !matches!(o.args, Args::Dollar);
    // the placeholders of a malformed statement count for those behind it
    for (w, x) in want.iter().zip(&got) {
        if let Some(d) = diff(&own_numbers(w, counted), &own_numbers(x, counted)) {
            return bad(format!("a statement next to a malformed one differs {d}"));
        }
    }
    // at most one statement comes from each malformed one that is not a compound statement
    let w0: Vec<Iss> = p0.issues.clone();
    let w1: Vec<Iss> = p.issues.iter().filter(|i| !within(i.sp)).cloned().collect();
    if w0.len() != w1.len() || w0.iter().zip(&w1).any(|(a, b)| a.msg != b.msg || a.seg != b.seg) {
        return bad("the warnings of the other statements differ".into());
    }
    Ok(())
}

// ---- P22 -----------------------------------------------------------------------------
/// COPY with data that ends with a terminator line.
fn copy(g: &mut Gen) -> Item {
    fresh(g, 60);
    copy_head(g);
    let t = g.out.clone();
    g.budget = 60;
    let (data, closed) = data(g);
    let lead = g.pick(&["\n", " \n", "  \t\n", "\r\n"]);
    let mut rest = format!("{lead}{data}");
    rest.push_str("\\.\n");
    let _ = closed;
    Item::Copy(t, rest, data)
}
fn copy_head(g: &mut Gen) -> T {
    let s = g.kw("COPY");
    let (t, _) = g.ident();
    g.pt("(");
    let k = g.c(5);
    let cols = if k == 4 { Vec::new() } else { g.ident_list(4) };
    g.pt(")");
    let f = g.kw("FROM");
    let i = g.kw("STDIN");
    u("Copy", vec![crate::n!("Copy"; copy_span: s.t(), table: t, columns: list(cols), from_span: f.t(), stdin_span: i.t())])
}
/// Lines of data (each with its line break) without a terminator line.
fn data(g: &mut Gen) -> (String, bool) {
    const L: &[&str] = &[
        "1\ta", "\\N\t\\N", "", " ", "\\", "\\\\.", "\\. ", "\\.x", " \\.", "x\\.", "\\.\\.", ".", "\\.\r", "..", "\\", ";", "$$", "SELECT 1;",
        "it's", "\"", "`", "/* x", "-- y", "é∂\u{1F600}", "\u{0}", "DELIMITER $$", "\\.;", "COPY a (b) FROM STDIN;", "\r", "\t", "\\n", "\\,",
        "\\\u{e9}", "\\.\u{2028}", "?", "$1", "END",
    ];
    let mut n = g.c(6);
    if dict::hit(g, &dict::dict().counts, 8) {
        n = (dict::near(g, &dict::dict().counts) as u32).min(300);
    }
    let mut s = String::new();
    for _ in 0..n {
        let k = 1 + g.c(2);
        let mut l = String::new();
        for _ in 0..k {
            l.push_str(g.pick(L));
        }
        if dict::hit(g, &dict::dict().texts, 4) {
            let t = dict::some(g, &dict::dict().texts);
            l.extend(t.chars().filter(|c| *c != '\n'));
        }
        if dict::hit(g, &dict::dict().sizes, 20) {
            l.push_str(&"d".repeat(dict::near(g, &dict::dict().sizes) as usize));
        }
        if g.p(1, 8) {
            l = (0..g.c(6)).map(|_| rand_char(g)).filter(|c| *c != '\n').collect();
        }
        if l == "\\." {
            l.push('.');
        }
        s.push_str(&l);
        s.push('\n');
    }
    (s, true)
}
/// What the data of a text that follows the delimiter is: data, and where parsing goes on.
fn data_ref(rest: &str) -> (usize, usize, usize) {
    let lead = rest.bytes().take_while(|b| matches!(b, b' ' | b'\t' | b'\r' | 0x0c)).count();
    if lead == rest.len() {
        return (lead, lead, lead);
    }
    // every line starts behind a line break
    let start = if rest.as_bytes()[lead] == b'\n' { lead + 1 } else { lead };
    let mut at = start;
    let mut first = start == lead;
    loop {
        let end = rest[at..].find('\n').map(|p| at + p);
        let line = &rest[at..end.unwrap_or(rest.len())];
        if line == "\\." && !first {
            return (start, at, end.map_or(rest.len(), |e| e + 1));
        }
        first = false;
        match end {
            Some(e) => at = e + 1,
            None => return (start, rest.len(), rest.len()),
        }
    }
}
fn p22_copy(rec: &mut Rec, tape: &[u32]) -> Res {
    let (mut o, rest) = any_opts(tape);
    o.wq = false;
    o.wc = false;
    let mut g = Gen::new(rest, o);
    let mut before = String::new();
    for _ in 0..g.c(3) {
        before.push_str(&good(&mut g, false));
        before.push_str(";\n");
    }
    let nb = script(&before, &o)?.stmts;
    let dollars = g.p(1, 4);
    if dollars {
        before.push_str("DELIMITER $$\n");
    }
    fresh(&mut g, 60);
    let head_t = copy_head(&mut g);
    let layout = g.raw_choice();
    let toks = g.toks.clone();
    let (head, hsp) = render(&toks, &mut Layout::new(layout % 500, layout / 500 % 500));
    let head_t = head_t.map_spans(&|x, y| {
        let i = toks.iter().position(|t| t.sp.0 == x).unwrap_or(0);
        let j = toks.iter().position(|t| t.sp.1 == y).unwrap_or(0);
        (hsp[i].0, hsp[j].1)
    });
    g.budget = 60;
    let (d, _) = data(&mut g);
    let mut rest = match g.c(8) {
        0 => String::new(),
        1 => " \t".to_string(),
        _ => {
            let lead = g.pick(&["\n", " \n", "  \t\n", "\r\n", "\u{c}\n"]);
            format!("{lead}{d}")
        }
    };
    let mut after = String::new();
    match g.c(6) {
        // until the end of the text, with or without a line break
        0 => {
            if g.p(1, 2) && rest.ends_with('\n') {
                rest.pop();
            }
            if g.p(1, 2) {
                let l = g.pick(&["\\", "\\..", "x", "\\.x", " \\.", "é"]);
                rest.push_str(l);
            }
        }
        1 if rest.ends_with('\n') => rest.push_str("\\."),
        _ if rest.ends_with('\n') => {
            rest.push_str("\\.\n");
            for _ in 0..g.c(3) {
                after.push_str(&good(&mut g, dollars));
                after.push_str(if dollars { " $$\n" } else { ";\n" });
            }
        }
        _ => {}
    }
    let del = if dollars { "$$" } else { ";" };
    let pre = g.pick(&["", " ", "\n"]);
    let pre = if dollars { " " } else { pre };
    let off = before.len();
    let start = off + head.len() + pre.len() + del.len();
    let src = format!("{before}{head}{pre}{del}{rest}{after}");
    rec.case(!d.is_empty(), &(o.dia as u8, &src), || format!("{:?}: {src:?}", o.dia));
    rec.labels.insert(if after.is_empty() { "last" } else { "followed" });
    let p = script(&src, &o)?;
    let bad = |m: String| Err(format!("{m}\n{}\n{}", input(&src, &o), p.show()));
    if let Some(e) = p.first_error() {
        return bad(format!("an error is reported for a well-formed script: {} at {:?}", e.msg, e.sp));
    }
    let (x, y, next) = data_ref(&src[start..]);
    let (x, y, next) = (x + start, y + start, next + start);
    let Some(c) = p.stmts.get(nb.len()) else { return bad("the COPY statement is missing".into()) };
    if p.stmts[..nb.len()] != nb[..] {
        return bad("the statements before differ".into());
    }
    if let Some(df) = diff(&moved(&head_t, off, 0, false), c) {
        return bad(format!("the COPY statement differs {df}"));
    }
    let want = u("Stdin", vec![q(&src[x..y]), Sp(x, y).t()]);
    match p.stmts.get(nb.len() + 1) {
        None => return bad("the data is missing".into()),
        Some(s) => {
            if let Some(df) = diff(&want, s) {
                return bad(format!("the data differs {df}"));
            }
        }
    }
    // what follows, parsed on its own
    let tail = if dollars { format!("DELIMITER $$\n{}", &src[next..]) } else { src[next..].to_string() };
    let q = script(&tail, &o)?;
    rec.extra += 1;
    let counted = matches!(o.args, Args::Question | Args::Percent);
    let base = counted_args(&nb, counted);
    let more: Vec<T> = q.stmts.iter().map(|t| moved(t, src.len() - tail.len(), base, counted)).collect::<Vec<_>>();
    if p.stmts[nb.len() + 2..] != more[..] {
        return bad("the statements after the data differ".into());
    }
    Ok(())
}

fn then_of(t: &T) -> Option<Vec<T>> {
    let mut r = None;
    t.walk(&mut |t| {
        if let T::N(n, f) = t {
            if n == "IfCondition" && r.is_none() {
                if let Some((_, T::L(v))) = f.iter().find(|f| f.0 == "then") {
                    r = Some(v.clone());
                }
            }
        }
    });
    r
}
/// COPY between the statements of a branch.
fn p22_branch(rec: &mut Rec, tape: &[u32]) -> Res {
    let (mut o, rest) = any_opts(tape);
    o.args = Args::None;
    o.list = false;
    o.wq = false;
    o.wc = false;
    let mut g = Gen::new(rest, o);
    let mut src = String::from("IF 1 THEN ");
    let mut want: Vec<T> = Vec::new();
    let plain = |g: &mut Gen, src: &mut String, want: &mut Vec<T>| -> Res {
        for _ in 0..g.c(3) {
            fresh(g, 50);
            let k = g.pick(&[Kind::Query, Kind::Insert, Kind::Update, Kind::Delete]);
            g.statement(k);
            want.extend(one(&g.out, &o)?.stmts.iter().map(|t| moved(t, src.len(), 0, false)));
            src.push_str(&g.out);
            src.push_str("; ");
        }
        Ok(())
    };
    let copies = 1 + g.c(2);
    let mut bytes = 0;
    for _ in 0..copies {
        plain(&mut g, &mut src, &mut want)?;
        fresh(&mut g, 60);
        let t = copy_head(&mut g);
        want.push(moved(&t, src.len(), 0, false));
        src.push_str(&g.out);
        g.budget = 60;
        let (d, _) = data(&mut g);
        let lead = g.pick(&[";\n", " ; \n", "; \t\r\n"]);
        src.push_str(lead);
        want.push(u("Stdin", vec![q(&d), Sp(src.len(), src.len() + d.len()).t()]));
        bytes += d.len();
        src.push_str(&d);
        src.push_str("\\.\n");
    }
    plain(&mut g, &mut src, &mut want)?;
    src.push_str("END IF;");
    rec.case(bytes > 0, &(o.dia as u8, &src), || format!("{:?}: {src:?}", o.dia));
    rec.labels.extend(g.feat.iter());
    let p = script(&src, &o)?;
    let bad = |m: String| Err(format!("{m}\n{}\n{}", input(&src, &o), p.show()));
    if let Some(e) = p.first_error() {
        return bad(format!("an error is reported for a well-formed script: {} at {:?}", e.msg, e.sp));
    }
    let Some(got) = p.stmts.first().and_then(then_of) else { return bad("the branch is missing".into()) };
    if p.stmts.len() != 1 || got.len() != want.len() {
        return bad(format!("the branch has {} statements, {} are written", got.len(), want.len()));
    }
    match want.iter().zip(&got).find_map(|(w, x)| diff(w, x)) {
        Some(d) => bad(format!("a statement of the branch differs {d}")),
        None => Ok(()),
    }
}

pub fn props() -> Vec<Prop> {
    let t = |name, len, quick, f| Sub { name, how: How::Tape(len), quick, times: 25, f };
    vec![
        Prop {
            id: "P20",
            rule: "script: up to six well-formed statements of all kinds, COPY with data, empty statements and DELIMITER commands, with random gaps between them and sometimes no final delimiter; statements and issues must be those of the statements parsed alone, moved, with placeholder numbers continuing. other: such a script with the mark that is not the delimiter in force put before or behind a statement or its delimiter, or in place of it; the first error must be that mark. Non-trivial: two statements or more (script), one (other).",
            subs: vec![t("script", 400, 200_000, p20_script), t("other", 400, 60_000, p20_other)],
        },
        Prop {
            id: "P21",
            rule: "isolation: scripts with one or more token-mutated or cut statements whose brackets and tokens are complete, half of them with placeholders (under the $$ delimiter compound ones too); errors lie inside them, the other statements and warnings equal those of the script without them, placeholders counted from the first of each statement. Non-trivial: an error is reported.",
            subs: vec![t("isolation", 400, 240_000, p21_isolation)],
        },
        Prop {
            id: "P22",
            rule: "copy: COPY statements in random layout between other statements, followed by zero to five data lines that include near-terminators, SQL and arbitrary characters, closed by a terminator line, by one at the end of the text, or not at all; data, span, columns and the statements after it are compared with a line-based reference; branch: one or two COPY statements with data between the statements of an IF branch. Non-trivial: some data.",
            subs: vec![t("copy", 300, 240_000, p22_copy), t("branch", 300, 80_000, p22_branch)],
        },
    ]
}
