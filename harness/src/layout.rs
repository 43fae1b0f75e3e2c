//! P17 layout and letter case, P18 placeholders, P19 lints.

use crate::faithful::STYLES;
use crate::gen::*;
use crate::misc::Kind;
use crate::mutate::*;
use crate::parse::*;
use crate::run::*;
use crate::tree::*;
use std::collections::BTreeMap;

// ---- P17 -----------------------------------------------------------------------------
/// How positions of one rendering correspond to positions of another.
struct Moves {
    start: BTreeMap<usize, usize>,
    end: BTreeMap<usize, usize>,
}
impl Moves {
    fn new(a: &[Sp], b: &[Sp], alen: usize, blen: usize) -> Moves {
        let mut start: BTreeMap<usize, usize> = a.iter().zip(b).map(|(x, y)| (x.0, y.0)).collect();
        let mut end: BTreeMap<usize, usize> = a.iter().zip(b).map(|(x, y)| (x.1, y.1)).collect();
        start.insert(alen, blen);
        end.insert(alen, blen);
        // empty statements are reported at one point
        Moves { start, end }
    }
    fn span(&self, x: usize, y: usize) -> Option<(usize, usize)> {
        if (x, y) == (0, 0) {
            // stands for a missing part
            return Some((0, 0));
        }
        Some((*self.start.get(&x)?, *self.end.get(&y)?))
    }
    fn tree(&self, t: &T) -> T {
        t.map_spans(&|x, y| self.span(x, y).unwrap_or((usize::MAX, usize::MAX)))
    }
}
fn lower(t: &T) -> T {
    match t {
        T::Q(x) => T::Q(x.to_lowercase()),
        T::N(n, v) => T::N(n.clone(), v.iter().map(|(k, t)| (k.clone(), lower(t))).collect()),
        T::U(n, v) => T::U(n.clone(), v.iter().map(lower).collect()),
        T::L(v) => T::L(v.iter().map(lower).collect()),
        t => t.clone(),
    }
}
/// Compare the parse of two renderings of the same tokens. `fold`: ignore letter case.
fn same(a: &Parsed, b: &Parsed, m: &Moves, fold: bool) -> Option<String> {
    if a.stmts.len() != b.stmts.len() {
        return Some(format!("{} statements against {}", a.stmts.len(), b.stmts.len()));
    }
    for (x, y) in a.stmts.iter().zip(&b.stmts) {
        let (x, y) = if fold { (lower(&m.tree(x)), lower(y)) } else { (m.tree(x), y.clone()) };
        if let Some(d) = diff(&x, &y) {
            return Some(format!("the trees differ {d}"));
        }
    }
    // the errors; warnings too when the letter case is the same
    let pick = |p: &Parsed| -> Vec<Iss> { p.issues.iter().filter(|i| i.err || !fold).cloned().collect() };
    let (ia, ib) = (pick(a), pick(b));
    for (x, y) in ia.iter().zip(&ib) {
        let norm = |s: &str| if fold { s.to_lowercase() } else { s.to_string() };
        let sp = m.span(x.sp.0, x.sp.1);
        if x.err != y.err || norm(&x.msg) != norm(&y.msg) || sp != Some(y.sp) || x.frags.len() != y.frags.len() {
            return Some(format!("the issues differ: {:?} at {:?} (moved to {sp:?}) against {:?} at {:?}", x.msg, x.sp, y.msg, y.sp));
        }
        for (f, g) in x.frags.iter().zip(&y.frags) {
            if norm(&f.0) != norm(&g.0) || m.span(f.1 .0, f.1 .1) != Some(g.1) {
                return Some(format!("the fragments of an issue differ: {f:?} against {g:?}"));
            }
        }
    }
    if ia.len() != ib.len() {
        let e = ia.get(ib.len()).or(ib.get(ia.len()));
        return Some(format!("{} issues against {}: {:?}", ia.len(), ib.len(), e.map(|e| &e.msg)));
    }
    None
}
fn two(rec: &mut Rec, toks: &[Tok], o: &Opts, script: bool, lays: &[(u32, u32)]) -> Res {
    let (s0, sp0) = render(toks, &mut Layout::new(0, 0));
    let p0 = parse(&s0, o, script)?;
    for &(space, case) in lays {
        let mut lay = Layout::new(space, case);
        let (mut s1, sp1) = render(toks, &mut lay);
        if space % 3 == 1 {
            // something after the last token
            s1.push_str([" ", "\n", " /* x */", "\t-- end\n", " // end", " -- é\n\n", "\r\n"][space as usize / 3 % 7]);
        }
        against(rec, o, script, (&s0, &sp0, &p0), (&s1, &sp1), case != 0)?;
    }
    Ok(())
}
/// The second text has the same tokens as the first.
fn against(rec: &mut Rec, o: &Opts, script: bool, (s0, sp0, p0): (&str, &[Sp], &Parsed), (s1, sp1): (&str, &[Sp]), fold: bool) -> Res {
    let last = sp1.last().map_or(0, |s| s.1);
    {
        let p1 = parse(s1, o, script)?;
        rec.extra += 1;
        let mut m = Moves::new(sp0, sp1, s0.len(), s1.len());
        // the end of the last token, and the end of the text, are the same place only in
        // the plain rendering
        let last0 = sp0.last().map_or(0, |s| s.1);
        m.end.insert(last0, last);
        if let Some(d) = same(p0, &p1, &m, fold) {
            // an issue at the end of the text may be anywhere behind the last token
            m.start.insert(last0, s1.len());
            m.end.insert(last0, s1.len());
            let at_end = p0.issues.iter().any(|i| i.sp.0 == last0);
            let mut q0 = p0.clone();
            let mut q1 = p1.clone();
            q0.issues.retain(|i| i.sp.0 != last0);
            q1.issues.retain(|i| i.sp.0 < last);
            m.end.insert(last0, last);
            let n0 = p0.issues.len() - q0.issues.len();
            let n1 = p1.issues.len() - q1.issues.len();
            if at_end && n0 == n1 && same(&q0, &q1, &m, fold).is_none() {
                return Ok(());
            }
            return Err(format!(
                "two renderings of the same tokens parse differently: {d}\nfirst:\n{}\n{}\nsecond:\n{}\n{}",
                crate::meta::clip_to(s0, o, 3000),
                p0.show(),
                crate::meta::clip_to(s1, o, 3000),
                p1.show()
            ));
        }
    }
    Ok(())
}
fn lays(g: &mut Gen, case: bool) -> Vec<(u32, u32)> {
    let (a, b) = (g.raw_choice(), g.raw_choice());
    let mut v = vec![(1 + a % 10_000, 0), (1 + b % 10_000, 0)];
    if case {
        v.push((0, 1 + a % 9973));
        v.push((1 + a % 10_007, 1 + b % 9973));
    }
    v
}
fn p17_valid(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    let l = lays(&mut g, true);
    let w = g.any_statement();
    rec.labels = g.feat.clone();
    rec.case(g.toks.len() > 5, &(o.dia as u8, &g.out), || format!("{:?}: {}", o.dia, g.out));
    // every built-in name or keyword in any case gives the generated tree, too
    let t = std::mem::take(&mut g.toks);
    drop(w);
    two(rec, &t, &o, false, &l)?;
    let mut t = t;
    t.push(tok_of(";"));
    two(rec, &t, &o, true, &l)
}
/// A gap of any size at any place.
fn p17_far(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    let script = g.p(1, 2);
    g.budget = 60;
    let mut t = valid_tokens(&mut g);
    g.budget = 400;
    if g.p(1, 3) {
        mutate(&mut g, &mut t, 1);
    }
    t.retain(plain_token);
    if t.is_empty() {
        return Ok(());
    }
    let (s0, sp0) = render(&t, &mut Layout::new(0, 0));
    let p0 = parse(&s0, &o, script)?;
    for _ in 0..3 {
        let i = g.c(t.len() as u32) as usize;
        let at = if i == 0 { 0 } else { sp0[i - 1].1 };
        let n = [100, 127, 255, 256, 300, 1_024, 4_096, 32_768, 65_535, 65_536, 70_000, 200_000][g.c(12) as usize] + g.c(3) as usize;
        let gap = match g.c(7) {
            0 => " ".repeat(n),
            1 => "\n".repeat(n),
            2 => " \t\r\n".repeat(n / 4),
            3 => format!(" /*{}*/ ", "x".repeat(n)),
            4 => format!(" /*{}*/ ", "é * ".repeat(n / 5)),
            5 => format!(" --{}\n", ";".repeat(n)),
            _ => "\n/* x */-- y\n".repeat(n / 13),
        };
        let s1 = format!("{}{gap}{}", &s0[..at], &s0[at..]);
        let sp1: Vec<Sp> = sp0.iter().map(|s| if s.0 >= at { Sp(s.0 + gap.len(), s.1 + gap.len()) } else { *s }).collect();
        rec.case(t.len() > 3, &(o.dia as u8, &s1), || format!("{:?}: {} bytes between the first {i} tokens and the others of {s0}", o.dia, gap.len()));
        against(rec, &o, script, (&s0, &sp0, &p0), (&s1, &sp1), false)?;
    }
    Ok(())
}
/// Text that is exactly one token, whatever stands next to it (with a space between).
pub fn plain_token(t: &Tok) -> bool {
    let s = t.text.as_str();
    let c = s.chars().next().unwrap_or(' ');
    if matches!(t.k, K::Str | K::Qid) && s.len() > 1 && s.ends_with(c) {
        let inner = &s[1..s.len() - 1];
        return !inner.contains(['\'', '"', '`', '\\']);
    }
    if c.is_ascii_alphabetic() || c == '_' {
        return s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !s.eq_ignore_ascii_case("STDIN");
    }
    if c.is_ascii_digit() {
        return s.chars().all(|c| c.is_ascii_digit() || c == '.') && s.matches('.').count() < 2;
    }
    if let Some(d) = s.strip_prefix('$') {
        return d == "$" || (!d.is_empty() && d.len() < 16 && !d.starts_with('0') && d.chars().all(|c| c.is_ascii_digit()));
    }
    if let Some(d) = s.strip_prefix("@@") {
        return d.eq_ignore_ascii_case("session") || d.eq_ignore_ascii_case("global");
    }
    const ONE: &[&str] = &[
        "(", ")", ",", ";", ".", "*", "+", "-", "/", "=", "<", ">", "<=", ">=", "<>", "!=", "<=>", "!", "!!", "~", "&", "&&", "|", "||", "^",
        "<<", ">>", ":", "::", "=>", "[", "]", "{", "}", "@", "?", "%s",
    ];
    ONE.contains(&s)
}
fn p17_mutants(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    let script = g.p(1, 2);
    let mut l = lays(&mut g, true);
    let mut t;
    if g.p(1, 6) {
        t = soup(&mut g, 20);
    } else {
        g.budget = 150;
        t = valid_tokens(&mut g);
        g.budget = 400;
        let n = 1 + g.c(4);
        mutate(&mut g, &mut t, n);
    }
    t.retain(plain_token);
    for x in &mut t {
        // in a malformed statement any word may be read as a keyword
        if x.k == K::Id {
            x.k = K::Kw;
        }
    }
    if t.is_empty() {
        return Ok(());
    }
    if t.windows(2).any(|w| w[0].text.eq_ignore_ascii_case("DELIMITER") && !matches!(w[1].text.as_str(), "$$" | ";")) {
        // a word made the delimiter (with a warning that it is unknown) stands for itself,
        // with its letter case
        l.retain(|l| l.1 == 0);
    }
    let s = text(&t, 0);
    rec.case(t.len() > 3, &(o.dia as u8, &s), || format!("{:?}: {s}", o.dia));
    two(rec, &t, &o, script, &l)
}

// ---- P18 -----------------------------------------------------------------------------
/// (index, span, kind) of every placeholder in a tree
fn placeholders(v: &[T]) -> Vec<(usize, Sp, bool)> {
    let mut r = Vec::new();
    for t in v {
        t.walk(&mut |t| {
            if let T::U(n, v) = t {
                if n == "Arg" || n == "ListHack" {
                    if let Some(T::U(_, p)) = v.first() {
                        if let [T::A(i), T::S(x, y)] = &p[..] {
                            r.push((i.parse().unwrap_or(usize::MAX), Sp(*x, *y), n == "ListHack"));
                        }
                    }
                }
            }
        });
    }
    r.sort_by_key(|r| r.1 .0);
    r
}
fn is_arg(t: &Tok, o: &Opts) -> bool {
    t.k == K::Arg || (o.list && t.text.eq_ignore_ascii_case("_LIST_"))
}
/// Scripts full of placeholders: every one is recorded once, with its number.
fn p18_number(rec: &mut Rec, tape: &[u32]) -> Res {
    let (mut o, rest) = any_opts(tape);
    if o.args == Args::None {
        // list placeholders alone, or another style
        match rest.first().copied().unwrap_or(0) as usize % 4 {
            0 => o.list = true,
            n => o.args = STYLES[n],
        }
    }
    let mut g = Gen::new(rest, o);
    g.w_op = 6;
    g.w_fn = 4;
    let n = 1 + g.c(4);
    for _ in 0..n {
        let k = g.pick(&[Kind::Query, Kind::Insert, Kind::Update, Kind::Delete, Kind::Compound, Kind::CreateTable, Kind::Admin, Kind::With, Kind::CreateOther, Kind::Alter]);
        g.budget = 150;
        g.statement(k);
        g.budget = 100;
        g.pt(";");
    }
    let toks = std::mem::take(&mut g.toks);
    let out = g.out.clone();
    let args: Vec<&Tok> = toks.iter().filter(|t| is_arg(t, &o)).collect();
    rec.labels = g.feat.clone();
    rec.case(args.len() >= 2, &(o.dia as u8, &out), || format!("{:?} {:?}: {out}", o.dia, o.args));
    let p = parse(&out, &o, true)?;
    let bad = |m: String| Err(format!("{m}\n{}\n{}", input(&out, &o), p.show()));
    if let Some(e) = p.first_error() {
        return bad(format!("an error is reported for well-formed statements: {} at {:?}", e.msg, e.sp));
    }
    let got = placeholders(&p.stmts);
    if got.len() != args.len() {
        return bad(format!("{} placeholders are written, {} recorded", args.len(), got.len()));
    }
    let mut counted = 0;
    for (t, (i, sp, list)) in args.iter().zip(&got) {
        if t.sp != *sp {
            return bad(format!("the placeholder at {:?} is recorded at {sp:?}", t.sp));
        }
        let is_list = t.text.starts_with('_');
        if is_list != *list {
            return bad(format!("the placeholder {} at {:?} is recorded as the wrong kind", t.text, t.sp));
        }
        let want = match t.text.strip_prefix('$') {
            Some(d) => d.parse::<usize>().unwrap() - 1,
            None => {
                counted += 1;
                counted - 1
            }
        };
        if *i != want {
            return bad(format!("the placeholder {} at {:?} has the number {i}, not {want}", t.text, t.sp));
        }
    }
    Ok(())
}
/// The same numbering in whatever malformed text is accepted.
fn p18_mutants(rec: &mut Rec, tape: &[u32]) -> Res {
    let (mut o, rest) = any_opts(tape);
    if o.args == Args::None {
        // list placeholders alone, or another style
        match rest.first().copied().unwrap_or(0) as usize % 4 {
            0 => o.list = true,
            n => o.args = STYLES[n],
        }
    }
    let mut g = Gen::new(rest, o);
    g.budget = 120;
    let mut t = valid_tokens(&mut g);
    g.budget = 300;
    let n = 1 + g.c(2);
    for _ in 0..n {
        let i = g.c(t.len() as u32) as usize;
        let w = match (o.args, g.c(5)) {
            (Args::Question, 0..=3) => "?".to_string(),
            (Args::Percent, 0..=3) => "%s".to_string(),
            (Args::Dollar, 0..=3) => format!("${}", 1 + g.c(20)),
            _ => "_LIST_".to_string(),
        };
        let k = if w.starts_with('_') { K::Id } else { K::Arg };
        let tok = Tok { k, text: w, sp: Sp(0, 0), delim: false };
        if g.p(1, 2) {
            t[i] = tok;
        } else {
            t.insert(i, tok);
        }
    }
    let (s, sps) = render(&t, &mut Layout::new(0, 0));
    rec.case(false, &(o.dia as u8, &s), || format!("{:?} {:?}: {s}", o.dia, o.args));
    let p = parse(&s, &o, false)?;
    // placeholders in these are counted and not recorded
    let skipped = t.iter().any(|t| t.text == "$$" || t.text.eq_ignore_ascii_case("EXCEPTION") || t.text.eq_ignore_ascii_case("FOREIGN"));
    if p.errors() > 0 || skipped {
        rec.nontrivial = placeholders(&p.stmts).len() > 1;
        return around_errors(&t, &sps, &s, &o, &p);
    }
    rec.nontrivial = true;
    let mut counted = 0;
    let got = placeholders(&p.stmts);
    for (i, sp, _) in &got {
        let Some(j) = sps.iter().position(|x| x == sp) else {
            return Err(format!("a placeholder is recorded at {sp:?}\n{}\n{}", input(&s, &o), p.show()));
        };
        let want = match t[j].text.strip_prefix('$') {
            Some(d) => d.parse::<usize>().unwrap() - 1,
            None => {
                counted += 1;
                counted - 1
            }
        };
        if *i != want {
            return Err(format!("the placeholder {} at {sp:?} has the number {i}, not {want}\n{}\n{}", t[j].text, input(&s, &o), p.show()));
        }
    }
    let marks = t.iter().filter(|t| t.k == K::Arg).count();
    let recorded = got.iter().filter(|g| !g.2).count();
    if marks != recorded {
        return Err(format!("{marks} placeholders are written and no error is reported, but {recorded} are recorded\n{}\n{}", input(&s, &o), p.show()));
    }
    Ok(())
}
/// The numbers in a text with errors: what is before the first error has been read, so all
/// placeholders there are counted; of those after it, the ones that error recovery skips are not.
fn around_errors(t: &[Tok], sps: &[Sp], s: &str, o: &Opts, p: &crate::parse::Parsed) -> Res {
    let bad = |m: String| Err(format!("{m}\n{}\n{}", input(s, o), p.show()));
    let first = p.issues.iter().filter(|i| i.err).map(|i| i.sp.0).min().unwrap_or(s.len());
    let skipped = t.iter().any(|t| t.text == "$$" || t.text.eq_ignore_ascii_case("EXCEPTION") || t.text.eq_ignore_ascii_case("FOREIGN"));
    let got = placeholders(&p.stmts);
    let (mut least, mut most, mut j) = (0, 0, 0);
    let mut last = None;
    for (i, sp, _) in &got {
        while j < t.len() && sps[j].0 < sp.0 {
            if is_arg(&t[j], o) && !t[j].text.starts_with('$') {
                most += 1;
                if t[j].k == K::Arg && sps[j].1 <= first && !skipped {
                    least += 1;
                }
            }
            j += 1;
        }
        if j >= t.len() || sps[j] != *sp {
            return bad(format!("a placeholder is recorded at {sp:?}"));
        }
        if let Some(d) = t[j].text.strip_prefix('$') {
            if d.parse::<usize>() != Ok(*i + 1) {
                return bad(format!("the placeholder {} at {sp:?} has the number {i}", t[j].text));
            }
            continue;
        }
        if *i < least || *i > most || last.is_some_and(|l| *i <= l) {
            return bad(format!("the placeholder at {sp:?} has the number {i}, with {most} before it, {least} of them before the first error (and {last:?} the one before it)"));
        }
        last = Some(*i);
    }
    Ok(())
}
/// Scripts full of placeholders in which some tokens are wrong.
fn p18_errors(rec: &mut Rec, tape: &[u32]) -> Res {
    let (mut o, rest) = any_opts(tape);
    if o.args == Args::None {
        o.args = STYLES[1 + rest.first().copied().unwrap_or(0) as usize % 3];
    }
    let mut g = Gen::new(rest, o);
    g.w_op = 6;
    g.w_fn = 4;
    let n = 1 + g.c(3);
    for _ in 0..n {
        let k = g.pick(&[Kind::Query, Kind::Insert, Kind::Update, Kind::Delete, Kind::Compound, Kind::CreateTable, Kind::Admin, Kind::With]);
        g.budget = 100;
        g.statement(k);
        g.budget = 100;
        g.pt(";");
    }
    let mut t = std::mem::take(&mut g.toks);
    g.budget = 300;
    let style = match o.args {
        Args::Question => "?",
        Args::Percent => "%s",
        _ => "$7",
    };
    // more placeholders: in place of names and values
    for x in &mut t {
        if matches!(x.k, K::Num | K::Str | K::Id) && g.p(1, 4) {
            *x = Tok { k: K::Arg, text: style.to_string(), sp: Sp(0, 0), delim: false };
        }
    }
    let n = g.c(3);
    for _ in 0..n {
        let i = g.c(t.len() as u32) as usize;
        let w = g.pick(&["FROM", ")", "(", ",", "SELECT", "=", "END", "x"]);
        let tok = Tok { k: K::Kw, text: w.to_string(), sp: Sp(0, 0), delim: false };
        match g.c(3) {
            0 => t.insert(i, tok),
            1 => t[i] = tok,
            _ if t.len() > 1 => {
                t.remove(i);
            }
            _ => {}
        }
    }
    let (s, sps) = render(&t, &mut Layout::new(0, 0));
    let p = parse(&s, &o, true)?;
    let several = p.errors() > 0 && placeholders(&p.stmts).len() > 1;
    rec.case(several, &(o.dia as u8, &s), || format!("{:?} {:?}: {s}", o.dia, o.args));
    if p.errors() == 0 {
        return Ok(());
    }
    around_errors(&t, &sps, &s, &o, &p)
}
/// Tens of thousands of placeholders.
const MANY: &[(&str, &str, &str)] = &[
    ("SELECT 1", ", #", ";"),
    ("SELECT a FROM b WHERE c IN (1", ", #", ");"),
    ("SELECT a FROM b WHERE c", " OR # = # + 1", ";"),
    ("INSERT INTO a (b, c) VALUES (1, 2)", ", (#, #)", ";"),
    ("SELECT 1", ", f(#, 1, (SELECT #))", ";"),
    ("UPDATE a SET b = 1", ", c = # || 'x'", " WHERE d = #;"),
    ("SELECT a FROM b", " JOIN c ON d = #", " LIMIT #;"),
    ("", "SELECT # FROM a WHERE b = # LIMIT #;\n", ""),
    ("", "DELIMITER $$\nSELECT # $$\nDELIMITER ;\nSELECT #;\n", ""),
    ("SELECT 1", " UNION SELECT #", ";"),
];
fn p18_many_count() -> usize {
    MANY.len() * 4
}
fn p18_many(rec: &mut Rec, tape: &[u32]) -> Res {
    let i = tape.first().copied().unwrap_or(0) as usize % p18_many_count();
    let (pre, unit, suf) = MANY[i / 4];
    let mut o = Opts::plain([Dia::Maria, Dia::Pg, Dia::Lite][i % 3]);
    o.args = [Args::Question, Args::Percent, Args::Dollar, Args::Question][i % 4];
    o.list = i % 4 == 3;
    rec.case(true, &i, || format!("{:?} {:?}: {pre}({unit}){suf} up to 66000 times", o.dia, o.args));
    let most = if i % 4 == i / 4 % 4 { 66_000 } else { 4_100 };
    for n in [7, 130, 300, 1_030, most] {
        // with `$`, any numbers
        let mut src = String::new();
        let mut want = Vec::new();
        for c in format!("{pre}{}{suf}", unit.repeat(n)).chars() {
            if c != '#' {
                src.push(c);
                continue;
            }
            let at = src.len();
            let k = want.len();
            let list = o.list && k % 3 == 1;
            match o.args {
                _ if list => src.push_str("_LIST_"),
                Args::Dollar => src.push_str(&format!("${}", 1 + k * 7 % 70_001)),
                Args::Percent => src.push_str("%s"),
                _ => src.push('?'),
            }
            let v = if o.args == Args::Dollar { k * 7 % 70_001 } else { k };
            want.push((v, Sp(at, src.len()), list));
        }
        let p = parse(&src, &o, true)?;
        rec.extra += 1;
        if let Some(e) = p.first_error() {
            return Err(format!("an error is reported for {n} times {unit:?}: {} at {:?}", e.msg, e.sp));
        }
        let got = placeholders(&p.stmts);
        if got.len() != want.len() {
            return Err(format!("{} placeholders are written in {n} times {unit:?}, {} recorded", want.len(), got.len()));
        }
        if let Some((w, g)) = want.iter().zip(&got).find(|(w, g)| w != g) {
            return Err(format!("in {n} times {unit:?} a placeholder is recorded as {g:?} instead of {w:?} (number, place, list)"));
        }
    }
    Ok(())
}
/// Placeholders of one style under the other styles.
fn p18_gate(rec: &mut Rec, tape: &[u32]) -> Res {
    let (mut o, rest) = any_opts(tape);
    if o.args == Args::None {
        o.args = STYLES[1 + rest.first().copied().unwrap_or(0) as usize % 3];
    }
    let mut g = Gen::new(rest, o);
    g.budget = 120;
    let k = g.pick(&[Kind::Query, Kind::Insert, Kind::Update, Kind::Delete, Kind::Compound, Kind::CreateTable, Kind::Admin, Kind::With]);
    g.statement(k);
    let out = g.out.clone();
    let n = g.toks.iter().filter(|t| t.k == K::Arg).count();
    rec.case(n > 0, &(o.dia as u8, o.args as u8, &out), || format!("{:?} {:?}: {out}", o.dia, o.args));
    let p = parse(&out, &o, false)?;
    for st in STYLES {
        if st == o.args {
            continue;
        }
        let mut o2 = o;
        o2.args = st;
        let q = parse(&out, &o2, false)?;
        rec.extra += 1;
        if n == 0 {
            if q.stmts != p.stmts || q.issues != p.issues {
                return Err(format!("without placeholders in it a statement parses differently as {:?} and as {st:?}\n{}\n{}\n{}", o.args, input(&out, &o2), p.show(), q.show()));
            }
        } else if q.errors() == 0 {
            return Err(format!("placeholders of style {:?} are accepted as {st:?}\n{}\n{}", o.args, input(&out, &o2), q.show()));
        } else if placeholders(&q.stmts).iter().any(|p| !p.2) {
            return Err(format!("a placeholder of style {:?} is recorded as one of {st:?}\n{}\n{}", o.args, input(&out, &o2), q.show()));
        }
    }
    Ok(())
}
/// `$` followed by anything but a positive number that fits, and `_LIST_` as a name.
const DOLLARS: &[(&str, Option<u64>)] = &[
    ("$1", Some(0)), ("$2", Some(1)), ("$9", Some(8)), ("$10", Some(9)), ("$42", Some(41)), ("$007", None), ("$65535", Some(65534)),
    ("$65536", Some(65535)), ("$4294967295", Some(4294967294)), ("$4294967296", Some(4294967295)),
    ("$18446744073709551615", Some(18446744073709551614)),
    ("$0", None), ("$00", None), ("$", None), ("$a", None), ("$-1", None), ("$18446744073709551616", None),
    ("$99999999999999999999999999", None), ("$ 1", None), ("$1$", None), ("$1a", None), ("%", None), ("%d", None), ("% s", None), ("??", None),
    ("?1", None), ("?a", None), ("$?", None), ("%S", None), ("$$1", None), (":1", None), (":a", None), ("@p", None),
];
const SPOTS: &[(&str, &str)] = &[
    ("SELECT ", ""), ("SELECT a, ", " AS b"), ("SELECT f(", ")"), ("SELECT a FROM b WHERE c = ", ""), ("SELECT a FROM b LIMIT ", ""),
    ("INSERT INTO a (b) VALUES (", ")"), ("UPDATE a SET b = ", " WHERE c"), ("DELETE FROM a WHERE b IN (", ")"), ("SELECT a + ", " * b"),
    ("SELECT CASE WHEN ", " THEN 1 END"), ("SET a = ", ""), ("SELECT CAST(", " AS CHAR)"),
];
fn p18_dollars_count() -> usize {
    DOLLARS.len() * SPOTS.len() * 4 * 3
}
fn p18_dollars(rec: &mut Rec, tape: &[u32]) -> Res {
    let i = tape.first().copied().unwrap_or(0) as usize % p18_dollars_count();
    let (d, want) = DOLLARS[i % DOLLARS.len()];
    let r = i / DOLLARS.len();
    let (pre, suf) = SPOTS[r % SPOTS.len()];
    let r = r / SPOTS.len();
    let mut o = Opts::plain(crate::faithful::DIAS[r % 3]);
    o.args = STYLES[r / 3];
    let s = format!("{pre}{d}{suf}");
    rec.case(true, &i, || format!("{:?} {:?}: {s}", o.dia, o.args));
    let p = parse(&s, &o, false)?;
    let got = placeholders(&p.stmts);
    let want = if o.args == Args::Dollar { want } else { None };
    match want {
        Some(n) => {
            if p.errors() > 0 || got.len() != 1 || got[0].0 as u64 != n || got[0].1 != Sp(pre.len(), pre.len() + d.len()) {
                return Err(format!("{d} is not recorded once with the number {n}\n{}\n{}", input(&s, &o), p.show()));
            }
        }
        None => {
            // `?? ` and `?1` hold one valid question mark
            if p.errors() == 0 {
                return Err(format!("{d} is accepted\n{}\n{}", input(&s, &o), p.show()));
            }
        }
    }
    Ok(())
}
/// `_LIST_` is an ordinary name while its option is off.
fn p18_list(rec: &mut Rec, tape: &[u32]) -> Res {
    let (mut o, rest) = any_opts(tape);
    o.list = true;
    let mut g = Gen::new(rest, o);
    g.budget = 120;
    let k = g.pick(&[Kind::Query, Kind::Insert, Kind::Update, Kind::Delete]);
    g.statement(k);
    let out = g.out.clone();
    let n = g.toks.iter().filter(|t| t.text == "_LIST_").count();
    rec.case(n > 0, &(o.dia as u8, &out), || format!("{:?} {:?}: {out}", o.dia, o.args));
    let p = parse(&out, &o, false)?;
    let mut o2 = o;
    o2.list = false;
    let q = parse(&out, &o2, false)?;
    // the list placeholders become columns, and the others are numbered without them
    let mut k = 0;
    let counted = matches!(o.args, Args::Question | Args::Percent);
    fn to_names(t: &T, src: &str, k: &mut impl FnMut(usize) -> Option<usize>) -> T {
        match t {
            T::U(n, v) if n == "ListHack" => {
                let Some(T::U(_, p)) = v.first() else { return t.clone() };
                let T::S(x, y) = p[1] else { return t.clone() };
                u("Identifier", vec![list(vec![u("Name", vec![Gen::id_node(&src[x..y], Sp(x, y))])])])
            }
            T::U(n, v) if n == "Arg" => {
                let Some(T::U(_, p)) = v.first() else { return t.clone() };
                let T::S(x, _) = p[1] else { return t.clone() };
                match k(x) {
                    Some(i) => u("Arg", vec![tup(vec![a(i), p[1].clone()])]),
                    None => t.clone(),
                }
            }
            T::N(n, v) => T::N(n.clone(), v.iter().map(|(f, t)| (f.clone(), to_names(t, src, k))).collect()),
            T::U(n, v) => T::U(n.clone(), v.iter().map(|t| to_names(t, src, k)).collect()),
            T::L(v) => T::L(v.iter().map(|t| to_names(t, src, k)).collect()),
            t => t.clone(),
        }
    }
    let order: Vec<usize> = placeholders(&p.stmts).into_iter().filter(|p| !p.2).map(|p| p.1 .0).collect();
    let mut num = |x: usize| {
        k += 1;
        if counted {
            order.iter().position(|y| *y == x)
        } else {
            None
        }
    };
    let want: Vec<T> = p.stmts.iter().map(|t| to_names(t, &out, &mut num)).collect();
    let show = |m: String| Err(format!("{m}\n{}\n{}\n{}", input(&out, &o2), p.show(), q.show()));
    if p.errors() > 0 || q.errors() > 0 {
        return show("an error is reported for a well-formed statement".into());
    }
    for (x, y) in want.iter().zip(&q.stmts) {
        if let Some(d) = diff(x, y) {
            return show(format!("with the list option off the tree differs {d}"));
        }
    }
    Ok(())
}

// ---- P19 -----------------------------------------------------------------------------
const ID_MSG: &str = "identifiers should be quoted";
const KW_MSG: &str = "should be in ALL CAPS";

/// The four settings of the lints on one text.
fn lints(src: &str, o: &Opts, script: bool) -> Result<[Parsed; 4], String> {
    let mut v = Vec::new();
    for i in 0..4 {
        let mut o2 = *o;
        o2.wq = i & 1 != 0;
        o2.wc = i & 2 != 0;
        v.push(parse(src, &o2, script)?);
    }
    let r: [Parsed; 4] = v.try_into().unwrap();
    for (i, p) in r.iter().enumerate().skip(1) {
        let bad = |m: &str| Err(format!("with identifier lint {} and keyword lint {}: {m}\n{}\nwithout lints:\n{}\nwith:\n{}", i & 1, i >> 1, input(src, o), r[0].show(), p.show()));
        if p.stmts != r[0].stmts {
            return bad("the syntax tree changes");
        }
        // the issues without lints, in order, among the others
        let mut base = r[0].issues.iter().peekable();
        for x in &p.issues {
            if base.peek() == Some(&x) {
                base.next();
                continue;
            }
            if x.err {
                return bad(&format!("an error is added: {}", x.msg));
            }
            let idw = x.msg.contains(ID_MSG) && i & 1 != 0;
            let kww = x.msg.contains(KW_MSG) && i & 2 != 0;
            if !idw && !kww {
                return bad(&format!("the warning {:?} at {:?} does not belong to the lint", x.msg, x.sp));
            }
            if idw && (x.seg.starts_with(['`', '"', '\'']) || x.seg.is_empty()) {
                return bad(&format!("{:?} is to be quoted", x.seg));
            }
            if kww && x.seg.chars().all(|c| !c.is_lowercase()) {
                return bad(&format!("{:?} is to be capitalised", x.seg));
            }
        }
        if base.peek().is_some() {
            return bad("an issue is missing or out of order");
        }
    }
    // both lints together add what each adds alone
    let count = |p: &Parsed, m: &str| p.issues.iter().filter(|i| i.msg.contains(m)).map(|i| i.sp).collect::<Vec<_>>();
    if count(&r[3], ID_MSG) != count(&r[1], ID_MSG) || count(&r[3], KW_MSG) != count(&r[2], KW_MSG) {
        return Err(format!("the two lints influence each other\n{}\n{}\n{}\n{}", input(src, o), r[1].show(), r[2].show(), r[3].show()));
    }
    Ok(r)
}
fn p19_any(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    let (s, l) = anything(&mut g);
    rec.labels.insert(l);
    rec.extra = 7;
    let a = lints(&s, &o, false)?;
    lints(&s, &o, true)?;
    let nt = a[3].issues.len() > a[0].issues.len();
    rec.case(nt, &(o.dia as u8, &s), || format!("{:?}: {s}", o.dia));
    Ok(())
}
/// Names in a tree: spans of Identifier nodes.
fn names(t: &T) -> Vec<Sp> {
    let mut v = Vec::new();
    t.walk(&mut |t| {
        if let T::N(n, f) = t {
            if n == "Identifier" {
                if let Some((_, T::S(x, y))) = f.last() {
                    v.push(Sp(*x, *y));
                }
            }
        }
    });
    v.sort_by_key(|s| s.0);
    v
}
/// Keywords that open statements, clauses, types and options: written with small letters
/// anywhere in a statement they get a warning.
const CAPS: &[&str] = &[
    "ACTION", "ADD", "AFTER", "ALGORITHM", "ALL", "ALTER", "ALWAYS", "AS", "AUTO_INCREMENT", "BEFORE", "BIGINT", "BIT",
    "BLOB", "BOOLEAN", "BTREE", "BY", "BYTEA", "CASCADE", "CASE", "CHAR", "CHARACTER", "CHARSET", "CHECK", "COLLATE",
    "COLUMN", "COMMENT", "COMMIT", "CONFLICT", "CONSTRAINT", "CONTAINS", "CREATE", "CROSS", "DATA", "DATABASE", "DATE",
    "DATETIME", "DEFINER", "DELAYED", "DELETE", "DETERMINISTIC", "DISTINCT", "DISTINCTROW", "DO", "DOUBLE", "DUPLICATE",
    "EACH", "ELSE", "ELSEIF", "ENGINE", "ENUM", "EVENT", "EXISTS", "FLOAT", "FLOAT8", "FOR", "FOREIGN", "FROM", "FULLTEXT",
    "FUNCTION", "GENERATED", "GIST", "GROUP", "HASH", "HAVING", "HIGH_PRIORITY", "IDENTITY", "IF", "IN", "INET4", "INET6",
    "INNER", "INOUT", "INT", "INTEGER", "INTO", "IS", "JSON", "LEFT", "LIMIT", "LOCKED", "LONGBLOB", "LONGTEXT",
    "LOW_PRIORITY", "MEDIUMBLOB", "MEDIUMTEXT", "MERGE", "MODIFIES", "MODIFY", "NATURAL", "NO", "NOTHING", "NOWAIT",
    "NUMERIC", "OF", "ON", "ONLINE", "ORDER", "OUT", "OUTER", "OVER", "OWNER", "PERSISTENT", "PRECISION", "PRIMARY",
    "PROCEDURE", "QUICK", "READS", "REAL", "REFERENCES", "RENAME", "RESTRICT", "RETURN", "RETURNING", "RETURNS", "RIGHT",
    "ROW", "ROW_FORMAT", "RTREE", "SCHEMA", "SECURITY", "SELECT", "SERVER", "SHARE", "SIGNAL", "SIGNED", "SKIP", "SMALLINT",
    "SPATIAL", "SQLSTATE", "SQL_BIG_RESULT", "SQL_BUFFER_RESULT", "SQL_CALC_FOUND_ROWS", "SQL_NO_CACHE", "SQL_SMALL_RESULT",
    "START", "STORED", "STRAIGHT_JOIN", "STRICT", "TABLE", "TEMPORARY", "TEMPTABLE", "TEXT", "THEN", "TIME", "TIMESTAMP",
    "TIMESTAMPTZ", "TINYBLOB", "TINYINT", "TINYTEXT", "TO", "TRANSACTION", "TRIGGER", "TRUNCATE", "UNDEFINED", "UNION",
    "UNIQUE", "UNSIGNED", "UPDATE", "USER", "USING", "VARBINARY", "VARCHAR", "VIEW", "VIRTUAL", "WHEN", "WHERE", "WITH",
    "ZEROFILL", "ZONE", "_LIST_",
];
fn p19_exact(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    let lay = g.raw_choice();
    g.any_statement();
    let toks = std::mem::take(&mut g.toks);
    let (s, sps) = render(&toks, &mut Layout::new(0, lay % 1000));
    rec.labels = g.feat.clone();
    rec.extra = 3;
    let r = lints(&s, &o, false)?;
    let bad = |m: String, p: &Parsed| Err(format!("{m}\n{}\n{}", input(&s, &o), p.show()));
    if r[0].errors() > 0 {
        return bad("an error is reported for a well-formed statement".into(), &r[0]);
    }
    let at = |p: &Parsed, m: &str| -> Vec<Sp> { p.issues.iter().filter(|i| i.msg.contains(m)).map(|i| Sp(i.sp.0, i.sp.1)).collect() };
    let (idw, kww) = (at(&r[1], ID_MSG), at(&r[2], KW_MSG));
    rec.case(!idw.is_empty() || !kww.is_empty(), &(o.dia as u8, &s), || format!("{:?}: {s}", o.dia));
    let foreign = toks.iter().any(|t| t.text == "FOREIGN") || g.feat.contains("exception");
    // every name of the tree written without quotes is warned about once
    let nm: Vec<Sp> = r[0].stmts.iter().flat_map(names).collect();
    for (t, sp) in toks.iter().zip(&sps) {
        let n = idw.iter().filter(|x| *x == sp).count();
        let k = kww.iter().filter(|x| *x == sp).count();
        let text = &s[sp.0..sp.1];
        let name = nm.contains(sp);
        let quoted = text.starts_with(['`', '"', '\'']);
        if name && !quoted && n != 1 {
            return bad(format!("the unquoted name {text} at {sp:?} gets {n} quoting warnings"), &r[1]);
        }
        // what the tree does not record is quoted as well
        if n > 1 || (n == 1 && !name && !foreign) {
            return bad(format!("{text} at {sp:?}, which is no name, gets {n} quoting warnings"), &r[1]);
        }
        if k > 1 {
            return bad(format!("{text} at {sp:?} gets {k} capitalisation warnings"), &r[2]);
        }
        if k == 0 && t.k == K::Kw && text.chars().any(|c| c.is_ascii_lowercase()) && CAPS.contains(&text.to_ascii_uppercase().as_str()) {
            return bad(format!("the keyword {text} at {sp:?} gets no capitalisation warning"), &r[2]);
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let t = |name, len, quick, f| Sub { name, how: How::Tape(len), quick, times: 25, f };
    let e = |name, n, f| Sub { name, how: How::Each(n), quick: 0, times: 1, f };
    vec![
        Prop {
            id: "P17",
            rule: "valid: random statements rendered plainly and in four other layouts and letter cases (white space and comments of 27 fixed forms and of random contents between tokens, keywords and built-in names in mixed case); mutants: token-mutated statements and soups likewise, all words recased. far: a gap of 100 to 200000 bytes (blanks, line breaks, one comment or many) put anywhere into a statement. Trees must be equal with moved spans, and issues equal. Non-trivial: more than five (valid) or three (mutants) tokens.",
            subs: vec![t("valid", 280, 50_000, p17_valid), t("mutants", 300, 120_000, p17_mutants), t("far", 250, 30_000, p17_far)],
        },
        Prop {
            id: "P18",
            rule: "number: scripts of one to four statements with placeholders in all expression positions; mutants: statements with placeholders put in place of or before tokens, accepted without error, or with errors within the bounds that the places of placeholders and of the first error give; errors: the same for scripts with one to three wrong tokens; many: ten forms with up to 198000 placeholders in each style; gate: statements with placeholders of one style under the other styles; dollars: 34 spellings x 12 positions x style x dialect; list: statements with list placeholders parsed with the option off. Non-trivial: two placeholders or more (number), two recorded besides an error (errors), one (gate, list), accepted or two recorded (mutants).",
            subs: vec![
                t("number", 350, 120_000, p18_number),
                t("mutants", 250, 320_000, p18_mutants),
                t("errors", 350, 160_000, p18_errors),
                t("gate", 250, 120_000, p18_gate),
                e("many", p18_many_count, p18_many),
                e("dollars", p18_dollars_count, p18_dollars),
                t("list", 250, 80_000, p18_list),
            ],
        },
        Prop {
            id: "P19",
            rule: "any: malformed and random texts under the four lint settings; exact: valid statements in random letter case, the warnings compared with the unquoted names and the lower-case keywords written. Non-trivial: a lint warning is given.",
            subs: vec![t("any", 300, 160_000, p19_any), t("exact", 250, 160_000, p19_exact)],
        },
    ]
}
