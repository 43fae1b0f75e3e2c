//! P16: spans.

use crate::gen::*;
use crate::mutate::*;
use crate::parse::*;
use crate::run::*;
use crate::tree::*;
use sql_parse::{Issues, Spanned};

/// Every recorded span is a piece of the source.
fn in_source(src: &str, p: &Parsed) -> Option<String> {
    let mut bad = None;
    for t in &p.stmts {
        t.walk(&mut |t| {
            if let T::S(x, y) = t {
                if x > y || *y > src.len() || !src.is_char_boundary(*x) || !src.is_char_boundary(*y) {
                    bad = Some(format!("the span {x}..{y} is not a piece of the source"));
                }
            }
        });
    }
    bad
}
/// Recorded pieces of text that come from different places do not overlap.
fn overlap(t: &T) -> Option<String> {
    let mut v: Vec<(usize, usize)> = Vec::new();
    t.walk(&mut |t| {
        let parts: Vec<&T> = match t {
            T::N(_, f) => f.iter().map(|f| &f.1).collect(),
            T::U(_, v) | T::L(v) => v.iter().collect(),
            _ => return,
        };
        let own: Vec<&&T> = parts.iter().filter(|p| matches!(p, T::S(..))).collect();
        // the name of a type the parser does not know is recorded twice
        let named = matches!(t, T::U(n, _) if n == "Named");
        if named || own.is_empty() {
            return;
        }
        let all = t.hull();
        for s in &own {
            if let T::S(x, y) = s {
                // a node may record its own extent next to its parts
                let inside = parts.iter().any(|p| !std::ptr::eq(*p, **s) && p.hull().is_some());
                if !(inside && Some(Sp(*x, *y)) == all) {
                    v.push((*x, *y));
                }
            }
        }
    });
    v.sort();
    v.windows(2)
        .find(|w| w[0].1 > w[1].0)
        .map(|w| format!("the recorded spans {:?} and {:?} overlap in {}", w[0], w[1], t.show()))
}
#[cfg(feature = "walk")]
fn typed(rec: &mut Rec, src: &str, o: &Opts, script: bool) -> Res {
    let r = subject(|| {
        let mut iss = Issues::new(src);
        let ro = o.real();
        let v: Vec<_> = if script {
            sql_parse::parse_statements(src, &mut iss, &ro)
        } else {
            sql_parse::parse_statement(src, &mut iss, &ro).into_iter().collect()
        };
        let mut cx = crate::walk::Cx::default();
        for s in &v {
            crate::walk::W::w(s, &mut cx);
        }
        cx
    })
    .map_err(|m| format!("{m}\n{}", input(src, o)))?;
    rec.extra += r.nodes as u64;
    if let Some(b) = r.bad.first() {
        return Err(format!(
            "a {} reports the span {:?}, its recorded parts extend over {:?}:\n{}\n{}",
            b.name,
            b.span,
            b.hull,
            b.dbg,
            input(src, o)
        ));
    }
    Ok(())
}
#[cfg(not(feature = "walk"))]
fn typed(_: &mut Rec, _: &str, _: &Opts, _: bool) -> Res {
    Ok(())
}
/// The spans the statements themselves report.
fn top(src: &str, o: &Opts, p: &Parsed, script: bool) -> Res {
    let sp = subject(|| {
        let mut iss = Issues::new(src);
        let ro = o.real();
        let v: Vec<_> = if script {
            sql_parse::parse_statements(src, &mut iss, &ro)
        } else {
            sql_parse::parse_statement(src, &mut iss, &ro).into_iter().collect()
        };
        v.iter().map(|s| s.span()).collect::<Vec<_>>()
    })
    .map_err(|m| format!("{m}\n{}", input(src, o)))?;
    for (s, t) in sp.iter().zip(&p.stmts) {
        let h = t.hull().map(|h| h.0..h.1);
        if h.as_ref() != Some(s) {
            return Err(format!("a statement reports the span {s:?}, its recorded parts extend over {h:?}\n{}\n{}", input(src, o), t.show()));
        }
    }
    Ok(())
}
fn check(rec: &mut Rec, src: &str, o: &Opts, script: bool) -> Result<bool, String> {
    let p = parse(src, o, script)?;
    if let Some(m) = in_source(src, &p) {
        return Err(format!("{m}\n{}\n{}", input(src, o), p.show()));
    }
    if p.errors() > 0 {
        return Ok(false);
    }
    top(src, o, &p, script)?;
    for t in &p.stmts {
        if let Some(m) = overlap(t) {
            return Err(format!("{m}\n{}", input(src, o)));
        }
    }
    for w in p.stmts.windows(2) {
        if let (Some(a), Some(b)) = (w[0].hull(), w[1].hull()) {
            if a.1 > b.0 {
                return Err(format!("statements {a:?} and {b:?} overlap\n{}", input(src, o)));
            }
        }
    }
    typed(rec, src, o, script)?;
    Ok(true)
}
fn p16_valid(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    g.budget = 250;
    let lay = g.raw_choice();
    g.lay = Layout::new(lay % 1000, lay / 1000 % 1000);
    let w = g.any_statement();
    rec.labels = g.feat.clone();
    rec.case(g.toks.len() > 5, &(o.dia as u8, &g.out), || format!("{:?}: {}", o.dia, g.out));
    expect(&g.out, &o, false, &[w])?;
    check(rec, &g.out, &o, false).map(|_| ())
}
fn p16_mutants(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    g.budget = 120;
    let mut t = valid_tokens(&mut g);
    g.budget = 300;
    let n = 1 + g.c(3);
    mutate(&mut g, &mut t, n);
    let s = glued(&mut g, &t);
    let script = g.p(1, 3);
    let ok = check(rec, &s, &o, script)?;
    rec.labels.insert(if ok { "no error" } else { "errors" });
    rec.case(ok && t.len() > 5, &(o.dia as u8, &s), || format!("{:?}: {s}", o.dia));
    Ok(())
}
/// Whole scripts: several statements, inline data, delimiters.
fn p16_scripts(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    let (s, missing) = crate::scripts::any_script_text(&mut g);
    rec.labels = g.feat.clone();
    rec.case(s.len() > 40, &(o.dia as u8, &s), || format!("{:?}: {s}", o.dia));
    if !check(rec, &s, &o, true)? && !missing {
        return Err(format!("an error is reported for a well-formed script\n{}", input(&s, &o)));
    }
    Ok(())
}
/// Anything: the spans of whatever is returned lie in the source.
fn p16_any(rec: &mut Rec, tape: &[u32]) -> Res {
    let (o, rest) = any_opts(tape);
    let mut g = Gen::new(rest, o);
    let (s, l) = anything(&mut g);
    rec.labels.insert(l);
    rec.extra = 1;
    rec.case(s.trim().len() > 10, &(o.dia as u8, &s), || format!("{:?}: {s}", o.dia));
    check(rec, &s, &o, false)?;
    check(rec, &s, &o, true).map(|_| ())
}
pub fn props() -> Vec<Prop> {
    let t = |name, len, quick, f| Sub { name, how: How::Tape(len), quick, times: 25, f };
    vec![Prop {
        id: "P16",
        rule: "valid: random statements in random layout; the tree must be the generated one including every span, and every node must report the extent of its recorded parts (typed walk over all public node types). mutants: token-mutated statements and scripts; when they parse without error the reported spans, and that parts do not overlap, are checked. scripts: well-formed scripts with inline data and delimiter changes likewise. any: malformed and random texts; recorded spans lie in the source. Non-trivial: more than five tokens (valid; mutants without error), more than 40 bytes (scripts), ten bytes (any).",
        subs: vec![t("valid", 280, 80_000, p16_valid), t("mutants", 300, 240_000, p16_mutants), t("scripts", 400, 40_000, p16_scripts), t("any", 300, 120_000, p16_any)],
    }]
}
