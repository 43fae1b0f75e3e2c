//! Queries and table references.

use crate::gen::*;
use crate::n;
use crate::tree::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sel {
    /// a query on its own: every clause
    Free,
    /// unparenthesised member of a UNION: no ORDER BY, LIMIT or locking
    Member,
}

const FLAGS: &[(&str, &str)] = &[
    ("DISTINCT", "Distinct"),
    ("ALL", "All"),
    ("DISTINCTROW", "DistinctRow"),
    ("HIGH_PRIORITY", "HighPriority"),
    ("STRAIGHT_JOIN", "StraightJoin"),
    ("SQL_SMALL_RESULT", "SqlSmallResult"),
    ("SQL_BIG_RESULT", "SqlBigResult"),
    ("SQL_BUFFER_RESULT", "SqlBufferResult"),
    ("SQL_NO_CACHE", "SqlNoCache"),
    ("SQL_CALC_FOUND_ROWS", "SqlCalcFoundRows"),
];

pub const JOINS: &[(&str, &str)] = &[
    ("JOIN", "Normal"),
    ("INNER JOIN", "Inner"),
    ("CROSS JOIN", "Cross"),
    ("STRAIGHT_JOIN", "Straight"),
    ("LEFT JOIN", "Left"),
    ("LEFT OUTER JOIN", "Left"),
    ("RIGHT JOIN", "Right"),
    ("RIGHT OUTER JOIN", "Right"),
    ("NATURAL JOIN", "Natural"),
    ("NATURAL INNER JOIN", "NaturalInner"),
    ("NATURAL LEFT JOIN", "NaturalLeft"),
    ("NATURAL LEFT OUTER JOIN", "NaturalLeft"),
    ("NATURAL RIGHT JOIN", "NaturalRight"),
    ("NATURAL RIGHT OUTER JOIN", "NaturalRight"),
];

impl<'t> Gen<'t> {
    pub fn select_expr(&mut self) -> T {
        let e = match self.c(8) {
            0 => self.star(),
            1 if self.p(1, 2) => self.column(true, true),
            _ => self.expr(),
        };
        let as_ = if self.p(1, 3) {
            self.kw("AS");
            self.f("select-alias");
            Some(self.ident().0)
        } else {
            None
        };
        n!("SelectExpr"; expr: e, as_: opt(as_))
    }
    pub fn select_exprs(&mut self, max: u32) -> T {
        list(self.comma_list(max, |g| g.select_expr()))
    }
    pub fn where_opt(&mut self) -> T {
        if self.p(1, 2) {
            let s = self.kw("WHERE");
            let e = self.expr();
            self.f("where");
            some(tup(vec![e, s.t()]))
        } else {
            none()
        }
    }
    pub fn order_by_opt(&mut self, num: u32, den: u32) -> Option<T> {
        if self.p(num, den) {
            let s = self.kws("ORDER BY");
            let v = self.order_list();
            self.f("order-by");
            Some(tup(vec![s.t(), v]))
        } else {
            None
        }
    }
    pub fn limit_opt(&mut self, num: u32, den: u32) -> Option<T> {
        if !self.p(num, den) {
            return None;
        }
        let s = self.kw("LIMIT");
        self.f("limit");
        let x = self.deeper(|g| g.inner_expr());
        Some(match self.c(3) {
            0 => tup(vec![s.t(), none(), x]),
            1 => {
                self.pt(",");
                let y = self.deeper(|g| g.inner_expr());
                self.f("limit-comma");
                tup(vec![s.t(), some(x), y])
            }
            _ => {
                self.kw("OFFSET");
                let y = self.deeper(|g| g.inner_expr());
                self.f("limit-offset");
                tup(vec![s.t(), some(y), x])
            }
        })
    }
    pub fn locking_opt(&mut self) -> T {
        if !self.p(1, 6) {
            return none();
        }
        self.f("locking");
        let s = self.kw("FOR");
        let k = if self.pg() && !self.portable { 4 } else { 2 };
        let strength = match self.c(k) {
            0 => u("Update", vec![self.kw("UPDATE").t()]),
            1 => u("Share", vec![self.kw("SHARE").t()]),
            2 => u("NoKeyUpdate", vec![self.kws("NO KEY UPDATE").t()]),
            _ => u("KeyShare", vec![self.kws("KEY SHARE").t()]),
        };
        let of = if self.p(1, 2) {
            let s = self.kw("OF");
            let v = self.ident_list(3);
            Some(tup(vec![s.t(), list(v)]))
        } else {
            None
        };
        let wait = match self.c(3) {
            0 => a("Default"),
            1 => u("NoWait", vec![self.kw("NOWAIT").t()]),
            _ => u("SkipLocket", vec![self.kws("SKIP LOCKED").t()]),
        };
        some(n!("Locking"; for_span: s.t(), strength: strength, of: opt(of), wait: wait))
    }
    /// `Select` node
    pub fn select(&mut self, kind: Sel) -> T {
        self.f("select");
        let s = self.kw("SELECT");
        let mut flags = Vec::new();
        if self.p(1, 5) {
            let k = 1 + self.c(3);
            let k = self.reps(k);
            for _ in 0..k {
                let (k, v) = self.pick(FLAGS);
                flags.push(u(v, vec![self.kw(k).t()]));
                self.f("select-flag");
            }
        }
        let exprs = self.select_exprs(4);
        if !self.p(3, 4) {
            return n!("Select"; select_span: s.t(), flags: list(flags), select_exprs: exprs, from_span: none(),
                table_references: none(), where_: none(), group_by: none(), having: none(), window_span: none(),
                order_by: none(), limit: none(), locking: none());
        }
        let from = self.kw("FROM");
        let refs = self.deeper(|g| g.table_refs());
        let where_ = self.where_opt();
        let group = if self.p(1, 4) {
            let s = self.kws("GROUP BY");
            let v = self.comma_list(3, |g| g.expr());
            self.f("group-by");
            some(tup(vec![s.t(), list(v)]))
        } else {
            none()
        };
        let having = if self.p(1, 5) {
            let s = self.kw("HAVING");
            let e = self.expr();
            self.f("having");
            some(tup(vec![e, s.t()]))
        } else {
            none()
        };
        let (order, limit, locking) = match kind {
            Sel::Free => (
                opt(self.order_by_opt(1, 3)),
                opt(self.limit_opt(1, 3)),
                self.locking_opt(),
            ),
            Sel::Member => (none(), none(), none()),
        };
        n!("Select"; select_span: s.t(), flags: list(flags), select_exprs: exprs, from_span: some(from.t()),
            table_references: some(refs), where_: where_, group_by: group, having: having, window_span: none(),
            order_by: order, limit: limit, locking: locking)
    }
    fn paren_query(&mut self) -> T {
        self.pt("(");
        self.f("paren-query");
        let t = self.deeper(|g| g.compound_query());
        self.pt(")");
        t
    }
    fn union_from(&mut self, left: T) -> T {
        self.f("union");
        let k = 1 + self.c(3);
        let mut with = Vec::new();
        let k = self.reps(k);
        let mut last = None;
        for _ in 0..k {
            with.push(self.twin(&mut last, |g| {
                let s = g.kw("UNION");
                let ty = match g.c(3) {
                    0 => a("Default"),
                    1 => u("All", vec![g.kw("ALL").t()]),
                    _ => u("Distinct", vec![g.kw("DISTINCT").t()]),
                };
                let st = if g.depth > 0 && g.p(1, 4) {
                    g.paren_query()
                } else {
                    let t = g.deeper(|g| g.select(Sel::Member));
                    u("Select", vec![t])
                };
                n!("UnionWith"; union_span: s.t(), union_type: ty, union_statement: st)
            }));
        }
        let order = opt(self.order_by_opt(1, 3));
        let limit = opt(self.limit_opt(1, 3));
        u("Union", vec![n!("Union"; left: left, with: list(with), order_by: order, limit: limit)])
    }
    /// SELECT, UNION or a parenthesised query: a `Statement`
    pub fn compound_query(&mut self) -> T {
        if self.depth > 0 && self.p(1, 8) {
            let l = self.paren_query();
            if self.p(1, 2) {
                return self.union_from(l);
            }
            return l;
        }
        self.compound_query_select_first()
    }
    pub fn compound_query_select_first(&mut self) -> T {
        if self.depth > 0 && self.p(1, 6) {
            let l = self.deeper(|g| g.select(Sel::Member));
            return self.union_from(u("Select", vec![l]));
        }
        u("Select", vec![self.select(Sel::Free)])
    }

    // ---- table references ------------------------------------------------------
    fn alias_opt(&mut self) -> (Option<Sp>, Option<T>) {
        match self.c(4) {
            0 | 1 => (None, None),
            2 => {
                let s = self.kw("AS");
                self.f("table-alias");
                (Some(s), Some(self.ident().0))
            }
            _ => {
                self.f("bare-alias");
                (None, Some(self.ident().0))
            }
        }
    }
    fn index_hints(&mut self) -> Vec<T> {
        let mut v = Vec::new();
        if !self.maria() || self.portable || !self.p(1, 5) {
            return v;
        }
        let k = 1 + self.c(2);
        let k = self.reps(k);
        for _ in 0..k {
            self.f("index-hint");
            let (k, nm) = self.pick(&[("USE", "Use"), ("IGNORE", "Ignore"), ("FORCE", "Force")]);
            let use_ = u(nm, vec![self.kw(k).t()]);
            let (k, nm) = self.pick(&[("INDEX", "Index"), ("KEY", "Key")]);
            let type_ = u(nm, vec![self.kw(k).t()]);
            let for_ = if self.p(1, 2) {
                let s = self.kw("FOR");
                let (k, nm) = self.pick(&[("JOIN", "Join"), ("GROUP BY", "GroupBy"), ("ORDER BY", "OrderBy")]);
                let e = u(nm, vec![self.kws(k).t()]);
                Some(tup(vec![s.t(), e]))
            } else {
                None
            };
            let l = self.pt("(");
            let ids = self.ident_list(3);
            let r = self.pt(")");
            v.push(n!("IndexHint"; use_: use_, type_: type_, for_: opt(for_), lparen: l.t(), index_list: list(ids), rparen: r.t()));
        }
        v
    }
    pub fn table_primary(&mut self) -> T {
        if self.depth > 0 && self.subq_ok && self.p(1, 6) {
            self.f("derived-table");
            self.pt("(");
            let q = self.deeper(|g| g.compound_query());
            self.pt(")");
            let (s, i) = self.alias_opt();
            return n!("Query"; query: q, as_span: osp(s), as_: opt(i));
        }
        let (q, _) = self.qname();
        let (s, i) = self.alias_opt();
        let h = self.index_hints();
        n!("Table"; identifier: q, as_span: osp(s), as_: opt(i), index_hints: list(h))
    }
    pub fn table_ref(&mut self) -> T {
        let mut l = self.table_primary();
        let k = match self.c(8) {
            0..=3 => 0,
            4 | 5 => 1,
            6 => 2,
            _ => 4,
        };
        let k = self.reps(k);
        let mut last = None;
        for j in 0..k {
            self.f("join");
            if j > 0 {
                self.f("join-chain");
            }
            let (s, name, r, spec) = self.twin(&mut last, |g| {
                let (text, name) = g.pick(JOINS);
                let s = g.kws(text);
                let r = g.table_primary();
                let need = g.join_needs_spec;
                let spec = match g.c(4) {
                    0 | 1 => Some(g.on_spec()),
                    2 if !need => None,
                    _ => {
                        g.f("join-using");
                        let s = g.kw("USING");
                        g.pt("(");
                        let v = g.ident_list(3);
                        g.pt(")");
                        Some(u("Using", vec![list(v), s.t()]))
                    }
                };
                (s, name, r, spec)
            });
            l = n!("Join"; join: u(name, vec![s.t()]), left: l, right: r, specification: opt(spec));
        }
        l
    }
    fn on_spec(&mut self) -> T {
        self.f("join-on");
        let s = self.kw("ON");
        let e = self.expr();
        u("On", vec![e, s.t()])
    }
    pub fn table_refs(&mut self) -> T {
        list(self.comma_list(3, |g| g.table_ref()))
    }
}
