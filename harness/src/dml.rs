//! INSERT, REPLACE, UPDATE, DELETE and WITH.

use crate::gen::*;
use crate::n;
use crate::select::Sel;
use crate::tree::*;

impl<'t> Gen<'t> {
    fn flags(&mut self, fl: &[(&'static str, &'static str)]) -> T {
        let mut v = Vec::new();
        if self.p(1, 3) {
            let k = 1 + self.c(2);
            let k = self.reps(k);
            for _ in 0..k {
                let (k, nm) = self.pick(fl);
                v.push(u(nm, vec![self.kw(k).t()]));
                self.f("dml-flag");
            }
        }
        list(v)
    }
    fn set_pairs(&mut self) -> T {
        list(self.comma_list(3, |g| {
            let (c, _) = g.ident();
            let e = g.pt("=");
            let v = g.expr();
            n!("InsertReplaceSetPair"; column: c, equal_span: e.t(), value: v)
        }))
    }
    fn returning(&mut self) -> T {
        let s = self.kw("RETURNING");
        self.f("returning");
        let v = self.select_exprs(3);
        some(tup(vec![s.t(), v]))
    }
    pub fn insert_replace(&mut self) -> T {
        let replace = self.p(1, 4);
        let (k, nm) = if replace { ("REPLACE", "Replace") } else { ("INSERT", "Insert") };
        self.f(if replace { "replace" } else { "insert" });
        let type_ = u(nm, vec![self.kw(k).t()]);
        let fl: &[(&str, &str)] = if replace {
            &[("LOW_PRIORITY", "LowPriority"), ("DELAYED", "Delayed")]
        } else {
            &[
                ("LOW_PRIORITY", "LowPriority"),
                ("HIGH_PRIORITY", "HighPriority"),
                ("DELAYED", "Delayed"),
                ("IGNORE", "Ignore"),
            ]
        };
        let flags = self.flags(fl);
        let into = self.opt_kws("INTO", 3, 4);
        let (table, _) = self.qname();
        let src = self.c(5);
        let mut columns = Vec::new();
        if src != 4 && self.p(2, 3) {
            self.pt("(");
            columns = self.ident_list(5);
            self.pt(")");
            self.f("insert-columns");
        }
        let conflict = if self.portable {
            0
        } else if self.pg() && !replace {
            self.c(3)
        } else if self.maria() && !replace {
            self.c(2)
        } else {
            0
        };
        let (mut values, mut select, mut set) = (none(), none(), none());
        match src {
            0..=2 => {
                let k = if self.p(1, 5) { "VALUE" } else { "VALUES" };
                let s = self.kw(k);
                self.f("insert-values");
                let rows = self.comma_list(4, |g| {
                    g.pt("(");
                    let v = g.comma_list(5, |g| g.expr());
                    g.pt(")");
                    list(v)
                });
                values = some(tup(vec![s.t(), list(rows)]));
            }
            3 => {
                self.f("insert-select");
                let old = std::mem::replace(&mut self.join_needs_spec, conflict > 0);
                let t = self.deeper(|g| g.select(Sel::Free));
                self.join_needs_spec = old;
                select = some(t);
            }
            _ => {
                self.f("insert-set");
                let s = self.kw("SET");
                let p = self.set_pairs();
                set = some(n!("InsertReplaceSet"; set_span: s.t(), pairs: p));
            }
        }
        let (mut dup, mut conf) = (none(), none());
        if conflict > 0 && self.pg() {
            let s = self.kws("ON CONFLICT");
            self.f("on-conflict");
            let target = match self.c(3) {
                0 => a("None"),
                1 => {
                    self.pt("(");
                    let v = self.ident_list(3);
                    self.pt(")");
                    n!("Columns"; names: list(v))
                }
                _ => {
                    let s = self.kws("ON CONSTRAINT");
                    let (i, _) = self.ident();
                    n!("OnConstraint"; on_constraint_span: s.t(), name: i)
                }
            };
            let action = if self.p(1, 2) {
                u("DoNothing", vec![self.kws("DO NOTHING").t()])
            } else {
                let s = self.kws("DO UPDATE SET");
                let sets = self.comma_list(3, |g| {
                    let (i, _) = g.ident();
                    g.pt("=");
                    let e = g.expr();
                    tup(vec![i, e])
                });
                let w = if self.p(1, 2) {
                    let s = self.kw("WHERE");
                    let e = self.expr();
                    some(tup(vec![s.t(), e]))
                } else {
                    none()
                };
                n!("DoUpdateSet"; do_update_set_span: s.t(), sets: list(sets), where_: w)
            };
            conf = some(n!("OnConflict"; on_conflict_span: s.t(), target: target, action: action));
        } else if conflict > 0 {
            let s = self.kws("ON DUPLICATE KEY UPDATE");
            self.f("on-duplicate");
            let p = self.set_pairs();
            dup = some(n!("InsertReplaceOnDuplicateKeyUpdate"; on_duplicate_key_update_span: s.t(), pairs: p));
        }
        let ret = if self.p(1, 4) { self.returning() } else { none() };
        n!("InsertReplace"; type_: type_, flags: flags, into_span: osp(into), table: table, columns: list(columns),
            values: values, select: select, set: set, on_duplicate_key_update: dup, on_conflict: conf, returning: ret)
    }
    pub fn update(&mut self) -> T {
        self.f("update");
        let s = self.kw("UPDATE");
        let flags = self.flags(&[("LOW_PRIORITY", "LowPriority"), ("IGNORE", "Ignore")]);
        let tables = self.table_refs();
        let set_s = self.kw("SET");
        let sets = self.comma_list(4, |g| {
            let mut c = vec![g.ident().0];
            let k = match g.c(5) {
                0..=2 => 0,
                3 => 1,
                _ => 2,
            };
            let k = g.reps(k);
            for _ in 0..k {
                g.dot();
                c.push(g.ident().0);
                g.f("qualified-set-column");
            }
            g.pt("=");
            let e = g.expr();
            tup(vec![list(c), e])
        });
        let where_ = self.where_opt();
        let ret = if self.pg() && !self.portable && self.p(1, 3) {
            self.returning()
        } else {
            none()
        };
        n!("Update"; update_span: s.t(), flags: flags, tables: tables, set_span: set_s.t(), set: list(sets), where_: where_,
            returning: ret)
    }
    pub fn delete(&mut self) -> T {
        self.f("delete");
        let s = self.kw("DELETE");
        let flags = self.flags(&[("LOW_PRIORITY", "LowPriority"), ("QUICK", "Quick"), ("IGNORE", "Ignore")]);
        let mut using = list(vec![]);
        let (tables, from);
        if self.p(1, 3) {
            self.f("multi-delete");
            tables = self.comma_list(3, |g| g.qname().0);
            from = self.kw("FROM");
            using = self.table_refs();
        } else {
            from = self.kw("FROM");
            tables = self.comma_list(3, |g| g.qname().0);
            if self.p(1, 3) {
                self.f("delete-using");
                self.kw("USING");
                using = self.table_refs();
            }
        }
        let where_ = self.where_opt();
        let ret = if self.p(1, 4) { self.returning() } else { none() };
        n!("Delete"; delete_span: s.t(), flags: flags, from_span: from.t(), tables: list(tables), using: using, where_: where_,
            returning: ret)
    }
    /// SELECT, INSERT, UPDATE or DELETE as a `Statement`
    fn simple_dml(&mut self) -> T {
        match self.c(6) {
            0..=2 => u("Select", vec![self.select(Sel::Free)]),
            3 => u("InsertReplace", vec![self.insert_replace()]),
            4 => u("Update", vec![self.update()]),
            _ => u("Delete", vec![self.delete()]),
        }
    }
    pub fn with_query(&mut self) -> T {
        self.f("with");
        let s = self.kw("WITH");
        let blocks = self.comma_list(3, |g| {
            let (i, _) = g.ident();
            let as_ = g.kw("AS");
            let l = g.pt("(");
            let t = g.deeper(|g| g.simple_dml());
            let r = g.pt(")");
            n!("WithBlock"; identifier: i, as_span: as_.t(), lparen_span: l.t(), statement: t, rparen_span: r.t())
        });
        let t = self.deeper(|g| g.simple_dml());
        n!("WithQuery"; with_span: s.t(), with_blocks: list(blocks), statement: t)
    }
}
