//! Compound statements, transactions, and the choice of a statement.

use crate::gen::*;
use crate::n;
use crate::select::Sel;
use crate::tree::*;

/// Statement classes a check can ask for.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Query,
    Insert,
    Update,
    Delete,
    With,
    CreateTable,
    CreateOther,
    Alter,
    Drop,
    Admin,
    Compound,
}
pub const ALL: &[Kind] = &[
    Kind::Query,
    Kind::Insert,
    Kind::Update,
    Kind::Delete,
    Kind::With,
    Kind::CreateTable,
    Kind::CreateOther,
    Kind::Alter,
    Kind::Drop,
    Kind::Admin,
    Kind::Compound,
];

impl<'t> Gen<'t> {
    pub fn set_stmt(&mut self) -> T {
        self.f("set");
        let s = self.kw("SET");
        let v = self.comma_list(3, |g| {
            let (i, _) = g.ident();
            g.pt("=");
            let e = g.expr();
            tup(vec![i, e])
        });
        u("Set", vec![n!("Set"; set_span: s.t(), values: list(v))])
    }
    pub fn signal(&mut self) -> T {
        self.f("signal");
        let s = self.kw("SIGNAL");
        let st = self.kw("SQLSTATE");
        let v = self.opt_kws("VALUE", 1, 2);
        // a parenthesised operand directly after VALUE would read as a call
        let string = |g: &mut Self| {
            let (x, sp, _) = g.sstring_v(true);
            u("String", vec![n!("SString"; value: q(x), span: sp.t())])
        };
        let e = if v.is_some() && self.p(1, 2) {
            string(self)
        } else {
            // likewise an expression whose first word is VALUE
            let (len, n, feat, argn) = (self.out.len(), self.toks.len(), self.feat.clone(), self.argn);
            let e = self.deeper(|g| g.expr());
            if self.toks.get(n).is_some_and(|t| t.text.eq_ignore_ascii_case("VALUE") || v.is_some() && t.text == "(") {
                self.out.truncate(len);
                self.toks.truncate(n);
                self.feat = feat;
                self.argn = argn;
                string(self)
            } else {
                e
            }
        };
        let mut set = None;
        let mut sets = Vec::new();
        if self.p(1, 2) {
            set = Some(self.kw("SET"));
            const NM: &[(&str, &str)] = &[
                ("MESSAGE_TEXT", "MessageText"),
                ("CLASS_ORIGIN", "ClassOrigin"),
                ("SUBCLASS_ORIGIN", "SubclassOrigin"),
                ("MYSQL_ERRNO", "MysqlErrno"),
                ("CONSTRAINT_CATALOG", "ConstraintCatalog"),
                ("CONSTRAINT_SCHEMA", "ConstraintSchema"),
                ("CONSTRAINT_NAME", "ConstraintName"),
                ("CATALOG_NAME", "CatalogName"),
                ("SCHEMA_NAME", "SchemaName"),
                ("TABLE_NAME", "TableName"),
                ("COLUMN_NAME", "ColumnName"),
                ("CURSOR_NAME", "CursorName"),
            ];
            sets = self.comma_list(3, |g| {
                let (k, nm) = g.pick(NM);
                let name = u(nm, vec![g.kw(k).t()]);
                let e = g.pt("=");
                let v = g.deeper(|g| g.expr());
                g.f("signal-item");
                tup(vec![name, e.t(), v])
            });
        }
        u("Signal", vec![n!("Signal"; signal_span: s.t(), sqlstate_span: st.t(), value_span: osp(v), sql_state: e,
            set_span: osp(set), sets: list(sets))])
    }
    pub fn return_stmt(&mut self) -> T {
        self.f("return");
        let s = self.kw("RETURN");
        let e = self.deeper(|g| g.expr());
        u("Return", vec![n!("Return"; return_span: s.t(), expr: e)])
    }
    /// Statements of a branch or block, each terminated by `;` (the last one optionally).
    pub fn stmt_list(&mut self, min: u32) -> T {
        let k = match self.c(6) {
            0 => min,
            1..=3 => 1,
            4 => 2,
            _ => 3,
        };
        let mut v = Vec::new();
        if self.p(1, 20) {
            self.pt(";");
            self.f("empty-statement");
        }
        let old = std::mem::replace(&mut self.in_block, true);
        let k = self.reps(k);
        let mut last = None;
        for i in 0..k {
            let (t, need) = self.twin(&mut last, |g| g.deeper(|g| g.block_statement()));
            v.push(t);
            if i + 1 < k || need || !self.p(1, 5) {
                self.pt(";");
                if self.p(1, 20) {
                    self.pt(";");
                    self.f("empty-statement");
                }
            } else {
                self.f("unterminated-last");
            }
        }
        self.in_block = old;
        list(v)
    }
    /// `EXCEPTION WHEN .. THEN ..;` which leaves nothing in the tree.
    fn exception(&mut self, yes: bool) {
        if !yes {
            return;
        }
        self.f("exception");
        self.kw("EXCEPTION");
        let k = 1 + self.c(3);
        let k = self.reps(k).max(1);
        for _ in 0..k {
            self.kw("WHEN");
            if self.p(1, 2) {
                self.kw("OTHERS");
            } else {
                self.ident();
            }
            self.kw("THEN");
            match self.c(3) {
                0 => {
                    self.kw("NULL");
                }
                1 => {
                    self.sstring_v(true);
                }
                _ => {
                    let w = self.pick(&["f", "now", "do_it"]);
                    self.tok(K::Id, w);
                    self.pt("(");
                    if self.p(1, 2) {
                        // no placeholders: they would be numbered and left out
                        self.sstring_v(true);
                    }
                    self.pt(")");
                }
            }
            self.pt(";");
        }
    }
    /// The statements of a block and what follows them up to END.
    fn block_body(&mut self) -> T {
        let ex = self.p(1, 6);
        let from = self.toks.len();
        let l = self.stmt_list(0);
        if ex && self.toks.len() > from && self.toks.last().is_some_and(|t| t.text != ";") {
            self.pt(";");
        }
        self.exception(ex);
        l
    }
    pub fn block(&mut self) -> T {
        self.f("block");
        let s = self.kw("BEGIN");
        let l = self.block_body();
        let e = self.kw("END");
        u("Block", vec![l, s.join(e).t()])
    }
    pub fn do_block(&mut self) -> T {
        self.f("do");
        let s = self.kw("DO");
        self.pt("$$");
        self.kw("BEGIN");
        let l = self.block_body();
        self.kw("END");
        let e = self.pt("$$");
        u("Do", vec![l, s.join(e).t()])
    }
    pub fn if_stmt(&mut self) -> T {
        self.f("if");
        let s = self.kw("IF");
        let k = 1 + match self.c(4) {
            0 | 1 => 0,
            2 => 1,
            _ => 2,
        };
        let mut cs = Vec::new();
        let k = self.reps(k);
        for i in 0..k {
            let es = if i > 0 {
                self.f("elseif");
                Some(self.kw("ELSEIF"))
            } else {
                None
            };
            let c = self.deeper(|g| g.expr());
            let ts = self.kw("THEN");
            let l = self.stmt_list(0);
            cs.push(n!("IfCondition"; elseif_span: osp(es), search_condition: c, then_span: ts.t(), then: l));
        }
        let e = if self.p(1, 2) {
            self.f("else");
            let s = self.kw("ELSE");
            let l = self.stmt_list(0);
            some(tup(vec![s.t(), l]))
        } else {
            none()
        };
        let end = self.kws("END IF");
        u("If", vec![n!("If"; if_span: s.t(), conditions: list(cs), else_: e, endif_span: end.t())])
    }
    pub fn case_stmt(&mut self) -> T {
        self.f("case-statement");
        let s = self.kw("CASE");
        let v = if self.p(1, 2) { Some(self.deeper(|g| g.expr())) } else { None };
        let k = 1 + self.c(3);
        let mut ws = Vec::new();
        let k = self.reps(k);
        let mut last = None;
        for _ in 0..k {
            ws.push(self.twin(&mut last, |g| {
                let a1 = g.kw("WHEN");
                let w = g.deeper(|g| g.expr());
                let a2 = g.kw("THEN");
                let l = g.stmt_list(0);
                n!("WhenStatement"; when_span: a1.t(), when: w, then_span: a2.t(), then: l)
            }));
        }
        let e = if self.p(1, 2) {
            let s = self.kw("ELSE");
            let l = self.stmt_list(0);
            some(tup(vec![s.t(), l]))
        } else {
            none()
        };
        let k = if self.p(1, 2) { "END" } else { "END CASE" };
        let end = self.kws(k);
        u("Case", vec![n!("CaseStatement"; case_span: s.t(), value: opt(v), whens: list(ws), else_: e, end_span: end.t())])
    }
    /// A statement inside a block; whether it must be followed by `;`.
    pub fn block_statement(&mut self) -> (T, bool) {
        let deep = self.depth > 0;
        let k = self.c(20);
        match k {
            0..=2 => (self.set_stmt(), false),
            3 => (self.return_stmt(), false),
            4 => (u("Select", vec![self.select(Sel::Free)]), false),
            5 => (u("InsertReplace", vec![self.insert_replace()]), false),
            6 => (u("Update", vec![self.update()]), false),
            7 => (u("Delete", vec![self.delete()]), false),
            8..=11 if deep => (self.if_stmt(), false),
            12 | 13 if deep => (self.case_stmt(), false),
            14 | 15 if deep => (self.block(), false),
            16 => (self.signal(), false),
            17 if deep && !self.portable => (self.drop_stmt(), true),
            18 if deep => (self.truncate(), true),
            // (in the place of the body of a function a bracket would belong to the type before it)
            19 if deep && self.p(1, 2) && self.toks.last().is_none_or(|t| [";", "BEGIN", "THEN", "ELSE"].contains(&&*t.text.to_ascii_uppercase())) => {
                self.f("other-in-block");
                let t = match self.c(9) {
                    0 | 1 => self.statement(Kind::Query),
                    2 => self.statement(Kind::With),
                    3 => self.create_table(),
                    4 => self.statement(Kind::Alter),
                    5 => match self.c(3) {
                        0 => self.create_view(),
                        1 => self.create_index(),
                        _ => self.create_trigger(),
                    },
                    6 => self.do_block(),
                    7 => self.rename(),
                    _ => match self.c(2) {
                        0 => u("Commit", vec![self.kw("COMMIT").t()]),
                        _ => u("StartTransaction", vec![self.kws("START TRANSACTION").t()]),
                    },
                };
                (t, true)
            }
            _ => (self.set_stmt(), false),
        }
    }
    pub fn admin(&mut self) -> T {
        match self.c(10) {
            0 => u("Begin", vec![self.kw("BEGIN").t()]),
            1 => u("Commit", vec![self.kw("COMMIT").t()]),
            2 => u("StartTransaction", vec![self.kws("START TRANSACTION").t()]),
            3 => u("End", vec![self.kw("END").t()]),
            4 | 5 => self.set_stmt(),
            6 | 7 => self.rename(),
            _ => self.truncate(),
        }
    }
    pub fn statement(&mut self, kind: Kind) -> T {
        match kind {
            Kind::Query => self.compound_query(),
            Kind::Insert => u("InsertReplace", vec![self.insert_replace()]),
            Kind::Update => u("Update", vec![self.update()]),
            Kind::Delete => u("Delete", vec![self.delete()]),
            Kind::With => {
                if self.pg() && !self.portable {
                    u("WithQuery", vec![self.with_query()])
                } else {
                    self.compound_query_select_first()
                }
            }
            Kind::CreateTable => self.create_table(),
            Kind::CreateOther => match self.c(5) {
                0 => self.create_view(),
                1 => self.create_index(),
                2 => self.create_trigger(),
                3 if !self.portable => self.create_function(),
                4 if self.pg() && !self.portable => self.create_type(),
                _ => self.create_view(),
            },
            Kind::Alter => self.alter_table(),
            Kind::Drop => {
                if self.portable {
                    self.truncate()
                } else {
                    self.drop_stmt()
                }
            }
            Kind::Admin => self.admin(),
            Kind::Compound => match self.c(6) {
                0 | 1 => self.if_stmt(),
                2 => self.case_stmt(),
                3 => self.create_trigger(),
                4 if self.maria() && !self.portable => self.create_function(),
                _ => self.do_block(),
            },
        }
    }
    pub fn any_statement(&mut self) -> T {
        const W: &[Kind] = &[
            Kind::Query,
            Kind::Query,
            Kind::Query,
            Kind::Insert,
            Kind::Insert,
            Kind::Update,
            Kind::Delete,
            Kind::With,
            Kind::CreateTable,
            Kind::CreateTable,
            Kind::CreateOther,
            Kind::CreateOther,
            Kind::Alter,
            Kind::Alter,
            Kind::Drop,
            Kind::Admin,
            Kind::Compound,
        ];
        let k = self.pick(W);
        self.statement(k)
    }
}
