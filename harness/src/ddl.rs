//! Data types, CREATE and ALTER.

use crate::gen::*;
use crate::n;
use crate::tree::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ctx {
    /// column definition: every property
    Column,
    /// CAST target
    Cast,
    /// function parameter
    Param,
    /// function return type
    Return,
}

enum W {
    Opt,
    Req,
    No,
    None_,
}

const TYPES: &[(&str, &str, W)] = &[
    ("INT", "Int", W::Opt),
    ("BOOLEAN", "Boolean", W::No),
    ("TINYINT", "TinyInt", W::Opt),
    ("SMALLINT", "SmallInt", W::Opt),
    ("INTEGER", "Integer", W::Opt),
    ("BIGINT", "BigInt", W::Opt),
    ("INET4", "Inet4", W::No),
    ("INET6", "Inet6", W::No),
    ("TINYTEXT", "TinyText", W::Opt),
    ("CHAR", "Char", W::Opt),
    ("TEXT", "Text", W::Opt),
    ("MEDIUMTEXT", "MediumText", W::Opt),
    ("LONGTEXT", "LongText", W::Opt),
    ("VARCHAR", "VarChar", W::Opt),
    ("TINYBLOB", "TinyBlob", W::Opt),
    ("BLOB", "Blob", W::Opt),
    ("MEDIUMBLOB", "MediumBlob", W::Opt),
    ("LONGBLOB", "LongBlob", W::Opt),
    ("VARBINARY", "VarBinary", W::Req),
    ("BINARY", "Binary", W::Opt),
    ("FLOAT8", "Float8", W::No),
    ("FLOAT", "Float", W::None_),
    ("DATETIME", "DateTime", W::Opt),
    ("TIME", "Time", W::Opt),
    ("TIMESTAMPTZ", "Timestamptz", W::No),
    ("DATE", "Date", W::No),
    ("JSON", "Json", W::No),
    ("BYTEA", "Bytea", W::No),
];

impl<'t> Gen<'t> {
    fn width(&mut self, max: u64) -> T {
        self.pt("(");
        let (t, _) = self.int_max(max);
        self.pt(")");
        self.f("width");
        t
    }
    fn string_list(&mut self) -> T {
        self.pt("(");
        let v = self.comma_list(5, |g| g.sstring().0);
        self.pt(")");
        list(v)
    }
    pub fn data_type(&mut self, ctx: Ctx) -> T {
        let k = TYPES.len() as u32;
        let (ident, ty) = match self.c(k + 8) {
            x if x < k => {
                let (text, nm, w) = &TYPES[x as usize];
                let s = self.kw(text);
                let t = match w {
                    W::No => a(nm),
                    W::None_ => u(nm, vec![none()]),
                    W::Req => u(nm, vec![self.width(u64::MAX)]),
                    W::Opt => {
                        let w = if self.p(1, 2) { Some(self.width(u64::MAX)) } else { None };
                        u(nm, vec![opt(w)])
                    }
                };
                (s, t)
            }
            x if x == k => {
                if self.portable {
                    let s = self.kw("FLOAT");
                    (s, u("Float", vec![none()]))
                } else if self.lite() {
                    let s = self.kw("REAL");
                    self.f("dialect-type");
                    (s, u("Double", vec![none()]))
                } else {
                    let s = self.kw("REAL");
                    self.f("dialect-type");
                    (s, u("Float", vec![none()]))
                }
            }
            x if x == k + 1 => {
                if self.portable {
                    let s = self.kw("BIGINT");
                    (s, u("BigInt", vec![none()]))
                } else {
                    let s = self.kws(if self.pg() { "DOUBLE PRECISION" } else { "DOUBLE" });
                    self.f("dialect-type");
                    (s, u("Double", vec![none()]))
                }
            }
            x if x == k + 2 => {
                let s = self.kw("NUMERIC");
                let l = self.pt("(");
                let (t1, v1) = self.int_text(u64::MAX);
                self.tok(K::Num, &t1);
                self.pt(",");
                let (t2, v2) = self.int_text(u64::MAX);
                self.tok(K::Num, &t2);
                let r = self.pt(")");
                self.f("numeric");
                (s, u("Numeric", vec![a(v1), a(v2), l.join(r).t()]))
            }
            x if x == k + 3 => {
                let s = self.kw("TIMESTAMP");
                let w = if self.p(1, 2) { Some(self.width(u64::MAX)) } else { None };
                let z = self.opt_kws("WITH TIME ZONE", 1, 2);
                self.f("timestamp");
                (s, u("Timestamp", vec![n!("Timestamp"; width: opt(w), with_time_zone: osp(z))]))
            }
            x if x == k + 4 || x == k + 5 => {
                let e = x == k + 4;
                let s = self.kw(if e { "ENUM" } else { "SET" });
                let v = self.string_list();
                self.f("enum-set");
                (s, u(if e { "Enum" } else { "Set" }, vec![v]))
            }
            x if x == k + 6 => {
                let s = self.kw("BIT");
                self.pt("(");
                let (t, v) = self.int_text(u64::MAX);
                let ws = self.tok(K::Num, &t);
                self.pt(")");
                (s, u("Bit", vec![a(v), ws.t()]))
            }
            _ => {
                if self.pg() && !self.portable {
                    let nm = self.pick(&["uuid", "citext", "my_type", "MONEY", "tsvector", "SERIAL", "bool", "int4range"]);
                    let s = self.tok(K::Id, nm);
                    self.f("named-type");
                    (s, u("Named", vec![s.t()]))
                } else {
                    let s = self.kw("DATE");
                    (s, a("Date"))
                }
            }
        };
        let np = match ctx {
            Ctx::Column => match self.c(6) {
                0 | 1 => 0,
                2 | 3 => 1,
                4 => 2,
                _ => 5,
            },
            _ => u32::from(self.p(1, 6)),
        };
        let mut props = Vec::new();
        let np = self.reps(np);
        let mut last = None;
        for _ in 0..np {
            props.push(self.twin(&mut last, |g| g.property(ctx)));
        }
        if np > 1 {
            self.f("several-properties");
        }
        n!("DataType"; identifier: ident.t(), type_: ty, properties: list(props))
    }
    fn default_value(&mut self) -> T {
        if self.p(1, 8) {
            let s = self.pt("-");
            let o = self.default_atom();
            return n!("Unary"; op: a("Minus"), op_span: s.t(), operand: o);
        }
        self.default_atom()
    }
    fn default_atom(&mut self) -> T {
        match self.c(10) {
            0..=2 => self.int_expr(),
            3 => {
                let s = self.kw("NULL");
                u("Null", vec![s.t()])
            }
            4 | 5 => {
                let (v, s, _) = self.sstring_v(true);
                u("String", vec![n!("SString"; value: q(v), span: s.t())])
            }
            6 => {
                let s = self.kw("CURRENT_TIMESTAMP");
                u("Function", vec![a("CurrentTimestamp"), list(vec![]), s.t()])
            }
            7 => {
                let b = self.p(1, 2);
                let s = self.kw(if b { "TRUE" } else { "FALSE" });
                u("Bool", vec![a(b), s.t()])
            }
            8 if self.depth > 0 => self.paren(),
            9 if self.depth > 0 => self.deeper(|g| g.function()),
            _ => self.float_tok(),
        }
    }
    fn paren_expr(&mut self) -> T {
        self.pt("(");
        let e = self.deeper(|g| g.expr());
        self.pt(")");
        e
    }
    fn property(&mut self, ctx: Ctx) -> T {
        const SIMPLE: &[(&str, &str)] = &[
            ("NOT NULL", "NotNull"),
            ("NULL", "Null"),
            ("UNSIGNED", "Unsigned"),
            ("SIGNED", "Signed"),
            ("ZEROFILL", "Zerofill"),
            ("AUTO_INCREMENT", "AutoIncrement"),
            ("VIRTUAL", "Virtual"),
            ("PERSISTENT", "Persistent"),
            ("STORED", "Stored"),
            ("UNIQUE", "Unique"),
            ("UNIQUE KEY", "UniqueKey"),
            ("PRIMARY KEY", "PrimaryKey"),
        ];
        let k = SIMPLE.len() as u32;
        let x = if ctx == Ctx::Column { self.c(k + 8) } else { self.c(5) };
        if x < k {
            let (t, nm) = SIMPLE[x as usize];
            let s = self.kws(t);
            return u(nm, vec![s.t()]);
        }
        match x - k {
            0 | 1 => {
                self.kw("DEFAULT");
                self.f("default");
                let e = self.default_value();
                u("Default", vec![e])
            }
            2 => {
                self.kw("COMMENT");
                self.f("column-comment");
                u("Comment", vec![self.sstring().0])
            }
            3 => {
                self.kws("CHARACTER SET");
                self.f("charset");
                u("Charset", vec![self.ident().0])
            }
            4 => {
                self.kw("COLLATE");
                self.f("column-collate");
                u("Collate", vec![self.ident().0])
            }
            5 => {
                self.f("generated");
                let pg = self.pg();
                if pg && self.portable {
                    let s = self.kw("STORED");
                    return u("Stored", vec![s.t()]);
                }
                if self.portable {
                    let s = self.kw("STORED");
                    return u("Stored", vec![s.t()]);
                }
                let s = self.kws(if pg { "GENERATED ALWAYS AS IDENTITY" } else { "GENERATED ALWAYS" });
                u("GeneratedAlways", vec![s.t()])
            }
            6 => {
                let s = self.kw("AS");
                self.f("column-as");
                let e = self.paren_expr();
                u("As", vec![tup(vec![s.t(), e])])
            }
            _ => {
                let s = self.kw("CHECK");
                self.f("column-check");
                let e = self.paren_expr();
                u("Check", vec![tup(vec![s.t(), e])])
            }
        }
    }

    // ---- CREATE ------------------------------------------------------------------
    fn create_options(&mut self, allowed: &[u32]) -> T {
        let mut v = Vec::new();
        let n = if self.p(1, 2) { 1 + self.c(3) } else { 0 };
        let n = self.reps(n);
        for _ in 0..n {
            let k = self.pick(allowed);
            v.push(match k {
                0 => u("OrReplace", vec![self.kws("OR REPLACE").t()]),
                1 => u("Temporary", vec![self.kw("TEMPORARY").t()]),
                2 => u("Unique", vec![self.kw("UNIQUE").t()]),
                3 => {
                    let s = self.kw("ALGORITHM");
                    self.pt("=");
                    let (k, nm) = self.pick(&[("UNDEFINED", "Undefined"), ("MERGE", "Merge"), ("TEMPTABLE", "TempTable")]);
                    let e = self.kw(k);
                    u("Algorithm", vec![s.t(), u(nm, vec![e.t()])])
                }
                4 => {
                    let s = self.kw("DEFINER");
                    self.pt("=");
                    let (usr, _) = self.ident();
                    self.pt("@");
                    let (host, _) = self.ident();
                    n!("Definer"; definer_span: s.t(), user: usr, host: host)
                }
                _ => {
                    let s = self.kws("SQL SECURITY");
                    let d = self.p(1, 2);
                    let e = self.kw(if d { "DEFINER" } else { "USER" });
                    u(if d { "SqlSecurityDefiner" } else { "SqlSecurityUser" }, vec![s.t(), e.t()])
                }
            });
            self.f("create-option");
        }
        list(v)
    }
    fn if_not_exists(&mut self) -> Option<Sp> {
        let r = self.opt_kws("IF NOT EXISTS", 1, 3);
        if r.is_some() {
            self.f("if-not-exists");
        }
        r
    }
    fn if_exists(&mut self) -> Option<Sp> {
        let r = self.opt_kws("IF EXISTS", 1, 3);
        if r.is_some() {
            self.f("if-exists");
        }
        r
    }
    fn constraint_def(&mut self) -> T {
        let s = self.kw("CONSTRAINT");
        self.f("table-constraint");
        let (i, _) = self.ident();
        self.kws("FOREIGN KEY");
        self.pt("(");
        self.ident_list(3);
        self.pt(")");
        self.kw("REFERENCES");
        self.ident();
        self.pt("(");
        self.ident_list(3);
        self.pt(")");
        if self.p(1, 2) {
            self.kws("ON DELETE");
            let k = self.pick(&["CASCADE", "RESTRICT", "SET NULL"]);
            self.kws(k);
        }
        n!("ConstraintDefinition"; span: s.t(), identifier: i)
    }
    fn table_option(&mut self) -> T {
        self.f("table-option");
        let k = self.c(8);
        let kw = [
            "ENGINE",
            "DEFAULT CHARSET",
            "DEFAULT COLLATE",
            "CHARSET",
            "COLLATE",
            "ROW_FORMAT",
            "COMMENT",
            "STRICT",
        ][k as usize];
        let mut it = kw.split(' ');
        let s = self.kw(it.next().unwrap());
        for w in it {
            self.kw(w);
        }
        if k == 7 {
            return n!("Strict"; identifier: s.t());
        }
        if self.p(1, 2) {
            self.pt("=");
        }
        let value = if k == 6 { self.sstring().0 } else { self.ident().0 };
        let nm = ["Engine", "DefaultCharSet", "DefaultCollate", "CharSet", "Collate", "RowFormat", "Comment"][k as usize];
        n!(nm; identifier: s.t(), value: value)
    }
    pub fn create_table(&mut self) -> T {
        self.f("create-table");
        let s = self.kw("CREATE");
        let o = self.create_options(&[0, 1]);
        let ts = self.kw("TABLE");
        let ine = self.if_not_exists();
        let (name, _) = self.qname();
        self.pt("(");
        let defs = if self.p(19, 20) {
            self.comma_list(6, |g| {
                if g.p(1, 6) {
                    g.constraint_def()
                } else {
                    let (i, _) = g.ident();
                    let d = g.data_type(Ctx::Column);
                    n!("ColumnDefinition"; identifier: i, data_type: d)
                }
            })
        } else {
            vec![]
        };
        self.pt(")");
        let k = match self.c(4) {
            0 | 1 => 0,
            2 => 1,
            _ => 3,
        };
        let mut opts = Vec::new();
        let k = self.reps(k);
        let mut last = None;
        for _ in 0..k {
            opts.push(self.twin(&mut last, |g| g.table_option()));
        }
        u(
            "CreateTable",
            vec![n!("CreateTable"; create_span: s.t(), create_options: o, table_span: ts.t(), identifier: name,
                if_not_exists: osp(ine), create_definitions: list(defs), options: list(opts))],
        )
    }
    pub fn create_view(&mut self) -> T {
        self.f("create-view");
        let s = self.kw("CREATE");
        let o = self.create_options(&[0, 3, 4, 5, 1]);
        let vs = self.kw("VIEW");
        let ine = self.if_not_exists();
        let (name, _) = self.qname();
        let as_ = self.kw("AS");
        let q = self.deeper(|g| g.compound_query());
        u(
            "CreateView",
            vec![n!("CreateView"; create_span: s.t(), create_options: o, view_span: vs.t(), if_not_exists: osp(ine), name: name,
                as_span: as_.t(), select: q)],
        )
    }
    pub fn create_index(&mut self) -> T {
        self.f("create-index");
        let s = self.kw("CREATE");
        let o = self.create_options(&[2, 0]);
        let is = self.kw("INDEX");
        let ine = self.if_not_exists();
        let (name, _) = self.ident();
        let on = self.kw("ON");
        let (table, _) = self.qname();
        let mut opts = vec![];
        if self.p(1, 4) {
            opts.push(u("UsingGist", vec![self.kws("USING GIST").t()]));
        }
        let l = self.pt("(");
        let cols = self.comma_list(4, |g| {
            let (i, _) = g.ident();
            if g.pg() && !g.portable && g.p(1, 4) {
                let k = g.pick(&[
                    "TEXT_PATTERN_OPS",
                    "VARCHAR_PATTERN_OPS",
                    "BPCHAR_PATTERN_OPS",
                    "INT8_OPS",
                    "INT4_OPS",
                    "INT2_OPS",
                ]);
                g.kw(k);
                g.f("operator-class");
            }
            i
        });
        let r = self.pt(")");
        let w = if !self.maria() && !self.portable && self.p(1, 3) {
            let s = self.kw("WHERE");
            self.f("partial-index");
            let e = self.expr();
            some(tup(vec![s.t(), e]))
        } else {
            none()
        };
        u(
            "CreateIndex",
            vec![n!("CreateIndex"; create_span: s.t(), create_options: o, index_span: is.t(), index_name: name,
                if_not_exists: osp(ine), on_span: on.t(), table_name: table, index_options: list(opts), l_paren_span: l.t(),
                column_names: list(cols), r_paren_span: r.t(), where_: w)],
        )
    }
    pub fn create_type(&mut self) -> T {
        self.f("create-type");
        let s = self.kw("CREATE");
        let ts = self.kw("TYPE");
        let (name, _) = self.ident();
        let ae = self.kws("AS ENUM");
        let v = self.string_list();
        u(
            "CreateTypeEnum",
            vec![n!("CreateTypeEnum"; create_span: s.t(), create_options: list(vec![]), type_span: ts.t(), name: name,
                as_enum_span: ae.t(), values: v)],
        )
    }
    pub fn create_trigger(&mut self) -> T {
        self.f("create-trigger");
        let s = self.kw("CREATE");
        let o = self.create_options(&[0, 4]);
        let ts = self.kw("TRIGGER");
        let ine = self.if_not_exists();
        let (name, _) = self.ident();
        let (k, nm) = self.pick(&[("BEFORE", "Before"), ("AFTER", "After")]);
        let time = u(nm, vec![self.kw(k).t()]);
        let (k, nm) = self.pick(&[("UPDATE", "Update"), ("INSERT", "Insert"), ("DELETE", "Delete")]);
        let event = u(nm, vec![self.kw(k).t()]);
        let on = self.kw("ON");
        let (table, _) = self.ident();
        let fer = self.kws("FOR EACH ROW");
        let st = self.body();
        u(
            "CreateTrigger",
            vec![n!("CreateTrigger"; create_span: s.t(), create_options: o, trigger_span: ts.t(), if_not_exists: osp(ine),
                name: name, trigger_time: time, trigger_event: event, on_span: on.t(), table: table, for_each_row_span: fer.t(),
                statement: st)],
        )
    }
    /// Body of a trigger or function: a block or a plain statement.
    fn body(&mut self) -> T {
        let old = std::mem::replace(&mut self.in_block, true);
        let t = self.deeper(|g| if g.p(2, 3) { g.block() } else { g.block_statement().0 });
        self.in_block = old;
        t
    }
    pub fn create_function(&mut self) -> T {
        self.f("create-function");
        let s = self.kw("CREATE");
        let o = self.create_options(&[0, 4]);
        let fs = self.kw("FUNCTION");
        let ine = self.if_not_exists();
        let (name, _) = self.ident();
        self.pt("(");
        let params = if self.p(3, 4) {
            self.comma_list(4, |g| {
                let dir = match g.c(6) {
                    0..=2 => none(),
                    3 => some(u("In", vec![g.kw("IN").t()])),
                    4 => some(u("Out", vec![g.kw("OUT").t()])),
                    _ => {
                        let k = if g.p(1, 2) { "INOUT" } else { "IN OUT" };
                        some(u("InOut", vec![g.kws(k).t()]))
                    }
                };
                let (i, _) = g.ident();
                let t = g.data_type(Ctx::Param);
                tup(vec![dir, i, t])
            })
        } else {
            vec![]
        };
        self.pt(")");
        let rs = self.kw("RETURNS");
        let rt = self.data_type(Ctx::Return);
        if self.pg() && self.p(1, 2) {
            self.kw("AS");
            self.pt("$$");
            self.f("dollar-body");
            let k = self.c(6);
            let k = self.reps(k);
            for _ in 0..k {
                match self.c(6) {
                    0 => self.tok(K::Id, "foo"),
                    1 => self.pt(";"),
                    2 => self.kw("BEGIN"),
                    3 => self.tok(K::Str, "'$$'"),
                    4 => self.kw("END"),
                    _ => self.tok(K::Num, "12"),
                };
            }
            self.pt("$$");
        }
        let k = match self.c(4) {
            0 => 0,
            1 | 2 => 1,
            _ => 3,
        };
        let mut ch = Vec::new();
        let k = self.reps(k);
        for _ in 0..k {
            self.f("function-characteristic");
            const C: &[(&str, &str)] = &[
                ("DETERMINISTIC", "Deterministic"),
                ("NOT DETERMINISTIC", "NotDeterministic"),
                ("LANGUAGE SQL", "LanguageSql"),
                ("LANGUAGE PLPGSQL", "LanguagePlpgsql"),
                ("CONTAINS SQL", "ContainsSql"),
                ("NO SQL", "NoSql"),
                ("READS SQL DATA", "ReadsSqlData"),
                ("MODIFIES SQL DATA", "ModifiesSqlData"),
                ("SQL SECURITY DEFINER", "SqlSecurityDefiner"),
                ("SQL SECURITY USER", "SqlSecurityUser"),
            ];
            let x = self.c(C.len() as u32 + 1) as usize;
            if x == C.len() {
                self.kw("COMMENT");
                ch.push(u("Comment", vec![self.sstring().0]));
            } else {
                let s = self.kws(C[x].0);
                ch.push(u(C[x].1, vec![s.t()]));
            }
        }
        let ret = if self.maria() {
            let t = self.body();
            some(t)
        } else {
            none()
        };
        u(
            "CreateFunction",
            vec![n!("CreateFunction"; create_span: s.t(), create_options: o, function_span: fs.t(), if_not_exists: osp(ine),
                name: name, params: list(params), returns_span: rs.t(), return_type: rt, characteristics: list(ch), return_: ret)],
        )
    }

    // ---- ALTER -------------------------------------------------------------------
    fn index_cols(&mut self) -> T {
        self.pt("(");
        let v = self.comma_list(4, |g| {
            let (i, _) = g.ident();
            let s = if g.p(1, 3) {
                g.f("index-width");
                Some(g.width(u32::MAX as u64))
            } else {
                None
            };
            n!("IndexCol"; name: i, size: opt(s))
        });
        self.pt(")");
        list(v)
    }
    fn cols(&mut self) -> T {
        self.pt("(");
        let v = self.ident_list(4);
        self.pt(")");
        list(v)
    }
    fn constraint_opt(&mut self) -> T {
        if !self.p(1, 3) {
            return none();
        }
        let s = self.kw("CONSTRAINT");
        self.f("alter-constraint");
        let i = if self.p(2, 3) { Some(self.ident().0) } else { None };
        some(tup(vec![s.t(), opt(i)]))
    }
    fn index_type(&mut self) -> T {
        self.kw("USING");
        self.f("index-type");
        let (k, nm) = self.pick(&[("BTREE", "IndexTypeBTree"), ("HASH", "IndexTypeHash"), ("RTREE", "IndexTypeRTree")]);
        u(nm, vec![self.kw(k).t()])
    }
    fn alter_spec(&mut self) -> T {
        match self.c(9) {
            0 => {
                self.f("add-column");
                let s = self.kw("ADD");
                self.kw("COLUMN");
                let ine = if self.maria() || self.portable { None } else { self.if_not_exists() };
                let (i, _) = self.ident();
                let d = self.data_type(Ctx::Column);
                n!("AddColumn"; add_span: s.t(), if_not_exists_span: osp(ine), identifier: i, data_type: d)
            }
            1 | 2 => {
                self.f("add-index");
                let s = self.kw("ADD");
                let c = self.constraint_opt();
                const IT: &[(&str, &str)] = &[
                    ("INDEX", "Index"),
                    ("KEY", "Index"),
                    ("PRIMARY KEY", "Primary"),
                    ("UNIQUE INDEX", "Unique"),
                    ("UNIQUE KEY", "Unique"),
                    ("FULLTEXT INDEX", "FullText"),
                    ("FULLTEXT KEY", "FullText"),
                    ("SPATIAL INDEX", "Spatial"),
                    ("SPATIAL KEY", "Spatial"),
                ];
                let (k, nm) = self.pick(IT);
                let it = u(nm, vec![self.kws(k).t()]);
                let ine = self.if_not_exists();
                let name = if self.p(1, 2) { Some(self.ident().0) } else { None };
                let mut opts = Vec::new();
                if self.p(1, 4) {
                    opts.push(self.index_type());
                }
                let cols = self.index_cols();
                let k = if self.p(1, 3) { 1 + self.c(2) } else { 0 };
                let k = self.reps(k);
                for _ in 0..k {
                    opts.push(if self.p(1, 2) {
                        self.index_type()
                    } else {
                        self.kw("COMMENT");
                        self.f("index-comment");
                        u("Comment", vec![self.sstring().0])
                    });
                }
                n!("AddIndex"; add_span: s.t(), index_type: it, if_not_exists: osp(ine), name: opt(name), constraint: c,
                    cols: cols, index_options: list(opts))
            }
            3 => {
                self.f("add-foreign-key");
                let s = self.kw("ADD");
                let c = self.constraint_opt();
                let fk = self.kws("FOREIGN KEY");
                let ine = self.if_not_exists();
                let name = if self.p(1, 2) { Some(self.ident().0) } else { None };
                let cols = self.index_cols();
                let rs = self.kw("REFERENCES");
                let (rt, _) = self.ident();
                let rc = self.cols();
                let k = self.c(3);
                let mut ons = Vec::new();
                let k = self.reps(k);
                for _ in 0..k {
                    self.f("foreign-key-action");
                    let (k, nm) = self.pick(&[("ON UPDATE", "Update"), ("ON DELETE", "Delete")]);
                    let ty = u(nm, vec![self.kws(k).t()]);
                    let (k, nm) = self.pick(&[
                        ("RESTRICT", "Restrict"),
                        ("CASCADE", "Cascade"),
                        ("SET NULL", "SetNull"),
                        ("NO ACTION", "NoAction"),
                        ("SET DEFAULT", "SetDefault"),
                    ]);
                    let ac = u(nm, vec![self.kws(k).t()]);
                    ons.push(n!("ForeignKeyOn"; type_: ty, action: ac));
                }
                n!("AddForeignKey"; add_span: s.t(), constraint: c, foreign_key_span: fk.t(), if_not_exists: osp(ine),
                    name: opt(name), cols: cols, references_span: rs.t(), references_table: rt, references_cols: rc, ons: list(ons))
            }
            4 => {
                self.f("modify-column");
                let k = if self.p(1, 2) { "MODIFY COLUMN" } else { "MODIFY" };
                let s = self.kws(k);
                let ie = self.if_exists();
                let (i, _) = self.ident();
                let d = self.data_type(Ctx::Column);
                n!("Modify"; modify_span: s.t(), if_exists: osp(ie), col: i, definition: d)
            }
            5 => {
                self.f("drop-column");
                let s = self.kws("DROP COLUMN");
                let (i, _) = self.ident();
                let c = self.opt_kws("CASCADE", 1, 3);
                n!("DropColumn"; drop_column_span: s.t(), column: i, cascade: osp(c))
            }
            6 | 7 => {
                self.f("alter-column");
                let s = self.kws("ALTER COLUMN");
                let (i, _) = self.ident();
                let act = match self.c(5) {
                    0 => {
                        let s = self.kws("SET DEFAULT");
                        let e = self.expr();
                        n!("SetDefault"; set_default_span: s.t(), value: e)
                    }
                    1 => n!("DropDefault"; drop_default_span: self.kws("DROP DEFAULT").t()),
                    2 => {
                        let s = self.kw("TYPE");
                        let d = self.data_type(Ctx::Column);
                        n!("Type"; type_span: s.t(), type_: d)
                    }
                    3 => n!("SetNotNull"; set_not_null_span: self.kws("SET NOT NULL").t()),
                    _ => n!("DropNotNull"; drop_not_null_span: self.kws("DROP NOT NULL").t()),
                };
                n!("AlterColumn"; alter_column_span: s.t(), column: i, alter_column_action: act)
            }
            _ => {
                self.f("owner-to");
                let s = self.kws("OWNER TO");
                let (i, _) = self.ident();
                n!("OwnerTo"; span: s.t(), owner: i)
            }
        }
    }
    pub fn alter_table(&mut self) -> T {
        self.f("alter-table");
        let s = self.kw("ALTER");
        let online = self.opt_kws("ONLINE", 1, 5);
        let ignore = self.opt_kws("IGNORE", 1, 5);
        let ts = self.kw("TABLE");
        let ie = self.if_exists();
        let (t, _) = self.qname();
        let v = self.comma_list(4, |g| g.alter_spec());
        u(
            "AlterTable",
            vec![n!("AlterTable"; alter_span: s.t(), online: osp(online), ignore: osp(ignore), table_span: ts.t(),
                if_exists: osp(ie), table: t, alter_specifications: list(v))],
        )
    }

    // ---- DROP and friends -----------------------------------------------------------
    pub fn drop_stmt(&mut self) -> T {
        self.f("drop");
        let s = self.kw("DROP");
        match self.c(9) {
            0 | 1 => {
                let t = self.opt_kws("TEMPORARY", 1, 4);
                let k = self.kw("TABLE");
                let ie = self.if_exists();
                let v = self.comma_list(4, |g| g.qname().0);
                let c = if self.pg() && !self.portable { self.opt_kws("CASCADE", 1, 3) } else { None };
                u("DropTable", vec![n!("DropTable"; drop_span: s.t(), temporary: osp(t), table_span: k.t(), if_exists: osp(ie),
                    tables: list(v), cascade: osp(c))])
            }
            2 => {
                let t = self.opt_kws("TEMPORARY", 1, 4);
                let k = self.kw("VIEW");
                let ie = self.if_exists();
                let v = self.comma_list(4, |g| g.qname().0);
                u("DropView", vec![n!("DropView"; drop_span: s.t(), temporary: osp(t), view_span: k.t(), if_exists: osp(ie),
                    views: list(v))])
            }
            3 => {
                let kw = if self.p(1, 2) { "SCHEMA" } else { "DATABASE" };
                let k = self.kw(kw);
                let ie = self.if_exists();
                let (i, _) = self.ident();
                u("DropDatabase", vec![n!("DropDatabase"; drop_span: s.t(), database_span: k.t(), if_exists: osp(ie), database: i)])
            }
            4 => {
                let k = self.kw("SERVER");
                let ie = self.if_exists();
                let (i, _) = self.ident();
                u("DropServer", vec![n!("DropServer"; drop_span: s.t(), server_span: k.t(), if_exists: osp(ie), server: i)])
            }
            5 => {
                let k = self.kw("INDEX");
                let ie = self.if_exists();
                let (i, _) = self.ident();
                let on = !self.pg() && (self.maria() || self.p(1, 2));
                let on = if on {
                    let s = self.kw("ON");
                    let (t, _) = self.qname();
                    some(tup(vec![s.t(), t]))
                } else {
                    none()
                };
                u("DropIndex", vec![n!("DropIndex"; drop_span: s.t(), index_span: k.t(), if_exists: osp(ie), index_name: i, on: on)])
            }
            x => {
                let (kw, nm, f1, f2) = match (x, self.c(4)) {
                    (_, 0) => ("EVENT", "DropEvent", "event_span", "event"),
                    (_, 1) => ("FUNCTION", "DropFunction", "function_span", "function"),
                    (_, 2) => ("PROCEDURE", "DropProcedure", "procedure_span", "procedure"),
                    _ => ("TRIGGER", "DropTrigger", "trigger_span", "identifier"),
                };
                let k = self.kw(kw);
                let ie = self.if_exists();
                let (t, _) = self.qname();
                u(
                    nm,
                    vec![T::N(
                        nm.into(),
                        vec![
                            ("drop_span".into(), s.t()),
                            (f1.into(), k.t()),
                            ("if_exists".into(), osp(ie)),
                            (f2.into(), t),
                        ],
                    )],
                )
            }
        }
    }
    pub fn rename(&mut self) -> T {
        self.f("rename");
        let s = self.kw("RENAME");
        let t = self.opt_kws("TABLE", 4, 5);
        let v = self.comma_list(4, |g| {
            let (x, _) = g.qname();
            let to = g.kw("TO");
            let (y, _) = g.qname();
            n!("TableToTable"; table: x, to_span: to.t(), new_table: y)
        });
        u("RenameTable", vec![n!("RenameTable"; rename_span: s.t(), table_span: osp(t), table_to_tables: list(v))])
    }
    pub fn truncate(&mut self) -> T {
        self.f("truncate");
        let s = self.kw("TRUNCATE");
        let t = self.opt_kws("TABLE", 4, 5);
        let (x, _) = self.qname();
        u("TruncateTable", vec![n!("TruncateTable"; truncate_span: s.t(), table_span: osp(t), table_name: x)])
    }
}
