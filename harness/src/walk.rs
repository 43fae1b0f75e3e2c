//! Visits every node of a syntax tree and compares the span it reports with the
//! extent of the spans recorded in it.  Written by tools/gen_walk.py.

use crate::tree::{of, T};
use sql_parse as sp;
use std::fmt::Debug;

pub struct Found {
    pub name: &'static str,
    pub dbg: String,
    pub span: Option<(usize, usize)>,
    pub hull: Option<(usize, usize)>,
}
#[derive(Default)]
pub struct Cx {
    pub nodes: usize,
    pub bad: Vec<Found>,
}
impl Cx {
    fn node<D: Debug>(&mut self, name: &'static str, d: &D, span: Option<sp::Span>) {
        self.nodes += 1;
        let t: T = of(d);
        let hull = t.hull().map(|s| (s.0, s.1));
        let span = span.map(|s| (s.start, s.end));
        if hull != span {
            self.bad.push(Found { name, dbg: t.show(), span, hull });
        }
    }
}
pub trait W {
    fn w(&self, c: &mut Cx);
}
macro_rules! leaf { ($($t:ty),*) => { $(impl W for $t { fn w(&self, _: &mut Cx) {} })* } }
leaf!(sp::Span, usize, i64, u32, u64, f64, bool, &str, String, std::borrow::Cow<'_, str>);
impl<X: W> W for Option<X> {
    fn w(&self, c: &mut Cx) {
        if let Some(x) = self { x.w(c) }
    }
}
impl<X: W> W for Vec<X> {
    fn w(&self, c: &mut Cx) {
        for x in self { x.w(c) }
    }
}
impl<X: W> W for Box<X> {
    fn w(&self, c: &mut Cx) {
        (**self).w(c)
    }
}
impl<X: W, Y: W> W for (X, Y) {
    fn w(&self, c: &mut Cx) {
        self.0.w(c);
        self.1.w(c);
    }
}
impl<X: W, Y: W, Z: W> W for (X, Y, Z) {
    fn w(&self, c: &mut Cx) {
        self.0.w(c);
        self.1.w(c);
        self.2.w(c);
    }
}
impl<X: W, Y: W, Z: W, V: W> W for (X, Y, Z, V) {
    fn w(&self, c: &mut Cx) {
        self.0.w(c);
        self.1.w(c);
        self.2.w(c);
        self.3.w(c);
    }
}

impl W for sp::IndexOption<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("IndexOption", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::IndexOption::IndexTypeBTree(x0) => { W::w(x0, c); }
            sp::IndexOption::IndexTypeHash(x0) => { W::w(x0, c); }
            sp::IndexOption::IndexTypeRTree(x0) => { W::w(x0, c); }
            sp::IndexOption::Comment(x0) => { W::w(x0, c); }
            _ => {}
        }
    }
}

impl W for sp::IndexType {
    fn w(&self, c: &mut Cx) {
        c.node("IndexType", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::IndexType::Index(x0) => { W::w(x0, c); }
            sp::IndexType::Primary(x0) => { W::w(x0, c); }
            sp::IndexType::Unique(x0) => { W::w(x0, c); }
            sp::IndexType::FullText(x0) => { W::w(x0, c); }
            sp::IndexType::Spatial(x0) => { W::w(x0, c); }
            _ => {}
        }
    }
}

impl W for sp::ForeignKeyOnType {
    fn w(&self, c: &mut Cx) {
        c.node("ForeignKeyOnType", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::ForeignKeyOnType::Update(x0) => { W::w(x0, c); }
            sp::ForeignKeyOnType::Delete(x0) => { W::w(x0, c); }
            _ => {}
        }
    }
}

impl W for sp::ForeignKeyOnAction {
    fn w(&self, c: &mut Cx) {
        c.node("ForeignKeyOnAction", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::ForeignKeyOnAction::Restrict(x0) => { W::w(x0, c); }
            sp::ForeignKeyOnAction::Cascade(x0) => { W::w(x0, c); }
            sp::ForeignKeyOnAction::SetNull(x0) => { W::w(x0, c); }
            sp::ForeignKeyOnAction::NoAction(x0) => { W::w(x0, c); }
            sp::ForeignKeyOnAction::SetDefault(x0) => { W::w(x0, c); }
            _ => {}
        }
    }
}

impl W for sp::ForeignKeyOn {
    fn w(&self, c: &mut Cx) {
        c.node("ForeignKeyOn", self, Some(sp::Spanned::span(self)));
        W::w((&self.type_), c);
        W::w((&self.action), c);
    }
}

impl W for sp::IndexCol<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("IndexCol", self, Some(sp::Spanned::span(self)));
        W::w((&self.name), c);
        W::w((&self.size), c);
    }
}

impl W for sp::AlterColumnAction<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("AlterColumnAction", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::AlterColumnAction::SetDefault { set_default_span, value, .. } => { W::w(set_default_span, c); W::w(value, c); }
            sp::AlterColumnAction::DropDefault { drop_default_span, .. } => { W::w(drop_default_span, c); }
            sp::AlterColumnAction::Type { type_span, type_, .. } => { W::w(type_span, c); W::w(type_, c); }
            sp::AlterColumnAction::SetNotNull { set_not_null_span, .. } => { W::w(set_not_null_span, c); }
            sp::AlterColumnAction::DropNotNull { drop_not_null_span, .. } => { W::w(drop_not_null_span, c); }
            _ => {}
        }
    }
}

impl W for sp::AlterSpecification<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("AlterSpecification", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::AlterSpecification::AddColumn { add_span, if_not_exists_span, identifier, data_type, .. } => { W::w(add_span, c); W::w(if_not_exists_span, c); W::w(identifier, c); W::w(data_type, c); }
            sp::AlterSpecification::AddIndex { add_span, index_type, if_not_exists, name, constraint, cols, index_options, .. } => { W::w(add_span, c); W::w(index_type, c); W::w(if_not_exists, c); W::w(name, c); W::w(constraint, c); W::w(cols, c); W::w(index_options, c); }
            sp::AlterSpecification::AddForeignKey { add_span, constraint, foreign_key_span, if_not_exists, name, cols, references_span, references_table, references_cols, ons, .. } => { W::w(add_span, c); W::w(constraint, c); W::w(foreign_key_span, c); W::w(if_not_exists, c); W::w(name, c); W::w(cols, c); W::w(references_span, c); W::w(references_table, c); W::w(references_cols, c); W::w(ons, c); }
            sp::AlterSpecification::Modify { modify_span, if_exists, col, definition, .. } => { W::w(modify_span, c); W::w(if_exists, c); W::w(col, c); W::w(definition, c); }
            sp::AlterSpecification::DropColumn { drop_column_span, column, cascade, .. } => { W::w(drop_column_span, c); W::w(column, c); W::w(cascade, c); }
            sp::AlterSpecification::AlterColumn { alter_column_span, column, alter_column_action, .. } => { W::w(alter_column_span, c); W::w(column, c); W::w(alter_column_action, c); }
            sp::AlterSpecification::OwnerTo { span, owner, .. } => { W::w(span, c); W::w(owner, c); }
            _ => {}
        }
    }
}

impl W for sp::AlterTable<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("AlterTable", self, Some(sp::Spanned::span(self)));
        W::w((&self.alter_span), c);
        W::w((&self.online), c);
        W::w((&self.ignore), c);
        W::w((&self.table_span), c);
        W::w((&self.if_exists), c);
        W::w((&self.table), c);
        W::w((&self.alter_specifications), c);
    }
}

impl W for sp::TableOption<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("TableOption", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::TableOption::AutoExtendSize { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::AutoIncrement { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::AvgRowLength { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::CharSet { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::DefaultCharSet { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::Checksum { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::Collate { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::DefaultCollate { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::Comment { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::Compression { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::Connection { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::DataDirectory { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::IndexDirectory { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::DelayKeyWrite { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::Encryption { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::Engine { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::EngineAttribute { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::InsertMethod { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::KeyBlockSize { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::MaxRows { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::MinRows { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::Password { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::RowFormat { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::SecondaryEngineAttribute { identifier, value, .. } => { W::w(identifier, c); W::w(value, c); }
            sp::TableOption::Strict { identifier, .. } => { W::w(identifier, c); }
            _ => {}
        }
    }
}

impl W for sp::CreateDefinition<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("CreateDefinition", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::CreateDefinition::ColumnDefinition { identifier, data_type, .. } => { W::w(identifier, c); W::w(data_type, c); }
            sp::CreateDefinition::ConstraintDefinition { span, identifier, .. } => { W::w(span, c); W::w(identifier, c); }
            _ => {}
        }
    }
}

impl W for sp::CreateAlgorithm {
    fn w(&self, c: &mut Cx) {
        c.node("CreateAlgorithm", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::CreateAlgorithm::Undefined(x0) => { W::w(x0, c); }
            sp::CreateAlgorithm::Merge(x0) => { W::w(x0, c); }
            sp::CreateAlgorithm::TempTable(x0) => { W::w(x0, c); }
            _ => {}
        }
    }
}

impl W for sp::CreateOption<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("CreateOption", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::CreateOption::OrReplace(x0) => { W::w(x0, c); }
            sp::CreateOption::Temporary(x0) => { W::w(x0, c); }
            sp::CreateOption::Unique(x0) => { W::w(x0, c); }
            sp::CreateOption::Algorithm(x0, x1) => { W::w(x0, c); W::w(x1, c); }
            sp::CreateOption::Definer { definer_span, user, host, .. } => { W::w(definer_span, c); W::w(user, c); W::w(host, c); }
            sp::CreateOption::SqlSecurityDefiner(x0, x1) => { W::w(x0, c); W::w(x1, c); }
            sp::CreateOption::SqlSecurityUser(x0, x1) => { W::w(x0, c); W::w(x1, c); }
            _ => {}
        }
    }
}

impl W for sp::CreateTable<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("CreateTable", self, Some(sp::Spanned::span(self)));
        W::w((&self.create_span), c);
        W::w((&self.create_options), c);
        W::w((&self.table_span), c);
        W::w((&self.identifier), c);
        W::w((&self.if_not_exists), c);
        W::w((&self.create_definitions), c);
        W::w((&self.options), c);
    }
}

impl W for sp::CreateView<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("CreateView", self, Some(sp::Spanned::span(self)));
        W::w((&self.create_span), c);
        W::w((&self.create_options), c);
        W::w((&self.view_span), c);
        W::w((&self.if_not_exists), c);
        W::w((&self.name), c);
        W::w((&self.as_span), c);
        W::w((&self.select), c);
    }
}

impl W for sp::CreateFunction<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("CreateFunction", self, Some(sp::Spanned::span(self)));
        W::w((&self.create_span), c);
        W::w((&self.create_options), c);
        W::w((&self.function_span), c);
        W::w((&self.if_not_exists), c);
        W::w((&self.name), c);
        for v1 in (&self.params).iter() { { let (v2_0, v2_1, v2_2) = v1; if let Some(v3) = v2_0 { c.node("FunctionParamDirection", v3, Some(sp::Spanned::span(v3))); } W::w(v2_1, c); W::w(v2_2, c); } }
        W::w((&self.returns_span), c);
        W::w((&self.return_type), c);
        for v5 in (&self.characteristics).iter() { c.node("FunctionCharacteristic", v5, Some(sp::Spanned::span(v5))); }
        W::w((&self.return_), c);
    }
}

impl W for sp::CreateTrigger<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("CreateTrigger", self, Some(sp::Spanned::span(self)));
        W::w((&self.create_span), c);
        W::w((&self.create_options), c);
        W::w((&self.trigger_span), c);
        W::w((&self.if_not_exists), c);
        W::w((&self.name), c);
        c.node("TriggerTime", (&self.trigger_time), Some(sp::Spanned::span((&self.trigger_time))));
        c.node("TriggerEvent", (&self.trigger_event), Some(sp::Spanned::span((&self.trigger_event))));
        W::w((&self.on_span), c);
        W::w((&self.table), c);
        W::w((&self.for_each_row_span), c);
        W::w((&self.statement), c);
    }
}

impl W for sp::DataTypeProperty<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("DataTypeProperty", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::DataTypeProperty::Signed(x0) => { W::w(x0, c); }
            sp::DataTypeProperty::Unsigned(x0) => { W::w(x0, c); }
            sp::DataTypeProperty::Zerofill(x0) => { W::w(x0, c); }
            sp::DataTypeProperty::Null(x0) => { W::w(x0, c); }
            sp::DataTypeProperty::NotNull(x0) => { W::w(x0, c); }
            sp::DataTypeProperty::Default(x0) => { W::w(x0, c); }
            sp::DataTypeProperty::Comment(x0) => { W::w(x0, c); }
            sp::DataTypeProperty::Charset(x0) => { W::w(x0, c); }
            sp::DataTypeProperty::Collate(x0) => { W::w(x0, c); }
            sp::DataTypeProperty::Virtual(x0) => { W::w(x0, c); }
            sp::DataTypeProperty::Persistent(x0) => { W::w(x0, c); }
            sp::DataTypeProperty::Stored(x0) => { W::w(x0, c); }
            sp::DataTypeProperty::Unique(x0) => { W::w(x0, c); }
            sp::DataTypeProperty::UniqueKey(x0) => { W::w(x0, c); }
            sp::DataTypeProperty::GeneratedAlways(x0) => { W::w(x0, c); }
            sp::DataTypeProperty::AutoIncrement(x0) => { W::w(x0, c); }
            sp::DataTypeProperty::PrimaryKey(x0) => { W::w(x0, c); }
            sp::DataTypeProperty::As(x0) => { W::w(x0, c); }
            sp::DataTypeProperty::Check(x0) => { W::w(x0, c); }
            _ => {}
        }
    }
}

impl W for sp::Type<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("Type", self, sp::OptSpanned::opt_span(self));
        #[allow(unreachable_patterns)]
        match self {
            sp::Type::TinyInt(x0) => { W::w(x0, c); }
            sp::Type::SmallInt(x0) => { W::w(x0, c); }
            sp::Type::Integer(x0) => { W::w(x0, c); }
            sp::Type::Int(x0) => { W::w(x0, c); }
            sp::Type::BigInt(x0) => { W::w(x0, c); }
            sp::Type::Char(x0) => { W::w(x0, c); }
            sp::Type::VarChar(x0) => { W::w(x0, c); }
            sp::Type::TinyText(x0) => { W::w(x0, c); }
            sp::Type::MediumText(x0) => { W::w(x0, c); }
            sp::Type::Text(x0) => { W::w(x0, c); }
            sp::Type::LongText(x0) => { W::w(x0, c); }
            sp::Type::Enum(x0) => { W::w(x0, c); }
            sp::Type::Set(x0) => { W::w(x0, c); }
            sp::Type::Float(x0) => { W::w(x0, c); }
            sp::Type::Double(x0) => { W::w(x0, c); }
            sp::Type::Numeric(x0, x1, x2) => { W::w(x0, c); W::w(x1, c); W::w(x2, c); }
            sp::Type::DateTime(x0) => { W::w(x0, c); }
            sp::Type::Timestamp(x0) => { c.node("Timestamp", x0, sp::OptSpanned::opt_span(x0)); W::w((&x0.width), c); W::w((&x0.with_time_zone), c); }
            sp::Type::Time(x0) => { W::w(x0, c); }
            sp::Type::TinyBlob(x0) => { W::w(x0, c); }
            sp::Type::MediumBlob(x0) => { W::w(x0, c); }
            sp::Type::Blob(x0) => { W::w(x0, c); }
            sp::Type::LongBlob(x0) => { W::w(x0, c); }
            sp::Type::VarBinary(x0) => { W::w(x0, c); }
            sp::Type::Binary(x0) => { W::w(x0, c); }
            sp::Type::Named(x0) => { W::w(x0, c); }
            sp::Type::Bit(x0, x1) => { W::w(x0, c); W::w(x1, c); }
            _ => {}
        }
    }
}

impl W for sp::DataType<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("DataType", self, Some(sp::Spanned::span(self)));
        W::w((&self.identifier), c);
        W::w((&self.type_), c);
        W::w((&self.properties), c);
    }
}

impl W for sp::DeleteFlag {
    fn w(&self, c: &mut Cx) {
        c.node("DeleteFlag", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::DeleteFlag::LowPriority(x0) => { W::w(x0, c); }
            sp::DeleteFlag::Quick(x0) => { W::w(x0, c); }
            sp::DeleteFlag::Ignore(x0) => { W::w(x0, c); }
            _ => {}
        }
    }
}

impl W for sp::Delete<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("Delete", self, Some(sp::Spanned::span(self)));
        W::w((&self.delete_span), c);
        W::w((&self.flags), c);
        W::w((&self.from_span), c);
        W::w((&self.tables), c);
        W::w((&self.using), c);
        W::w((&self.where_), c);
        W::w((&self.returning), c);
    }
}

impl W for sp::DropTable<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("DropTable", self, Some(sp::Spanned::span(self)));
        W::w((&self.drop_span), c);
        W::w((&self.temporary), c);
        W::w((&self.table_span), c);
        W::w((&self.if_exists), c);
        W::w((&self.tables), c);
        W::w((&self.cascade), c);
    }
}

impl W for sp::DropView<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("DropView", self, Some(sp::Spanned::span(self)));
        W::w((&self.drop_span), c);
        W::w((&self.temporary), c);
        W::w((&self.view_span), c);
        W::w((&self.if_exists), c);
        W::w((&self.views), c);
    }
}

impl W for sp::DropDatabase<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("DropDatabase", self, Some(sp::Spanned::span(self)));
        W::w((&self.drop_span), c);
        W::w((&self.database_span), c);
        W::w((&self.if_exists), c);
        W::w((&self.database), c);
    }
}

impl W for sp::DropEvent<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("DropEvent", self, Some(sp::Spanned::span(self)));
        W::w((&self.drop_span), c);
        W::w((&self.event_span), c);
        W::w((&self.if_exists), c);
        W::w((&self.event), c);
    }
}

impl W for sp::DropFunction<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("DropFunction", self, Some(sp::Spanned::span(self)));
        W::w((&self.drop_span), c);
        W::w((&self.function_span), c);
        W::w((&self.if_exists), c);
        W::w((&self.function), c);
    }
}

impl W for sp::DropProcedure<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("DropProcedure", self, Some(sp::Spanned::span(self)));
        W::w((&self.drop_span), c);
        W::w((&self.procedure_span), c);
        W::w((&self.if_exists), c);
        W::w((&self.procedure), c);
    }
}

impl W for sp::DropServer<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("DropServer", self, Some(sp::Spanned::span(self)));
        W::w((&self.drop_span), c);
        W::w((&self.server_span), c);
        W::w((&self.if_exists), c);
        W::w((&self.server), c);
    }
}

impl W for sp::DropTrigger<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("DropTrigger", self, Some(sp::Spanned::span(self)));
        W::w((&self.drop_span), c);
        W::w((&self.trigger_span), c);
        W::w((&self.if_exists), c);
        W::w((&self.identifier), c);
    }
}

impl W for sp::DropIndex<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("DropIndex", self, Some(sp::Spanned::span(self)));
        W::w((&self.drop_span), c);
        W::w((&self.index_span), c);
        W::w((&self.if_exists), c);
        W::w((&self.index_name), c);
        W::w((&self.on), c);
    }
}

impl W for sp::Function<'_> {
    fn w(&self, c: &mut Cx) {
        
        #[allow(unreachable_patterns)]
        match self {
            sp::Function::Other(x0) => { W::w(x0, c); }
            _ => {}
        }
    }
}

impl W for sp::Variable<'_> {
    fn w(&self, c: &mut Cx) {
        
        #[allow(unreachable_patterns)]
        match self {
            sp::Variable::Other(x0) => { W::w(x0, c); }
            _ => {}
        }
    }
}

impl W for sp::BinaryOperator {
    fn w(&self, c: &mut Cx) {
        
        #[allow(unreachable_patterns)]
        match self {
            _ => {}
        }
    }
}

impl W for sp::Is {
    fn w(&self, c: &mut Cx) {
        
        #[allow(unreachable_patterns)]
        match self {
            _ => {}
        }
    }
}

impl W for sp::UnaryOperator {
    fn w(&self, c: &mut Cx) {
        
        #[allow(unreachable_patterns)]
        match self {
            _ => {}
        }
    }
}

impl W for sp::IdentifierPart<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("IdentifierPart", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::IdentifierPart::Name(x0) => { W::w(x0, c); }
            sp::IdentifierPart::Star(x0) => { W::w(x0, c); }
            _ => {}
        }
    }
}

impl W for sp::When<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("When", self, Some(sp::Spanned::span(self)));
        W::w((&self.when_span), c);
        W::w((&self.when), c);
        W::w((&self.then_span), c);
        W::w((&self.then), c);
    }
}

impl W for sp::TimeUnit {
    fn w(&self, c: &mut Cx) {
        
        #[allow(unreachable_patterns)]
        match self {
            _ => {}
        }
    }
}

impl W for sp::Expression<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("Expression", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::Expression::Binary { op, op_span, lhs, rhs, .. } => { W::w(op, c); W::w(op_span, c); W::w(lhs, c); W::w(rhs, c); }
            sp::Expression::Unary { op, op_span, operand, .. } => { W::w(op, c); W::w(op_span, c); W::w(operand, c); }
            sp::Expression::Subquery(x0) => { W::w(x0, c); }
            sp::Expression::Null(x0) => { W::w(x0, c); }
            sp::Expression::Bool(x0, x1) => { W::w(x0, c); W::w(x1, c); }
            sp::Expression::String(x0) => { W::w(x0, c); }
            sp::Expression::Integer(x0) => { W::w(x0, c); }
            sp::Expression::ListHack(x0) => { W::w(x0, c); }
            sp::Expression::Float(x0) => { W::w(x0, c); }
            sp::Expression::Function(x0, x1, x2) => { W::w(x0, c); W::w(x1, c); W::w(x2, c); }
            sp::Expression::WindowFunction { function, args, function_span, over_span, window_spec, .. } => { W::w(function, c); W::w(args, c); W::w(function_span, c); W::w(over_span, c); c.node("WindowSpec", window_spec, Some(sp::Spanned::span(window_spec))); { let (v11_0, v11_1) = (&window_spec.order_by); W::w(v11_0, c); for v12 in v11_1.iter() { { let (v13_0, v13_1) = v12; W::w(v13_0, c); c.node("OrderFlag", v13_1, sp::OptSpanned::opt_span(v13_1)); } } } }
            sp::Expression::Identifier(x0) => { W::w(x0, c); }
            sp::Expression::Interval { interval_span, time_interval, time_unit, .. } => { W::w(interval_span, c); W::w(time_interval, c); W::w(time_unit, c); }
            sp::Expression::Arg(x0) => { W::w(x0, c); }
            sp::Expression::Exists(x0) => { W::w(x0, c); }
            sp::Expression::Extract { extract_span, time_unit, from_span, date, .. } => { W::w(extract_span, c); W::w(time_unit, c); W::w(from_span, c); W::w(date, c); }
            sp::Expression::In { lhs, rhs, in_span, not_in, .. } => { W::w(lhs, c); W::w(rhs, c); W::w(in_span, c); W::w(not_in, c); }
            sp::Expression::Is(x0, x1, x2) => { W::w(x0, c); W::w(x1, c); W::w(x2, c); }
            sp::Expression::Invalid(x0) => { W::w(x0, c); }
            sp::Expression::Case { case_span, value, whens, else_, end_span, .. } => { W::w(case_span, c); W::w(value, c); W::w(whens, c); W::w(else_, c); W::w(end_span, c); }
            sp::Expression::Cast { cast_span, expr, as_span, type_, .. } => { W::w(cast_span, c); W::w(expr, c); W::w(as_span, c); W::w(type_, c); }
            sp::Expression::Count { count_span, distinct_span, expr, .. } => { W::w(count_span, c); W::w(distinct_span, c); W::w(expr, c); }
            sp::Expression::GroupConcat { group_concat_span, distinct_span, expr, .. } => { W::w(group_concat_span, c); W::w(distinct_span, c); W::w(expr, c); }
            sp::Expression::Variable { global, session, dot, variable, variable_span, .. } => { W::w(global, c); W::w(session, c); W::w(dot, c); W::w(variable, c); W::w(variable_span, c); }
            sp::Expression::TimestampAdd { timestamp_add_span, unit, interval, datetime, .. } => { W::w(timestamp_add_span, c); W::w(unit, c); W::w(interval, c); W::w(datetime, c); }
            sp::Expression::TimestampDiff { timestamp_diff_span, unit, e1, e2, .. } => { W::w(timestamp_diff_span, c); W::w(unit, c); W::w(e1, c); W::w(e2, c); }
            _ => {}
        }
    }
}

impl W for sp::Identifier<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("Identifier", self, Some(sp::Spanned::span(self)));
        W::w((&self.value), c);
        W::w((&self.span), c);
    }
}

impl W for sp::InsertReplaceFlag {
    fn w(&self, c: &mut Cx) {
        c.node("InsertReplaceFlag", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::InsertReplaceFlag::LowPriority(x0) => { W::w(x0, c); }
            sp::InsertReplaceFlag::HighPriority(x0) => { W::w(x0, c); }
            sp::InsertReplaceFlag::Delayed(x0) => { W::w(x0, c); }
            sp::InsertReplaceFlag::Ignore(x0) => { W::w(x0, c); }
            _ => {}
        }
    }
}

impl W for sp::InsertReplaceType {
    fn w(&self, c: &mut Cx) {
        c.node("InsertReplaceType", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::InsertReplaceType::Insert(x0) => { W::w(x0, c); }
            sp::InsertReplaceType::Replace(x0) => { W::w(x0, c); }
            _ => {}
        }
    }
}

impl W for sp::OnConflictTarget<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("OnConflictTarget", self, sp::OptSpanned::opt_span(self));
        #[allow(unreachable_patterns)]
        match self {
            sp::OnConflictTarget::Columns { names, .. } => { W::w(names, c); }
            sp::OnConflictTarget::OnConstraint { on_constraint_span, name, .. } => { W::w(on_constraint_span, c); W::w(name, c); }
            _ => {}
        }
    }
}

impl W for sp::OnConflictAction<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("OnConflictAction", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::OnConflictAction::DoNothing(x0) => { W::w(x0, c); }
            sp::OnConflictAction::DoUpdateSet { do_update_set_span, sets, where_, .. } => { W::w(do_update_set_span, c); W::w(sets, c); W::w(where_, c); }
            _ => {}
        }
    }
}

impl W for sp::OnConflict<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("OnConflict", self, Some(sp::Spanned::span(self)));
        W::w((&self.on_conflict_span), c);
        W::w((&self.target), c);
        W::w((&self.action), c);
    }
}

impl W for sp::InsertReplaceSetPair<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("InsertReplaceSetPair", self, Some(sp::Spanned::span(self)));
        W::w((&self.column), c);
        W::w((&self.equal_span), c);
        W::w((&self.value), c);
    }
}

impl W for sp::InsertReplaceSet<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("InsertReplaceSet", self, Some(sp::Spanned::span(self)));
        W::w((&self.set_span), c);
        W::w((&self.pairs), c);
    }
}

impl W for sp::InsertReplaceOnDuplicateKeyUpdate<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("InsertReplaceOnDuplicateKeyUpdate", self, Some(sp::Spanned::span(self)));
        W::w((&self.on_duplicate_key_update_span), c);
        W::w((&self.pairs), c);
    }
}

impl W for sp::InsertReplace<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("InsertReplace", self, Some(sp::Spanned::span(self)));
        W::w((&self.type_), c);
        W::w((&self.flags), c);
        W::w((&self.into_span), c);
        W::w((&self.table), c);
        W::w((&self.columns), c);
        W::w((&self.values), c);
        W::w((&self.select), c);
        W::w((&self.set), c);
        W::w((&self.on_duplicate_key_update), c);
        W::w((&self.on_conflict), c);
        W::w((&self.returning), c);
    }
}

impl W for sp::QualifiedName<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("QualifiedName", self, Some(sp::Spanned::span(self)));
        W::w((&self.prefix), c);
        W::w((&self.identifier), c);
    }
}

impl W for sp::TableToTable<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("TableToTable", self, Some(sp::Spanned::span(self)));
        W::w((&self.table), c);
        W::w((&self.to_span), c);
        W::w((&self.new_table), c);
    }
}

impl W for sp::RenameTable<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("RenameTable", self, Some(sp::Spanned::span(self)));
        W::w((&self.rename_span), c);
        W::w((&self.table_span), c);
        W::w((&self.table_to_tables), c);
    }
}

impl W for sp::SelectExpr<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("SelectExpr", self, Some(sp::Spanned::span(self)));
        W::w((&self.expr), c);
        W::w((&self.as_), c);
    }
}

impl W for sp::JoinSpecification<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("JoinSpecification", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::JoinSpecification::On(x0, x1) => { W::w(x0, c); W::w(x1, c); }
            sp::JoinSpecification::Using(x0, x1) => { W::w(x0, c); W::w(x1, c); }
            _ => {}
        }
    }
}

impl W for sp::JoinType {
    fn w(&self, c: &mut Cx) {
        c.node("JoinType", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::JoinType::Inner(x0) => { W::w(x0, c); }
            sp::JoinType::Cross(x0) => { W::w(x0, c); }
            sp::JoinType::Normal(x0) => { W::w(x0, c); }
            sp::JoinType::Straight(x0) => { W::w(x0, c); }
            sp::JoinType::Left(x0) => { W::w(x0, c); }
            sp::JoinType::Right(x0) => { W::w(x0, c); }
            sp::JoinType::Natural(x0) => { W::w(x0, c); }
            sp::JoinType::NaturalInner(x0) => { W::w(x0, c); }
            sp::JoinType::NaturalLeft(x0) => { W::w(x0, c); }
            sp::JoinType::NaturalRight(x0) => { W::w(x0, c); }
            _ => {}
        }
    }
}

impl W for sp::IndexHintUse {
    fn w(&self, c: &mut Cx) {
        c.node("IndexHintUse", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::IndexHintUse::Use(x0) => { W::w(x0, c); }
            sp::IndexHintUse::Ignore(x0) => { W::w(x0, c); }
            sp::IndexHintUse::Force(x0) => { W::w(x0, c); }
            _ => {}
        }
    }
}

impl W for sp::IndexHintType {
    fn w(&self, c: &mut Cx) {
        c.node("IndexHintType", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::IndexHintType::Index(x0) => { W::w(x0, c); }
            sp::IndexHintType::Key(x0) => { W::w(x0, c); }
            _ => {}
        }
    }
}

impl W for sp::IndexHintFor {
    fn w(&self, c: &mut Cx) {
        c.node("IndexHintFor", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::IndexHintFor::Join(x0) => { W::w(x0, c); }
            sp::IndexHintFor::OrderBy(x0) => { W::w(x0, c); }
            sp::IndexHintFor::GroupBy(x0) => { W::w(x0, c); }
            _ => {}
        }
    }
}

impl W for sp::IndexHint<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("IndexHint", self, Some(sp::Spanned::span(self)));
        W::w((&self.use_), c);
        W::w((&self.type_), c);
        W::w((&self.for_), c);
        W::w((&self.lparen), c);
        W::w((&self.index_list), c);
        W::w((&self.rparen), c);
    }
}

impl W for sp::TableReference<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("TableReference", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::TableReference::Table { identifier, as_span, as_, index_hints, .. } => { W::w(identifier, c); W::w(as_span, c); W::w(as_, c); W::w(index_hints, c); }
            sp::TableReference::Query { query, as_span, as_, .. } => { W::w(query, c); W::w(as_span, c); W::w(as_, c); }
            sp::TableReference::Join { join, left, right, specification, .. } => { W::w(join, c); W::w(left, c); W::w(right, c); W::w(specification, c); }
            _ => {}
        }
    }
}

impl W for sp::SelectFlag {
    fn w(&self, c: &mut Cx) {
        c.node("SelectFlag", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::SelectFlag::All(x0) => { W::w(x0, c); }
            sp::SelectFlag::Distinct(x0) => { W::w(x0, c); }
            sp::SelectFlag::DistinctRow(x0) => { W::w(x0, c); }
            sp::SelectFlag::HighPriority(x0) => { W::w(x0, c); }
            sp::SelectFlag::StraightJoin(x0) => { W::w(x0, c); }
            sp::SelectFlag::SqlSmallResult(x0) => { W::w(x0, c); }
            sp::SelectFlag::SqlBigResult(x0) => { W::w(x0, c); }
            sp::SelectFlag::SqlBufferResult(x0) => { W::w(x0, c); }
            sp::SelectFlag::SqlNoCache(x0) => { W::w(x0, c); }
            sp::SelectFlag::SqlCalcFoundRows(x0) => { W::w(x0, c); }
            _ => {}
        }
    }
}

impl W for sp::Select<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("Select", self, Some(sp::Spanned::span(self)));
        W::w((&self.select_span), c);
        W::w((&self.flags), c);
        W::w((&self.select_exprs), c);
        W::w((&self.from_span), c);
        W::w((&self.table_references), c);
        W::w((&self.where_), c);
        W::w((&self.group_by), c);
        W::w((&self.having), c);
        W::w((&self.window_span), c);
        if let Some(v15) = (&self.order_by) { { let (v16_0, v16_1) = v15; W::w(v16_0, c); for v17 in v16_1.iter() { { let (v18_0, v18_1) = v17; W::w(v18_0, c); c.node("OrderFlag", v18_1, sp::OptSpanned::opt_span(v18_1)); } } } }
        W::w((&self.limit), c);
        if let Some(v20) = (&self.locking) { c.node("Locking", v20, Some(sp::Spanned::span(v20))); W::w((&v20.for_span), c); c.node("LockStrength", (&v20.strength), Some(sp::Spanned::span((&v20.strength)))); W::w((&v20.of), c); c.node("LockWait", (&v20.wait), sp::OptSpanned::opt_span((&v20.wait))); }
    }
}

impl W for sp::SString<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("SString", self, Some(sp::Spanned::span(self)));
        W::w((&self.value), c);
        W::w((&self.span), c);
    }
}

impl W for sp::Statement<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("Statement", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::Statement::CreateIndex(x0) => { c.node("CreateIndex", x0, Some(sp::Spanned::span(x0))); W::w((&x0.create_span), c); W::w((&x0.create_options), c); W::w((&x0.index_span), c); W::w((&x0.index_name), c); W::w((&x0.if_not_exists), c); W::w((&x0.on_span), c); W::w((&x0.table_name), c); for v25 in (&x0.index_options).iter() { c.node("CreateIndexOption", v25, Some(sp::Spanned::span(v25))); } W::w((&x0.l_paren_span), c); W::w((&x0.column_names), c); W::w((&x0.r_paren_span), c); W::w((&x0.where_), c); }
            sp::Statement::CreateTable(x0) => { W::w(x0, c); }
            sp::Statement::CreateView(x0) => { W::w(x0, c); }
            sp::Statement::CreateTrigger(x0) => { W::w(x0, c); }
            sp::Statement::CreateFunction(x0) => { W::w(x0, c); }
            sp::Statement::Select(x0) => { W::w(x0, c); }
            sp::Statement::Delete(x0) => { W::w(x0, c); }
            sp::Statement::InsertReplace(x0) => { W::w(x0, c); }
            sp::Statement::Update(x0) => { W::w(x0, c); }
            sp::Statement::DropIndex(x0) => { W::w(x0, c); }
            sp::Statement::DropTable(x0) => { W::w(x0, c); }
            sp::Statement::DropFunction(x0) => { W::w(x0, c); }
            sp::Statement::DropProcedure(x0) => { W::w(x0, c); }
            sp::Statement::DropEvent(x0) => { W::w(x0, c); }
            sp::Statement::DropDatabase(x0) => { W::w(x0, c); }
            sp::Statement::DropServer(x0) => { W::w(x0, c); }
            sp::Statement::DropTrigger(x0) => { W::w(x0, c); }
            sp::Statement::DropView(x0) => { W::w(x0, c); }
            sp::Statement::Set(x0) => { c.node("Set", x0, Some(sp::Spanned::span(x0))); W::w((&x0.set_span), c); W::w((&x0.values), c); }
            sp::Statement::Signal(x0) => { c.node("Signal", x0, Some(sp::Spanned::span(x0))); W::w((&x0.signal_span), c); W::w((&x0.sqlstate_span), c); W::w((&x0.value_span), c); W::w((&x0.sql_state), c); W::w((&x0.set_span), c); for v29 in (&x0.sets).iter() { { let (v30_0, v30_1, v30_2) = v29; c.node("SignalConditionInformationName", v30_0, Some(sp::Spanned::span(v30_0))); W::w(v30_1, c); W::w(v30_2, c); } } }
            sp::Statement::AlterTable(x0) => { W::w(x0, c); }
            sp::Statement::Block(x0, x1) => { W::w(x0, c); W::w(x1, c); }
            sp::Statement::Begin(x0) => { W::w(x0, c); }
            sp::Statement::End(x0) => { W::w(x0, c); }
            sp::Statement::Commit(x0) => { W::w(x0, c); }
            sp::Statement::StartTransaction(x0) => { W::w(x0, c); }
            sp::Statement::If(x0) => { c.node("If", x0, Some(sp::Spanned::span(x0))); W::w((&x0.if_span), c); for v33 in (&x0.conditions).iter() { c.node("IfCondition", v33, Some(sp::Spanned::span(v33))); W::w((&v33.elseif_span), c); W::w((&v33.search_condition), c); W::w((&v33.then_span), c); W::w((&v33.then), c); } W::w((&x0.else_), c); W::w((&x0.endif_span), c); }
            sp::Statement::Invalid(x0) => { W::w(x0, c); }
            sp::Statement::Union(x0) => { W::w(x0, c); }
            sp::Statement::Case(x0) => { c.node("CaseStatement", x0, Some(sp::Spanned::span(x0))); W::w((&x0.case_span), c); W::w((&x0.value), c); for v36 in (&x0.whens).iter() { c.node("WhenStatement", v36, Some(sp::Spanned::span(v36))); W::w((&v36.when_span), c); W::w((&v36.when), c); W::w((&v36.then_span), c); W::w((&v36.then), c); } W::w((&x0.else_), c); W::w((&x0.end_span), c); }
            sp::Statement::Copy(x0) => { c.node("Copy", x0, Some(sp::Spanned::span(x0))); W::w((&x0.copy_span), c); W::w((&x0.table), c); W::w((&x0.columns), c); W::w((&x0.from_span), c); W::w((&x0.stdin_span), c); }
            sp::Statement::Stdin(x0, x1) => { W::w(x0, c); W::w(x1, c); }
            sp::Statement::CreateTypeEnum(x0) => { c.node("CreateTypeEnum", x0, Some(sp::Spanned::span(x0))); W::w((&x0.create_span), c); W::w((&x0.create_options), c); W::w((&x0.type_span), c); W::w((&x0.name), c); W::w((&x0.as_enum_span), c); W::w((&x0.values), c); }
            sp::Statement::Do(x0, x1) => { W::w(x0, c); W::w(x1, c); }
            sp::Statement::TruncateTable(x0) => { W::w(x0, c); }
            sp::Statement::RenameTable(x0) => { W::w(x0, c); }
            sp::Statement::WithQuery(x0) => { W::w(x0, c); }
            sp::Statement::Return(x0) => { c.node("Return", x0, Some(sp::Spanned::span(x0))); W::w((&x0.return_span), c); W::w((&x0.expr), c); }
            _ => {}
        }
    }
}

impl W for sp::UnionType {
    fn w(&self, c: &mut Cx) {
        c.node("UnionType", self, sp::OptSpanned::opt_span(self));
        #[allow(unreachable_patterns)]
        match self {
            sp::UnionType::All(x0) => { W::w(x0, c); }
            sp::UnionType::Distinct(x0) => { W::w(x0, c); }
            _ => {}
        }
    }
}

impl W for sp::UnionWith<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("UnionWith", self, Some(sp::Spanned::span(self)));
        W::w((&self.union_span), c);
        W::w((&self.union_type), c);
        W::w((&self.union_statement), c);
    }
}

impl W for sp::Union<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("Union", self, Some(sp::Spanned::span(self)));
        W::w((&self.left), c);
        W::w((&self.with), c);
        if let Some(v41) = (&self.order_by) { { let (v42_0, v42_1) = v41; W::w(v42_0, c); for v43 in v42_1.iter() { { let (v44_0, v44_1) = v43; W::w(v44_0, c); c.node("OrderFlag", v44_1, sp::OptSpanned::opt_span(v44_1)); } } } }
        W::w((&self.limit), c);
    }
}

impl W for sp::TruncateTable<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("TruncateTable", self, Some(sp::Spanned::span(self)));
        W::w((&self.truncate_span), c);
        W::w((&self.table_span), c);
        W::w((&self.table_name), c);
    }
}

impl W for sp::UpdateFlag {
    fn w(&self, c: &mut Cx) {
        c.node("UpdateFlag", self, Some(sp::Spanned::span(self)));
        #[allow(unreachable_patterns)]
        match self {
            sp::UpdateFlag::LowPriority(x0) => { W::w(x0, c); }
            sp::UpdateFlag::Ignore(x0) => { W::w(x0, c); }
            _ => {}
        }
    }
}

impl W for sp::Update<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("Update", self, Some(sp::Spanned::span(self)));
        W::w((&self.update_span), c);
        W::w((&self.flags), c);
        W::w((&self.tables), c);
        W::w((&self.set_span), c);
        W::w((&self.set), c);
        W::w((&self.where_), c);
        W::w((&self.returning), c);
    }
}

impl W for sp::WithBlock<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("WithBlock", self, Some(sp::Spanned::span(self)));
        W::w((&self.identifier), c);
        W::w((&self.as_span), c);
        W::w((&self.lparen_span), c);
        W::w((&self.statement), c);
        W::w((&self.rparen_span), c);
    }
}

impl W for sp::WithQuery<'_> {
    fn w(&self, c: &mut Cx) {
        c.node("WithQuery", self, Some(sp::Spanned::span(self)));
        W::w((&self.with_span), c);
        W::w((&self.with_blocks), c);
        W::w((&self.statement), c);
    }
}

