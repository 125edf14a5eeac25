//! Visits every tree node that can be asked for its span and compares the
//! answer with the hull of all positions recorded inside the node (taken from
//! the node's `{:?}` text).
use crate::dbg::hull;
use sql_parse::*;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
pub struct Visitor {
    pub bad: Vec<String>,
    pub count: usize,
}

impl Visitor {
    fn check(&mut self, name: &str, dbg: String, got: Result<Option<Span>, ()>) {
        self.count += 1;
        let want = hull(&dbg);
        match got {
            Err(()) => self.bad.push(format!("{} panics; hull {:?}", name, want)),
            Ok(g) => {
                let g = g.map(|g| (g.start, g.end));
                if g != want {
                    self.bad.push(format!("{} says {:?}; hull {:?}", name, g, want))
                }
            }
        }
    }
    /// node with a span
    fn n<T: Spanned + Debug>(&mut self, name: &str, v: &T) {
        let g = catch_unwind(AssertUnwindSafe(|| Some(v.span()))).map_err(|_| ());
        self.check(name, format!("{:?}", v), g)
    }
    /// node with an optional span
    fn o<T: OptSpanned + Debug>(&mut self, name: &str, v: &T) {
        let g = catch_unwind(AssertUnwindSafe(|| v.opt_span())).map_err(|_| ());
        self.check(name, format!("{:?}", v), g)
    }
    fn ids(&mut self, v: &[Identifier]) {
        for i in v {
            self.n("Identifier", i)
        }
    }
    fn qn(&mut self, v: &QualifiedName) {
        self.n("QualifiedName", v);
        for (i, _) in &v.prefix {
            self.n("Identifier", i)
        }
        self.n("Identifier", &v.identifier);
    }
    fn exprs(&mut self, v: &[Expression]) {
        for e in v {
            self.expr(e)
        }
    }
    pub fn expr(&mut self, e: &Expression) {
        self.n("Expression", e);
        match e {
            Expression::Binary { lhs, rhs, .. } => {
                self.expr(lhs);
                self.expr(rhs)
            }
            Expression::Unary { operand, .. } => self.expr(operand),
            Expression::Subquery(s) | Expression::Exists(s) => self.statement(s),
            Expression::String(s) => self.n("SString", s),
            Expression::Function(_, args, _) => self.exprs(args),
            Expression::WindowFunction {
                args, window_spec, ..
            } => {
                self.exprs(args);
                self.n("WindowSpec", window_spec);
                self.order(&window_spec.order_by.1)
            }
            Expression::Identifier(p) => {
                for q in p {
                    self.n("IdentifierPart", q);
                    if let IdentifierPart::Name(i) = q {
                        self.n("Identifier", i)
                    }
                }
            }
            Expression::Extract { date, .. } => self.expr(date),
            Expression::In { lhs, rhs, .. } => {
                self.expr(lhs);
                self.exprs(rhs)
            }
            Expression::Is(e, _, _) => self.expr(e),
            Expression::Case {
                value,
                whens,
                else_,
                ..
            } => {
                if let Some(v) = value {
                    self.expr(v)
                }
                for w in whens {
                    self.n("When", w);
                    self.expr(&w.when);
                    self.expr(&w.then);
                }
                if let Some((_, e)) = else_ {
                    self.expr(e)
                }
            }
            Expression::Cast { expr, type_, .. } => {
                self.expr(expr);
                self.dtype(type_)
            }
            Expression::Count { expr, .. } | Expression::GroupConcat { expr, .. } => {
                self.expr(expr)
            }
            Expression::TimestampAdd {
                interval, datetime, ..
            } => {
                self.expr(interval);
                self.expr(datetime)
            }
            Expression::TimestampDiff { e1, e2, .. } => {
                self.expr(e1);
                self.expr(e2)
            }
            _ => (),
        }
    }
    fn dtype(&mut self, d: &DataType) {
        self.n("DataType", d);
        self.o("Type", &d.type_);
        match &d.type_ {
            Type::Enum(v) | Type::Set(v) => {
                for s in v {
                    self.n("SString", s)
                }
            }
            Type::Timestamp(t) => self.o("Timestamp", t),
            _ => (),
        }
        for p in &d.properties {
            self.n("DataTypeProperty", p);
            match p {
                DataTypeProperty::Default(e) => self.expr(e),
                DataTypeProperty::As((_, e)) | DataTypeProperty::Check((_, e)) => self.expr(e),
                DataTypeProperty::Comment(s) => self.n("SString", s),
                DataTypeProperty::Charset(i) | DataTypeProperty::Collate(i) => {
                    self.n("Identifier", i)
                }
                _ => (),
            }
        }
    }
    fn selexprs(&mut self, v: &[SelectExpr]) {
        for s in v {
            self.n("SelectExpr", s);
            self.expr(&s.expr);
            if let Some(a) = &s.as_ {
                self.n("Identifier", a)
            }
        }
    }
    fn returning(&mut self, v: &Option<(Span, Vec<SelectExpr>)>) {
        if let Some((_, v)) = v {
            self.selexprs(v)
        }
    }
    fn order<O: OptSpanned + Debug>(&mut self, v: &[(Expression, O)]) {
        for (e, f) in v {
            self.expr(e);
            self.o("OrderFlag", f);
        }
    }
    fn limit(&mut self, v: &Option<(Span, Option<Expression>, Expression)>) {
        if let Some((_, a, b)) = v {
            if let Some(a) = a {
                self.expr(a)
            }
            self.expr(b)
        }
    }
    fn tref(&mut self, t: &TableReference) {
        self.n("TableReference", t);
        match t {
            TableReference::Table {
                identifier,
                as_,
                index_hints,
                ..
            } => {
                self.qn(identifier);
                if let Some(a) = as_ {
                    self.n("Identifier", a)
                }
                for h in index_hints {
                    self.n("IndexHint", h);
                    self.n("IndexHintUse", &h.use_);
                    self.n("IndexHintType", &h.type_);
                    if let Some((_, f)) = &h.for_ {
                        self.n("IndexHintFor", f)
                    }
                    self.ids(&h.index_list)
                }
            }
            TableReference::Query { query, as_, .. } => {
                self.statement(query);
                if let Some(a) = as_ {
                    self.n("Identifier", a)
                }
            }
            TableReference::Join {
                join,
                left,
                right,
                specification,
            } => {
                self.n("JoinType", join);
                self.tref(left);
                self.tref(right);
                if let Some(s) = specification {
                    self.n("JoinSpecification", s);
                    match s {
                        JoinSpecification::On(e, _) => self.expr(e),
                        JoinSpecification::Using(i, _) => self.ids(i),
                    }
                }
            }
        }
    }
    fn select(&mut self, s: &Select) {
        self.n("Select", s);
        for f in &s.flags {
            self.n("SelectFlag", f)
        }
        self.selexprs(&s.select_exprs);
        for t in s.table_references.iter().flatten() {
            self.tref(t)
        }
        if let Some((e, _)) = &s.where_ {
            self.expr(e)
        }
        if let Some((_, e)) = &s.group_by {
            self.exprs(e)
        }
        if let Some((e, _)) = &s.having {
            self.expr(e)
        }
        if let Some((_, o)) = &s.order_by {
            self.order(o)
        }
        self.limit(&s.limit);
        if let Some(l) = &s.locking {
            self.n("Locking", l);
            self.n("LockStrength", &l.strength);
            if let Some((_, i)) = &l.of {
                self.ids(i)
            }
            self.o("LockWait", &l.wait);
        }
    }
    fn pairs(&mut self, v: &[InsertReplaceSetPair]) {
        for p in v {
            self.n("InsertReplaceSetPair", p);
            self.n("Identifier", &p.column);
            self.expr(&p.value)
        }
    }
    fn insert(&mut self, s: &InsertReplace) {
        self.n("InsertReplace", s);
        self.n("InsertReplaceType", &s.type_);
        for f in &s.flags {
            self.n("InsertReplaceFlag", f)
        }
        self.qn(&s.table);
        self.ids(&s.columns);
        if let Some((_, v)) = &s.values {
            for e in v {
                self.exprs(e)
            }
        }
        if let Some(q) = &s.select {
            self.select(q)
        }
        if let Some(q) = &s.set {
            self.n("InsertReplaceSet", q);
            self.pairs(&q.pairs)
        }
        if let Some(q) = &s.on_duplicate_key_update {
            self.n("InsertReplaceOnDuplicateKeyUpdate", q);
            self.pairs(&q.pairs)
        }
        if let Some(q) = &s.on_conflict {
            self.n("OnConflict", q);
            self.o("OnConflictTarget", &q.target);
            self.n("OnConflictAction", &q.action);
            match &q.target {
                OnConflictTarget::Columns { names, .. } => self.ids(names),
                OnConflictTarget::OnConstraint { name, .. } => self.n("Identifier", name),
                _ => (),
            }
            if let OnConflictAction::DoUpdateSet { sets, where_, .. } = &q.action {
                for (i, e) in sets {
                    self.n("Identifier", i);
                    self.expr(e)
                }
                if let Some((_, e)) = where_ {
                    self.expr(e)
                }
            }
        }
        self.returning(&s.returning)
    }
    fn create_options(&mut self, v: &[CreateOption]) {
        for o in v {
            self.n("CreateOption", o);
            match o {
                CreateOption::Algorithm(_, a) => self.n("CreateAlgorithm", a),
                CreateOption::Definer { user, host, .. } => {
                    self.n("Identifier", user);
                    self.n("Identifier", host)
                }
                _ => (),
            }
        }
    }
    fn index_cols(&mut self, v: &[IndexCol]) {
        for c in v {
            self.n("IndexCol", c);
            self.n("Identifier", &c.name)
        }
    }
    fn alter(&mut self, s: &AlterTable) {
        self.n("AlterTable", s);
        self.qn(&s.table);
        for a in &s.alter_specifications {
            self.n("AlterSpecification", a);
            match a {
                AlterSpecification::AddColumn {
                    identifier,
                    data_type,
                    ..
                } => {
                    self.n("Identifier", identifier);
                    self.dtype(data_type)
                }
                AlterSpecification::AddIndex {
                    index_type,
                    name,
                    constraint,
                    cols,
                    index_options,
                    ..
                } => {
                    self.n("IndexType", index_type);
                    if let Some(n) = name {
                        self.n("Identifier", n)
                    }
                    if let Some((_, Some(n))) = constraint {
                        self.n("Identifier", n)
                    }
                    self.index_cols(cols);
                    for o in index_options {
                        self.n("IndexOption", o)
                    }
                }
                AlterSpecification::AddForeignKey {
                    constraint,
                    name,
                    cols,
                    references_table,
                    references_cols,
                    ons,
                    ..
                } => {
                    if let Some(n) = name {
                        self.n("Identifier", n)
                    }
                    if let Some((_, Some(n))) = constraint {
                        self.n("Identifier", n)
                    }
                    self.index_cols(cols);
                    self.n("Identifier", references_table);
                    self.ids(references_cols);
                    for o in ons {
                        self.n("ForeignKeyOn", o);
                        self.n("ForeignKeyOnType", &o.type_);
                        self.n("ForeignKeyOnAction", &o.action);
                    }
                }
                AlterSpecification::Modify {
                    col, definition, ..
                } => {
                    self.n("Identifier", col);
                    self.dtype(definition)
                }
                AlterSpecification::DropColumn { column, .. } => self.n("Identifier", column),
                AlterSpecification::AlterColumn {
                    column,
                    alter_column_action,
                    ..
                } => {
                    self.n("Identifier", column);
                    self.n("AlterColumnAction", alter_column_action);
                    match alter_column_action {
                        AlterColumnAction::SetDefault { value, .. } => self.expr(value),
                        AlterColumnAction::Type { type_, .. } => self.dtype(type_),
                        _ => (),
                    }
                }
                AlterSpecification::OwnerTo { owner, .. } => self.n("Identifier", owner),
                #[allow(unreachable_patterns)]
                _ => (),
            }
        }
    }
    fn stmts(&mut self, v: &[Statement]) {
        for s in v {
            self.statement(s)
        }
    }
    fn union(&mut self, u: &Union) {
        self.n("Union", u);
        self.statement(&u.left);
        for w in &u.with {
            self.n("UnionWith", w);
            self.o("UnionType", &w.union_type);
            self.statement(&w.union_statement)
        }
        if let Some((_, o)) = &u.order_by {
            self.order(o)
        }
        self.limit(&u.limit)
    }
    pub fn statement(&mut self, s: &Statement) {
        self.n("Statement", s);
        match s {
            Statement::CreateIndex(c) => {
                self.n("CreateIndex", c);
                self.create_options(&c.create_options);
                self.n("Identifier", &c.index_name);
                self.qn(&c.table_name);
                for o in &c.index_options {
                    self.n("CreateIndexOption", o)
                }
                self.ids(&c.column_names);
                if let Some((_, e)) = &c.where_ {
                    self.expr(e)
                }
            }
            Statement::CreateTable(c) => {
                self.n("CreateTable", c);
                self.create_options(&c.create_options);
                self.qn(&c.identifier);
                for d in &c.create_definitions {
                    self.n("CreateDefinition", d);
                    match d {
                        CreateDefinition::ColumnDefinition {
                            identifier,
                            data_type,
                            ..
                        } => {
                            self.n("Identifier", identifier);
                            self.dtype(data_type)
                        }
                        CreateDefinition::ConstraintDefinition { identifier, .. } => {
                            self.n("Identifier", identifier)
                        }
                    }
                }
                for o in &c.options {
                    self.n("TableOption", o)
                }
            }
            Statement::CreateView(c) => {
                self.n("CreateView", c);
                self.create_options(&c.create_options);
                self.qn(&c.name);
                self.statement(&c.select)
            }
            Statement::CreateTrigger(c) => {
                self.n("CreateTrigger", c);
                self.create_options(&c.create_options);
                self.n("Identifier", &c.name);
                self.n("TriggerTime", &c.trigger_time);
                self.n("TriggerEvent", &c.trigger_event);
                self.n("Identifier", &c.table);
                self.statement(&c.statement)
            }
            Statement::CreateFunction(c) => {
                self.n("CreateFunction", c);
                self.create_options(&c.create_options);
                self.n("Identifier", &c.name);
                for (d, i, t) in &c.params {
                    if let Some(d) = d {
                        self.n("FunctionParamDirection", d)
                    }
                    self.n("Identifier", i);
                    self.dtype(t)
                }
                self.dtype(&c.return_type);
                for f in &c.characteristics {
                    self.n("FunctionCharacteristic", f)
                }
                if let Some(r) = &c.return_ {
                    self.statement(r)
                }
            }
            Statement::Select(q) => self.select(q),
            Statement::Delete(d) => {
                self.n("Delete", d);
                for f in &d.flags {
                    self.n("DeleteFlag", f)
                }
                for t in &d.tables {
                    self.qn(t)
                }
                for t in &d.using {
                    self.tref(t)
                }
                if let Some((e, _)) = &d.where_ {
                    self.expr(e)
                }
                self.returning(&d.returning)
            }
            Statement::InsertReplace(i) => self.insert(i),
            Statement::Update(u) => {
                self.n("Update", u);
                for f in &u.flags {
                    self.n("UpdateFlag", f)
                }
                for t in &u.tables {
                    self.tref(t)
                }
                for (i, e) in &u.set {
                    self.ids(i);
                    self.expr(e)
                }
                if let Some((e, _)) = &u.where_ {
                    self.expr(e)
                }
                self.returning(&u.returning)
            }
            Statement::DropIndex(d) => {
                self.n("DropIndex", d);
                self.n("Identifier", &d.index_name);
                if let Some((_, q)) = &d.on {
                    self.qn(q)
                }
            }
            Statement::DropTable(d) => {
                self.n("DropTable", d);
                for t in &d.tables {
                    self.qn(t)
                }
            }
            Statement::DropFunction(d) => {
                self.n("DropFunction", d);
                self.qn(&d.function)
            }
            Statement::DropProcedure(d) => {
                self.n("DropProcedure", d);
                self.qn(&d.procedure)
            }
            Statement::DropEvent(d) => {
                self.n("DropEvent", d);
                self.qn(&d.event)
            }
            Statement::DropDatabase(d) => {
                self.n("DropDatabase", d);
                self.n("Identifier", &d.database)
            }
            Statement::DropServer(d) => {
                self.n("DropServer", d);
                self.n("Identifier", &d.server)
            }
            Statement::DropTrigger(d) => {
                self.n("DropTrigger", d);
                self.qn(&d.identifier)
            }
            Statement::DropView(d) => {
                self.n("DropView", d);
                for t in &d.views {
                    self.qn(t)
                }
            }
            Statement::Set(v) => {
                self.n("Set", v);
                for (i, e) in &v.values {
                    self.n("Identifier", i);
                    self.expr(e)
                }
            }
            Statement::Signal(v) => {
                self.n("Signal", v);
                self.expr(&v.sql_state);
                for (n, _, e) in &v.sets {
                    self.n("SignalConditionInformationName", n);
                    self.expr(e)
                }
            }
            Statement::AlterTable(a) => self.alter(a),
            Statement::Block(v) | Statement::Do(v) => self.stmts(v),
            Statement::If(v) => {
                self.n("If", v);
                for c in &v.conditions {
                    self.n("IfCondition", c);
                    self.expr(&c.search_condition);
                    self.stmts(&c.then)
                }
                if let Some((_, e)) = &v.else_ {
                    self.stmts(e)
                }
            }
            Statement::Union(u) => self.union(u),
            Statement::Case(c) => {
                self.n("CaseStatement", c);
                if let Some(v) = &c.value {
                    self.expr(v)
                }
                for w in &c.whens {
                    self.n("WhenStatement", w);
                    self.expr(&w.when);
                    self.stmts(&w.then)
                }
                if let Some((_, e)) = &c.else_ {
                    self.stmts(e)
                }
            }
            Statement::Copy(c) => {
                self.n("Copy", c);
                self.n("Identifier", &c.table);
                self.ids(&c.columns)
            }
            Statement::CreateTypeEnum(c) => {
                self.n("CreateTypeEnum", c);
                self.n("Identifier", &c.name);
                for s in &c.values {
                    self.n("SString", s)
                }
            }
            Statement::TruncateTable(t) => {
                self.n("TruncateTable", t);
                self.qn(&t.table_name)
            }
            Statement::RenameTable(r) => {
                self.n("RenameTable", r);
                for t in &r.table_to_tables {
                    self.n("TableToTable", t);
                    self.qn(&t.table);
                    self.qn(&t.new_table)
                }
            }
            Statement::WithQuery(w) => {
                self.n("WithQuery", w);
                for b in &w.with_blocks {
                    self.n("WithBlock", b);
                    self.n("Identifier", &b.identifier);
                    self.statement(&b.statement)
                }
                self.statement(&w.statement)
            }
            Statement::Return(r) => {
                self.n("Return", r);
                self.expr(&r.expr)
            }
            _ => (),
        }
    }
}
