//! Conformance harness for the value types of the public interface: options,
//! names, strings and positions.  One request per line, fields separated by
//! tabs; one JSON answer per line.
//!   opt \t new|default \t field=value,... \t sql   reports of a call
//!   tab \t +-+... \t sql     a table of the names selected by sql
//!   str \t sql               the strings selected by sql
//!   log \t calls \t text \t op,op,...   a collection of diagnostics under a history:
//!       E|W m a-b, F m a-b (fragments), C k (a call with the k-th options), L (a look)
//!   join \t op,op,...        positions joined by a stack machine
use sql_parse::*;
use std::borrow::{Borrow, Cow};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, Write};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn count(issues: &Issues) -> (usize, usize) {
    let e = issues.get().iter().filter(|i| matches!(i.level, Level::Error)).count();
    (e, issues.get().len() - e)
}

fn letter(d: &SQLDialect) -> String {
    let mut s = String::new();
    if d.is_maria() {
        s.push('M')
    }
    if d.is_postgresql() {
        s.push('P')
    }
    if d.is_sqlite() {
        s.push('S')
    }
    s
}

fn opt(f: &[&str]) -> String {
    let mut o = if f[1] == "new" { ParseOptions::new() } else { ParseOptions::default() };
    for s in f[2].split(',').filter(|s| !s.is_empty()) {
        let (k, v) = s.split_once('=').unwrap();
        o = match k {
            "dialect" => o.dialect(match v {
                "P" => SQLDialect::PostgreSQL,
                "S" => SQLDialect::Sqlite,
                _ => SQLDialect::MariaDB,
            }),
            "arguments" => o.arguments(match v {
                "%" => SQLArguments::Percent,
                "?" => SQLArguments::QuestionMark,
                "$" => SQLArguments::Dollar,
                _ => SQLArguments::None,
            }),
            "unquoted" => o.warn_unquoted_identifiers(v == "1"),
            "caps" => o.warn_none_capital_keywords(v == "1"),
            _ => o.list_hack(v == "1"),
        };
    }
    let mut r = String::new();
    for (one, o) in [(true, o.clone()), (false, o.clone()), (true, o.clone().clone())] {
        let script = if one { f[3].to_string() } else { format!("{};", f[3]) };
        let mut issues = Issues::new(&script);
        let t = if one {
            format!("{:?}", parse_statement(&script, &mut issues, &o))
        } else {
            format!("{:?}", parse_statements(&script, &mut issues, &o))
        };
        let (e, w) = count(&issues);
        r.push_str(&format!("[{},{},{}],", e, w, t.contains("ListHack") as u8));
    }
    r.pop();
    format!("{{\"d\":{},\"r\":[{}]}}", js(&letter(&o.get_dialect())), r)
}

fn selected<'a>(sql: &'a str, issues: &mut Issues<'a>) -> Vec<Expression<'a>> {
    match parse_statement(sql, issues, &ParseOptions::new()) {
        Some(Statement::Select(s)) => s.select_exprs.into_iter().map(|e| e.expr).collect(),
        _ => Vec::new(),
    }
}

fn tab(f: &[&str]) -> String {
    let mut issues = Issues::new(f[2]);
    let mut ids: Vec<Identifier> = Vec::new();
    for e in selected(f[2], &mut issues) {
        if let Expression::Identifier(v) = e {
            if let Some(IdentifierPart::Name(i)) = v.into_iter().next() {
                ids.push(i)
            }
        }
    }
    let mut o = format!("{{\"ok\":{},\"ids\":[", issues.is_ok());
    for i in &ids {
        let b: &str = i.borrow();
        let d: &str = i;
        let n = Identifier::new(i.as_str(), 0..0);
        o.push_str(&format!(
            "[{},{},{},{},{},{},{}],",
            js(i.value), js(i.as_str()), js(d), js(b), js(&i.to_string()), js(&format!("{}", n)), js(n.clone().value)
        ));
    }
    if o.ends_with(',') {
        o.pop();
    }
    o.push_str("],\"cmp\":[");
    for a in &ids {
        o.push('[');
        for b in &ids {
            let c = match a.cmp(b) {
                std::cmp::Ordering::Less => "<",
                std::cmp::Ordering::Equal => "=",
                std::cmp::Ordering::Greater => ">",
            };
            let same = a.partial_cmp(b) == Some(a.cmp(b))
                && (a == b) == (c == "=")
                && (a != b) == (c != "=")
                && (a < b) == (c == "<")
                && (a > b) == (c == ">")
                && (a <= b) == (c != ">")
                && (a >= b) == (c != "<");
            o.push_str(&format!("{}{}", js(if same { c } else { "mixed" }), ","));
        }
        o.pop();
        o.push_str("],");
    }
    if o.ends_with(',') {
        o.pop();
    }
    o.push_str("],\"tab\":[");
    // the same operations on an ordered map, an ordered set and a sorted list
    let mut t: BTreeMap<Identifier, usize> = BTreeMap::new();
    let mut s: BTreeSet<Identifier> = BTreeSet::new();
    let mut l: Vec<Identifier> = Vec::new();
    for (n, (c, i)) in f[1].chars().zip(ids.iter()).enumerate() {
        if c == '+' {
            t.entry(i.clone()).or_insert(n);
            s.insert(i.clone());
            if !l.contains(i) {
                l.push(i.clone());
                l.sort();
            }
        } else {
            t.remove(i.as_str());
            s.remove(i.as_str());
            l.retain(|x| x != i);
        }
    }
    for (k, v) in &t {
        o.push_str(&format!("[{},{}],", js(k.as_str()), v));
    }
    if o.ends_with(',') {
        o.pop();
    }
    let agree = t.keys().map(|i| i.value).eq(s.iter().map(|i| i.value))
        && l.iter().map(|i| i.value).eq(s.iter().map(|i| i.value))
        && ids.iter().all(|i| t.contains_key(i.as_str()) == s.contains(i));
    o.push_str(&format!("],\"agree\":{}}}", agree));
    o
}

fn string(f: &[&str]) -> String {
    let mut issues = Issues::new(f[1]);
    let mut o = String::from("{\"s\":[");
    for e in selected(f[1], &mut issues) {
        if let Expression::String(s) = e {
            let d: &str = &s;
            let n = SString::new(Cow::Borrowed(s.as_str()), 0..0);
            let m = SString::new(Cow::Owned(s.to_string()), 0..0);
            o.push_str(&format!(
                "[{},{},{},{},{}],",
                js(&s.value), js(s.as_str()), js(d), js(n.as_str()), js(&m.clone())
            ));
        }
    }
    if o.ends_with(',') {
        o.pop();
    }
    o.push_str(&format!("],\"ok\":{}}}", issues.is_ok()));
    o
}

/// a value with an optional position, built from the real implementations
#[derive(Clone)]
enum V {
    Must(Span),
    May(Option<Span>),
}
impl OptSpanned for V {
    fn opt_span(&self) -> Option<Span> {
        match self {
            V::Must(s) => s.opt_span(),
            V::May(s) => s.opt_span(),
        }
    }
}
#[derive(Clone)]
struct M(Span);
impl Spanned for M {
    fn span(&self) -> Span {
        self.0.span()
    }
}

fn join(f: &[&str]) -> String {
    let mut st: Vec<V> = Vec::new();
    for op in f[1].split(',') {
        fn must(v: V) -> M {
            match v {
                V::Must(s) => M(s),
                V::May(_) => panic!("not a position"),
            }
        }
        if let Some(p) = op.strip_prefix('s').and_then(|p| p.split_once('-')) {
            st.push(V::Must(p.0.parse().unwrap()..p.1.parse().unwrap()));
            continue;
        }
        if let Some(k) = op.strip_prefix("vec") {
            let v: Vec<V> = st.split_off(st.len() - k.parse::<usize>().unwrap());
            st.push(V::May(v.opt_span()));
            continue;
        }
        if let Some(k) = op.strip_prefix("slice") {
            let v: Vec<V> = st.split_off(st.len() - k.parse::<usize>().unwrap());
            st.push(V::May(v.as_slice().opt_span()));
            continue;
        }
        if op == "n" {
            st.push(V::May(None::<Span>.opt_span()));
            continue;
        }
        let c = st.pop().unwrap();
        let r = match op {
            "some" => V::May(Some(c).opt_span()),
            "box" => V::Must(Box::new(must(c)).span()),
            "usize" => V::Must((3usize, must(c)).span()),
            "usize2" => V::Must((3usize, 9usize, must(c)).span()),
            "u32" => V::Must((3u32, must(c)).span()),
            "u64" => V::Must((3u64, must(c)).span()),
            "f64" => V::Must((3.5f64, must(c)).span()),
            "bool" => V::Must((true, must(c)).span()),
            "str" => V::Must(("abc", must(c)).span()),
            "cow" => V::Must((Cow::Borrowed("abc"), must(c)).span()),
            "pair" => V::Must((must(st.pop().unwrap()), c).span()),
            "join" => V::Must(must(st.pop().unwrap()).join_span(&c)),
            "optjoin" => V::May(st.pop().unwrap().opt_join_span(&c)),
            "triple" => {
                let b = st.pop().unwrap();
                V::Must((must(st.pop().unwrap()), b, c).span())
            }
            _ => panic!("{}", op),
        };
        st.push(r);
    }
    match st.last().unwrap().opt_span() {
        None => "[]".to_string(),
        Some(s) => format!("[{},{}]", s.start, s.end),
    }
}

fn unescape(s: &str) -> String {
    s.replace("\\n", "\n").replace("\\r", "\r").replace("\\t", "\t")
}

fn notes(issues: &[Issue]) -> String {
    let note = |m: &str, s: &std::ops::Range<usize>, t: &str| format!("{},{},{},{}", js(m), s.start, s.end, js(t));
    let r: Vec<String> = issues
        .iter()
        .map(|i| {
            let f: Vec<String> =
                i.fragments.iter().map(|f| format!("[{}]", note(&f.message, &f.span, f.sql_segment))).collect();
            let l = if matches!(i.level, Level::Error) { "E" } else { "W" };
            format!("[\"{}\",{},[{}]]", l, note(&i.message, &i.span, i.sql_segment), f.join(","))
        })
        .collect();
    format!("[{}]", r.join(","))
}

/// a call of the parser: dialect, arguments, flags
fn call<'a>(k: &str, text: &'a str, issues: &mut Issues<'a>) {
    let c: Vec<char> = k.chars().collect();
    let o = ParseOptions::new()
        .dialect(match c[0] {
            'P' => SQLDialect::PostgreSQL,
            'S' => SQLDialect::Sqlite,
            _ => SQLDialect::MariaDB,
        })
        .arguments(match c[1] {
            '%' => SQLArguments::Percent,
            '?' => SQLArguments::QuestionMark,
            '$' => SQLArguments::Dollar,
            _ => SQLArguments::None,
        })
        .warn_unquoted_identifiers(k.contains('u'))
        .warn_none_capital_keywords(k.contains('c'));
    if k.contains('m') {
        parse_statements(text, issues, &o);
    } else {
        parse_statement(text, issues, &o);
    }
}

const MESSAGES: [&str; 4] = ["one", "", "tw\u{f6}\nlines", "%s {} \\"];

fn reports(f: &[&str]) -> String {
    let calls: Vec<&str> = f[1].split(',').collect();
    let text = unescape(f[2]);
    let fresh: Vec<String> = calls
        .iter()
        .map(|k| {
            let mut i = Issues::new(&text);
            call(k, &text, &mut i);
            notes(i.get())
        })
        .collect();
    let mut issues = Issues::new(&text);
    let mut looks = Vec::new();
    let ops: Vec<Vec<&str>> = f[3].split(',').map(|o| o.split(' ').collect()).collect();
    let range = |s: &str| {
        let (a, b) = s.split_once('-').unwrap();
        a.parse::<usize>().unwrap()..b.parse::<usize>().unwrap()
    };
    let mut i = 0;
    while i < ops.len() {
        let o = &ops[i];
        i += 1;
        match o[0] {
            "C" => call(calls[o[1].parse::<usize>().unwrap() - 1], &text, &mut issues),
            "L" => {
                let before = notes(issues.get());
                let shown = issues.to_string();
                let seg = issues.segment(0..text.len()) == text;
                let again = notes(issues.get()) == before && issues.to_string() == shown && seg;
                looks.push(format!("[{},{},{}]", issues.get().len(), issues.is_ok(), again));
            }
            l => {
                let m = MESSAGES[o[1].parse::<usize>().unwrap() % 4];
                let p = range(o[2]);
                // owned and borrowed messages
                let mut h = match (l, i % 2) {
                    ("E", 0) => issues.err(m, &p),
                    ("E", _) => issues.err(m.to_string(), &p),
                    (_, 0) => issues.warn(m.to_string(), &p),
                    _ => issues.warn(m, &p),
                };
                while i < ops.len() && ops[i][0] == "F" {
                    let m = MESSAGES[ops[i][1].parse::<usize>().unwrap() % 4];
                    let p = range(ops[i][2]);
                    if i % 3 == 0 && i + 1 < ops.len() && ops[i + 1][0] == "F" {
                        let m2 = MESSAGES[ops[i + 1][1].parse::<usize>().unwrap() % 4];
                        h.frag(m, &p).frag(m2.to_string(), &range(ops[i + 1][2]));
                        i += 1;
                    } else {
                        h.frag(m, &p);
                    }
                    i += 1;
                }
            }
        }
    }
    let (ok, shown, got) = (issues.is_ok(), issues.to_string(), notes(issues.get()));
    let taken = notes(&issues.into_vec());
    format!(
        "{{\"ok\":{},\"show\":{},\"get\":{},\"vec\":{},\"looks\":[{}],\"fresh\":[{}]}}",
        ok,
        js(&shown),
        got,
        taken,
        looks.join(","),
        fresh.join(",")
    )
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split('\t').collect();
        let r = std::panic::catch_unwind(|| match f[0] {
            "opt" => opt(&f),
            "tab" => tab(&f),
            "str" => string(&f),
            "log" => reports(&f),
            _ => join(&f),
        });
        writeln!(out, "{}", r.unwrap_or_else(|_| "\"panic\"".to_string())).unwrap();
    }
}
