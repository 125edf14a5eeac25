//! Conformance harness: runs the real sql-parse crate on inputs derived from
//! specification behaviours and prints, per input, the observable outcome.
//!
//! stdin : one case per line   id \t dialect \t args \t flags \t sql
//!           dialect M|P|S, args N|%|?|$, flags: letters
//!             m = parse_statements (script)   u = warn_unquoted_identifiers
//!             c = warn_none_capital_keywords  l = list_hack   v = visit node spans
//!             a = no tree in the output (issues only)
//!             i = adds diagnostics through the public interface
//!           sql with \\ \n \r \t escaped
//! stdout: one JSON object per line, in order, flushed per case.
mod dbg;
mod visit;

use sql_parse::*;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

static PANIC: Mutex<String> = Mutex::new(String::new());
static STARTED: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());

fn now() -> u64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .unwrap()
        .as_millis() as u64
}

pub fn jstr(out: &mut String, s: &str) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

fn unescape(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some('t') => o.push('\t'),
                Some('0') => o.push('\0'),
                Some(c) => o.push(c),
                None => (),
            }
        } else {
            o.push(c)
        }
    }
    o
}

/// 0 = fine, 1 = not a valid range of the source, 2 = text differs
fn seg_state(src: &str, span: &Span, seg: &str) -> u8 {
    match src.get(span.start..span.end) {
        None => 1,
        Some(s) if s == seg => 0,
        Some(_) => 2,
    }
}

fn run_case(sql: &str, dialect: &str, args: &str, flags: &str) -> String {
    let opts = ParseOptions::new()
        .dialect(match dialect {
            "P" => SQLDialect::PostgreSQL,
            "S" => SQLDialect::Sqlite,
            _ => SQLDialect::MariaDB,
        })
        .arguments(match args {
            "%" => SQLArguments::Percent,
            "?" => SQLArguments::QuestionMark,
            "$" => SQLArguments::Dollar,
            _ => SQLArguments::None,
        })
        .warn_unquoted_identifiers(flags.contains('u'))
        .warn_none_capital_keywords(flags.contains('c'))
        .list_hack(flags.contains('l'));
    let mut out = String::new();
    let mut issues = Issues::new(sql);
    let stmts: Vec<Statement> = if flags.contains('m') {
        parse_statements(sql, &mut issues, &opts)
    } else {
        match parse_statement(sql, &mut issues, &opts) {
            Some(s) => vec![s],
            None => vec![],
        }
    };
    out.push_str(&format!("\"n\":{}", stmts.len()));
    // placeholders for what could not be parsed
    let mut inv = 0;
    for s in &stmts {
        let d = format!("{:?}", s);
        inv += d
            .match_indices("Invalid(")
            .filter(|(i, _)| {
                d.as_bytes().get(i + 8).is_some_and(|c| c.is_ascii_digit())
                    && (*i == 0 || !d.as_bytes()[i - 1].is_ascii_alphanumeric())
            })
            .count();
    }
    out.push_str(&format!(",\"inv\":{}", inv));
    // diagnostics of the user's own, at the statements and parts of them
    if flags.contains('i') {
        for s in &stmts {
            let Ok(sp) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.span())) else {
                continue;
            };
            let mut h = issues.warn("of the user", s);
            h.frag("the same", &sp).frag("its start", &(sp.start..sp.start));
            issues.err(String::from("at the end"), &(sp.end..sp.end));
        }
        let w = 0..sql.len();
        issues.err("everything", &w).frag("all", &w).frag("end", &(sql.len()..sql.len()));
    }
    if !flags.contains('a') {
        out.push_str(",\"ast\":[");
        for (i, s) in stmts.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            let d = format!("{:?}", s);
            dbg::to_json(&d, &mut out);
        }
        out.push(']');
    }
    if flags.contains('v') {
        out.push_str(",\"bad\":[");
        let mut v = visit::Visitor::default();
        for s in &stmts {
            v.statement(s);
        }
        for (i, b) in v.bad.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            jstr(&mut out, b);
        }
        let top = match stmts.len() {
            1 => std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| stmts[0].span())).ok(),
            _ => None,
        };
        out.push_str(&format!("],\"nodes\":{},\"span\":", v.count));
        match top {
            Some(s) => out.push_str(&format!("[{},{}]", s.start, s.end)),
            None => out.push_str("null"),
        }
    }
    out.push_str(",\"issues\":[");
    for (i, is) in issues.get().iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        out.push_str(&format!(
            "{{\"l\":\"{}\",\"a\":{},\"b\":{},\"q\":{},\"m\":",
            match is.level {
                Level::Warning => "W",
                Level::Error => "E",
            },
            is.span.start,
            is.span.end,
            seg_state(sql, &is.span, is.sql_segment)
        ));
        jstr(&mut out, &is.message);
        out.push_str(",\"s\":");
        jstr(&mut out, is.sql_segment);
        out.push_str(",\"f\":[");
        for (j, f) in is.fragments.iter().enumerate() {
            if j > 0 {
                out.push(',');
            }
            out.push_str(&format!(
                "{{\"a\":{},\"b\":{},\"q\":{},\"m\":",
                f.span.start,
                f.span.end,
                seg_state(sql, &f.span, f.sql_segment)
            ));
            jstr(&mut out, &f.message);
            out.push_str(",\"s\":");
            jstr(&mut out, f.sql_segment);
            out.push('}');
        }
        out.push_str("]}");
    }
    out.push_str("],\"show\":");
    jstr(&mut out, &format!("{}", issues));
    out.push_str(&format!(",\"isok\":{}", issues.is_ok()));
    out
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        *PANIC.lock().unwrap() = format!("{} at {}", msg, loc);
    }));
    let limit: u64 = std::env::var("CONFORM_HANG_MS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(20000);
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let s = STARTED.load(Ordering::SeqCst);
        if s != 0 && now() > s + limit {
            let id = CURRENT.lock().unwrap().clone();
            println!("{{\"id\":{},\"hang\":true}}", id);
            let _ = std::io::stdout().flush();
            std::process::exit(3);
        }
    });
    let th = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let stdin = std::io::stdin();
            let stdout = std::io::stdout();
            for line in stdin.lock().lines() {
                let line = line.unwrap();
                let mut it = line.splitn(5, '\t');
                let id = it.next().unwrap().to_string();
                let dialect = it.next().unwrap();
                let args = it.next().unwrap();
                let flags = it.next().unwrap();
                let sql = unescape(it.next().unwrap_or(""));
                *CURRENT.lock().unwrap() = id.clone();
                STARTED.store(now(), Ordering::SeqCst);
                let r = std::panic::catch_unwind(|| run_case(&sql, dialect, args, flags));
                STARTED.store(0, Ordering::SeqCst);
                let mut o = String::new();
                match r {
                    Ok(s) => o.push_str(&format!("{{\"id\":{},{}}}\n", id, s)),
                    Err(_) => {
                        o.push_str(&format!("{{\"id\":{},\"panic\":", id));
                        jstr(&mut o, &PANIC.lock().unwrap());
                        o.push_str("}\n");
                    }
                }
                let mut l = stdout.lock();
                l.write_all(o.as_bytes()).unwrap();
                l.flush().unwrap();
            }
        })
        .unwrap();
    if th.join().is_err() {
        std::process::exit(4);
    }
}
