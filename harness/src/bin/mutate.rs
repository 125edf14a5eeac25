//! Reads sentences as token lists, tries every single edit of each on the
//! real parser and prints the edits it accepts without an error.
//!
//! First line: the vocabulary, entries separated by \x1f, each a kind letter
//! (k reserved word, u word that may be a name, p punctuation, i n f s a)
//! followed by the text.  Every further line:
//!   id \t dialect \t ops \t positions separated by , \t tokens separated by \x1f
//! ops: d delete, s swap neighbours, i insert, r replace, D delete two
//!   neighbours, p insert a pair (of the second vocabulary line), and x end
//!   with another ending (the positions count the endings of the third line).
use sql_parse::{
    parse_statement, parse_statements, Issues, Level, ParseOptions, SQLArguments, SQLDialect,
};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

static STARTED: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());

fn now() -> u64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .unwrap()
        .as_millis() as u64
}

fn opts(d: &str) -> ParseOptions {
    ParseOptions::new()
        .dialect(match d {
            "P" => SQLDialect::PostgreSQL,
            "S" => SQLDialect::Sqlite,
            _ => SQLDialect::MariaDB,
        })
        .arguments(SQLArguments::QuestionMark)
}

fn no_error(i: &Issues<'_>) -> bool {
    i.get().iter().all(|i| i.level != Level::Error)
}

/// 0 rejected, 1 accepted, 2 panicked
fn judge(sql: &str, d: &str) -> u8 {
    STARTED.store(now(), Ordering::SeqCst);
    let r = std::panic::catch_unwind(|| {
        let mut issues = Issues::new(sql);
        let s = parse_statement(sql, &mut issues, &opts(d));
        no_error(&issues) && s.is_some()
    });
    STARTED.store(0, Ordering::SeqCst);
    match r {
        Ok(true) => 1,
        Ok(false) => 0,
        Err(_) => 2,
    }
}

fn judge_script(sql: &str, d: &str) -> u8 {
    STARTED.store(now(), Ordering::SeqCst);
    let r = std::panic::catch_unwind(|| {
        let mut issues = Issues::new(sql);
        let _ = parse_statements(sql, &mut issues, &opts(d));
        no_error(&issues)
    });
    STARTED.store(0, Ordering::SeqCst);
    match r {
        Ok(true) => 1,
        Ok(false) => 0,
        Err(_) => 2,
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(100));
        let s = STARTED.load(Ordering::SeqCst);
        if s != 0 && now() > s + 5000 {
            println!("{{\"id\":{},\"hang\":true}}", CURRENT.lock().unwrap());
            let _ = std::io::stdout().flush();
            std::process::exit(3);
        }
    });
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(work)
        .unwrap()
        .join()
        .unwrap();
}

fn work() {
    let stdin = std::io::stdin();
    let mut lines = stdin.lock().lines();
    let vocab = lines.next().unwrap().unwrap();
    let vocab: Vec<(char, &str)> = vocab
        .split('\x1f')
        .map(|e| (e.chars().next().unwrap(), &e[1..]))
        .collect();
    let pairs = lines.next().unwrap().unwrap();
    let pairs: Vec<&str> = pairs.split('\x1f').filter(|s| !s.is_empty()).collect();
    let ends = lines.next().unwrap().unwrap();
    let ends: Vec<&str> = ends.split('\x1f').collect();
    let generic = vocab.iter().position(|e| e.0 == 'i').unwrap();
    for line in lines {
        let line = line.unwrap();
        let mut it = line.splitn(5, '\t');
        let id = it.next().unwrap();
        let d = it.next().unwrap();
        let ops = it.next().unwrap();
        let at: Vec<usize> = it
            .next()
            .unwrap()
            .split(',')
            .map(|p| p.parse().unwrap())
            .collect();
        let toks: Vec<&str> = it.next().unwrap_or("").split('\x1f').collect();
        *CURRENT.lock().unwrap() = id.to_string();
        let n = toks.len();
        let mut count = 0u64;
        let mut acc = String::new();
        let mut buf = String::new();
        let mut attempt = |a: &[&str], x: &str, b: &[&str]| -> u8 {
            buf.clear();
            for t in a.iter().chain(std::iter::once(&x)).chain(b.iter()) {
                if !t.is_empty() {
                    buf.push_str(t);
                    buf.push(' ');
                }
            }
            count += 1;
            let r = judge(&buf, d);
            // the same text as a script of one statement
            if (r == 1 || count % 4 == 0) && !buf.contains(';') && !buf.contains("$$") {
                buf.push(';');
                let q = judge_script(&buf, d);
                if q != 2 && r != 2 && q != r {
                    return 3 + r;
                }
            }
            r
        };
        let base = attempt(&toks, "", &[]);
        let mut put = |op: char, pos: usize, v: usize, r: u8| {
            if !acc.is_empty() {
                acc.push(',');
            }
            acc.push_str(&format!("[\"{}\",{},{},{}]", op, pos, v, r));
        };
        if ops.contains('d') {
            for &p in at.iter().filter(|p| **p < n) {
                let r = attempt(&toks[..p], "", &toks[p + 1..]);
                if r != 0 && n > 1 {
                    put('d', p, 0, r);
                }
            }
        }
        if ops.contains('D') {
            for &p in at.iter().filter(|p| **p + 1 < n) {
                let r = attempt(&toks[..p], "", &toks[p + 2..]);
                if r != 0 && n > 2 {
                    put('D', p, 0, r);
                }
            }
        }
        if ops.contains('s') {
            for &p in at.iter().filter(|p| **p + 1 < n) {
                if toks[p] == toks[p + 1] {
                    continue;
                }
                let x = format!("{} {}", toks[p + 1], toks[p]);
                let r = attempt(&toks[..p], &x, &toks[p + 2..]);
                if r != 0 {
                    put('s', p, 0, r);
                }
            }
        }
        for (op, last) in [('i', n + 1), ('r', n)] {
            if !ops.contains(op) {
                continue;
            }
            for &p in at.iter().filter(|p| **p < last) {
                let rest = if op == 'i' { &toks[p..] } else { &toks[p + 1..] };
                let g = attempt(&toks[..p], vocab[generic].1, rest);
                if g != 0 && op == 'i' {
                    put(op, p, generic, g);
                }
                for (v, e) in vocab.iter().enumerate() {
                    if v == generic || e.1 == toks.get(p).copied().unwrap_or("") && op == 'r' {
                        continue;
                    }
                    // where any name will do, a word that may be one is no news
                    if g == 1 && e.0 == 'u' && (v * 31 + p) % 64 != 0 {
                        continue;
                    }
                    let r = attempt(&toks[..p], e.1, rest);
                    if r != 0 {
                        put(op, p, v, r);
                    }
                }
            }
        }
        if ops.contains('p') {
            for &p in at.iter() {
                for (v, x) in pairs.iter().enumerate() {
                    let r = attempt(&toks[..p], x, &toks[p..]);
                    if r != 0 {
                        put('p', p, v, r);
                    }
                }
            }
        }
        if ops.contains('x') {
            for &p in at.iter() {
                let r = attempt(&toks, ends[p], &[]);
                if r != 0 {
                    put('x', p, 0, r);
                }
            }
        }
        let mut l = std::io::stdout().lock();
        writeln!(
            l,
            "{{\"id\":{},\"base\":{},\"count\":{},\"acc\":[{}]}}",
            id, base, count, acc
        )
        .unwrap();
        l.flush().unwrap();
    }
}
