//! Canonical JSON of a tree from its `{:?}` text.
//!   struct/variant  -> {"_":"Name", field: value ...} / {"_":"Name","0":..}
//!   Some(x) -> x, None -> null, tuple and list -> [..], span -> "@a-b"
//!   string -> "'text", number -> number, float -> {"f": "text"}
use super::jstr;

struct P<'a> {
    s: &'a [u8],
    t: &'a str,
    i: usize,
}

pub fn to_json(d: &str, out: &mut String) {
    let mut p = P {
        s: d.as_bytes(),
        t: d,
        i: 0,
    };
    p.value(out);
}

/// Smallest and largest position mentioned in a `{:?}` text.
pub fn hull(d: &str) -> Option<(usize, usize)> {
    let b = d.as_bytes();
    let mut i = 0;
    let mut r: Option<(usize, usize)> = None;
    while i < b.len() {
        match b[i] {
            b'"' => {
                i += 1;
                while b[i] != b'"' {
                    if b[i] == b'\\' {
                        i += 1;
                    }
                    i += 1;
                }
                i += 1;
            }
            b'0'..=b'9' if i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_') => {
                let st = i;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                if i + 1 < b.len() && b[i] == b'.' && b[i + 1] == b'.' {
                    let a: usize = d[st..i].parse().unwrap();
                    i += 2;
                    let st = i;
                    while i < b.len() && b[i].is_ascii_digit() {
                        i += 1;
                    }
                    let e: usize = d[st..i].parse().unwrap();
                    r = Some(match r {
                        None => (a, e),
                        Some((x, y)) => (x.min(a), y.max(e)),
                    });
                }
            }
            _ => i += 1,
        }
    }
    r
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i] == b' ' {
            self.i += 1
        }
    }
    fn peek(&self) -> u8 {
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn seq(&mut self, end: u8, out: &mut String) {
        out.push('[');
        let mut first = true;
        loop {
            self.ws();
            if self.peek() == end || self.peek() == 0 {
                self.i += 1;
                break;
            }
            if !first {
                out.push(',');
            }
            first = false;
            self.value(out);
            self.ws();
            if self.peek() == b',' {
                self.i += 1
            }
        }
        out.push(']');
    }
    fn value(&mut self, out: &mut String) {
        self.ws();
        match self.peek() {
            b'[' => {
                self.i += 1;
                self.seq(b']', out)
            }
            b'(' => {
                self.i += 1;
                self.seq(b')', out)
            }
            b'"' => {
                let s = self.string();
                let mut t = String::with_capacity(s.len() + 1);
                t.push('\'');
                t.push_str(&s);
                jstr(out, &t)
            }
            b'0'..=b'9' | b'-' => {
                let st = self.i;
                self.i += 1;
                while self.peek().is_ascii_digit() {
                    self.i += 1
                }
                if self.peek() == b'.' && self.s.get(self.i + 1) == Some(&b'.') {
                    let a = &self.t[st..self.i];
                    self.i += 2;
                    let s2 = self.i;
                    while self.peek().is_ascii_digit() {
                        self.i += 1
                    }
                    out.push_str(&format!("\"@{}-{}\"", a, &self.t[s2..self.i]));
                } else {
                    while matches!(self.peek(), b'0'..=b'9' | b'.' | b'e' | b'E' | b'-' | b'+') {
                        self.i += 1
                    }
                    let t = &self.t[st..self.i];
                    if t.contains(['.', 'e']) {
                        out.push_str("{\"f\":");
                        jstr(out, t);
                        out.push('}');
                    } else {
                        out.push_str(t)
                    }
                }
            }
            _ => {
                let st = self.i;
                while self.peek().is_ascii_alphanumeric() || self.peek() == b'_' {
                    self.i += 1
                }
                let name = &self.t[st..self.i];
                assert!(!name.is_empty(), "debug text not understood");
                if self.peek() == b'(' {
                    self.i += 1;
                    if name == "Some" {
                        self.value(out);
                        self.ws();
                        if self.peek() == b',' {
                            self.i += 1;
                            self.ws()
                        }
                        self.i += 1;
                        return;
                    }
                    out.push_str("{\"_\":");
                    jstr(out, name);
                    let mut n = 0;
                    loop {
                        self.ws();
                        if self.peek() == b')' || self.peek() == 0 {
                            self.i += 1;
                            break;
                        }
                        out.push_str(&format!(",\"{}\":", n));
                        n += 1;
                        self.value(out);
                        self.ws();
                        if self.peek() == b',' {
                            self.i += 1
                        }
                    }
                    out.push('}');
                    return;
                }
                let mut j = self.i;
                while j < self.s.len() && self.s[j] == b' ' {
                    j += 1
                }
                if j < self.s.len() && self.s[j] == b'{' {
                    self.i = j + 1;
                    out.push_str("{\"_\":");
                    jstr(out, name);
                    loop {
                        self.ws();
                        if self.peek() == b'}' || self.peek() == 0 {
                            self.i += 1;
                            break;
                        }
                        let st = self.i;
                        while self.peek().is_ascii_alphanumeric() || self.peek() == b'_' {
                            self.i += 1
                        }
                        let f = &self.t[st..self.i];
                        out.push(',');
                        jstr(out, f);
                        out.push(':');
                        self.ws();
                        self.i += 1; // ':'
                        self.value(out);
                        self.ws();
                        if self.peek() == b',' {
                            self.i += 1
                        }
                    }
                    out.push('}');
                    return;
                }
                match name {
                    "None" => out.push_str("null"),
                    "true" | "false" => out.push_str(name),
                    "inf" | "NaN" => {
                        out.push_str("{\"f\":");
                        jstr(out, name);
                        out.push('}')
                    }
                    _ => {
                        out.push_str("{\"_\":");
                        jstr(out, name);
                        out.push('}')
                    }
                }
            }
        }
    }
    fn string(&mut self) -> String {
        let mut o = String::new();
        self.i += 1;
        loop {
            let c = match self.t[self.i..].chars().next() {
                Some(c) => c,
                None => break,
            };
            self.i += c.len_utf8();
            match c {
                '"' => break,
                '\\' => {
                    let c = self.t[self.i..].chars().next().unwrap();
                    self.i += c.len_utf8();
                    match c {
                        'n' => o.push('\n'),
                        'r' => o.push('\r'),
                        't' => o.push('\t'),
                        '0' => o.push('\0'),
                        'u' => {
                            let e = self.t[self.i..].find('}').unwrap() + self.i;
                            let h = &self.t[self.i + 1..e];
                            o.push(char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap());
                            self.i = e + 1;
                        }
                        c => o.push(c),
                    }
                }
                c => o.push(c),
            }
        }
        o
    }
}
