//! Tokenizer for textual LLVM IR.
#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Word(&'a str),
    Local(String),
    Global(String),
    Meta(&'a str),
    Attr(&'a str),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    Int(i128),
    Float(f64),
    P(char),
    Ellipsis,
    LabelDef(String),
    Eof,
}

pub struct Lexer<'a> {
    pub s: &'a [u8],
    pub i: usize,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut r = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 1 < s.len() {
            if s[i + 1] == b'\\' {
                r.push(b'\\');
                i += 2;
                continue;
            }
            if i + 2 < s.len() {
                let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap_or("00");
                if let Ok(v) = u8::from_str_radix(h, 16) {
                    r.push(v);
                    i += 3;
                    continue;
                }
            }
        }
        r.push(s[i]);
        i += 1;
    }
    r
}

impl<'a> Lexer<'a> {
    pub fn new(s: &'a [u8]) -> Self {
        Lexer { s, i: 0 }
    }

    fn st(&self, a: usize, b: usize) -> &'a str {
        std::str::from_utf8(&self.s[a..b]).unwrap_or("?")
    }

    fn quoted(&mut self) -> Vec<u8> {
        // self.i at opening quote
        self.i += 1;
        let b = self.i;
        while self.i < self.s.len() && self.s[self.i] != b'"' {
            self.i += 1;
        }
        let r = unescape(&self.s[b..self.i]);
        self.i += 1;
        r
    }

    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            String::from_utf8_lossy(&self.quoted()).into_owned()
        } else {
            let b = self.i;
            while self.i < self.s.len() && is_word(self.s[self.i]) {
                self.i += 1;
            }
            self.st(b, self.i).to_string()
        }
    }

    pub fn next(&mut self) -> Tok<'a> {
        loop {
            if self.i >= self.s.len() {
                return Tok::Eof;
            }
            let c = self.s[self.i];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
                self.i += 1;
            } else if c == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else {
                break;
            }
        }
        let c = self.s[self.i];
        match c {
            b'%' => {
                self.i += 1;
                Tok::Local(self.name())
            }
            b'@' => {
                self.i += 1;
                Tok::Global(self.name())
            }
            b'!' => {
                self.i += 1;
                if self.i < self.s.len() && self.s[self.i] == b'"' {
                    let s = self.quoted();
                    return Tok::Str(s);
                }
                let b = self.i;
                while self.i < self.s.len() && is_word(self.s[self.i]) {
                    self.i += 1;
                }
                Tok::Meta(self.st(b, self.i))
            }
            b'#' => {
                self.i += 1;
                let b = self.i;
                while self.i < self.s.len() && is_word(self.s[self.i]) {
                    self.i += 1;
                }
                Tok::Attr(self.st(b, self.i))
            }
            b'"' => {
                let s = self.quoted();
                if self.i < self.s.len() && self.s[self.i] == b':' {
                    self.i += 1;
                    return Tok::LabelDef(String::from_utf8_lossy(&s).into_owned());
                }
                Tok::Str(s)
            }
            b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                self.i += 1;
                Tok::CStr(self.quoted())
            }
            b'.' if self.s[self.i..].starts_with(b"...") => {
                self.i += 3;
                Tok::Ellipsis
            }
            b'(' | b')' | b'{' | b'}' | b'[' | b']' | b'<' | b'>' | b',' | b'=' | b'*' | b'|' | b':' | b'^' => {
                self.i += 1;
                Tok::P(c as char)
            }
            _ if is_word(c) || c == b'+' => {
                let b = self.i;
                self.i += 1;
                while self.i < self.s.len() && (is_word(self.s[self.i]) || (self.s[self.i] == b'+' && (self.s[self.i - 1] == b'e' || self.s[self.i - 1] == b'E') && (c.is_ascii_digit() || c == b'-'))) {
                    self.i += 1;
                }
                let t = self.st(b, self.i);
                if self.i < self.s.len() && self.s[self.i] == b':' && !(self.i + 1 < self.s.len() && self.s[self.i + 1] == b' ') {
                    // label definition ("name:" at end of line); metadata fields are "name: value"
                    self.i += 1;
                    return Tok::LabelDef(t.to_string());
                }
                if self.i < self.s.len() && self.s[self.i] == b':' {
                    // distinguish "12:      ; preds = ..." from "line: 12"
                    let mut j = self.i + 1;
                    while j < self.s.len() && self.s[j] == b' ' {
                        j += 1;
                    }
                    if j >= self.s.len() || self.s[j] == b';' || self.s[j] == b'\n' {
                        self.i += 1;
                        return Tok::LabelDef(t.to_string());
                    }
                }
                let fb = t.as_bytes();
                if fb[0].is_ascii_digit() || ((fb[0] == b'-' || fb[0] == b'+') && fb.len() > 1) {
                    if t.starts_with("0x") {
                        if let Ok(v) = u64::from_str_radix(&t[2..], 16) {
                            return Tok::Float(f64::from_bits(v));
                        }
                    }
                    if let Ok(v) = t.parse::<i128>() {
                        return Tok::Int(v);
                    }
                    if let Ok(v) = t.parse::<u128>() {
                        return Tok::Int(v as i128);
                    }
                    if let Ok(v) = t.parse::<f64>() {
                        return Tok::Float(v);
                    }
                }
                if t.starts_with("f0x") {
                    if let Ok(v) = u64::from_str_radix(&t[3..], 16) {
                        return Tok::Float(f64::from_bits(v));
                    }
                }
                Tok::Word(t)
            }
            _ => {
                self.i += 1;
                Tok::P(c as char)
            }
        }
    }
}
