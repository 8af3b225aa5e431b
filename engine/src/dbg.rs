//! Debug metadata: source locations and function names.
use crate::ir::Module;
use std::collections::BTreeSet;

fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
    let mut from = 0;
    while let Some(i) = s[from..].find(k) {
        let at = from + i;
        let prev = s[..at].chars().last().unwrap_or('(');
        if (prev == '(' || prev == ' ') && s[at + k.len()..].starts_with(": ") {
            let rest = &s[at + k.len() + 2..];
            if rest.starts_with('"') {
                let e = rest[1..].find('"')? + 1;
                return Some(&rest[1..e]);
            }
            let e = rest.find(|c| c == ',' || c == ')').unwrap_or(rest.len());
            return Some(&rest[..e]);
        }
        from = at + k.len();
    }
    None
}
fn idf(s: &str, k: &str) -> u32 {
    field(s, k).and_then(|v| v.strip_prefix('!')).and_then(|v| v.parse().ok()).unwrap_or(0)
}

/// The subprogram enclosing a scope: (name with namespaces, file).
fn subprogram(m: &Module, mut scope: u32) -> (String, String) {
    let mut file = String::new();
    for _ in 0..64 {
        let s = match m.dbg.get(&scope) {
            Some(s) => *s,
            None => return (String::new(), file),
        };
        if file.is_empty() {
            let f = idf(s, "file");
            if let Some(fs) = m.dbg.get(&f) {
                let n = field(fs, "filename").unwrap_or("");
                let d = field(fs, "directory").unwrap_or("");
                file = if n.starts_with('/') { n.to_string() } else { format!("{}/{}", d, n) };
                if let Some(i) = file.find("/@/") {
                    file.truncate(i);
                }
            }
        }
        if s.starts_with("!DISubprogram") {
            let mut name = field(s, "name").unwrap_or("").to_string();
            let mut sc = idf(s, "scope");
            for _ in 0..32 {
                match m.dbg.get(&sc) {
                    Some(n) if n.starts_with("!DINamespace") || n.starts_with("!DICompositeType") => {
                        name = format!("{}::{}", field(n, "name").unwrap_or(""), name);
                        sc = idf(n, "scope");
                    }
                    _ => break,
                }
            }
            return (name, file);
        }
        scope = idf(s, "scope");
    }
    (String::new(), file)
}

/// Inline chain of a location, innermost first: "function (file:line)".
pub fn chain(m: &Module, mut loc: u32) -> Vec<String> {
    let mut out = vec![];
    for _ in 0..32 {
        let s = match m.dbg.get(&loc) {
            Some(s) if s.starts_with("!DILocation") => *s,
            _ => break,
        };
        let line = field(s, "line").unwrap_or("0");
        let (name, file) = subprogram(m, idf(s, "scope"));
        out.push(format!("{} ({}:{})", name, file, line));
        loc = idf(s, "inlinedAt");
        if loc == 0 {
            break;
        }
    }
    out
}

/// Functions and lines under the given path prefix that the executed blocks came from.
pub fn coverage(m: &Module, cov: &std::collections::HashMap<u32, BTreeSet<u32>>, prefix: &str) -> (BTreeSet<String>, BTreeSet<(String, u32)>) {
    let mut funcs = BTreeSet::new();
    let mut lines = BTreeSet::new();
    let mut seen = BTreeSet::new();
    for (f, bs) in cov {
        let f = m.func(*f);
        for b in bs {
            for i in &f.blocks[*b as usize].insts {
                let mut loc = i.dbg;
                for _ in 0..32 {
                    if loc == 0 || !seen.insert(loc) {
                        break;
                    }
                    let s = match m.dbg.get(&loc) {
                        Some(s) if s.starts_with("!DILocation") => *s,
                        _ => break,
                    };
                    let line: u32 = field(s, "line").unwrap_or("0").parse().unwrap_or(0);
                    let (name, file) = subprogram(m, idf(s, "scope"));
                    if file.starts_with(prefix) {
                        funcs.insert(name);
                        lines.insert((file, line));
                    }
                    loc = idf(s, "inlinedAt");
                }
            }
        }
    }
    (funcs, lines)
}
