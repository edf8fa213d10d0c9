//! The checks' own description of the two file formats, line by line.
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub enum Co {
    AddV(u64),
    RmV(u64),
    AddE(u64, u64),
    RmE(u64, u64),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Class {
    /// empty line or comment
    Skip,
    Cmd(Co),
    Bad,
    /// the documentation does not settle it: both outcomes are fine
    Open,
}

/// Splits file content into lines the way text files are: "\n" ends a line, and a "\r"
/// before it belongs to the line end; the last line need not be ended.
pub fn split_lines(b: &[u8]) -> Vec<&[u8]> {
    let mut out: Vec<&[u8]> = b.split(|c| *c == b'\n').collect();
    if out.last().map(|l| l.is_empty()).unwrap_or(false) {
        out.pop();
    } else if !out.is_empty() {
        // the unterminated last line keeps its "\r"
        let last = out.pop().unwrap();
        let mut v: Vec<&[u8]> = out.into_iter().map(chomp).collect();
        v.push(last);
        return v;
    }
    out.into_iter().map(chomp).collect()
}
fn chomp(l: &[u8]) -> &[u8] {
    l.strip_suffix(b"\r").unwrap_or(l)
}

fn digits(s: &str) -> (&str, &str) {
    let n = s.bytes().take_while(|b| b.is_ascii_digit()).count();
    s.split_at(n)
}
fn odd_digit(s: &str) -> bool {
    s.chars().any(|c| !c.is_ascii() && c.is_numeric())
}

pub fn gcmd_line(l: &[u8]) -> Class {
    let Ok(s) = std::str::from_utf8(l) else {
        return if l.trim_ascii_start().first() == Some(&b'#') { Class::Open } else { Class::Bad };
    };
    if s.is_empty() || s.trim().starts_with('#') {
        return Class::Skip;
    }
    let one = |r: &str| -> Option<u64> {
        let (d, rest) = digits(r);
        if rest.is_empty() { d.parse().ok() } else { None }
    };
    let two = |r: &str| -> Option<(u64, u64)> {
        let (d, rest) = digits(r);
        let t = rest.trim_start();
        if t.len() == rest.len() {
            return None;
        }
        let (e, end) = digits(t);
        if !end.is_empty() {
            return None;
        }
        Some((d.parse().ok()?, e.parse().ok()?))
    };
    let c = if let Some(r) = s.strip_prefix("AddVertex ") {
        one(r).map(Co::AddV)
    } else if let Some(r) = s.strip_prefix("RemoveVertex ") {
        one(r).map(Co::RmV)
    } else if let Some(r) = s.strip_prefix("AddEdge ") {
        two(r).map(|p| Co::AddE(p.0, p.1))
    } else if let Some(r) = s.strip_prefix("RemoveEdge ") {
        two(r).map(|p| Co::RmE(p.0, p.1))
    } else {
        None
    };
    c.map(Class::Cmd).unwrap_or(Class::Bad)
}

pub fn tgf_line(l: &[u8]) -> Class {
    let Ok(s) = std::str::from_utf8(l) else {
        return if l.trim_ascii_start().first() == Some(&b'#') { Class::Open } else { Class::Bad };
    };
    if s.is_empty() || s.trim().starts_with('#') {
        return Class::Skip;
    }
    let (d, rest) = digits(s);
    if d.is_empty() {
        return if odd_digit(&s.chars().take(1).collect::<String>()) { Class::Bad } else { Class::Bad };
    }
    let t = rest.trim_start();
    let (e, tail) = digits(t);
    let next = |x: &str| x.chars().next().map(|c| odd_digit(&c.to_string())).unwrap_or(false);
    if next(rest) || (t.len() < rest.len() && (next(t) || (!e.is_empty() && next(tail)))) {
        return Class::Open;
    }
    if t.len() < rest.len() && !e.is_empty() {
        match (d.parse(), e.parse()) {
            (Ok(a), Ok(b)) => Class::Cmd(Co::AddE(a, b)),
            _ => Class::Bad,
        }
    } else {
        match d.parse() {
            Ok(a) => Class::Cmd(Co::AddV(a)),
            _ => Class::Bad,
        }
    }
}

/// What reading a file must do.
pub enum Expect {
    Commands(Vec<Co>),
    ErrorAt(usize),
    /// lines (1-based) at which an error is allowed; None = acceptance allowed too
    Open { lines: Vec<usize>, accept: bool },
}
pub fn expect(b: &[u8], line: fn(&[u8]) -> Class) -> Expect {
    let mut cmds = vec![];
    let mut open = vec![];
    for (i, l) in split_lines(b).into_iter().enumerate() {
        match line(l) {
            Class::Skip => {}
            Class::Cmd(c) => cmds.push(c),
            Class::Open => open.push(i + 1),
            Class::Bad => {
                if open.is_empty() {
                    return Expect::ErrorAt(i + 1);
                }
                open.push(i + 1);
                return Expect::Open { lines: open, accept: false };
            }
        }
    }
    if open.is_empty() {
        Expect::Commands(cmds)
    } else {
        Expect::Open { lines: open, accept: true }
    }
}

/// The line number an error message names.
pub fn named_line(msg: &str) -> Option<usize> {
    let low = msg.to_lowercase();
    let at = low.find("line")?;
    let r: String = low[at + 4..]
        .chars()
        .skip_while(|c| !c.is_ascii_digit())
        .take_while(|c| c.is_ascii_digit())
        .collect();
    r.parse().ok()
}
