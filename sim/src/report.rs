//! Just enough JSON.

use std::fmt::Write;

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' || c == '\u{2028}' || c == '\u{2029}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn list<T: AsRef<str>>(v: &[T]) -> String {
    let x: Vec<String> = v.iter().map(|s| esc(s.as_ref())).collect();
    format!("[{}]", x.join(", "))
}

pub fn lines<T: AsRef<str>>(v: &[T], indent: &str) -> String {
    if v.is_empty() {
        return "[]".into();
    }
    let x: Vec<String> = v.iter().map(|s| format!("{indent}  {}", esc(s.as_ref()))).collect();
    format!("[\n{}\n{indent}]", x.join(",\n"))
}

/// The value of a numeric or string member of a flat JSON text.
pub fn member(s: &str, key: &str) -> Option<String> {
    let k = format!("\"{key}\":");
    let at = s.find(&k)? + k.len();
    let r = s[at..].trim_start();
    if let Some(q) = r.strip_prefix('"') {
        let mut out = String::new();
        let mut it = q.chars();
        while let Some(c) = it.next() {
            match c {
                '"' => return Some(out),
                '\\' => match it.next()? {
                    'n' => out.push('\n'),
                    't' => out.push('\t'),
                    'u' => {
                        let h: String = it.by_ref().take(4).collect();
                        out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                    }
                    c => out.push(c),
                },
                c => out.push(c),
            }
        }
        None
    } else {
        let end = r.find([',', '}', '\n', ']'])?;
        Some(r[..end].trim().to_string())
    }
}

/// The numbers of an array member.
pub fn numbers(s: &str, key: &str) -> Option<Vec<u64>> {
    let k = format!("\"{key}\":");
    let at = s.find(&k)? + k.len();
    let r = s[at..].trim_start().strip_prefix('[')?;
    let end = r.find(']')?;
    let body = r[..end].trim();
    if body.is_empty() {
        return Some(vec![]);
    }
    body.split(',').map(|x| x.trim().parse().ok()).collect()
}
