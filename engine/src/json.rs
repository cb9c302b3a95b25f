//! Just enough JSON: writing, and reading back flat string->number maps.
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// A model is written as lines `name kind bits`, which needs no parser.
pub fn model_text(vals: &[(String, u64)]) -> String {
    let mut s = String::new();
    for (n, v) in vals {
        s += &format!("{n} {v:#x}\n");
    }
    s
}

pub fn parse_model(t: &str) -> std::collections::HashMap<String, u64> {
    let mut m = std::collections::HashMap::new();
    for l in t.lines() {
        let mut it = l.split_whitespace();
        if let (Some(n), Some(v)) = (it.next(), it.next()) {
            if let Some(h) = v.strip_prefix("0x") {
                if let Ok(x) = u64::from_str_radix(h, 16) {
                    m.insert(n.to_string(), x);
                }
            }
        }
    }
    m
}
