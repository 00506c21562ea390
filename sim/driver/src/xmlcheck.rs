//! Independent well-formedness check of delivered documents.

/// None if the text is one well-formed XML element with optional prologue and epilogue.
pub fn problem(b: &[u8]) -> Option<String> {
    let s = match std::str::from_utf8(b) {
        Ok(s) => s,
        Err(_) => return Some("not UTF-8".into()),
    };
    let b = s.as_bytes();
    let mut i = 0;
    let mut stack: Vec<&str> = Vec::new();
    let mut roots = 0;
    let find = |from: usize, pat: &str| s[from..].find(pat).map(|k| from + k);
    while i < b.len() {
        if b[i] != b'<' {
            let e = find(i, "<").unwrap_or(b.len());
            if stack.is_empty() && !s[i..e].trim().is_empty() {
                return Some(format!("text outside the root element at {}", i));
            }
            i = e;
            continue;
        }
        if s[i..].starts_with("<?") {
            i = match find(i, "?>") {
                Some(e) => e + 2,
                None => return Some("unterminated declaration".into()),
            };
        } else if s[i..].starts_with("<!--") {
            i = match find(i + 4, "-->") {
                Some(e) => e + 3,
                None => return Some("unterminated comment".into()),
            };
        } else if s[i..].starts_with("<![CDATA[") {
            i = match find(i, "]]>") {
                Some(e) => e + 3,
                None => return Some("unterminated CDATA".into()),
            };
        } else if s[i..].starts_with("<!DOCTYPE") {
            // up to the matching '>'
            let mut k = i;
            let mut sq = false;
            let mut quote = 0u8;
            loop {
                if k >= b.len() {
                    return Some("unterminated DOCTYPE".into());
                }
                let c = b[k];
                if quote != 0 {
                    if c == quote {
                        quote = 0;
                    }
                } else if c == b'"' || c == b'\'' {
                    quote = c;
                } else if c == b'[' {
                    sq = true;
                } else if c == b']' {
                    sq = false;
                } else if c == b'>' && !sq {
                    break;
                }
                k += 1;
            }
            i = k + 1;
        } else if s[i..].starts_with("</") {
            let e = match find(i, ">") {
                Some(e) => e,
                None => return Some("unterminated end tag".into()),
            };
            let name = s[i + 2..e].trim();
            match stack.pop() {
                Some(n) if n == name => {}
                Some(n) => return Some(format!("</{}> closes <{}>", name, n)),
                None => return Some(format!("stray </{}>", name)),
            }
            i = e + 1;
        } else {
            // start tag
            let mut k = i + 1;
            while k < b.len() && !b" \t\r\n/>".contains(&b[k]) {
                k += 1;
            }
            let name = &s[i + 1..k];
            if name.is_empty() {
                return Some(format!("empty tag name at {}", i));
            }
            if stack.is_empty() {
                roots += 1;
                if roots > 1 {
                    return Some("more than one root element".into());
                }
            }
            let mut quote = 0u8;
            loop {
                if k >= b.len() {
                    return Some(format!("unterminated <{}>", name));
                }
                let c = b[k];
                if quote != 0 {
                    if c == quote {
                        quote = 0;
                    } else if c == b'<' {
                        return Some(format!("'<' in an attribute of <{}>", name));
                    }
                } else if c == b'"' || c == b'\'' {
                    quote = c;
                } else if c == b'<' {
                    return Some(format!("'<' inside <{}>", name));
                } else if c == b'>' {
                    break;
                }
                k += 1;
            }
            if b[k - 1] != b'/' {
                stack.push(name);
            }
            i = k + 1;
        }
    }
    if let Some(n) = stack.last() {
        return Some(format!("<{}> is not closed", n));
    }
    if roots == 0 {
        return Some("no root element".into());
    }
    None
}
