//! Independent re-implementations of the grammars and text transformations.
use xml_dom::level2::Error;

pub const XML_NS: &str = "http://www.w3.org/XML/1998/namespace";
pub const XMLNS_NS: &str = "http://www.w3.org/2000/xmlns/";

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct QName {
    pub ns: Option<String>,
    pub prefix: Option<String>,
    pub local: String,
}

impl QName {
    pub fn plain(s: &str) -> Self {
        QName { ns: None, prefix: None, local: s.to_string() }
    }
    pub fn qualified(&self) -> String {
        match &self.prefix {
            Some(p) => format!("{}:{}", p, self.local),
            None => self.local.clone(),
        }
    }
    pub fn is_ns_decl(&self) -> bool {
        self.ns.as_deref() == Some(XMLNS_NS)
            && (self.prefix.as_deref() == Some("xmlns")
                || (self.prefix.is_none() && self.local == "xmlns"))
    }
    pub fn declared_prefix(&self) -> Option<String> {
        if self.prefix.is_some() {
            Some(self.local.clone())
        } else {
            None
        }
    }
    pub fn is_id(&self, lax: bool) -> bool {
        self.local == "id"
            && (lax || self.ns.as_deref() == Some(XML_NS) || self.prefix.as_deref() == Some("xml"))
    }
}

const START: &[(u32, u32)] = &[
    (0x41, 0x5A),
    (0x5F, 0x5F),
    (0x61, 0x7A),
    (0xC0, 0xD6),
    (0xD8, 0xF6),
    (0xF8, 0x2FF),
    (0x370, 0x37D),
    (0x37F, 0x1FFF),
    (0x200C, 0x200D),
    (0x2070, 0x218F),
    (0x2C00, 0x2FEF),
    (0x3001, 0xD7FF),
    (0xF900, 0xFDCF),
    (0xFDF0, 0xFFFD),
    (0x10000, 0xEFFFF),
];
const REST: &[(u32, u32)] = &[(0x2D, 0x2E), (0x30, 0x39), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040)];

fn within(t: &[(u32, u32)], c: char) -> bool {
    let c = c as u32;
    t.iter().any(|(a, b)| *a <= c && c <= *b)
}
/// NameStartChar without the colon.
pub fn nc_start(c: char) -> bool {
    within(START, c)
}
/// NameChar without the colon.
pub fn nc_char(c: char) -> bool {
    within(START, c) || within(REST, c)
}
pub fn is_ncname(s: &str) -> bool {
    let mut it = s.chars();
    match it.next() {
        None => false,
        Some(c) => nc_start(c) && it.all(nc_char),
    }
}

/// Parse a qualified name. The error is the set of errors that are acceptable.
pub fn parse_qname(s: &str) -> Result<QName, Vec<Error>> {
    if s.is_empty() {
        return Err(vec![Error::Syntax]);
    }
    let parts: Vec<&str> = s.split(':').collect();
    let mut errs = vec![];
    if parts.len() > 2 || parts.iter().any(|p| p.is_empty()) {
        errs.push(Error::Syntax);
    }
    if parts.iter().any(|p| !p.is_empty() && !is_ncname(p)) {
        errs.push(Error::InvalidCharacter);
    }
    if !errs.is_empty() {
        return Err(errs);
    }
    Ok(if parts.len() == 1 {
        QName { ns: None, prefix: None, local: parts[0].into() }
    } else {
        QName { ns: None, prefix: Some(parts[0].into()), local: parts[1].into() }
    })
}

pub fn parse_qname_ns(ns: &str, s: &str) -> Result<QName, Vec<Error>> {
    let mut errs = vec![];
    if ns.is_empty() {
        errs.push(Error::Syntax);
    }
    match parse_qname(s) {
        Err(e) => {
            for x in e {
                if !errs.contains(&x) {
                    errs.push(x)
                }
            }
        }
        Ok(mut q) => {
            if !ns.is_empty() {
                let pre = q.prefix.as_deref();
                if (pre == Some("xml") && ns != XML_NS)
                    || (pre == Some("xmlns") && ns != XMLNS_NS)
                    || (q.local == "xml" && ns != XML_NS)
                    || (q.local == "xmlns" && ns != XMLNS_NS)
                {
                    errs.push(Error::Namespace);
                }
            }
            if errs.is_empty() {
                q.ns = Some(ns.to_string());
                return Ok(q);
            }
        }
    }
    Err(errs)
}

pub fn escape(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '&' => r.push_str("&#38;"),
            '\'' => r.push_str("&#39;"),
            '>' => r.push_str("&#62;"),
            '<' => r.push_str("&#60;"),
            '"' => r.push_str("&#34;"),
            c => r.push(c),
        }
    }
    r
}

/// Undo `escape` exactly (only the five references it can produce).
pub fn unescape(s: &str) -> Option<String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out.push_str(&rest[..i]);
        let tail = &rest[i..];
        let (n, c) = if tail.starts_with("&#38;") {
            (5, '&')
        } else if tail.starts_with("&#39;") {
            (5, '\'')
        } else if tail.starts_with("&#62;") {
            (5, '>')
        } else if tail.starts_with("&#60;") {
            (5, '<')
        } else if tail.starts_with("&#34;") {
            (5, '"')
        } else {
            return None;
        };
        out.push(c);
        rest = &tail[n..];
    }
    out.push_str(rest);
    Some(out)
}

/// Attribute value: end-of-line handling, references, white space, trim. Not escaped.
pub fn normalize_attr(raw: &str) -> String {
    // end of lines
    let cs: Vec<char> = raw.chars().collect();
    let mut l = vec![];
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '\r' => {
                if i + 1 < cs.len() && (cs[i + 1] == '\n' || cs[i + 1] == '\u{85}') {
                    i += 1;
                }
                l.push('\n');
            }
            '\u{85}' | '\u{2028}' => l.push('\n'),
            c => l.push(c),
        }
        i += 1;
    }
    // references and white space
    let mut out = String::new();
    let mut i = 0;
    while i < l.len() {
        let c = l[i];
        if c == '&' && i + 1 < l.len() && l[i + 1] == '#' {
            if let Some((ch, next)) = char_ref(&l, i) {
                out.push(ch);
                i = next;
                continue;
            }
        }
        out.push(if c == '\t' || c == '\n' || c == '\r' { ' ' } else { c });
        i += 1;
    }
    out.trim_matches(' ').to_string()
}

fn char_ref(l: &[char], i: usize) -> Option<(char, usize)> {
    let mut j = i + 2;
    let radix = if j < l.len() && l[j] == 'x' {
        j += 1;
        16
    } else {
        10
    };
    let start = j;
    let mut v: u64 = 0;
    while j < l.len() && l[j].is_ascii() && l[j].is_digit(radix) {
        v = (v * radix as u64 + l[j].to_digit(radix).unwrap() as u64).min(1 << 40);
        j += 1;
    }
    if j == start || j >= l.len() || l[j] != ';' {
        return None;
    }
    let ch = char::from_u32(u32::try_from(v).ok()?)?;
    Some((ch, j + 1))
}

/// EncName ::= [A-Za-z] ([A-Za-z0-9._] | '-')*
pub fn is_encoding(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty()
        && b[0].is_ascii_alphabetic()
        && b[1..].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'.' || *c == b'_' || *c == b'-')
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn attr() {
        assert_eq!(normalize_attr(" a\r\nb&#65;&#x9;c "), "a bA\tc");
        assert_eq!(normalize_attr("&#xD800;&#;&#x;&a;"), "&#xD800;&#;&#x;&a;");
        assert_eq!(normalize_attr("&#38;#60;"), "&#60;");
    }
}
