//! Operations of a history, and their text form (one per line) for replay files.

macro_rules! kinds {
    ($($name:ident),+ $(,)?) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub enum K { $($name),+ }
        impl K {
            pub const ALL: &'static [K] = &[$(K::$name),+];
            pub fn name(&self) -> &'static str { match self { $(K::$name => stringify!($name)),+ } }
            pub fn parse(s: &str) -> Option<K> { match s { $(stringify!($name) => Some(K::$name),)+ _ => None } }
        }
    };
}

kinds!(
    CreateDoc, CreateDocType, CreateElement, CreateElementNs, CreateAttr, CreateAttrWith, CreateAttrNs,
    CreateText, CreateCData, CreateComment, CreatePI, CreateEntRef, CreateFragment, CreateEntity,
    CreateInternalEntity, CreateNotation, Append, InsertBefore, Replace, Remove, Clone, Normalize, Split,
    AppendData, InsertData, DeleteData, ReplaceData, Substring, SetData, UnsetData, SetNodeValue,
    UnsetNodeValue, SetPiData, UnsetPiData, SetValue, UnsetValue, SetAttribute, SetAttributeNs,
    RemoveAttribute, RemoveAttributeNs, SetAttributeNode, SetAttributeNodeNs, RemoveAttributeNode,
    SetDecl, GetChild, GetAttrNode, GetParent, GetOwnerDoc, GetOwnerElement, GetDocElement, GetDocType,
    GetById, GetNext, GetPrev, CopySlot, Drop, ReadAll
);

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Op {
    pub k: K,
    pub out: i32,
    pub n: [i32; 3],
    pub i: [u64; 2],
    pub s: [Option<String>; 3],
}

impl Op {
    pub fn new(k: K) -> Self {
        Op { k, out: -1, n: [-1; 3], i: [0; 2], s: [None, None, None] }
    }
    pub fn out(mut self, o: usize) -> Self {
        self.out = o as i32;
        self
    }
    pub fn n(mut self, i: usize, slot: usize) -> Self {
        self.n[i] = slot as i32;
        self
    }
    pub fn i(mut self, i: usize, v: u64) -> Self {
        self.i[i] = v;
        self
    }
    pub fn s(mut self, i: usize, v: &str) -> Self {
        self.s[i] = Some(v.to_string());
        self
    }
    pub fn so(mut self, i: usize, v: Option<&str>) -> Self {
        self.s[i] = v.map(|x| x.to_string());
        self
    }
    pub fn str(&self, i: usize) -> &str {
        self.s[i].as_deref().unwrap_or("")
    }
    pub fn line(&self) -> String {
        format!(
            "{} out={} n={},{},{} i={},{} s={},{},{}",
            self.k.name(),
            self.out,
            self.n[0],
            self.n[1],
            self.n[2],
            self.i[0],
            self.i[1],
            enc(self.s[0].as_deref()),
            enc(self.s[1].as_deref()),
            enc(self.s[2].as_deref())
        )
    }
    pub fn parse(line: &str) -> Option<Op> {
        let f: Vec<&str> = line.split(' ').collect();
        if f.len() != 5 {
            return None;
        }
        let mut op = Op::new(K::parse(f[0])?);
        op.out = f[1].strip_prefix("out=")?.parse().ok()?;
        let n: Vec<&str> = f[2].strip_prefix("n=")?.split(',').collect();
        let i: Vec<&str> = f[3].strip_prefix("i=")?.split(',').collect();
        let s: Vec<&str> = f[4].strip_prefix("s=")?.split(',').collect();
        for x in 0..3 {
            op.n[x] = n.get(x)?.parse().ok()?;
            op.s[x] = dec(s.get(x)?)?;
        }
        for x in 0..2 {
            op.i[x] = i.get(x)?.parse().ok()?;
        }
        Some(op)
    }
}

/// `-` for none, otherwise a quoted string without blanks or commas.
pub fn enc(s: Option<&str>) -> String {
    match s {
        None => "-".into(),
        Some(s) => {
            let mut r = String::from("\"");
            for c in s.chars() {
                if c.is_ascii_graphic() && c != '"' && c != '\\' && c != ',' {
                    r.push(c)
                } else {
                    r.push_str(&format!("\\u{{{:x}}}", c as u32))
                }
            }
            r.push('"');
            r
        }
    }
}

pub fn dec(s: &str) -> Option<Option<String>> {
    if s == "-" {
        return Some(None);
    }
    let body = s.strip_prefix('"')?.strip_suffix('"')?;
    let mut out = String::new();
    let mut rest = body;
    while let Some(p) = rest.find("\\u{") {
        out.push_str(&rest[..p]);
        let e = rest[p..].find('}')? + p;
        out.push(char::from_u32(u32::from_str_radix(&rest[p + 3..e], 16).ok()?)?);
        rest = &rest[e + 1..];
    }
    out.push_str(rest);
    Some(Some(out))
}

pub fn ops_text(ops: &[Op]) -> String {
    let mut r = String::new();
    for o in ops {
        r.push_str(&o.line());
        r.push('\n');
    }
    r
}

pub fn parse_ops(text: &str) -> Vec<Op> {
    text.lines().filter(|l| !l.is_empty() && !l.starts_with('#')).filter_map(Op::parse).collect()
}
