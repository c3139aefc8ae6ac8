//! A minimal JSON reader and writer (no dependency, quick to build).
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        static NULL: J = J::Null;
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Num(n) => *n,
            J::Bool(b) => *b as i64,
            _ => 0,
        }
    }
    pub fn int_or(&self, d: i64) -> i64 {
        match self {
            J::Num(n) => *n,
            _ => d,
        }
    }
    pub fn bool(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn is_null(&self) -> bool {
        *self == J::Null
    }
    pub fn s(v: &str) -> J {
        J::Str(v.to_string())
    }
    pub fn obj(kv: Vec<(&str, J)>) -> J {
        J::Obj(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn dump(&self) -> String {
        let mut s = String::new();
        self.w(&mut s);
        s
    }
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => write!(o, "{}", n).unwrap(),
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']');
            }
            J::Obj(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    J::Str(k.clone()).w(o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}');
            }
        }
    }
}

pub fn parse(s: &str) -> J {
    let b = s.as_bytes();
    let mut p = 0;
    let v = val(b, &mut p);
    v
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_whitespace() {
        *p += 1
    }
}

fn val(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut m = BTreeMap::new();
            ws(b, p);
            if b[*p] == b'}' {
                *p += 1;
                return J::Obj(m);
            }
            loop {
                ws(b, p);
                let k = match val(b, p) {
                    J::Str(s) => s,
                    _ => panic!("json key"),
                };
                ws(b, p);
                assert_eq!(b[*p], b':');
                *p += 1;
                let v = val(b, p);
                m.insert(k, v);
                ws(b, p);
                *p += 1;
                if b[*p - 1] == b'}' {
                    return J::Obj(m);
                }
                assert_eq!(b[*p - 1], b',');
            }
        }
        b'[' => {
            *p += 1;
            let mut v = vec![];
            ws(b, p);
            if b[*p] == b']' {
                *p += 1;
                return J::Arr(v);
            }
            loop {
                v.push(val(b, p));
                ws(b, p);
                *p += 1;
                if b[*p - 1] == b']' {
                    return J::Arr(v);
                }
                assert_eq!(b[*p - 1], b',');
            }
        }
        b'"' => {
            *p += 1;
            let mut s = Vec::new();
            while b[*p] != b'"' {
                if b[*p] == b'\\' {
                    *p += 1;
                    match b[*p] {
                        b'n' => s.push(b'\n'),
                        b't' => s.push(b'\t'),
                        b'u' => {
                            let n = u32::from_str_radix(std::str::from_utf8(&b[*p + 1..*p + 5]).unwrap(), 16).unwrap();
                            let mut t = [0; 4];
                            s.extend_from_slice(char::from_u32(n).unwrap().encode_utf8(&mut t).as_bytes());
                            *p += 4;
                        }
                        c => s.push(c),
                    }
                } else {
                    s.push(b[*p]);
                }
                *p += 1;
            }
            *p += 1;
            J::Str(String::from_utf8(s).unwrap())
        }
        b't' => {
            *p += 4;
            J::Bool(true)
        }
        b'f' => {
            *p += 5;
            J::Bool(false)
        }
        b'n' => {
            *p += 4;
            J::Null
        }
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
                *p += 1
            }
            let t = std::str::from_utf8(&b[st..*p]).unwrap();
            J::Num(t.parse().unwrap_or_else(|_| panic!("json number {:?}", t)))
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        write!(s, "{:02x}", x).unwrap()
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    (0..b.len() / 2).map(|i| u8::from_str_radix(std::str::from_utf8(&b[2 * i..2 * i + 2]).unwrap(), 16).unwrap()).collect()
}
