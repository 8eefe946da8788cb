//! A small JSON reader for the case files printed by TLC.
#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1).unwrap_or_else(|| panic!("no field {} in {:?}", k, self)),
            _ => panic!("not an object: {:?}", self),
        }
    }
    pub fn has(&self, k: &str) -> bool {
        matches!(self, J::Obj(v) if v.iter().any(|x| x.0 == k))
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Num(n) => *n as i64,
            _ => panic!("not a number: {:?}", self),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            J::Bool(b) => *b,
            _ => panic!("not a boolean: {:?}", self),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("not a string: {:?}", self),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            J::Obj(a) if a.is_empty() => &[],
            _ => panic!("not an array: {:?}", self),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.arr().iter().map(|x| x.int() as u8).collect()
    }
    /// 16-bit digits, most significant first
    pub fn limbs(&self) -> u64 {
        self.arr().iter().fold(0u64, |a, x| (a << 16) | (x.int() as u64))
    }
}
pub fn parse(s: &str) -> J {
    let b = s.as_bytes();
    let mut i = 0;
    value(b, &mut i)
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}
fn value(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'{' => {
            *i += 1;
            let mut v = Vec::new();
            loop {
                ws(b, i);
                if b[*i] == b'}' {
                    *i += 1;
                    return J::Obj(v);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                let k = match value(b, i) {
                    J::Str(s) => s,
                    x => panic!("bad key {:?}", x),
                };
                ws(b, i);
                assert_eq!(b[*i], b':');
                *i += 1;
                v.push((k, value(b, i)));
            }
        }
        b'[' => {
            *i += 1;
            let mut v = Vec::new();
            loop {
                ws(b, i);
                if b[*i] == b']' {
                    *i += 1;
                    return J::Arr(v);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                v.push(value(b, i));
            }
        }
        b'"' => {
            *i += 1;
            let mut s = Vec::new();
            while b[*i] != b'"' {
                if b[*i] == b'\\' {
                    *i += 1;
                    match b[*i] {
                        b'n' => s.push(b'\n'),
                        b't' => s.push(b'\t'),
                        c => s.push(c),
                    }
                } else {
                    s.push(b[*i]);
                }
                *i += 1;
            }
            *i += 1;
            J::Str(String::from_utf8(s).unwrap())
        }
        b't' => {
            *i += 4;
            J::Bool(true)
        }
        b'f' => {
            *i += 5;
            J::Bool(false)
        }
        b'n' => {
            *i += 4;
            J::Null
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i] == b'+' || b[*i] == b'.' || b[*i] == b'e' || b[*i] == b'E' || b[*i].is_ascii_digit()) {
                *i += 1;
            }
            J::Num(std::str::from_utf8(&b[st..*i]).unwrap().parse().unwrap_or_else(|_| panic!("bad number at {}", st)))
        }
    }
}
pub fn lines(p: &std::path::Path) -> Vec<J> {
    std::fs::read_to_string(p).unwrap().lines().filter(|l| !l.trim().is_empty()).map(parse).collect()
}
