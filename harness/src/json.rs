//! Minimal JSON reader (the scripts contain only objects, arrays, strings, booleans and integers).
#[derive(Clone, Debug)]
pub enum J { Null, Bool(bool), Int(i64), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }

pub struct Parser<'a> { s: &'a [u8], i: usize }

pub fn parse(s: &str) -> J {
    let mut p = Parser { s: s.as_bytes(), i: 0 };
    p.value()
}

impl<'a> Parser<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] as char).is_whitespace() { self.i += 1; } }
    fn value(&mut self) -> J {
        self.ws();
        match self.s[self.i] {
            b'{' => {
                self.i += 1;
                let mut v = Vec::new();
                loop {
                    self.ws();
                    match self.s[self.i] {
                        b'}' => { self.i += 1; return J::Obj(v); }
                        b',' => { self.i += 1; }
                        _ => {
                            let k = self.string();
                            self.ws();
                            assert!(self.s[self.i] == b':');
                            self.i += 1;
                            let x = self.value();
                            v.push((k, x));
                        }
                    }
                }
            }
            b'[' => {
                self.i += 1;
                let mut v = Vec::new();
                loop {
                    self.ws();
                    match self.s[self.i] {
                        b']' => { self.i += 1; return J::Arr(v); }
                        b',' => { self.i += 1; }
                        _ => v.push(self.value()),
                    }
                }
            }
            b'"' => J::Str(self.string()),
            b't' => { self.i += 4; J::Bool(true) }
            b'f' => { self.i += 5; J::Bool(false) }
            b'n' => { self.i += 4; J::Null }
            _ => {
                let st = self.i;
                while self.i < self.s.len() && (self.s[self.i] == b'-' || self.s[self.i].is_ascii_digit()) { self.i += 1; }
                J::Int(std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().expect("integer"))
            }
        }
    }
    fn string(&mut self) -> String {
        self.ws();
        assert!(self.s[self.i] == b'"');
        self.i += 1;
        let st = self.i;
        while self.s[self.i] != b'"' { assert!(self.s[self.i] != b'\\', "escapes not supported"); self.i += 1; }
        let r = std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string();
        self.i += 1;
        r
    }
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        self.opt(k).unwrap_or_else(|| panic!("script: missing field {}", k))
    }
    pub fn opt(&self, k: &str) -> Option<&J> {
        match self { J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, x)| x), _ => None }
    }
    pub fn int(&self) -> i64 { match self { J::Int(i) => *i, _ => panic!("script: integer expected, got {:?}", self) } }
    pub fn i32(&self) -> i32 { self.int() as i32 }
    pub fn us(&self) -> usize { self.int() as usize }
    pub fn str(&self) -> &str { match self { J::Str(s) => s, _ => panic!("script: string expected") } }
    pub fn arr(&self) -> &Vec<J> { match self { J::Arr(v) => v, _ => panic!("script: array expected, got {:?}", self) } }
}
