//! A small JSON reader that keeps numbers as text, so that a changed digit is noticed.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(m) => m.iter().find(|(x, _)| x == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&Vec<J>> {
        match self {
            J::Arr(v) => Some(v),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn strs(&self) -> Option<Vec<String>> {
        self.arr()?.iter().map(|x| x.str().map(|s| s.to_string())).collect()
    }
    pub fn num(&self) -> Option<f64> {
        match self {
            J::Num(s) => s.parse().ok(),
            _ => None,
        }
    }
    /// Equal as values: the same numbers (as written or as the doubles they denote), the members of
    /// objects in any order.
    pub fn same(&self, o: &J) -> bool {
        match (self, o) {
            (J::Num(a), J::Num(b)) => {
                let int = |s: &str| s.parse::<i128>().ok();
                match (int(a), int(b)) {
                    (Some(x), Some(y)) => x == y,
                    _ => a == b || a.parse::<f64>().ok().filter(|x| x.is_finite()) == b.parse::<f64>().ok(),
                }
            }
            (J::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (J::Obj(a), J::Obj(b)) => a.len() == b.len() && a.iter().all(|(k, v)| o.get(k).map_or(false, |w| v.same(w))),
            _ => self == o,
        }
    }
    pub fn parse(s: &str) -> Option<J> {
        let c: Vec<char> = s.chars().collect();
        let mut i = 0;
        let v = value(&c, &mut i)?;
        ws(&c, &mut i);
        if i == c.len() {
            Some(v)
        } else {
            None
        }
    }
}
fn ws(c: &[char], i: &mut usize) {
    while *i < c.len() && matches!(c[*i], ' ' | '\n' | '\r' | '\t') {
        *i += 1;
    }
}
fn string(c: &[char], i: &mut usize) -> Option<String> {
    if c.get(*i) != Some(&'"') {
        return None;
    }
    *i += 1;
    let mut out: Vec<u16> = vec![];
    loop {
        let ch = *c.get(*i)?;
        *i += 1;
        match ch {
            '"' => return String::from_utf16(&out).ok(),
            '\\' => {
                let e = *c.get(*i)?;
                *i += 1;
                let k = match e {
                    'n' => '\n',
                    't' => '\t',
                    'r' => '\r',
                    'b' => '\u{8}',
                    'f' => '\u{c}',
                    'u' => {
                        let h: String = c.get(*i..*i + 4)?.iter().collect();
                        *i += 4;
                        out.push(u16::from_str_radix(&h, 16).ok()?);
                        continue;
                    }
                    '"' | '\\' | '/' => e,
                    _ => return None,
                };
                out.push(k as u16);
            }
            ch if (ch as u32) < 0x20 => return None,
            ch => {
                let mut b = [0u16; 2];
                out.extend_from_slice(ch.encode_utf16(&mut b));
            }
        }
    }
}
fn value(c: &[char], i: &mut usize) -> Option<J> {
    ws(c, i);
    let lit = |w: &str, v: J, i: &mut usize| {
        let n = w.chars().count();
        if c.get(*i..*i + n)?.iter().collect::<String>() == w {
            *i += n;
            Some(v)
        } else {
            None
        }
    };
    match *c.get(*i)? {
        'n' => lit("null", J::Null, i),
        't' => lit("true", J::Bool(true), i),
        'f' => lit("false", J::Bool(false), i),
        '"' => string(c, i).map(J::Str),
        '[' => {
            *i += 1;
            let mut v = vec![];
            ws(c, i);
            if c.get(*i) == Some(&']') {
                *i += 1;
                return Some(J::Arr(v));
            }
            loop {
                v.push(value(c, i)?);
                ws(c, i);
                let d = *c.get(*i)?;
                *i += 1;
                match d {
                    ',' => {}
                    ']' => return Some(J::Arr(v)),
                    _ => return None,
                }
            }
        }
        '{' => {
            *i += 1;
            let mut v = vec![];
            ws(c, i);
            if c.get(*i) == Some(&'}') {
                *i += 1;
                return Some(J::Obj(v));
            }
            loop {
                ws(c, i);
                let k = string(c, i)?;
                ws(c, i);
                if c.get(*i) != Some(&':') {
                    return None;
                }
                *i += 1;
                let x = value(c, i)?;
                v.push((k, x));
                ws(c, i);
                let d = *c.get(*i)?;
                *i += 1;
                match d {
                    ',' => {}
                    '}' => return Some(J::Obj(v)),
                    _ => return None,
                }
            }
        }
        d if d == '-' || d.is_ascii_digit() => {
            let s = *i;
            while *i < c.len() && matches!(c[*i], '-' | '+' | '.' | 'e' | 'E' | '0'..='9') {
                *i += 1;
            }
            let t: String = c[s..*i].iter().collect();
            t.parse::<f64>().ok()?;
            Some(J::Num(t))
        }
        _ => None,
    }
}
