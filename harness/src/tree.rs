//! `Debug` output of a syntax tree (plain or pretty) as uniform nodes.

pub struct Node {
    pub k: String,
    pub s: String,
    pub c: Vec<Node>,
}

struct P<'a> {
    s: &'a [char],
    i: usize,
}

fn node(k: &str, s: String, c: Vec<Node>) -> Node {
    Node { k: k.to_string(), s, c }
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> Option<char> {
        self.ws();
        self.s.get(self.i).copied()
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn escaped(&mut self, q: char) -> Option<String> {
        let mut out = String::new();
        loop {
            let c = *self.s.get(self.i)?;
            self.i += 1;
            if c == q {
                return Some(out);
            }
            if c != '\\' {
                out.push(c);
                continue;
            }
            let e = *self.s.get(self.i)?;
            self.i += 1;
            out.push(match e {
                'n' => '\n',
                't' => '\t',
                'r' => '\r',
                '0' => '\0',
                '\\' | '"' | '\'' => e,
                'u' => {
                    if *self.s.get(self.i)? != '{' {
                        return None;
                    }
                    let mut v = 0u32;
                    loop {
                        self.i += 1;
                        match *self.s.get(self.i)? {
                            '}' => break,
                            h => v = v * 16 + h.to_digit(16)?,
                        }
                    }
                    self.i += 1;
                    std::char::from_u32(v)?
                }
                _ => return None,
            });
        }
    }
    fn list(&mut self, close: char, named: bool) -> Option<Vec<Node>> {
        let mut v = vec![];
        loop {
            if self.eat(close) {
                return Some(v);
            }
            if named {
                self.ident()?;
                if !self.eat(':') {
                    return None;
                }
            }
            v.push(self.value()?);
            if !self.eat(',') && self.peek() != Some(close) {
                return None;
            }
        }
    }
    fn ident(&mut self) -> Option<String> {
        self.ws();
        let mut out = String::new();
        while let Some(c) = self.s.get(self.i) {
            if c.is_alphanumeric() || *c == '_' {
                out.push(*c);
                self.i += 1;
            } else {
                break;
            }
        }
        if out.is_empty() {
            None
        } else {
            Some(out)
        }
    }
    fn value(&mut self) -> Option<Node> {
        match self.peek()? {
            '[' => {
                self.i += 1;
                Some(node("[]", String::new(), self.list(']', false)?))
            }
            '(' => {
                self.i += 1;
                Some(node("()", String::new(), self.list(')', false)?))
            }
            '"' => {
                self.i += 1;
                Some(node("Str", self.escaped('"')?, vec![]))
            }
            '\'' => {
                self.i += 1;
                let c = if self.s.get(self.i) == Some(&'\'') {
                    return None;
                } else {
                    self.escaped('\'')?
                };
                let code = c.chars().next()? as u32;
                Some(node("Chr", code.to_string(), vec![]))
            }
            c if c == '-' || c.is_ascii_digit() => {
                self.i += 1;
                let mut out = c.to_string();
                while let Some(d) = self.s.get(self.i) {
                    if d.is_ascii_digit() {
                        out.push(*d);
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                Some(node("Int", out, vec![]))
            }
            _ => {
                let k = self.ident()?;
                if self.s.get(self.i) == Some(&'(') {
                    self.i += 1;
                    Some(node(&k, String::new(), self.list(')', false)?))
                } else if self.peek() == Some('{') {
                    self.i += 1;
                    Some(node(&k, String::new(), self.list('}', true)?))
                } else {
                    Some(node(&k, String::new(), vec![]))
                }
            }
        }
    }
}

pub fn parse(text: &str) -> Option<Node> {
    let chars: Vec<char> = text.chars().collect();
    let mut p = P { s: &chars, i: 0 };
    let n = p.value()?;
    if p.peek().is_some() {
        return None;
    }
    Some(n)
}

/// The string literal at the start of the text.
pub fn quoted(text: &str) -> Option<String> {
    let chars: Vec<char> = text.chars().collect();
    let mut p = P { s: &chars, i: 1 };
    p.escaped('"')
}
