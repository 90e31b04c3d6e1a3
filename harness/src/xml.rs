//! A strict little XML parser (no DTDs).
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub text: String,
    pub kids: Vec<El>,
}

impl El {
    pub fn all<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a El> + 'a {
        self.kids.iter().filter(move |k| k.name == name)
    }
    pub fn one<'a>(&'a self, name: &'a str) -> Option<&'a El> {
        let mut it = self.all(name);
        let first = it.next()?;
        if it.next().is_some() { None } else { Some(first) }
    }
    /// text of the only child element of that name
    pub fn text_of(&self, name: &str) -> Option<String> {
        let e = self.one(name)?;
        if e.kids.is_empty() { Some(e.text.clone()) } else { None }
    }
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    lenient: bool,
}

/// like [`parse`], but references to characters outside of XML 1.0 are resolved: S3 names them so
pub fn parse_lenient(b: &[u8]) -> Result<El, String> {
    parse_as(b, true)
}

pub fn parse(b: &[u8]) -> Result<El, String> {
    parse_as(b, false)
}

fn parse_as(b: &[u8], lenient: bool) -> Result<El, String> {
    let text = std::str::from_utf8(b).map_err(|e| format!("not UTF-8: {e}"))?;
    if let Some(c) = text.chars().find(|&c| (c < ' ' && !matches!(c, '\t' | '\n' | '\r')) || matches!(c, '\u{fffe}' | '\u{ffff}')) {
        return Err(format!("character {c:?} is not allowed in XML"));
    }
    let mut p = P { s: text.as_bytes(), i: 0, lenient };
    if p.s[p.i..].starts_with(b"<?xml") {
        let e = p.find(b"?>").ok_or("unterminated declaration")?;
        p.i = e + 2;
    }
    p.misc()?;
    let root = p.element(0)?;
    p.misc()?;
    if p.i != p.s.len() {
        return Err(format!("trailing data at {}", p.i));
    }
    Ok(root)
}

impl P<'_> {
    fn find(&self, pat: &[u8]) -> Option<usize> {
        crate::http::find(&self.s[self.i..], pat).map(|n| n + self.i)
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\r' | b'\n') {
            self.i += 1;
        }
    }
    fn misc(&mut self) -> Result<(), String> {
        loop {
            self.ws();
            if self.s[self.i..].starts_with(b"<!--") {
                let e = self.find(b"-->").ok_or("unterminated comment")?;
                self.i = e + 3;
            } else {
                return Ok(());
            }
        }
    }
    fn name(&mut self) -> Result<String, String> {
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'-' | b'.' | b':') || self.s[self.i] >= 0x80) {
            self.i += 1;
        }
        if st == self.i || self.s[st].is_ascii_digit() || matches!(self.s[st], b'-' | b'.') {
            return Err(format!("name expected at {st}"));
        }
        Ok(String::from_utf8_lossy(&self.s[st..self.i]).into_owned())
    }
    fn reference(&mut self) -> Result<char, String> {
        let e = self.find(b";").ok_or("unterminated reference")?;
        let r = String::from_utf8_lossy(&self.s[self.i + 1..e]).into_owned();
        self.i = e + 1;
        let c = match r.as_str() {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = r.strip_prefix("#x") { u32::from_str_radix(h, 16).ok() } else { r.strip_prefix('#').and_then(|d| d.parse().ok()) };
                let c = n.and_then(char::from_u32).ok_or_else(|| format!("unknown reference &{r};"))?;
                if !self.lenient && (c < ' ' && !matches!(c, '\t' | '\n' | '\r') || matches!(c, '\u{fffe}' | '\u{ffff}')) {
                    return Err(format!("reference to a forbidden character &{r};"));
                }
                c
            }
        };
        Ok(c)
    }
    fn element(&mut self, depth: usize) -> Result<El, String> {
        if depth > 64 {
            return Err("too deep".into());
        }
        if self.s.get(self.i) != Some(&b'<') {
            return Err(format!("element expected at {}", self.i));
        }
        self.i += 1;
        let mut el = El { name: self.name()?, ..El::default() };
        loop {
            self.ws();
            match self.s.get(self.i) {
                Some(b'>') => {
                    self.i += 1;
                    break;
                }
                Some(b'/') if self.s.get(self.i + 1) == Some(&b'>') => {
                    self.i += 2;
                    return Ok(el);
                }
                Some(_) => {
                    let n = self.name()?;
                    self.ws();
                    if self.s.get(self.i) != Some(&b'=') {
                        return Err(format!("'=' expected at {}", self.i));
                    }
                    self.i += 1;
                    self.ws();
                    let q = *self.s.get(self.i).ok_or("end in attribute")?;
                    if q != b'"' && q != b'\'' {
                        return Err(format!("quote expected at {}", self.i));
                    }
                    self.i += 1;
                    let e = self.find(&[q]).ok_or("unterminated attribute")?;
                    el.attrs.push((n, String::from_utf8_lossy(&self.s[self.i..e]).into_owned()));
                    self.i = e + 1;
                }
                None => return Err("end in a tag".into()),
            }
        }
        let mut text: Vec<u8> = Vec::new();
        loop {
            match self.s.get(self.i) {
                None => return Err(format!("<{}> is not closed", el.name)),
                Some(b'<') => {
                    let rest = &self.s[self.i..];
                    if rest.starts_with(b"</") {
                        self.i += 2;
                        let n = self.name()?;
                        self.ws();
                        if self.s.get(self.i) != Some(&b'>') || n != el.name {
                            return Err(format!("</{n}> closes <{}>", el.name));
                        }
                        self.i += 1;
                        el.text = String::from_utf8(text).map_err(|e| e.to_string())?;
                        return Ok(el);
                    } else if rest.starts_with(b"<!--") {
                        let e = self.find(b"-->").ok_or("unterminated comment")?;
                        self.i = e + 3;
                    } else if rest.starts_with(b"<![CDATA[") {
                        let e = self.find(b"]]>").ok_or("unterminated CDATA")?;
                        text.extend_from_slice(&self.s[self.i + 9..e]);
                        self.i = e + 3;
                    } else {
                        el.kids.push(self.element(depth + 1)?);
                    }
                }
                Some(b'&') => {
                    let c = self.reference()?;
                    let mut b = [0; 4];
                    text.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
                }
                Some(b'\r') => {
                    // line ends are normalised
                    text.push(b'\n');
                    self.i += if self.s.get(self.i + 1) == Some(&b'\n') { 2 } else { 1 };
                }
                Some(&c) => {
                    if c == b'>' && text.ends_with(b"]]") {
                        return Err("]]> in text".into());
                    }
                    text.push(c);
                    self.i += 1;
                }
            }
        }
    }
}
