//! Executable reference model of KDL 1.0 as knuffel documents it: a plain
//! left-to-right recursive-descent reader with byte spans.  Shares no code with
//! the library under test.
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Sp { pub s: usize, pub e: usize }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum RLit { Null, Bool(bool), Int(u32, String), Dec(String), Str(String) }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RName { pub text: String, pub sp: Sp }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RValue { pub ty: Option<RName>, pub lit: RLit, pub sp: Sp }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RNode {
    pub sp: Sp,
    pub ty: Option<RName>,
    pub name: RName,
    pub args: Vec<RValue>,
    /// every surviving occurrence in source order
    pub props: Vec<(RName, RValue)>,
    pub children: Option<(Sp, Vec<RNode>)>,
}

impl RNode {
    /// name -> (spans of every occurrence of the key, last value)
    pub fn effective(&self) -> BTreeMap<&str, (Vec<Sp>, &RValue)> {
        let mut m: BTreeMap<&str, (Vec<Sp>, &RValue)> = BTreeMap::new();
        for (k, v) in &self.props {
            match m.get_mut(&k.text[..]) {
                Some(e) => { e.0.push(k.sp); e.1 = v; }
                None => { m.insert(&k.text, (vec![k.sp], v)); }
            }
        }
        m
    }
    pub fn kids(&self) -> &[RNode] {
        self.children.as_ref().map(|(_, v)| &v[..]).unwrap_or(&[])
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OpenKind { Str, Raw, Comment, Braces }

#[derive(Clone, Debug)]
pub struct Fail {
    /// byte offset at which the text stops being KDL
    pub at: usize,
    pub why: &'static str,
    /// construct left open at the end of the text: kind and span of the opener
    pub open: Option<(OpenKind, Sp)>,
    /// start of the top-level item the failure lies in
    pub item_start: usize,
    /// top-level nodes completely read before the failing item
    pub good: Vec<RNode>,
}

pub const WS: &[char] = &[
    '\t', ' ', '\u{a0}', '\u{1680}',
    '\u{2000}', '\u{2001}', '\u{2002}', '\u{2003}', '\u{2004}', '\u{2005}',
    '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200A}',
    '\u{202F}', '\u{205F}', '\u{3000}', '\u{FEFF}',
];
pub const NL: &[char] = &['\r', '\n', '\u{0C}', '\u{85}', '\u{2028}', '\u{2029}'];
const NON_ID: &str = "\\/(){}<>;[]=,\"";

pub fn is_id(c: char) -> bool {
    c > ' ' && !NON_ID.contains(c) && !NL.contains(&c)
        && (c == '\u{FEFF}' || !WS.contains(&c))
}

struct P {
    c: Vec<(usize, char)>,
    i: usize,
    len: usize,
    depth: usize,
    max_depth: usize,
}

type R<T> = Result<T, Fail>;

pub struct Parsed { pub nodes: Vec<RNode>, pub depth: usize }

/// Nesting (braces and comments) an upper bound computed lexically, usable on
/// rejected text too.
pub fn nesting_bound(t: &str) -> usize {
    let braces = t.matches('{').count();
    let comments = t.matches("/*").count();
    braces.max(comments)
}

pub fn parse(text: &str) -> R<Parsed> {
    let mut p = P { c: text.char_indices().collect(), i: 0, len: text.len(), depth: 0, max_depth: 0 };
    let nodes = p.nodes(None)?;
    Ok(Parsed { nodes, depth: p.max_depth })
}

impl P {
    fn peek(&self) -> Option<char> { self.c.get(self.i).map(|x| x.1) }
    fn peek_n(&self, n: usize) -> Option<char> { self.c.get(self.i + n).map(|x| x.1) }
    fn at(&self) -> usize { self.off(self.i) }
    fn off(&self, i: usize) -> usize { self.c.get(i).map(|x| x.0).unwrap_or(self.len) }
    fn fail<T>(&self, why: &'static str) -> R<T> { self.fail_at(self.i, why) }
    fn fail_at<T>(&self, i: usize, why: &'static str) -> R<T> {
        Err(Fail { at: self.off(i), why, open: None, item_start: 0, good: vec![] })
    }
    fn unclosed<T>(&self, kind: OpenKind, s: usize, e: usize) -> R<T> {
        Err(Fail { at: self.len, why: "unclosed", open: Some((kind, Sp { s, e })), item_start: 0, good: vec![] })
    }

    fn newline(&mut self) -> bool {
        match self.peek() {
            Some('\r') => {
                self.i += 1;
                if self.peek() == Some('\n') { self.i += 1; }
                true
            }
            Some(c) if NL.contains(&c) => { self.i += 1; true }
            _ => false,
        }
    }
    /// whitespace characters and block comments
    fn ws(&mut self) -> R<bool> {
        let mut any = false;
        loop {
            match self.peek() {
                Some(c) if WS.contains(&c) => { self.i += 1; any = true; }
                Some('/') if self.peek_n(1) == Some('*') => { self.block_comment()?; any = true; }
                _ => return Ok(any),
            }
        }
    }
    fn block_comment(&mut self) -> R<()> {
        let s = self.at();
        self.i += 2;
        let mut depth = 1;
        while depth > 0 {
            match (self.peek(), self.peek_n(1)) {
                (None, _) => return self.unclosed(OpenKind::Comment, s, s + 2),
                (Some('/'), Some('*')) => { depth += 1; self.i += 2; }
                (Some('*'), Some('/')) => { depth -= 1; self.i += 2; }
                _ => self.i += 1,
            }
            self.max_depth = self.max_depth.max(depth);
        }
        Ok(())
    }
    /// at `//`: consumes up to and including the line break
    fn line_comment(&mut self) {
        while self.peek().is_some() && !self.newline() { self.i += 1; }
    }
    fn at_line_comment(&self) -> bool { self.peek() == Some('/') && self.peek_n(1) == Some('/') }
    fn at_slashdash(&self) -> bool { self.peek() == Some('/') && self.peek_n(1) == Some('-') }

    fn node_space(&mut self) -> R<bool> {
        let mut any = false;
        loop {
            if self.ws()? { any = true; continue; }
            if self.peek() == Some('\\') {
                self.i += 1;
                self.ws()?;
                if self.at_line_comment() { self.line_comment(); }
                else if !self.newline() { return self.fail("line continuation"); }
                any = true;
                continue;
            }
            return Ok(any);
        }
    }
    fn line_space(&mut self) -> R<()> {
        loop {
            if self.ws()? || self.newline() { continue; }
            if self.at_line_comment() { self.line_comment(); continue; }
            return Ok(());
        }
    }

    fn nodes(&mut self, brace: Option<usize>) -> R<Vec<RNode>> {
        let mut out: Vec<RNode> = Vec::new();
        loop {
            let here = self.at();
            let r = self.one_item(brace);
            match r {
                Ok(None) => return Ok(out),
                Ok(Some(None)) => {}
                Ok(Some(Some(n))) => out.push(n),
                Err(mut f) => {
                    if brace.is_none() { f.item_start = here; f.good = out; }
                    return Err(f);
                }
            }
        }
    }
    /// None: end of list; Some(None): slash-dashed node
    fn one_item(&mut self, brace: Option<usize>) -> R<Option<Option<RNode>>> {
        self.line_space()?;
        match (self.peek(), brace) {
            (None, None) => return Ok(None),
            (None, Some(s)) => return self.unclosed(OpenKind::Braces, s, s + 1),
            (Some('}'), Some(_)) => return Ok(None),
            _ => {}
        }
        let dead = self.at_slashdash();
        if dead { self.i += 2; self.node_space()?; }
        let n = self.node()?;
        Ok(Some(if dead { None } else { Some(n) }))
    }

    fn node(&mut self) -> R<RNode> {
        let start = self.at();
        let ty = if self.peek() == Some('(') { Some(self.type_name()?) } else { None };
        let name = self.ident()?;
        let mut args = vec![];
        let mut props = vec![];
        let mut children = None;
        loop {
            let spaced = self.node_space()?;
            if self.at_slashdash() {
                let at = self.i;
                self.i += 2;
                self.node_space()?;
                if self.peek() == Some('{') {
                    self.braces()?;
                    break;
                }
                if !spaced { return self.fail_at(at, "space required"); }
                self.entry()?;
                continue;
            }
            match self.peek() {
                Some('{') => { children = Some(self.braces()?); break; }
                None | Some(';') => break,
                Some(c) if NL.contains(&c) => break,
                Some('/') if self.at_line_comment() => break,
                _ => {}
            }
            if !spaced { return self.fail("space required"); }
            match self.entry()? {
                (Some(k), v) => props.push((k, v)),
                (None, v) => args.push(v),
            }
        }
        self.node_space()?;
        match self.peek() {
            None => {}
            Some(';') => self.i += 1,
            _ if self.at_line_comment() => self.line_comment(),
            _ => if !self.newline() { return self.fail("terminator"); },
        }
        Ok(RNode { sp: Sp { s: start, e: self.at() }, ty, name, args, props, children })
    }

    fn braces(&mut self) -> R<(Sp, Vec<RNode>)> {
        let s = self.at();
        self.i += 1;
        self.depth += 1;
        self.max_depth = self.max_depth.max(self.depth);
        let v = self.nodes(Some(s))?;
        self.depth -= 1;
        self.i += 1;
        Ok((Sp { s, e: self.at() }, v))
    }

    fn type_name(&mut self) -> R<RName> {
        let s = self.at();
        self.i += 1;
        let n = self.ident()?;
        if self.peek() != Some(')') { return self.fail("`)` expected"); }
        self.i += 1;
        Ok(RName { text: n.text, sp: Sp { s, e: self.at() } })
    }

    fn at_number(&self) -> bool {
        let k = if matches!(self.peek(), Some('+' | '-')) { 1 } else { 0 };
        matches!(self.peek_n(k), Some('0'..='9'))
    }
    fn at_string(&self) -> bool {
        match self.peek() {
            Some('"') => true,
            Some('r') => {
                let mut k = 1;
                while self.peek_n(k) == Some('#') { k += 1; }
                self.peek_n(k) == Some('"')
            }
            _ => false,
        }
    }

    fn bare_text(&mut self) -> String {
        let mut t = String::new();
        while let Some(c) = self.peek() {
            if !is_id(c) { break; }
            t.push(c);
            self.i += 1;
        }
        t
    }

    /// node or type name
    fn ident(&mut self) -> R<RName> {
        let s = self.at();
        if self.at_number() { return self.fail("number as identifier"); }
        let text = if self.at_string() { self.string()? } else {
            let i = self.i;
            let t = self.bare_text();
            match &t[..] {
                "" => return self.fail("identifier"),
                "true" | "false" | "null" => return self.fail_at(i, "keyword as identifier"),
                _ => t,
            }
        };
        Ok(RName { text, sp: Sp { s, e: self.at() } })
    }

    /// argument or property
    fn entry(&mut self) -> R<(Option<RName>, RValue)> {
        if self.peek() == Some('(') { return Ok((None, self.value()?)); }
        let s = self.at();
        let i = self.i;
        if self.at_string() {
            let t = self.string()?;
            let sp = Sp { s, e: self.at() };
            if self.peek() == Some('=') {
                self.i += 1;
                let v = self.value()?;
                return Ok((Some(RName { text: t, sp }), v));
            }
            return Ok((None, RValue { ty: None, lit: RLit::Str(t), sp }));
        }
        if self.at_number() {
            let v = self.value()?;
            if self.peek() == Some('=') { return self.fail_at(i, "number as property name"); }
            return Ok((None, v));
        }
        let t = self.bare_text();
        let sp = Sp { s, e: self.at() };
        let kw = match &t[..] {
            "" => return self.fail("value or property"),
            "null" => Some(RLit::Null),
            "true" => Some(RLit::Bool(true)),
            "false" => Some(RLit::Bool(false)),
            _ => None,
        };
        if let Some(lit) = kw {
            if self.peek() == Some('=') { return self.fail_at(i, "keyword as property name"); }
            return Ok((None, RValue { ty: None, lit, sp }));
        }
        if self.peek() != Some('=') { return self.fail_at(i, "bare identifier as argument"); }
        self.i += 1;
        let v = self.value()?;
        Ok((Some(RName { text: t, sp }), v))
    }

    fn value(&mut self) -> R<RValue> {
        let ty = if self.peek() == Some('(') { Some(self.type_name()?) } else { None };
        let s = self.at();
        let lit = if self.at_string() { RLit::Str(self.string()?) }
            else if self.at_number() { self.number() }
            else {
                let i = self.i;
                match &self.bare_text()[..] {
                    "null" => RLit::Null,
                    "true" => RLit::Bool(true),
                    "false" => RLit::Bool(false),
                    _ => return self.fail_at(i, "value"),
                }
            };
        Ok(RValue { ty, lit, sp: Sp { s, e: self.at() } })
    }

    fn digits(&mut self, radix: u32, out: &mut String) {
        while let Some(c) = self.peek() {
            if c == '_' { self.i += 1; }
            else if c.is_ascii() && c.to_digit(radix).is_some() { out.push(c); self.i += 1; }
            else { break; }
        }
    }
    fn number(&mut self) -> RLit {
        let mut t = String::new();
        if let Some(c @ ('+' | '-')) = self.peek() { t.push(c); self.i += 1; }
        if self.peek() == Some('0') {
            let radix = match self.peek_n(1) { Some('b') => 2, Some('o') => 8, Some('x') => 16, _ => 0 };
            if radix > 0 && self.peek_n(2).map_or(false, |c| c.is_ascii() && c.to_digit(radix).is_some()) {
                self.i += 2;
                self.digits(radix, &mut t);
                return RLit::Int(radix, t);
            }
        }
        self.digits(10, &mut t);
        let mut dec = false;
        if self.peek() == Some('.') && matches!(self.peek_n(1), Some('0'..='9')) {
            dec = true;
            t.push('.');
            self.i += 1;
            self.digits(10, &mut t);
        }
        if let Some(e @ ('e' | 'E')) = self.peek() {
            let k = if matches!(self.peek_n(1), Some('+' | '-')) { 2 } else { 1 };
            if matches!(self.peek_n(k), Some('0'..='9')) {
                dec = true;
                t.push(e);
                self.i += 1;
                if k == 2 { t.push(self.peek().unwrap()); self.i += 1; }
                self.digits(10, &mut t);
            }
        }
        if dec { RLit::Dec(t) } else { RLit::Int(10, t) }
    }

    fn string(&mut self) -> R<String> {
        let s = self.at();
        let mut t = String::new();
        if self.peek() == Some('r') {
            self.i += 1;
            let mut n = 0;
            while self.peek() == Some('#') { n += 1; self.i += 1; }
            self.i += 1;
            let open_end = self.at();
            loop {
                match self.peek() {
                    None => return self.unclosed(OpenKind::Raw, s, open_end),
                    Some('"') if (1..=n).all(|k| self.peek_n(k) == Some('#')) => {
                        self.i += 1 + n;
                        return Ok(t);
                    }
                    Some(c) => { t.push(c); self.i += 1; }
                }
            }
        }
        self.i += 1;
        loop {
            match self.peek() {
                None => return self.unclosed(OpenKind::Str, s, s + 1),
                Some('"') => { self.i += 1; return Ok(t); }
                Some('\\') => {
                    self.i += 1;
                    let c = match self.peek() {
                        None => return self.unclosed(OpenKind::Str, s, s + 1),
                        Some(c) => c,
                    };
                    let r = match c {
                        '"' | '\\' | '/' => c,
                        'b' => '\u{8}',
                        'f' => '\u{c}',
                        'n' => '\n',
                        'r' => '\r',
                        't' => '\t',
                        'u' => {
                            self.i += 1;
                            if self.peek() != Some('{') { return self.fail("unicode escape"); }
                            self.i += 1;
                            let mut v = 0u32;
                            let mut k = 0;
                            while let Some(d) = self.peek().and_then(|c| c.to_digit(16)) {
                                if k == 6 { break; }
                                v = v * 16 + d;
                                k += 1;
                                self.i += 1;
                            }
                            if k == 0 || self.peek() != Some('}') { return self.fail("unicode escape"); }
                            match char::from_u32(v) {
                                Some(c) => c,
                                None => return self.fail("character code"),
                            }
                        }
                        _ => return self.fail("escape"),
                    };
                    t.push(r);
                    self.i += 1;
                }
                Some(c) => { t.push(c); self.i += 1; }
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct LC { pub off: usize, pub line: usize, pub col: usize }

/// Line/column of every character boundary of a text.
pub struct Lines { pos: BTreeMap<usize, LC> }
impl Lines {
    pub fn new(text: &str) -> Lines {
        let mut pos = BTreeMap::new();
        let (mut line, mut col) = (0, 0);
        let mut prev = ' ';
        for (off, c) in text.char_indices() {
            pos.insert(off, LC { off, line, col });
            if NL.contains(&c) {
                if !(c == '\n' && prev == '\r') { line += 1; col = 0; }
            } else if c == '\t' {
                col += 8;
            } else {
                col += unicode_width::UnicodeWidthChar::width(c).unwrap_or(0);
            }
            prev = c;
        }
        pos.insert(text.len(), LC { off: text.len(), line, col });
        Lines { pos }
    }
    pub fn at(&self, off: usize) -> LC { self.pos.get(&off).copied().unwrap_or(LC { off, line: usize::MAX, col: usize::MAX }) }
}
