//! Workload: an editor that keeps an in-memory document and writes it out in
//! arbitrary KDL style.  The in-memory model is a second oracle: what a clean
//! save must load back to.
use crate::choice::Src;
use crate::refkdl::{RLit, RNode, RName, RValue, Sp};

/// Swarm-style knobs drawn once per run.
#[derive(Clone, Debug)]
pub struct Knobs {
    pub max_depth: usize,
    pub max_items: usize,
    pub max_kids: usize,
    pub comments: u64,
    pub slashdash: u64,
    pub esclines: u64,
    pub typed: u64,
    pub exotic_ws: bool,
    pub exotic_nl: bool,
    pub unicode: bool,
    pub big_numbers: bool,
    pub raw: u64,
    pub dup_props: u64,
    /// one dimension of the document that is out of the ordinary, or 0
    pub bulk: u64,
}

impl Knobs {
    pub fn draw(s: &mut Src) -> Knobs {
        let lvl = |s: &mut Src| [0u64, 1, 3][s.weighted(&[2, 3, 1])];
        let mut k = Knobs {
            max_depth: s.range(0, 4),
            max_items: s.range(1, 5),
            max_kids: s.range(1, 4),
            comments: lvl(s),
            slashdash: lvl(s),
            esclines: lvl(s),
            typed: lvl(s),
            exotic_ws: s.chance(1, 4),
            exotic_nl: s.chance(1, 3),
            unicode: s.chance(1, 3),
            big_numbers: s.chance(1, 3),
            raw: lvl(s),
            dup_props: lvl(s),
            bulk: 0,
        };
        if s.chance(1, 40) {
            k.bulk = 1 + s.draw(8);
            match k.bulk {
                1 => k.max_items = if s.chance(1, 6) { 300 } else { 120 },
                2 => k.max_kids = 60,
                4 => k.max_depth = s.range(5, 40),
                _ => {}
            }
        }
        k
    }
}

/// Code points at which one class of characters ends and another begins.
const EDGES: &[u32] = &[0, 8, 9, 0xA, 0xB, 0xC, 0xD, 0xE, 0x1B, 0x1C, 0x1F, 0x20, 0x7F, 0x80, 0x84, 0x85, 0x86, 0x9F, 0xA0, 0xA1, 0xAD, 0x34F, 0x167F, 0x1680, 0x1681, 0x180E,
    0x1FFF, 0x2000, 0x2001, 0x2007, 0x200A, 0x200B, 0x200C, 0x200E, 0x2027, 0x2028, 0x2029, 0x202A, 0x202E, 0x202F, 0x2030, 0x205E, 0x205F, 0x2060, 0x2FFF, 0x3000, 0x3001,
    0xD7FF, 0xE000, 0xFDD0, 0xFEFE, 0xFEFF, 0xFF00, 0xFF10, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0x661, 0x130, 0x2160, 0x1D7D8];
pub fn edge(s: &mut Src) -> char { char::from_u32(EDGES[s.below(EDGES.len())]).unwrap() }
/// An escape of a character by its code, legal or not.
pub fn code(s: &mut Src) -> String {
    let n = match s.below(4) {
        0 => [0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0x10FFFF, 0x110000, 0xFFFFFF, 0x1000000, 0x7FFFFFFF][s.below(11)],
        1 => EDGES[s.below(EDGES.len())],
        2 => s.draw(0x12_0000) as u32,
        _ => s.draw(256) as u32,
    };
    let w = s.range(1, 8);
    let h = if s.chance(1, 2) { format!("{:01$x}", n, w) } else { format!("{:01$X}", n, w) };
    format!("\\u{{{}}}", h)
}

/// A bare identifier of arbitrary legal characters.
pub fn bare(s: &mut Src) -> String {
    let n = s.range(1, 7);
    let mut t = String::new();
    for _ in 0..n {
        let c = match s.below(4) {
            0 => char::from_u32(s.draw(0x11_0000) as u32).unwrap_or('x'),
            1 => if s.chance(1, 2) { edge(s) } else { char::from_u32(0x80 + s.draw(0x2080) as u32).unwrap_or('y') },
            _ => char::from(33 + s.draw(94) as u8),
        };
        t.push(if crate::refkdl::is_id(c) && c != '\u{FEFF}' { c } else { 'z' });
    }
    let b = t.trim_start_matches(['+', '-']);
    let number = t.len() - b.len() <= 1 && b.starts_with(|c: char| c.is_ascii_digit());
    if number || matches!(&t[..], "true" | "false" | "null") { t.insert(0, 'n'); }
    t
}
pub fn bare_ok(t: &str) -> bool {
    if t.is_empty() || t.contains('\u{FEFF}') || !t.chars().all(crate::refkdl::is_id) || matches!(t, "true" | "false" | "null") { return false; }
    let b = t.trim_start_matches(['+', '-']);
    if t.len() - b.len() <= 1 && b.starts_with(|c: char| c.is_ascii_digit()) { return false; }
    true
}
/// Long names that differ in few places.
pub fn kin(s: &mut Src) -> String {
    let f = s.below(3);
    let n = s.range(1, 3);
    let m: String = (0..n).map(|_| ['a', 'b', '0', 'é'][s.below(4)]).collect();
    [format!("server-{}-address", m), format!("m{}ximum_connections", m), format!("com.example.app.{}", m)][f].clone()
}
/// Arbitrary characters.
pub fn chars(s: &mut Src, max: usize) -> String {
    let n = s.range(1, max);
    (0..n).map(|_| match s.below(4) {
        0 => char::from_u32(s.draw(0x11_0000) as u32).unwrap_or('\u{FFFD}'),
        1 => if s.chance(1, 2) { edge(s) } else { char::from_u32(s.draw(0x2100) as u32).unwrap_or(' ') },
        _ => char::from(s.draw(128) as u8),
    }).collect()
}

pub struct Gen<'a> { pub s: &'a mut Src, pub k: &'a Knobs, pub out: String }

const BARE: &[&str] = &[
    "a", "b", "node", "key", "name", "x1", "foo-bar", "foo_bar", "r", "r2", "e5", "u8", "i64",
    "nullable", "true-ish", "falsey", "null2", "-", "+", "--", "-x", "+y", ".dot", "a.b", "#hash",
    "r##", "$v", "@at", "foo!", "!bang", "a!b!", "k:v", "q?", "*", "a*", "'q'", "`t`", "~", "^", "|",
    "&amp", "%", "base64", "usize", "isize", "N", "-.5", "true_", "nul", "tru",
];
const UNI: &[&str] = &["名前", "é", "naïve", "a\u{301}", "\u{1F600}", "ключ", "\u{200d}z", "\u{7f}d", "ａ"];
const STRS: &[&str] = &["", "a", "hello", "two words", "x=1", "{", "}", "//no", "/* no */", "/-", ";", "1", "true", "null", "\\", "\"", "(t)", "#", "\"#", "é", "日本", "\t", "\u{0}", "\r\n", "\n", "'", "YQ==", "aGVsbG8="];
pub const TYPES: &[&str] = &["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "f32", "f64", "base64", "custom", "date", "my-type"];

const ALIKE: &[&str] = &["int", "integer", "uint", "float", "double", "string", "str", "bool", "boolean", "null", "byte", "bytes", "u128", "i128", "f16", "f128", "char", "uuid", "base85",
    "base32", "b64", "base-64", "base64url", "hex", "decimal", "decimal64", "date-time", "size", "u", "i", "f", "u08", "u+8", "8", "unsigned", "ISize", "none", "any"];
/// A type name close to those the library knows.
pub fn odd_type(s: &mut Src) -> String {
    let known = TYPES[s.below(13)];
    match s.below(9) {
        0 | 1 => ALIKE[s.below(ALIKE.len())].into(),
        2 => known.to_uppercase(),
        3 => { let mut c = known.chars(); c.next().unwrap().to_uppercase().chain(c).collect() }
        4 => { let b = edge(s); let b = if s.chance(1, 2) { ' ' } else { b }; if s.chance(1, 2) { format!("{}{}", known, b) } else { format!("{}{}", b, known) } }
        5 => { let mut c = known.chars(); if s.chance(1, 2) { c.next(); } else { c.next_back(); } c.as_str().to_string() }
        6 => format!("{}{}", known, ["s", "_t", "8", "?", "-", "64", "<u8>", "[]"][s.below(8)]),
        7 => { let n = s.range(10, 60); let m = kin(s); m.chars().cycle().take(n).collect() }
        _ => if s.chance(1, 2) { kin(s) } else { chars(s, 30) },
    }
}

pub fn sp() -> Sp { Sp { s: 0, e: 0 } }
pub fn nm(t: &str) -> RName { RName { text: t.to_string(), sp: sp() } }

impl<'a> Gen<'a> {
    pub fn nl(&mut self) {
        let t = if self.k.exotic_nl {
            ["\n", "\r\n", "\r", "\u{0C}", "\u{85}", "\u{2028}", "\u{2029}"][self.s.below(7)]
        } else { "\n" };
        // after a lone CR a line feed would join it into one line break
        let t = if t == "\n" && self.out.ends_with('\r') { "\u{85}" } else { t };
        self.out.push_str(t);
    }
    pub fn ws1(&mut self) {
        if self.k.exotic_ws && self.s.chance(1, 4) {
            let w = crate::refkdl::WS;
            let c = w[self.s.below(w.len())];
            // FEFF glued to an identifier would extend it
            self.out.push(if c == '\u{FEFF}' { ' ' } else { c });
        } else {
            self.out.push_str([" ", " ", "  ", "\t"][self.s.below(4)]);
        }
    }
    pub fn comment_body(&mut self, depth: usize) {
        let n = self.s.below(3);
        for _ in 0..n {
            let t = ["x", " ", "*", "**", "/", " // ", "\n", "é", "\"", "{", " * "][self.s.below(11)];
            // avoid creating delimiters by accident
            let last = self.out.chars().last().unwrap_or(' ');
            let first = t.chars().next().unwrap();
            if (last == '*' && first == '/') || (last == '/' && first == '*') { self.out.push(' '); }
            self.out.push_str(t);
        }
        let (most, odds) = if self.k.bulk == 6 { (20, 4) } else { (3, 1) };
        if depth < most && self.s.chance(odds, 5) {
            if self.out.ends_with('/') || self.out.ends_with('*') { self.out.push(' '); }
            self.out.push_str("/*");
            self.comment_body(depth + 1);
            if self.out.ends_with('/') { self.out.push(' '); }
            self.out.push_str("*/");
        }
    }
    pub fn ml_comment(&mut self) {
        self.out.push_str("/*");
        self.comment_body(0);
        // `/*/` must not be closed by the `/` of a body
        if self.out.ends_with('/') { self.out.push(' '); }
        self.out.push_str("*/");
    }
    pub fn line_comment(&mut self) {
        self.out.push_str("//");
        let t = ["", " c", "/", " é", "*/", " \"", "-"][self.s.below(7)];
        self.out.push_str(t);
    }
    /// at least one node space
    pub fn nsp(&mut self) {
        // a comment or a continued line is space enough
        if self.k.comments > 0 && self.s.chance(1, 10) { self.ml_comment(); }
        else if self.k.esclines > 0 && self.s.chance(1, 20) { self.out.push('\\'); self.nl(); }
        else { self.ws1(); }
        self.nsp0();
    }
    pub fn nsp0(&mut self) {
        while self.k.comments + self.k.esclines > 0 && self.s.chance(self.k.comments + self.k.esclines, 14) {
            if self.s.draw(self.k.comments + self.k.esclines) < self.k.comments {
                self.ml_comment();
            } else {
                self.out.push('\\');
                if self.s.chance(1, 3) { self.ws1(); }
                while self.s.chance(1, 5) { self.ml_comment(); if self.s.chance(1, 2) { self.ws1(); } }
                if self.s.chance(1, 3) { self.line_comment(); }
                self.nl();
            }
            if self.s.chance(1, 2) { self.ws1(); }
        }
    }

    pub fn text(&mut self) -> String {
        if self.k.bulk == 3 && self.s.chance(1, 3) {
            let n = self.s.range(1, 400);
            let t = STRS[1 + self.s.below(STRS.len() - 1)];
            t.repeat(n)
        } else if self.s.chance(1, 12) { chars(self.s, 12) }
        else if self.s.chance(1, 16) { kin(self.s) }
        else if self.s.chance(1, 3) {
            let n = self.s.range(1, 4);
            (0..n).map(|_| STRS[self.s.below(STRS.len())]).collect()
        } else if self.k.unicode && self.s.chance(1, 3) {
            UNI[self.s.below(UNI.len())].to_string()
        } else {
            STRS[self.s.below(STRS.len())].to_string()
        }
    }
    /// write `t` as an escaped or raw string
    pub fn quote(&mut self, t: &str) {
        let raw = self.k.raw > 0 && self.s.chance(self.k.raw, 6);
        if raw {
            let mut n = if self.k.bulk == 5 { if self.s.chance(1, 4) { self.s.range(250, 270) } else { self.s.below(30) } } else { self.s.below(2) };
            while t.contains(&format!("\"{}", "#".repeat(n))) { n += 1; }
            let h = "#".repeat(n);
            self.out.push_str(&format!("r{}\"{}\"{}", h, t, h));
            return;
        }
        self.out.push('"');
        for c in t.chars() {
            match c {
                '"' => self.out.push_str("\\\""),
                '\\' => self.out.push_str("\\\\"),
                '\n' if self.s.chance(1, 2) => self.out.push_str("\\n"),
                '\r' if self.s.chance(1, 2) => self.out.push_str("\\r"),
                '\t' if self.s.chance(1, 2) => self.out.push_str("\\t"),
                '\u{8}' => self.out.push_str("\\b"),
                '\u{c}' => self.out.push_str("\\f"),
                '/' if self.s.chance(1, 3) => self.out.push_str("\\/"),
                c if self.s.chance(1, 12) => {
                    let h = if self.s.chance(1, 2) { format!("{:x}", c as u32) } else { format!("{:06X}", c as u32) };
                    self.out.push_str(&format!("\\u{{{}}}", h));
                }
                c => self.out.push(c),
            }
        }
        self.out.push('"');
    }
    pub fn name(&mut self) -> String {
        match self.s.weighted(&[6, 2, if self.k.unicode { 3 } else { 0 }, 1]) {
            0 => { let t = BARE[self.s.below(BARE.len())]; self.out.push_str(t); t.to_string() }
            1 => { let t = self.text(); self.quote(&t); t }
            2 => { let t = UNI[self.s.below(UNI.len())]; self.out.push_str(t); t.to_string() }
            _ => { let t = if self.s.chance(1, 2) { kin(self.s) } else { bare(self.s) }; self.out.push_str(&t); t }
        }
    }
    pub fn type_name(&mut self) -> String {
        self.out.push('(');
        let t = if self.s.chance(3, 4) {
            let t = TYPES[self.s.below(TYPES.len())];
            self.out.push_str(t);
            t.to_string()
        } else if self.s.chance(1, 3) {
            let t = odd_type(self.s);
            if !bare_ok(&t) || self.s.chance(1, 8) { self.quote(&t); } else { self.out.push_str(&t); }
            t
        } else { self.name() };
        self.out.push(')');
        t
    }
    fn digits(&mut self, radix: u32, n: usize) -> String {
        let mut t = String::new();
        for i in 0..n {
            let d = std::char::from_digit(self.s.draw(radix as u64) as u32, radix).unwrap();
            let d = if radix == 16 && self.s.chance(1, 3) { d.to_ascii_uppercase() } else { d };
            t.push(d);
            self.out.push(d);
            if i > 0 && self.s.chance(1, 8) { self.out.push('_'); }
        }
        t
    }
    pub fn number(&mut self) -> RLit {
        let mut t = String::new();
        match self.s.weighted(&[4, 2, 1]) { 1 => t.push('-'), 2 => t.push('+'), _ => {} }
        self.out.push_str(&t);
        let radix = [10, 16, 8, 2][self.s.weighted(&[6, 1, 1, 1])];
        let n = if self.k.big_numbers && self.s.chance(1, 2) { self.s.range(1, 40) } else { self.s.range(1, 4) };
        let n = if self.k.bulk == 8 { n * self.s.range(1, 12) } else { n };
        match radix { 16 => self.out.push_str("0x"), 8 => self.out.push_str("0o"), 2 => self.out.push_str("0b"), _ => {} }
        t.push_str(&self.digits(radix, n));
        if radix != 10 { return RLit::Int(radix, t); }
        let mut dec = false;
        if self.s.chance(1, 4) {
            dec = true;
            t.push('.'); self.out.push('.');
            let n = self.s.range(1, if self.k.big_numbers { 20 } else { 4 });
            t.push_str(&self.digits(10, n));
        }
        if self.s.chance(1, 6) {
            dec = true;
            let e = ["e", "E"][self.s.below(2)];
            let sg = ["", "-", "+"][self.s.below(3)];
            t.push_str(e); t.push_str(sg);
            self.out.push_str(e); self.out.push_str(sg);
            let n = self.s.range(1, 3);
            t.push_str(&self.digits(10, n));
        }
        if dec { RLit::Dec(t) } else { RLit::Int(10, t) }
    }
    pub fn literal(&mut self) -> RLit {
        match self.s.weighted(&[3, 3, 1, 1, 1]) {
            0 => self.number(),
            1 => { let t = self.text(); self.quote(&t); RLit::Str(t) }
            2 => { self.out.push_str("true"); RLit::Bool(true) }
            3 => { self.out.push_str("false"); RLit::Bool(false) }
            _ => { self.out.push_str("null"); RLit::Null }
        }
    }
    pub fn value(&mut self) -> RValue {
        let ty = if self.k.typed > 0 && self.s.chance(self.k.typed, 6) { Some(nm(&self.type_name())) } else { None };
        let lit = self.literal();
        RValue { ty, lit, sp: sp() }
    }
    fn entry(&mut self, n: &mut RNode) {
        let dead = self.k.slashdash > 0 && self.s.chance(self.k.slashdash, 12);
        if dead { self.out.push_str("/-"); if self.s.chance(1, 3) { self.nsp(); } }
        let prop = if self.k.max_items == 300 { self.s.chance(6, 7) } else { self.s.chance(2, 5) };
        if prop {
            let k = if self.k.dup_props > 0 && !n.props.is_empty() && self.s.chance(self.k.dup_props, 6) {
                let i = self.s.below(n.props.len());
                let k = n.props[i].0.text.clone();
                self.quote(&k);
                k
            } else if self.k.bulk == 1 && (self.k.max_items == 300 || self.s.chance(1, 2)) {
                let k = format!("k{}", n.props.len());
                self.out.push_str(&k);
                k
            } else { self.name() };
            self.out.push('=');
            let v = self.value();
            if !dead { n.props.push((nm(&k), v)); }
        } else {
            let v = self.value();
            if !dead { n.args.push(v); }
        }
    }
    /// One node with its terminator.  Returns the model without positions.
    pub fn node(&mut self, depth: usize) -> RNode {
        let ty = if self.k.typed > 0 && self.s.chance(self.k.typed, 8) { Some(nm(&self.type_name())) } else { None };
        let name = self.name();
        let mut n = RNode { sp: sp(), ty, name: nm(&name), args: vec![], props: vec![], children: None };
        let items = if self.k.max_items == 300 && self.s.chance(1, 3) { self.s.range(130, 320) } else { self.s.len(self.k.max_items) };
        for _ in 0..items { self.nsp(); self.entry(&mut n); }
        let odds = if self.k.bulk == 4 { 49 } else { 17 };
        if depth < self.k.max_depth && self.s.chance(odds, 51) {
            if self.s.chance(3, 4) { self.nsp(); }
            let dead = self.k.slashdash > 0 && self.s.chance(self.k.slashdash, 12);
            if dead { self.out.push_str("/-"); if self.s.chance(1, 3) { self.nsp(); } }
            self.out.push('{');
            let kids = self.nodes(depth + 1, self.k.max_kids);
            self.out.push('}');
            if !dead { n.children = Some((sp(), kids)); }
        }
        if self.s.chance(1, 5) { self.nsp(); }
        self.terminator();
        n
    }
    pub fn terminator(&mut self) {
        match self.s.weighted(&[5, 2, 1]) {
            0 => self.nl(),
            1 => self.out.push(';'),
            _ => { self.line_comment(); self.nl(); }
        }
    }
    pub fn filler(&mut self) {
        if self.k.bulk == 7 && self.s.chance(1, 6) {
            let n = self.s.range(1, 300);
            let line = self.s.chance(1, 2);
            for _ in 0..n { if line { self.nl() } else { self.ws1() } }
        }
        while self.s.chance(1, 5) {
            match self.s.below(4) {
                0 => self.nl(),
                1 => self.ws1(),
                2 => { if self.k.comments > 0 { self.ml_comment(); } }
                _ => { if self.k.comments > 0 { self.line_comment(); self.nl(); } }
            }
        }
    }
    pub fn nodes(&mut self, depth: usize, max: usize) -> Vec<RNode> {
        self.filler();
        // a chain: one of the nodes goes deeper
        let chain = self.k.bulk == 4 && depth > 0;
        let n = if chain { 1 + self.s.weighted(&[8, 1, 1]) } else { self.s.len(max) };
        let deep = if chain { self.s.below(n) } else { 0 };
        let mut v = vec![];
        for i in 0..n {
            let dead = self.k.slashdash > 0 && self.s.chance(self.k.slashdash, 12);
            if dead { self.out.push_str("/-"); if self.s.chance(1, 3) { self.nsp(); } }
            let x = self.node(if chain && i != deep { self.k.max_depth } else { depth });
            if !dead { v.push(x); }
            self.filler();
        }
        v
    }
}

/// A complete document: text and model.
pub fn document(s: &mut Src, k: &Knobs, max: usize) -> (String, Vec<RNode>) {
    let mut g = Gen { s, k, out: String::new() };
    let v = g.nodes(0, max);
    let mut out = g.out;
    // the last terminator may be the end of the file
    if s.chance(1, 6) && out.ends_with('\n') { out.pop(); if out.ends_with('\r') { out.pop(); } }
    (out, v)
}

/// Same meaning, positions ignored.
pub fn same_meaning(a: &[RNode], b: &[RNode]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| {
        fn ty(a: &Option<RName>, b: &Option<RName>) -> bool {
            a.as_ref().map(|x| &x.text) == b.as_ref().map(|x| &x.text)
        }
        fn val(a: &RValue, b: &RValue) -> bool { ty(&a.ty, &b.ty) && a.lit == b.lit }
        ty(&x.ty, &y.ty) && x.name.text == y.name.text
            && x.args.len() == y.args.len() && x.args.iter().zip(&y.args).all(|(a, b)| val(a, b))
            && {
                let (p, q) = (x.effective(), y.effective());
                p.len() == q.len() && p.iter().zip(&q).all(|((k, a), (l, b))| k == l && val(a.1, b.1))
            }
            && match (&x.children, &y.children) {
                (None, None) => true,
                (Some((_, a)), Some((_, b))) => same_meaning(a, b),
                _ => false,
            }
    })
}

const SOUP: &[&str] = &[
    "a", "b", "node", " ", " ", " ", "\n", "\n", ";", "{", "}", "(", ")", "=", "\"", "\"", "\\", "/", "/-",
    "//", "/*", "*/", "*", "-", "+", "0", "1", "9", "0x", "0b", "0o", "1e", "1.5", ".", "_", "e", "E", "r", "#", "r#\"", "\"#",
    "r\"", "true", "false", "null", "u", "{", "\\u{", "\\n", "\\\"", "u8", "(u8)", "k=", "k=1", "\"s\"", "\"s\"=", "\t", "\r", "\r\n",
    "\u{85}", "\u{2028}", "\u{2029}", "\u{0C}", "\u{a0}", "\u{FEFF}", "é", "日", "\u{1F600}", "!", "<", ">", "[", "]", ",", "'", "\u{0}", "\u{b}", "\u{1}",
    "110000", "D800", "ffffff", "}\"", "\\\n", "\\ //c\n", "/*x*/", "a{}", "a{b\n}", "a 1 2\n", "}\n", "- ", "-1", "+1", "--", "1_0", "_1",
];

/// Unstructured text from the language's tokens.
pub fn soup(s: &mut Src, max: usize) -> String {
    let n = s.range(1, max);
    let uni = s.chance(1, 8);
    (0..n).map(|_| {
        if uni && s.chance(1, 6) {
            // arbitrary scalar value
            if s.chance(1, 2) { edge(s) } else { char::from_u32(s.draw(0x11_0000) as u32).unwrap_or('\u{FFFD}') }.to_string()
        } else { SOUP[s.below(SOUP.len())].to_string() }
    }).collect()
}
