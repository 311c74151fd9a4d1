//! Documents directed by a type description: matching by default, with as much
//! mismatch as the run's noise level asks for.
use super::shape::*;
use crate::choice::Src;
use crate::gen::{self, bare_ok, nm, Gen, Knobs};
use crate::refkdl::{RLit, RNode, RValue, Sp};

const Z: Sp = Sp { s: 0, e: 0 };

pub struct Noise { pub level: u64 }

pub struct DocGen<'a> { pub s: &'a mut Src, pub noise: u64, pub typed: u64, /** many of everything that may be many */ pub bulk: bool, pub huge: bool, /** how many elements lists may still bring in */ pub left: usize }

fn v(lit: RLit) -> RValue { RValue { ty: None, lit, sp: Z } }

impl<'a> DocGen<'a> {
    fn many(&mut self, max: usize) -> usize {
        let n = self.wish(max).min(self.left);
        self.left -= n;
        n
    }
    fn wish(&mut self, max: usize) -> usize {
        if self.huge && self.s.chance(1, 4) {
            // once per document, hundreds
            (self.huge, self.bulk) = (false, false);
            return self.s.range(60, 330);
        }
        if self.bulk && self.s.chance(1, 3) { return if self.s.chance(1, 2) { self.s.below(max * 12) } else { self.s.len(max * 12) }; }
        self.s.len(max)
    }
    /// true when the run's noise strikes
    fn noise(&mut self) -> bool { self.noise > 0 && self.s.chance(self.noise, 48) }

    pub fn any_lit(&mut self) -> RLit {
        match self.s.below(7) {
            0 => RLit::Null,
            1 => RLit::Bool(self.s.chance(1, 2)),
            2 => RLit::Int(10, self.s.below(300).to_string()),
            3 => RLit::Dec("1.5".into()),
            4 => RLit::Int(16, "-ff".into()),
            5 => RLit::Str("fast".into()),
            _ => RLit::Str(self.text()),
        }
    }
    pub fn text(&mut self) -> String {
        if self.s.chance(1, 16) { return crate::gen::chars(self.s, 10); }
        if self.s.chance(1, 12) {
            // what configurations hold
            return match self.s.below(26) {
                0 => "/etc/app/", 1 => "./a/../b", 2 => "~/x", 3 => "C:\\dir\\", 4 => "a//b", 5 => "$HOME/${x}", 6 => "%20%", 7 => "http://h:80/?q=1#f", 8 => "one\ntwo\n", 9 => " lead",
                10 => "trail ", 11 => "\t", 12 => "e\u{301}", 13 => "\u{c9}", 14 => "1.0.0", 15 => "-1", 16 => "0x1F", 17 => "1_000", 18 => "null", 19 => "False", 20 => "/", 21 => ".", 22 => "{}{0}", 23 => "a\r\nb",
                24 => { let n = self.s.range(20, 400); return "word, ".chars().cycle().take(n).collect() }
                _ => { let n = self.s.range(20, 5000); return "x".repeat(n) }
            }.to_string();
        }
        ["a", "", "hello world", "12", "x", "é", "true", "a\"b\\c\n", "YWJj", "reject", "/* x */", "65536", "日本", "p"][self.s.below(14)].to_string()
    }
    fn int(&mut self, n: &str, inside: bool) -> RLit {
        let (lo, hi): (i128, i128) = match n {
            "u8" => (0, 255), "i8" => (-128, 127), "u16" => (0, 65535), "i16" => (-32768, 32767),
            "u32" => (0, u32::MAX as i128), "i32" => (i32::MIN as i128, i32::MAX as i128),
            "u64" | "usize" => (0, u64::MAX as i128), _ => (i64::MIN as i128, i64::MAX as i128),
        };
        let x = if inside {
            match self.s.below(6) { 0 => 0.max(lo), 1 => hi, 2 => lo, 3 => (self.s.below(200) as i128 + lo).min(hi), 4 => { let b = self.s.below(64); let x = self.s.draw(1 << b) as i128; if self.s.chance(1, 2) { x.min(hi) } else { (-x).max(lo) } } _ => self.s.below(100) as i128 }
        } else { [hi + 1, lo - 1, hi * 10, hi + 256, hi * 2 + 1, hi + 1 + self.s.below(1000) as i128, lo - 1 - self.s.below(1000) as i128][self.s.below(7)] };
        let radix = [10, 10, 10, 16, 8, 2][self.s.below(6)];
        let neg = x < 0;
        let mut m = x.unsigned_abs();
        let mut d = vec![];
        loop { d.push(std::char::from_digit((m % radix as u128) as u32, radix).unwrap()); m /= radix as u128; if m == 0 { break; } }
        let t: String = d.into_iter().rev().collect();
        let sign = if neg { "-" } else if self.s.chance(1, 10) { "+" } else { "" };
        let zeros = if self.s.chance(1, 12) { "0".repeat(1 + self.s.below(20)) } else { String::new() };
        RLit::Int(radix, format!("{}{}{}", sign, zeros, t))
    }
    fn dec(&mut self) -> RLit {
        if self.s.chance(1, 10) {
            // next to the middle between two f32: rounding twice shows
            let bits = 0x2000_0000 + self.s.draw(0x4000_0000) as u32;
            let m = (f32::from_bits(bits) as f64 + f32::from_bits(bits + 1) as f64) / 2.0;
            let mut t = format!("{:e}", m);
            let (a, b) = t.split_once('e').map(|(a, b)| (a.to_string(), b.to_string())).unwrap();
            t = format!("{}{}{}e{}", a, if a.contains('.') { "" } else { "." }, ["", "0000000000000000000001", "0"][self.s.below(3)], b);
            return RLit::Dec(if t.contains(".e") { t.replace(".e", ".0e") } else { t });
        }
        if self.s.chance(1, 4) {
            let mut t = format!("{}{}", ["", "-", "+"][self.s.below(3)], self.s.draw(1 << 40));
            if self.s.chance(3, 4) { t.push_str(&format!(".{}", self.s.draw(1 << 50))); }
            if self.s.chance(1, 2) || !t.contains('.') { t.push_str(&format!("{}{}{}", ["e", "E"][self.s.below(2)], ["", "-", "+"][self.s.below(3)], self.s.draw(330))); }
            return RLit::Dec(t);
        }
        RLit::Dec(["0.5", "1.0", "-2.25", "1e3", "1.5e-3", "1e400", "0.1", "+3.0E+2", "123456789.987654321", "1e-400"][self.s.below(10)].into())
    }
    fn scalar(&mut self, sc: &Sc) -> RValue {
        match sc {
            Sc::Opt(x) => if self.s.chance(1, 5) { v(RLit::Null) } else { self.scalar(x) },
            Sc::Spanned(x, _) => self.scalar(x),
            _ => {
                let lit = match sc {
                    Sc::Int(n) => { let bad = self.noise(); self.int(n, !bad) }
                    Sc::F32 | Sc::F64 => self.dec(),
                    Sc::Text(_) => RLit::Str(self.text()),
                    Sc::Bool => RLit::Bool(self.s.chance(1, 2)),
                    Sc::Enum(_, names) => if self.noise() { RLit::Str(self.text()) } else { RLit::Str(names[self.s.below(names.len())].into()) },
                    _ => self.any_lit(),
                };
                let ty = if let Sc::Req = sc { let ok = !self.noise(); Some(nm(if !ok { "other" } else if self.s.chance(1, 2) { "need" } else { "u8" })).filter(|_| ok || self.s.chance(1, 2)) }
                else if self.typed > 0 && self.s.chance(self.typed, 8) {
                    match sc {
                        Sc::Int(n) => Some(nm(n)),
                        Sc::F32 => Some(nm("f32")),
                        Sc::F64 => Some(nm("f64")),
                        Sc::P | Sc::Value | Sc::Literal => Some(nm(["t", "u8", "base64"][self.s.below(3)])),
                        _ => None,
                    }
                } else { None };
                RValue { ty, lit, sp: Z }
            }
        }
    }
    fn str_text(&mut self, t: StrTy) -> String {
        let bad = self.noise();
        match t {
            StrTy::Ps | StrTy::Text => self.text(),
            StrTy::U16 => if bad { ["65536", "-1", "x", ""][self.s.below(4)].into() } else { ["0", "12", "65535", "+7", "007"][self.s.below(5)].into() },
            StrTy::Bool => if bad { ["True", "", "1"][self.s.below(3)].into() } else { ["true", "false"][self.s.below(2)].into() },
            StrTy::Char => if bad { ["ab", ""][self.s.below(2)].into() } else { ["x", "é", "\n"][self.s.below(3)].into() },
        }
    }
    fn value(&mut self, dm: &Dm, option: bool) -> RValue {
        let mut r = match dm {
            Dm::Normal(sc) => self.scalar(sc),
            _ if option && self.s.chance(1, 5) => v(RLit::Null),
            Dm::Str(t) => { let t = self.str_text(*t); v(RLit::Str(t)) }
            Dm::Bytes(_) => match self.s.below(4) {
                0 => v(RLit::Str(self.text())),
                1 => {
                    let most = if self.s.chance(1, 8) { 200 } else { 12 };
                    let n = self.s.below(most);
                    let b: Vec<u8> = (0..n).map(|_| self.s.draw(256) as u8).collect();
                    RValue { ty: Some(nm("base64")), lit: RLit::Str(to_base64(&b)), sp: Z }
                }
                _ => {
                    let bad = self.noise();
                    let t = if bad { ["YQ", "YQ=", "YR==", "a", "Y Q==", "YQ==YQ==", "_-==", "====", "YWI=\n", " YQ==", "YQ== ", "YQ==\n", " "][self.s.below(13)] }
                        else { ["", "YQ==", "YWI=", "YWJj", "AAECAwQF", "//79", "+/+/"][self.s.below(7)] };
                    RValue { ty: Some(nm("base64")), lit: RLit::Str(t.into()), sp: Z }
                }
            },
        };
        if self.noise() { r.lit = self.any_lit(); }
        if self.noise() { if let RLit::Str(t) = &r.lit { let t = self.blur(&t.clone()); r.lit = RLit::Str(t); } }
        if self.noise() { r.ty = Some(nm(&self.odd_type())); }
        r
    }
    fn odd_type(&mut self) -> String {
        if self.s.chance(1, 3) { return gen::odd_type(self.s); }
        ["u8", "i64", "f32", "base64", "reject", "odd type", "usize"][self.s.below(7)].to_string()
    }
    /// nearly the same name
    fn blur(&mut self, t: &str) -> String {
        match self.s.below(9) {
            0 => t.to_uppercase(),
            1 => { let mut c = t.chars(); match c.next() { Some(a) => a.to_uppercase().chain(c).collect(), None => " ".into() } }
            2 => if t.contains('-') { t.replace('-', "_") } else { t.replace('_', "-") },
            3 => format!("{} ", t),
            4 => format!(" {}", t),
            5 => { let mut c = t.chars(); c.next_back(); c.as_str().to_string() }
            6 => { let mut c = t.chars(); c.next(); c.as_str().to_string() }
            7 => format!("{}{}", t, ["s", "\u{0}", "-", "1", "\n", "\u{301}"][self.s.below(6)]),
            _ => t.chars().rev().collect(),
        }
    }
    fn any_value(&mut self) -> RValue {
        let lit = self.any_lit();
        let ty = if self.s.chance(1, 8) { Some(nm("t")) } else { None };
        RValue { ty, lit, sp: Z }
    }
    fn any_name(&mut self) -> String {
        ["node", "x", "item", "odd name", "é", "p1", "plain", "a", "other-one", "one", "kb", "name"][self.s.below(12)].to_string()
    }
    /// a node about which nothing is known
    pub fn any_node(&mut self, name: Option<&str>, depth: usize) -> RNode {
        let name = match name { Some(n) => n.to_string(), None => self.any_name() };
        let mut n = RNode { sp: Z, ty: None, name: nm(&name), args: vec![], props: vec![], children: None };
        for _ in 0..self.many(4) { n.args.push(self.any_value()); }
        for _ in 0..self.many(4) { let k = self.any_name(); let x = self.any_value(); n.props.push((nm(&k), x)); }
        if depth > 0 && self.s.chance(1, 4) {
            let k = self.many(4);
            n.children = Some((Z, (0..k).map(|_| self.any_node(None, depth - 1)).collect()));
        }
        n
    }
    fn of(&mut self, t: &NodeTy, name: Option<&str>, depth: usize) -> RNode {
        match t {
            NodeTy::Shape(s) => self.shape(s, name, depth),
            NodeTy::Unwrap(f) => self.fields(f, name, depth),
            NodeTy::Probe | NodeTy::Ast | NodeTy::AstNode => {
                let mut n = self.any_node(name, 1);
                if self.typed > 0 && self.s.chance(self.typed, 8) { n.ty = Some(nm("any")); }
                n
            }
            NodeTy::None => {
                let x = name.map(|x| x.to_string()).unwrap_or_else(|| "x".into());
                if self.noise() { self.any_node(Some(&x), 1) }
                else {
                    let c = if self.s.chance(1, 8) { Some((Z, vec![])) } else { None };
                    RNode { sp: Z, ty: None, name: nm(&x), args: vec![], props: vec![], children: c }
                }
            }
        }
    }
    pub fn shape(&mut self, sh: &Shape, name: Option<&str>, depth: usize) -> RNode {
        match sh {
            Shape::Struct(_, f) => self.fields(f, name, depth),
            Shape::New(_, t) => self.of(t, name, depth),
            Shape::NewOpt(_, t) => {
                if self.s.chance(1, 3) {
                    let x = match name { Some(x) => x.to_string(), None => self.any_name() };
                    return RNode { sp: Z, ty: None, name: nm(&x), args: vec![], props: vec![], children: None };
                }
                self.of(t, name, depth)
            }
            Shape::Enum(_, vars) => {
                if name.is_none() && self.noise() {
                    let k = if self.s.chance(1, 2) { let v = vars[self.s.below(vars.len())].name; Some(self.blur(v)) } else { None };
                    return self.any_node(k.as_deref(), 1);
                }
                // a fixed name may or may not be a variant
                let v = match name {
                    Some(n) => match vars.iter().find(|v| v.name == n) { Some(v) => v, None => return self.any_node(Some(n), 1) },
                    None => &vars[self.s.below(vars.len())],
                };
                match &v.kind {
                    VarKind::Unit => self.of(&NodeTy::None, Some(v.name), depth),
                    VarKind::Nested(t) => self.of(t, Some(v.name), depth),
                    VarKind::NestedOpt(t) => {
                        if self.s.chance(1, 3) { self.of(&NodeTy::None, Some(v.name), depth) } else { self.of(t, Some(v.name), depth) }
                    }
                    VarKind::Tuple(f) => self.fields(f, Some(v.name), depth),
                }
            }
        }
    }
    fn prop_names(&mut self, n: &mut RNode, f: &Fields, all_optional: bool) {
        for p in f.props {
            match &p.kind {
                PropKind::Named { name, option, default, dm } => {
                    let need = !*option && default.is_none() && !all_optional;
                    let skip = if need { self.noise() } else { self.s.chance(1, 2) };
                    if skip { continue; }
                    let x = self.value(dm, *option);
                    n.props.push((nm(name), x));
                }
                PropKind::Flat(Part::Of(_, f2)) => self.prop_names(n, f2, true),
                PropKind::Flat(Part::Probe) => for _ in 0..self.s.below(3) {
                    let k = ["p1", "p2", "pa", "p"][self.s.below(4)];
                    let x = self.any_value();
                    n.props.push((nm(k), x));
                },
            }
        }
    }
    fn fields(&mut self, f: &Fields, name: Option<&str>, depth: usize) -> RNode {
        let name = match name {
            Some(n) => n.to_string(),
            None => match f.node_names.first() { Some((_, t)) => self.str_text(*t), None => self.any_name() },
        };
        let mut n = RNode { sp: Z, ty: None, name: nm(&name), args: vec![], props: vec![], children: None };
        match f.type_names.first() {
            Some((_, t, option)) => {
                let skip = if *option { self.s.chance(1, 2) } else { self.noise() };
                if !skip { let t = self.str_text(*t); n.ty = Some(nm(&t)); }
            }
            None => if self.noise() { n.ty = Some(nm("some-type")); },
        }
        let mut stopped = false;
        for a in f.args {
            let can_stop = f.args.iter().skip_while(|x| x.f != a.f).all(|x| x.option || x.default.is_some());
            if can_stop && self.s.chance(1, 4) || self.noise() { stopped = true; break; }
            let x = self.value(&a.dm, a.option);
            n.args.push(x);
        }
        if let Some((_, _, dm)) = &f.var_args {
            if !stopped { for _ in 0..self.many(4) { let x = self.value(dm, false); n.args.push(x); } }
        }
        if self.noise() { for _ in 0..1 + self.many(3) / 2 { let x = self.any_value(); n.args.push(x); } }
        self.prop_names(&mut n, f, false);
        if let Some((_, t, dm)) = &f.var_props {
            for _ in 0..self.s.len(3) {
                let k = match t { StrTy::Ps | StrTy::Text => self.any_name(), t => self.str_text(*t) };
                let x = self.value(dm, false);
                n.props.push((nm(&k), x));
            }
        }
        if self.noise() { for _ in 0..1 + self.many(3) / 2 { let k = self.any_name(); let x = self.any_value(); n.props.push((nm(&k), x)); } }
        // a repeated property: the last one counts
        if !n.props.is_empty() && self.s.chance(1, 8) {
            let i = self.s.below(n.props.len());
            let mut x = n.props[i].clone();
            if self.s.chance(1, 2) { x.1 = self.any_value(); }
            n.props.insert(i, x);
        }
        if !n.props.is_empty() && self.noise() { let i = self.s.below(n.props.len()); let k = self.blur(&n.props[i].0.text.clone()); n.props[i].0 = nm(&k); }
        let mut kids = self.kids(f, depth);
        if !kids.is_empty() && self.noise() { let i = self.s.below(kids.len()); let k = self.blur(&kids[i].name.text.clone()); kids[i].name = nm(&k); }
        if !kids.is_empty() || self.s.chance(1, 8) { n.children = Some((Z, kids)); }
        n
    }
    fn add_kids(&mut self, out: &mut Vec<RNode>, f: &Fields, depth: usize, all_optional: bool) {
        for c in f.children {
            match &c.kind {
                ChildKind::Bool => if self.s.chance(1, 2) { let n = self.of(&NodeTy::None, Some(c.name), 0); out.push(n); },
                ChildKind::Normal { option, default } => {
                    let need = !*option && default.is_none() && !all_optional;
                    let skip = if need { self.noise() } else { depth == 0 || self.s.chance(1, 2) };
                    if skip { continue; }
                    let n = self.of(&c.ty, Some(c.name), depth.saturating_sub(1));
                    out.push(n);
                    if self.noise() { let n = self.of(&c.ty, Some(c.name), 0); out.push(n); }
                }
                ChildKind::Multi { .. } => if depth > 0 {
                    for _ in 0..self.many(3) { let n = self.of(&c.ty, Some(c.name), depth - 1); out.push(n); }
                },
                ChildKind::Flat(Part::Of(_, f2)) => self.add_kids(out, f2, depth, true),
                ChildKind::Flat(Part::Probe) => for _ in 0..self.s.below(3) {
                    let k = ["p1", "pq", "pa", "p"][self.s.below(4)];
                    let n = self.any_node(Some(k), 0);
                    out.push(n);
                },
            }
        }
        if let Some((_, _, t)) = &f.var_children {
            if depth > 0 { for _ in 0..self.many(3) { let n = self.of(t, None, depth - 1); out.push(n); } }
        }
    }
    pub fn kids(&mut self, f: &Fields, depth: usize) -> Vec<RNode> {
        let mut out = vec![];
        self.add_kids(&mut out, f, depth, false);
        if self.noise() { for _ in 0..1 + self.many(3) / 2 { let n = self.any_node(None, 1); out.push(n); } }
        if self.noise() && !out.is_empty() { let i = self.s.below(out.len()); let n = out[i].clone(); out.push(n); }
        if out.len() > 1 && self.s.chance(1, 2) {
            for i in (1..out.len()).rev() { let j = self.s.below(i + 1); out.swap(i, j); }
        }
        out
    }
    pub fn list(&mut self, sh: &Shape, max: usize) -> Vec<RNode> {
        let n = self.many(max);
        (0..n).map(|_| self.shape(sh, None, 3)).collect()
    }
}

fn to_base64(b: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in b.chunks(3) {
        let x = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 { if i <= c.len() { o.push(A[(x >> (18 - 6 * i)) as usize & 63] as char) } else { o.push('=') } }
    }
    o
}

fn put_name(g: &mut Gen, t: &str) {
    if bare_ok(t) && !g.s.chance(1, 8) { g.out.push_str(t); } else { g.quote(t); }
}
fn put_value(g: &mut Gen, v: &RValue) {
    if let Some(t) = &v.ty { g.out.push('('); put_name(g, &t.text); g.out.push(')'); }
    match &v.lit {
        RLit::Null => g.out.push_str("null"),
        RLit::Bool(b) => g.out.push_str(if *b { "true" } else { "false" }),
        RLit::Str(s) => g.quote(s),
        RLit::Dec(t) => g.out.push_str(t),
        RLit::Int(r, t) => {
            let (sign, d) = if t.starts_with(['+', '-']) { t.split_at(1) } else { ("", &t[..]) };
            g.out.push_str(sign);
            g.out.push_str(match r { 16 => "0x", 8 => "0o", 2 => "0b", _ => "" });
            for (i, c) in d.chars().enumerate() { if i > 0 && g.s.chance(1, 12) { g.out.push('_'); } g.out.push(c); }
        }
    }
}
fn put_node(g: &mut Gen, n: &RNode) {
    if let Some(t) = &n.ty { g.out.push('('); put_name(g, &t.text); g.out.push(')'); }
    put_name(g, &n.name.text);
    // arguments and properties mix freely
    let (mut a, mut p) = (n.args.iter().peekable(), n.props.iter().peekable());
    loop {
        let take_prop = match (a.peek(), p.peek()) { (None, None) => break, (Some(_), None) => false, (None, Some(_)) => true, _ => g.s.chance(1, 3) };
        g.nsp();
        if take_prop { let (k, v) = p.next().unwrap(); put_name(g, &k.text); g.out.push('='); put_value(g, v); }
        else { let v = a.next().unwrap(); put_value(g, v); }
    }
    if let Some((_, kids)) = &n.children {
        if g.s.chance(3, 4) { g.nsp(); }
        g.out.push('{');
        if g.s.chance(1, 2) { g.nl(); }
        put_nodes(g, kids);
        g.out.push('}');
    }
    g.terminator();
}
pub fn put_nodes(g: &mut Gen, v: &[RNode]) {
    for n in v { put_node(g, n); if g.s.chance(1, 6) { g.filler(); } }
}
pub fn print(s: &mut Src, k: &Knobs, v: &[RNode]) -> String {
    let mut g = Gen { s, k, out: String::new() };
    if g.s.chance(1, 6) { g.filler(); }
    put_nodes(&mut g, v);
    g.out
}
