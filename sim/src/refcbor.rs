//! Reference codec of the snapshot format, written by hand from the field
//! numbers the library publishes.  Shares no code with minicbor.
use std::collections::BTreeMap;

use knuffel::ast::{Document, SpannedNode, TypeName, Value};
use knuffel::span::Spanned;

use crate::choice::Src;
use crate::cmp::View;
use crate::refkdl::{RLit, RNode, RValue};

/// byte positions, or (offset, line, column) twice
pub type TSpan = Vec<u64>;
pub type TStr = (TSpan, String);
#[derive(Clone, Debug, PartialEq)]
pub struct TVal { pub ty: Option<TStr>, pub sp: TSpan, pub lit: RLit }
#[derive(Clone, Debug, PartialEq)]
pub struct TNode {
    pub sp: TSpan, pub ty: Option<TStr>, pub name: TStr, pub args: Vec<TVal>,
    pub props: BTreeMap<String, (TSpan, TVal)>, pub kids: Option<(TSpan, Vec<TNode>)>,
}

// ------------------------------------------------- from a loaded document ---

fn tspan<S: View>(s: &S) -> TSpan {
    match s.lc() {
        Some((a, b)) => [a.off, a.line, a.col, b.off, b.line, b.col].iter().map(|x| *x as u64).collect(),
        None => vec![s.sp().s as u64, s.sp().e as u64],
    }
}
fn tty<S: View>(t: &Option<Spanned<TypeName, S>>) -> Option<TStr> { t.as_ref().map(|t| (tspan(t.span()), t.as_str().to_string())) }
fn tval<S: View>(v: &Value<S>, r: &RValue) -> TVal { TVal { ty: tty(&v.type_name), sp: tspan(v.literal.span()), lit: r.lit.clone() } }
fn tnode<S: View>(n: &SpannedNode<S>, r: &RNode) -> TNode {
    let eff = r.effective();
    TNode {
        sp: tspan(n.span()), ty: tty(&n.type_name), name: (tspan(n.node_name.span()), n.node_name.to_string()),
        args: n.arguments.iter().zip(&r.args).map(|(a, b)| tval(a, b)).collect(),
        props: n.properties.iter().zip(&eff).map(|((k, v), (_, (_, rv)))| (k.to_string(), (tspan(k.span()), tval(v, rv)))).collect(),
        kids: n.children.as_ref().map(|c| (tspan(c.span()), tree(c, r.kids()))),
    }
}
fn tree<S: View>(n: &[SpannedNode<S>], r: &[RNode]) -> Vec<TNode> { n.iter().zip(r).map(|(a, b)| tnode(a, b)).collect() }
/// The document as a tree; the caller made sure that it agrees with `r`.
pub fn of<S: View>(d: &Document<S>, r: &[RNode]) -> Vec<TNode> { tree(&d.nodes, r) }

// ----------------------------------------------------------------- writer ---

/// A writer of another release: more fields, explicit nulls, wider heads.
pub struct Style<'a> { pub s: Option<&'a mut Src>, pub extra: u64, pub nulls: u64, pub wide: u64 }

pub struct W<'a> { pub out: Vec<u8>, pub style: Style<'a>, pub extras: u64 }
impl<'a> W<'a> {
    pub fn exact() -> W<'static> { W { out: vec![], style: Style { s: None, extra: 0, nulls: 0, wide: 0 }, extras: 0 } }
    pub fn other(s: &'a mut Src) -> W<'a> {
        let extra = s.below(4) as u64;
        let nulls = s.below(3) as u64;
        let wide = s.below(3) as u64;
        W { out: vec![], style: Style { s: Some(s), extra, nulls, wide }, extras: 0 }
    }
    fn yes(&mut self, weight: u64) -> bool {
        match &mut self.style.s { Some(s) if weight > 0 => s.chance(weight, 8), _ => false }
    }
    fn head(&mut self, major: u8, n: u64) {
        let widen = { let w = self.style.wide; if self.yes(w) { 1 + self.style.s.as_mut().unwrap().below(4) } else { 0 } };
        let m = major << 5;
        let min = if n < 24 { 0 } else if n <= 0xff { 1 } else if n <= 0xffff { 2 } else if n <= 0xffff_ffff { 3 } else { 4 };
        match min.max(widen) {
            0 => self.out.push(m | n as u8),
            1 => { self.out.push(m | 24); self.out.push(n as u8) }
            2 => { self.out.push(m | 25); self.out.extend_from_slice(&(n as u16).to_be_bytes()) }
            3 => { self.out.push(m | 26); self.out.extend_from_slice(&(n as u32).to_be_bytes()) }
            _ => { self.out.push(m | 27); self.out.extend_from_slice(&n.to_be_bytes()) }
        }
    }
    fn u(&mut self, n: u64) { self.head(0, n) }
    fn text(&mut self, t: &str) { self.head(3, t.len() as u64); self.out.extend_from_slice(t.as_bytes()) }
    fn null(&mut self) { self.out.push(0xf6) }
    /// something a later release may have added
    fn junk(&mut self, depth: usize) {
        let k = self.style.s.as_mut().unwrap().below(if depth > 2 { 6 } else { 9 });
        match k {
            0 => self.null(),
            1 => { let n = self.style.s.as_mut().unwrap().draw(1 << 40); self.u(n) }
            2 => { self.out.push(0x38); self.out.push(5) }
            3 => self.text("neu \u{e9}"),
            4 => { self.out.push(0x43); self.out.extend_from_slice(b"\x00\xff\x82") }
            5 => { self.out.push(0xfb); self.out.extend_from_slice(&1.5f64.to_be_bytes()) }
            6 => { self.out.push(0x82); self.junk(depth + 1); self.junk(depth + 1) }
            7 => { self.out.push(0xa1); self.junk(depth + 1); self.junk(depth + 1) }
            _ => { self.out.push(0xc1); self.u(3) }
        }
    }
    /// array of `n` fields, perhaps followed by unknown ones
    fn fields(&mut self, n: u64) -> u64 {
        let e = self.style.extra;
        let k = if self.yes(e) { 1 + self.style.s.as_mut().unwrap().draw(2) } else { 0 };
        self.head(4, n + k);
        self.extras += k;
        k
    }
    fn more(&mut self, k: u64) { for _ in 0..k { self.junk(0) } }
    fn span(&mut self, s: &TSpan) {
        let k = self.fields(2);
        if s.len() == 2 { self.u(s[0]); self.u(s[1]); } else {
            for p in s.chunks(3) { let j = self.fields(3); for x in p { self.u(*x) } self.more(j) }
        }
        self.more(k)
    }
    fn spanned(&mut self, s: &TSpan, f: impl FnOnce(&mut Self)) {
        let k = self.fields(2);
        self.span(s);
        f(self);
        self.more(k)
    }
    fn name(&mut self, t: &TStr) { self.spanned(&t.0, |w| w.text(&t.1)) }
    fn opt_name(&mut self, t: &Option<TStr>) { match t { Some(t) => self.name(t), None => self.null() } }
    fn lit(&mut self, l: &RLit) {
        self.head(4, 2);
        let mut one = |n: u64, f: &mut dyn FnMut(&mut Self)| {
            self.u(n);
            let k = self.fields(1);
            f(self);
            self.more(k)
        };
        match l {
            RLit::Null => { self.u(0); let k = self.fields(0); self.more(k) }
            RLit::Bool(b) => one(1, &mut |w| w.out.push(if *b { 0xf5 } else { 0xf4 })),
            RLit::Int(radix, t) => one(2, &mut |w| { let k = w.fields(2); w.u(*radix as u64); w.text(t); w.more(k) }),
            RLit::Dec(t) => one(3, &mut |w| w.text(t)),
            RLit::Str(t) => one(4, &mut |w| w.text(t)),
        }
    }
    pub fn value(&mut self, v: &TVal) {
        let k = self.fields(2);
        self.opt_name(&v.ty);
        self.spanned(&v.sp, |w| w.lit(&v.lit));
        self.more(k)
    }
    pub fn node(&mut self, n: &TNode) {
        self.spanned(&n.sp, |w| {
            let null = w.style.nulls;
            let five = n.kids.is_some() || w.yes(null);
            // fields can only be added behind the fifth
            let k = if five { w.fields(5) } else { w.head(4, 4); 0 };
            w.opt_name(&n.ty);
            w.name(&n.name);
            w.head(4, n.args.len() as u64);
            for a in &n.args { w.value(a) }
            w.head(5, n.props.len() as u64);
            for (key, (sp, v)) in &n.props { w.name(&(sp.clone(), key.clone())); w.value(v) }
            if five {
                match &n.kids { Some((sp, c)) => w.spanned(sp, |w| w.nodes(c)), None => w.null() }
            }
            w.more(k)
        })
    }
    fn nodes(&mut self, n: &[TNode]) { self.head(4, n.len() as u64); for x in n { self.node(x) } }
    pub fn doc(&mut self, n: &[TNode]) { let k = self.fields(1); self.nodes(n); self.more(k) }
}
pub fn encode(n: &[TNode]) -> Vec<u8> { let mut w = W::exact(); w.doc(n); w.out }

// ----------------------------------------------------------------- reader ---

/// `No`: these bytes are no snapshot.  `Unsure`: CBOR this reader has no opinion on.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bad { No, Unsure }
type R<T> = Result<T, Bad>;

pub struct Rd<'a> { b: &'a [u8], pub i: usize, lines: bool }
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8], lines: bool) -> Rd<'a> { Rd { b, i: 0, lines } }
    fn byte(&mut self) -> R<u8> { let x = *self.b.get(self.i).ok_or(Bad::No)?; self.i += 1; Ok(x) }
    fn take(&mut self, n: u64) -> R<&'a [u8]> {
        if n > (self.b.len() - self.i) as u64 { return Err(Bad::No); }
        let r = &self.b[self.i..self.i + n as usize];
        self.i += n as usize;
        Ok(r)
    }
    fn arg(&mut self, info: u8) -> R<u64> {
        let n = match info { 0..=23 => return Ok(info as u64), 24 => 1, 25 => 2, 26 => 4, 27 => 8, 31 => return Err(Bad::Unsure), _ => return Err(Bad::No) };
        Ok(self.take(n)?.iter().fold(0, |a, x| a << 8 | *x as u64))
    }
    fn head(&mut self, major: u8) -> R<u64> {
        let b = self.byte()?;
        if b >> 5 == 6 || b == 0xff { return Err(Bad::Unsure); }
        if b >> 5 != major { return Err(Bad::No); }
        self.arg(b & 31)
    }
    fn text(&mut self) -> R<String> {
        let n = self.head(3)?;
        std::str::from_utf8(self.take(n)?).map(|x| x.to_string()).map_err(|_| Bad::No)
    }
    fn skip(&mut self) -> R<()> {
        let mut left = 1u128;
        while left > 0 {
            left -= 1;
            let b = self.byte()?;
            if b == 0xff { return Err(Bad::Unsure); }
            let info = b & 31;
            match b >> 5 {
                0 | 1 => { self.arg(info)?; }
                2 => { let n = self.arg(info)?; self.take(n)?; }
                3 => { let n = self.arg(info)?; std::str::from_utf8(self.take(n)?).map_err(|_| Bad::No)?; }
                4 => left += self.arg(info)? as u128,
                5 => left += 2 * self.arg(info)? as u128,
                6 => return Err(Bad::Unsure),
                _ => { self.arg(info)?; }
            }
        }
        Ok(())
    }
    /// array of fields, the first of which `f` reads by number; false: unknown
    fn fields(&mut self, mut f: impl FnMut(&mut Self, u64) -> R<bool>) -> R<()> {
        let n = self.head(4)?;
        for i in 0..n { if !f(self, i)? { self.skip()?; } }
        Ok(())
    }
    fn nums(&mut self, k: usize) -> R<Vec<u64>> {
        let mut v = vec![];
        self.fields(|r, i| { if i < k as u64 { let x = r.head(0)?; v.push(x); Ok(true) } else { Ok(false) } })?;
        if v.len() < k { Err(Bad::No) } else { Ok(v) }
    }
    fn span(&mut self) -> R<TSpan> {
        if !self.lines { return self.nums(2); }
        let mut v = vec![];
        self.fields(|r, i| { if i < 2 { v.extend(r.nums(3)?); Ok(true) } else { Ok(false) } })?;
        if v.len() < 6 { Err(Bad::No) } else { Ok(v) }
    }
    fn spanned<T>(&mut self, mut f: impl FnMut(&mut Self) -> R<T>) -> R<(TSpan, T)> {
        let (mut s, mut v) = (None, None);
        self.fields(|r, i| { match i { 0 => s = Some(r.span()?), 1 => v = Some(f(r)?), _ => return Ok(false) } Ok(true) })?;
        match (s, v) { (Some(s), Some(v)) => Ok((s, v)), _ => Err(Bad::No) }
    }
    fn opt<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<Option<T>> {
        if self.b.get(self.i) == Some(&0xf6) { self.i += 1; return Ok(None); }
        f(self).map(Some)
    }
    fn lit(&mut self) -> R<RLit> {
        if self.head(4)? != 2 { return Err(Bad::No); }
        let v = self.head(0)?;
        if v > u32::MAX as u64 { return Err(Bad::No); }
        let mut out = None;
        match v {
            0 => { self.skip()?; out = Some(RLit::Null) }
            1 => self.fields(|r, i| { if i > 0 { return Ok(false); } out = Some(match r.byte()? { 0xf4 => RLit::Bool(false), 0xf5 => RLit::Bool(true), x if x >> 5 == 6 => return Err(Bad::Unsure), _ => return Err(Bad::No) }); Ok(true) })?,
            2 => self.fields(|r, i| {
                if i > 0 { return Ok(false); }
                let (mut radix, mut t) = (None, None);
                r.fields(|r, j| { match j {
                    0 => { let x = r.head(0)?; if x > u32::MAX as u64 { return Err(Bad::No); } if ![2, 8, 10, 16].contains(&x) { return Err(Bad::Unsure); } radix = Some(x as u32) }
                    1 => t = Some(r.text()?),
                    _ => return Ok(false) } Ok(true) })?;
                match (radix, t) { (Some(a), Some(b)) => out = Some(RLit::Int(a, b)), _ => return Err(Bad::No) }
                Ok(true)
            })?,
            3 => self.fields(|r, i| { if i > 0 { return Ok(false); } out = Some(RLit::Dec(r.text()?)); Ok(true) })?,
            4 => self.fields(|r, i| { if i > 0 { return Ok(false); } out = Some(RLit::Str(r.text()?)); Ok(true) })?,
            _ => return Err(Bad::Unsure),
        }
        out.ok_or(Bad::No)
    }
    fn value(&mut self) -> R<TVal> {
        let (mut ty, mut v) = (None, None);
        self.fields(|r, i| { match i { 0 => ty = r.opt(|r| r.spanned(|r| r.text()))?, 1 => v = Some(r.spanned(|r| r.lit())?), _ => return Ok(false) } Ok(true) })?;
        let (sp, lit) = v.ok_or(Bad::No)?;
        Ok(TVal { ty, sp, lit })
    }
    fn node(&mut self) -> R<TNode> {
        let (sp, mut n) = self.spanned(|r| {
            let (mut ty, mut name, mut args, mut props, mut kids) = (None, None, None, None, None);
            r.fields(|r, i| {
                match i {
                    0 => ty = r.opt(|r| r.spanned(|r| r.text()))?,
                    1 => name = Some(r.spanned(|r| r.text())?),
                    2 => { let n = r.head(4)?; let mut v = vec![]; for _ in 0..n { v.push(r.value()?) } args = Some(v) }
                    3 => {
                        let n = r.head(5)?;
                        let mut m: BTreeMap<String, (TSpan, TVal)> = BTreeMap::new();
                        for _ in 0..n {
                            let (sp, k) = r.spanned(|r| r.text())?;
                            let v = r.value()?;
                            match m.get_mut(&k) { Some(e) => e.1 = v, None => { m.insert(k, (sp, v)); } }
                        }
                        props = Some(m)
                    }
                    4 => kids = r.opt(|r| r.spanned(|r| r.nodes()))?,
                    _ => return Ok(false),
                }
                Ok(true)
            })?;
            match (name, args, props) {
                (Some(name), Some(args), Some(props)) => Ok(TNode { sp: vec![], ty, name, args, props, kids }),
                _ => Err(Bad::No),
            }
        })?;
        n.sp = sp;
        Ok(n)
    }
    fn nodes(&mut self) -> R<Vec<TNode>> {
        let n = self.head(4)?;
        let mut v = vec![];
        for _ in 0..n { v.push(self.node()?) }
        Ok(v)
    }
    pub fn doc(&mut self) -> R<Vec<TNode>> {
        let mut v = None;
        self.fields(|r, i| { if i == 0 { v = Some(r.nodes()?); Ok(true) } else { Ok(false) } })?;
        v.ok_or(Bad::No)
    }
}
