//! Comparison of what the library returned with the reference model.  Values
//! and positions are judged separately.
use knuffel::ast::{BuiltinType, Document, Literal, SpannedNode, TypeName, Value, Decimal};
use knuffel::span::{LinePos, LineSpan, Span, Spanned};

use crate::refkdl::{Lines, RLit, RName, RNode, RValue, Sp, LC};

pub type D = Result<(), String>;

/// Read access to the two position types.
pub trait View: Clone + std::fmt::Debug {
    const MODE: &'static str;
    fn sp(&self) -> Sp;
    fn lc(&self) -> Option<(LC, LC)>;
    /// as a report shows it
    fn label(&self) -> (usize, usize);
}
impl View for Span {
    const MODE: &'static str = "Span";
    fn sp(&self) -> Sp { Sp { s: self.0, e: self.1 } }
    fn lc(&self) -> Option<(LC, LC)> { None }
    fn label(&self) -> (usize, usize) { let l: miette::SourceSpan = self.clone().into(); if self.length() == l.len() { (l.offset(), l.len()) } else { (l.offset(), usize::MAX) } }
}
fn lc(p: &LinePos) -> LC { LC { off: p.offset, line: p.line, col: p.column } }
impl View for LineSpan {
    const MODE: &'static str = "LineSpan";
    fn sp(&self) -> Sp { Sp { s: self.0.offset, e: self.1.offset } }
    fn lc(&self) -> Option<(LC, LC)> { Some((lc(&self.0), lc(&self.1))) }
    fn label(&self) -> (usize, usize) { let l: miette::SourceSpan = self.clone().into(); (l.offset(), l.len()) }
}

pub fn builtin(name: &str) -> Option<BuiltinType> {
    use BuiltinType::*;
    Some(match name {
        "u8" => U8, "i8" => I8, "u16" => U16, "i16" => I16, "u32" => U32, "i32" => I32,
        "u64" => U64, "i64" => I64, "usize" => Usize, "isize" => Isize, "f32" => F32, "f64" => F64,
        "base64" => Base64, _ => return None,
    })
}

pub fn type_name(t: &TypeName, want: &str) -> D {
    if t.as_str() != want || &**t != want { return Err(format!("type name {:?} instead of {:?}", t.as_str(), want)); }
    if t.as_builtin() != builtin(want).as_ref() {
        return Err(format!("type name {:?} classified as {:?}", want, t.as_builtin()));
    }
    Ok(())
}

fn parse_int(radix: u32, t: &str) -> Option<i128> {
    // independent of from_str_radix: sign, then digits
    let (neg, d) = match t.as_bytes().first() { Some(b'-') => (true, &t[1..]), Some(b'+') => (false, &t[1..]), _ => (false, t) };
    let mut v: i128 = 0;
    for c in d.chars() {
        v = v.checked_mul(radix as i128)?.checked_add(c.to_digit(radix)? as i128)?;
    }
    Some(if neg { -v } else { v })
}
/// Reference integer conversion: the value if it fits.
pub fn int_value(radix: u32, t: &str, lo: i128, hi: i128) -> Option<i128> {
    parse_int(radix, t).filter(|v| *v >= lo && *v <= hi)
}

macro_rules! check_ints {
    ($i:expr, $radix:expr, $t:expr, $($ty:ident),*) => { $(
        {
            let want = int_value($radix, $t, $ty::MIN as i128, $ty::MAX as i128);
            let got = $ty::try_from($i).ok().map(|v| v as i128);
            // "-0" for an unsigned type is left open
            let open = $ty::MIN == 0 && $t.starts_with("-") && want == Some(0);
            if got != want && !open {
                return Err(format!("integer {:?} (radix {}) converts to {:?} as {}, expected {:?}", $t, $radix, got, stringify!($ty), want));
            }
        }
    )* }
}

pub fn literal(l: &Literal, r: &RLit) -> D {
    let bad = || Err(format!("literal {:?} instead of {:?}", l, r));
    match (l, r) {
        (Literal::Null, RLit::Null) => Ok(()),
        (Literal::Bool(a), RLit::Bool(b)) if a == b => Ok(()),
        (Literal::String(a), RLit::Str(b)) if **a == b[..] => Ok(()),
        (Literal::Int(i), RLit::Int(radix, t)) => {
            check_ints!(i, *radix, t, i8, u8, i16, u16, i32, u32, i64, u64, isize, usize);
            if !format!("{:?}", i).contains(&format!("{:?}", t)) {
                return Err(format!("integer digits {:?} instead of {:?}", i, t));
            }
            Ok(())
        }
        (Literal::Decimal(d), RLit::Dec(t)) => decimal(d, t),
        _ => bad(),
    }
}
fn decimal(d: &Decimal, t: &str) -> D {
    let (a, b) = (f64::try_from(d).ok().map(f64::to_bits), t.parse::<f64>().ok().map(f64::to_bits));
    if a != b || a.is_none() { return Err(format!("decimal {:?} converts to f64 bits {:?}, expected {:?}", t, a, b)); }
    let (a, b) = (f32::try_from(d).ok().map(f32::to_bits), t.parse::<f32>().ok().map(f32::to_bits));
    if a != b || a.is_none() { return Err(format!("decimal {:?} converts to f32 bits {:?}, expected {:?}", t, a, b)); }
    if !format!("{:?}", d).contains(&format!("{:?}", t)) { return Err(format!("decimal digits {:?} instead of {:?}", d, t)); }
    Ok(())
}

fn opt_type<S>(t: &Option<Spanned<TypeName, S>>, r: &Option<RName>) -> D {
    match (t, r) {
        (None, None) => Ok(()),
        (Some(t), Some(r)) => type_name(t, &r.text),
        _ => Err(format!("type name {:?} instead of {:?}", t.as_ref().map(|x| x.as_str().to_string()), r.as_ref().map(|x| &x.text))),
    }
}
pub fn value<S>(v: &Value<S>, r: &RValue) -> D {
    opt_type(&v.type_name, &r.ty)?;
    literal(&v.literal, &r.lit)
}

/// Structure and values of a list of nodes.
pub fn nodes<S>(a: &[SpannedNode<S>], b: &[RNode]) -> D {
    if a.len() != b.len() {
        return Err(format!("{} nodes {:?} instead of {} {:?}", a.len(), a.iter().map(|n| n.node_name.to_string()).collect::<Vec<_>>(),
            b.len(), b.iter().map(|n| &n.name.text).collect::<Vec<_>>()));
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() { node(x, y).map_err(|e| format!("node {} ({:?}): {}", i, y.name.text, e))?; }
    Ok(())
}
pub fn node<S>(x: &SpannedNode<S>, y: &RNode) -> D {
    if **x.node_name != y.name.text[..] { return Err(format!("name {:?}", x.node_name.to_string())); }
    opt_type(&x.type_name, &y.ty)?;
    if x.arguments.len() != y.args.len() { return Err(format!("{} arguments instead of {}", x.arguments.len(), y.args.len())); }
    for (i, (a, b)) in x.arguments.iter().zip(&y.args).enumerate() { value(a, b).map_err(|e| format!("argument {}: {}", i, e))?; }
    let eff = y.effective();
    if x.properties.len() != eff.len() { return Err(format!("{} properties instead of {}", x.properties.len(), eff.len())); }
    for ((k, v), (rk, (_, rv))) in x.properties.iter().zip(&eff) {
        if &***k != *rk { return Err(format!("property {:?} instead of {:?}", &***k, rk)); }
        value(v, rv).map_err(|e| format!("property {:?}: {}", rk, e))?;
    }
    // lookup by plain name must find the same entries
    for (rk, (_, rv)) in &eff {
        match x.properties.get(*rk) {
            Some(v) => value(v, rv).map_err(|e| format!("property {:?} by lookup: {}", rk, e))?,
            None => return Err(format!("property {:?} not found by name", rk)),
        }
    }
    match (&x.children, &y.children) {
        (None, None) => {}
        (Some(c), Some((_, r))) => nodes(c, r).map_err(|e| format!("children: {}", e))?,
        (a, b) => return Err(format!("children block {} instead of {}", if a.is_some() { "present" } else { "absent" }, if b.is_some() { "present" } else { "absent" })),
    }
    if x.children().len() != y.kids().len() { return Err("children() disagrees".into()); }
    Ok(())
}
pub fn document<S>(d: &Document<S>, r: &[RNode]) -> D { nodes(&d.nodes, r) }

// positions --------------------------------------------------------------

pub fn pos<S: View>(what: &str, s: &S, want: Sp, l: &Lines) -> D {
    if s.sp() != want { return Err(format!("{} at bytes {}..{} instead of {}..{} [{}]", what, s.sp().s, s.sp().e, want.s, want.e, S::MODE)); }
    if s.label() != (want.s, want.e - want.s) { return Err(format!("{} shown at {:?} instead of {}..{} [{}]", what, s.label(), want.s, want.e, S::MODE)); }
    if let Some((a, b)) = s.lc() {
        let (x, y) = (l.at(want.s), l.at(want.e));
        if (a, b) != (x, y) {
            return Err(format!("{} at line:column {}:{}..{}:{} instead of {}:{}..{}:{}", what, a.line, a.col, b.line, b.col, x.line, x.col, y.line, y.col));
        }
    }
    Ok(())
}
fn opt_type_pos<S: View>(t: &Option<Spanned<TypeName, S>>, r: &Option<RName>, l: &Lines) -> D {
    if let (Some(t), Some(r)) = (t, r) { pos("type name", t.span(), r.sp, l)?; }
    Ok(())
}
fn value_pos<S: View>(v: &Value<S>, r: &RValue, l: &Lines) -> D {
    opt_type_pos(&v.type_name, &r.ty, l)?;
    pos("value", v.literal.span(), r.sp, l)
}
pub fn nodes_pos<S: View>(a: &[SpannedNode<S>], b: &[RNode], l: &Lines) -> D {
    for (x, y) in a.iter().zip(b) { node_pos(x, y, l).map_err(|e| format!("node {:?}: {}", y.name.text, e))?; }
    Ok(())
}
pub fn node_pos<S: View>(x: &SpannedNode<S>, y: &RNode, l: &Lines) -> D {
    pos("node", x.span(), y.sp, l)?;
    pos("node name", x.node_name.span(), y.name.sp, l)?;
    opt_type_pos(&x.type_name, &y.ty, l)?;
    for (a, b) in x.arguments.iter().zip(&y.args) { value_pos(a, b, l)?; }
    let eff = y.effective();
    for ((k, v), (_, (ks, rv))) in x.properties.iter().zip(&eff) {
        // of a repeated property the key position may be that of any occurrence
        if !ks.iter().any(|s| pos("property name", k.span(), *s, l).is_ok()) { pos("property name", k.span(), ks[0], l)?; }
        value_pos(v, rv, l)?;
    }
    if let (Some(c), Some((sp, r))) = (&x.children, &y.children) {
        pos("children block", c.span(), *sp, l)?;
        nodes_pos(c, r, l)?;
    }
    Ok(())
}
