//! A neutral tree every decoded Rust value is converted into, so that it can be
//! compared with what the reference interpreter computes.
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Arc;

use knuffel::ast::{Literal, SpannedNode, TypeName, Value};
use knuffel::span::Spanned;

use crate::cmp::View;
use crate::refkdl::{RLit, RName, RNode, RValue, Sp};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Val {
    None,
    Some(Box<Val>),
    Bool(bool),
    Int(i128),
    F64(u64),
    F32(u32),
    Str(String),
    List(Vec<Val>),
    Map(Vec<(String, Val)>),
    /// struct or variant: name and fields in order of declaration
    St(&'static str, Vec<Val>),
    Span(usize, usize),
}

pub trait ToVal { fn to_val(&self) -> Val; }

macro_rules! ints { ($($t:ty),*) => { $(impl ToVal for $t { fn to_val(&self) -> Val { Val::Int(*self as i128) } })* } }
ints!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);
impl ToVal for bool { fn to_val(&self) -> Val { Val::Bool(*self) } }
impl ToVal for f64 { fn to_val(&self) -> Val { Val::F64(self.to_bits()) } }
impl ToVal for f32 { fn to_val(&self) -> Val { Val::F32(self.to_bits()) } }
impl ToVal for char { fn to_val(&self) -> Val { Val::Str(self.to_string()) } }
impl ToVal for String { fn to_val(&self) -> Val { Val::Str(self.clone()) } }
impl ToVal for Box<str> { fn to_val(&self) -> Val { Val::Str(self.to_string()) } }
impl ToVal for Arc<str> { fn to_val(&self) -> Val { Val::Str(self.to_string()) } }
impl ToVal for PathBuf { fn to_val(&self) -> Val { Val::Str(self.to_str().unwrap().to_string()) } }
impl ToVal for Arc<Path> { fn to_val(&self) -> Val { Val::Str(self.to_str().unwrap().to_string()) } }
impl<T: ToVal> ToVal for Option<T> {
    fn to_val(&self) -> Val { match self { None => Val::None, Some(x) => Val::Some(Box::new(x.to_val())) } }
}
impl<T: ToVal> ToVal for Box<T> { fn to_val(&self) -> Val { (**self).to_val() } }
impl<T: ToVal> ToVal for Rc<T> { fn to_val(&self) -> Val { (**self).to_val() } }
impl<T: ToVal> ToVal for Arc<T> { fn to_val(&self) -> Val { (**self).to_val() } }
impl<T: ToVal> ToVal for Vec<T> { fn to_val(&self) -> Val { Val::List(self.iter().map(T::to_val).collect()) } }
impl<T: ToVal> ToVal for VecDeque<T> { fn to_val(&self) -> Val { Val::List(self.iter().map(T::to_val).collect()) } }
impl<T: ToVal> ToVal for Box<[T]> { fn to_val(&self) -> Val { Val::List(self.iter().map(T::to_val).collect()) } }
impl<T: ToVal> ToVal for BTreeSet<T> {
    fn to_val(&self) -> Val { let mut v: Vec<_> = self.iter().map(T::to_val).collect(); v.sort(); Val::List(v) }
}
pub trait KeyStr { fn key_str(&self) -> String; }
impl KeyStr for String { fn key_str(&self) -> String { self.clone() } }
impl KeyStr for u16 { fn key_str(&self) -> String { self.to_string() } }
fn map<'a, K: KeyStr + 'a, V: ToVal + 'a>(it: impl Iterator<Item = (&'a K, &'a V)>) -> Val {
    let mut v: Vec<_> = it.map(|(k, v)| (k.key_str(), v.to_val())).collect();
    v.sort();
    Val::Map(v)
}
impl<K: KeyStr, V: ToVal> ToVal for BTreeMap<K, V> { fn to_val(&self) -> Val { map(self.iter()) } }
impl<K: KeyStr, V: ToVal> ToVal for HashMap<K, V> { fn to_val(&self) -> Val { map(self.iter()) } }
/// a list of pairs keeps its order
pub struct Pairs<K, V>(pub Vec<(K, V)>);
impl<K: KeyStr, V: ToVal> ToVal for Pairs<K, V> {
    fn to_val(&self) -> Val { Val::Map(self.0.iter().map(|(k, v)| (k.key_str(), v.to_val())).collect()) }
}
impl<K, V> std::iter::FromIterator<(K, V)> for Pairs<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { Pairs(i.into_iter().collect()) }
}
impl<K, V> Default for Pairs<K, V> { fn default() -> Self { Pairs(vec![]) } }

pub fn span(s: Sp) -> Val { Val::Span(s.s, s.e) }
impl ToVal for knuffel::span::Span { fn to_val(&self) -> Val { Val::Span(self.0, self.1) } }
impl ToVal for knuffel::span::LineSpan { fn to_val(&self) -> Val { span(self.sp()) } }

impl<T: ToVal, S: ToVal> ToVal for Spanned<T, S> {
    fn to_val(&self) -> Val { Val::St("Spanned", vec![(**self).to_val(), self.span().to_val()]) }
}
impl ToVal for Literal {
    fn to_val(&self) -> Val {
        match self {
            Literal::Null => Val::St("null", vec![]),
            Literal::Bool(b) => Val::St("bool", vec![Val::Bool(*b)]),
            Literal::String(s) => Val::St("string", vec![Val::Str(s.to_string())]),
            Literal::Int(i) => Val::St("int", vec![
                i64::try_from(i).ok().to_val(), u64::try_from(i).ok().to_val()]),
            Literal::Decimal(d) => Val::St("decimal", vec![f64::try_from(d).ok().to_val()]),
        }
    }
}
impl ToVal for TypeName { fn to_val(&self) -> Val { Val::Str(self.as_str().to_string()) } }
impl<S: ToVal> ToVal for Value<S> {
    fn to_val(&self) -> Val {
        Val::St("Value", vec![self.type_name.to_val(), self.literal.to_val()])
    }
}
pub fn node_val<S: ToVal>(n: &knuffel::ast::Node<S>) -> Val {
    Val::St("Node", vec![
        n.type_name.to_val(), n.node_name.to_val(),
        Val::List(n.arguments.iter().map(|x| x.to_val()).collect()),
        Val::Map(n.properties.iter().map(|(k, v)| (k.to_string(), v.to_val())).collect()),
        match &n.children {
            None => Val::None,
            Some(c) => Val::Some(Box::new(Val::St("Spanned", vec![Val::List(c.iter().map(|x| x.to_val()).collect()), c.span().to_val()]))),
        },
    ])
}
impl<S: ToVal> ToVal for knuffel::ast::Node<S> { fn to_val(&self) -> Val { node_val(self) } }

/// An unused wrapper keeps the type checker from confusing nodes with spanned values.
pub fn spanned_node_val<S: ToVal>(n: &SpannedNode<S>) -> Val {
    Val::St("Spanned", vec![node_val(n), n.span().to_val()])
}

// the same for the reference model ----------------------------------------

pub fn spanned(v: Val, s: Sp) -> Val { Val::St("Spanned", vec![v, span(s)]) }
pub fn opt(v: Option<Val>) -> Val { match v { None => Val::None, Some(v) => Val::Some(Box::new(v)) } }
pub fn r_name(n: &RName) -> Val { spanned(Val::Str(n.text.clone()), n.sp) }
pub fn r_lit(l: &RLit) -> Val {
    match l {
        RLit::Null => Val::St("null", vec![]),
        RLit::Bool(b) => Val::St("bool", vec![Val::Bool(*b)]),
        RLit::Str(s) => Val::St("string", vec![Val::Str(s.clone())]),
        RLit::Int(r, t) => Val::St("int", vec![
            opt(i64::from_str_radix(t, *r).ok().map(|x| Val::Int(x as i128))),
            opt(u64::from_str_radix(t, *r).ok().map(|x| Val::Int(x as i128)))]),
        RLit::Dec(t) => Val::St("decimal", vec![opt(t.parse::<f64>().ok().map(|x| Val::F64(x.to_bits())))]),
    }
}
pub fn r_value(v: &RValue) -> Val {
    Val::St("Value", vec![opt(v.ty.as_ref().map(r_name)), spanned(r_lit(&v.lit), v.sp)])
}
pub fn r_node(n: &RNode) -> Val {
    Val::St("Node", vec![
        opt(n.ty.as_ref().map(r_name)), r_name(&n.name),
        Val::List(n.args.iter().map(r_value).collect()),
        Val::Map(n.effective().iter().map(|(k, (_, v))| (k.to_string(), r_value(v))).collect()),
        opt(n.children.as_ref().map(|(s, c)| spanned(Val::List(c.iter().map(|x| spanned(r_node(x), x.sp)).collect()), *s))),
    ])
}
