//! User decoders under control of the simulator.
//!
//! A script drawn once per run decides what every decoder call does, as a pure
//! function of what it is called for; a ledger records what was raised.
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;
use std::str::FromStr;

use knuffel::ast::{BuiltinType, Literal, SpannedNode, TypeName, Value};
use knuffel::decode::{self, Context};
use knuffel::errors::{DecodeError, ExpectedType};
use knuffel::span::Spanned;
use knuffel::traits::{Decode, DecodePartial, DecodeScalar, DecodeSpan, ErrorSpan};

use super::val::{KeyStr, ToVal, Val};
use crate::choice::{mix, Src};
use crate::refkdl::Sp;
use crate::stats::fnv;

/// What a call does.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act { Ok, Emit, Return, EmitReturn, EmitEmit }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Scalar, Check, FromStr, Bytes, Node, Span, PartialChild, PartialProp }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Naming { Counter, Key }

#[derive(Clone, Debug)]
pub struct Script { pub table: [u8; 32], pub salt: u64, pub naming: Naming }

impl Script {
    pub fn quiet() -> Script { Script { table: [0; 32], salt: 0, naming: Naming::Counter } }
    pub fn draw(s: &mut Src, naming: Naming) -> Script {
        let level = s.below(4);
        let mut table = [0; 32];
        if level > 0 {
            for t in table.iter_mut() {
                *t = match level {
                    1 => if s.chance(1, 8) { 1 + s.below(4) as u8 } else { 0 },
                    2 => if s.chance(1, 3) { 1 + s.below(4) as u8 } else { 0 },
                    _ => s.below(5) as u8,
                };
            }
        }
        Script { table, salt: s.draw(1 << 16), naming }
    }
    fn hash(&self, k: Kind, key: u64) -> u64 { mix(&[k as u64, key, self.salt]) }
    pub fn act(&self, k: Kind, key: u64) -> Act {
        let a = match self.table[(self.hash(k, key) % 32) as usize] {
            0 => Act::Ok, 1 => Act::Emit, 2 => Act::Return, 3 => Act::EmitReturn, _ => Act::EmitEmit,
        };
        match k {
            // no context or no error channel at these calls
            Kind::FromStr | Kind::Bytes => if a == Act::Ok || a == Act::Emit { Act::Ok } else { Act::Return },
            Kind::Check | Kind::Span => if a == Act::Ok { Act::Ok } else if a == Act::EmitEmit { a } else { Act::Emit },
            _ => a,
        }
    }
    pub fn is_quiet(&self) -> bool { self.table.iter().all(|x| *x == 0) }
}

/// Description of an error: what a report must show for it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RErr {
    pub msg: Option<String>,
    /// acceptable positions; empty: no label
    pub at: Vec<Sp>,
    pub label: String,
}
impl RErr {
    pub fn new(msg: impl Into<String>, at: Sp, label: impl Into<String>) -> RErr {
        RErr { msg: Some(msg.into()), at: vec![at], label: label.into() }
    }
    pub fn bare(msg: impl Into<String>) -> RErr { RErr { msg: Some(msg.into()), at: vec![], label: String::new() } }
}

/// A decoder call: what for, and whether errors were visible in the context.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Call { pub kind: Kind, pub key: u64, pub has_errors: Option<bool> }

/// Untyped face of a context.
pub trait Ctx {
    fn set_slot(&mut self, slot: usize, v: u64);
    fn get_slot(&self, slot: usize) -> Option<u64>;
    fn errors(&self) -> bool;
    fn emit(&mut self, msg: String);
}
/// types of context values: the first few are of many forms, the rest are many
pub const SLOTS: usize = FORMS + 64;
pub const FORMS: usize = 20;
struct Many<const N: usize>(u64);
struct Empty<const N: usize>;
macro_rules! many {
    ($f:ident, $c:expr, $slot:expr, $($n:literal)*) => { match $slot { $($n => $f!($c, $n),)* _ => unreachable!() } };
}
macro_rules! each { ($f:ident, $c:expr, $slot:expr) => { many!($f, $c, $slot,
    0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31
    32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63) } }
#[derive(Clone, Debug)] pub struct SlotA(pub u64);
#[derive(Clone, Debug)] pub struct SlotB(pub u64);
#[derive(Clone, Debug)] pub struct SlotG<T>(pub u64, pub std::marker::PhantomData<T>);
pub struct SlotUnit;
pub struct SlotBox(pub Box<dyn Fn() -> u64>);
mod other { #[derive(Clone, Debug)] pub struct SlotA(pub u64); }

enum Op<'a, S: ErrorSpan> { Put(&'a mut Context<S>, u64), Look(&'a Context<S>) }
/// Two types that go by one name.
fn twins<S: ErrorSpan>(op: Op<S>, first: bool) -> Option<u64> {
    if first {
        struct Twin(u64);
        match op { Op::Put(c, v) => { c.set(Twin(v)); None } Op::Look(c) => c.get::<Twin>().map(|x| x.0) }
    } else {
        struct Twin(u64);
        match op { Op::Put(c, v) => { c.set(Twin(v)); None } Op::Look(c) => c.get::<Twin>().map(|x| x.0) }
    }
}

impl<S: ErrorSpan> Ctx for Context<S> {
    fn set_slot(&mut self, slot: usize, v: u64) {
        match slot {
            0 => self.set(SlotA(v)),
            1 => self.set(SlotB(v)),
            2 => self.set(SlotG::<u8>(v, Default::default())),
            3 => self.set(SlotG::<u16>(v, Default::default())),
            4 => self.set(v),
            5 => self.set(v.to_string()),
            6 => self.set(vec![v, v]),
            7 => self.set(other::SlotA(v)),
            8 => self.set(SlotBox(Box::new(move || v))),
            9 => self.set(Rc::new(v)),
            10 => self.set(Some(v)),
            11 => self.set((v,)),
            12 => self.set([v; 3]),
            13 => self.set(Box::new(v)),
            14 => self.set(Some(Some(v))),
            15 => self.set(std::collections::VecDeque::from(vec![v, v])),
            16 => { self.set(Empty::<1>); self.set(v as u128) }
            17 => self.set(Box::new(v) as Box<dyn std::any::Any>),
            18 | 19 => { twins(Op::Put(self, v), slot == 18); }
            n => { macro_rules! put { ($c:expr, $n:literal) => { $c.set(Many::<$n>(v)) } } each!(put, self, n - FORMS) }
        }
    }
    fn get_slot(&self, slot: usize) -> Option<u64> {
        match slot {
            0 => self.get::<SlotA>().map(|x| x.0),
            1 => self.get::<SlotB>().map(|x| x.0),
            2 => self.get::<SlotG<u8>>().map(|x| x.0),
            3 => self.get::<SlotG<u16>>().map(|x| x.0),
            4 => self.get::<u64>().copied(),
            5 => self.get::<String>().map(|x| x.parse().unwrap()),
            6 => self.get::<Vec<u64>>().map(|x| { assert_eq!(x.len(), 2); x[1] }),
            7 => self.get::<other::SlotA>().map(|x| x.0),
            8 => self.get::<SlotBox>().map(|x| (x.0)()),
            9 => self.get::<Rc<u64>>().map(|x| **x),
            10 => self.get::<Option<u64>>().map(|x| x.unwrap()),
            11 => self.get::<(u64,)>().map(|x| x.0),
            12 => self.get::<[u64; 3]>().map(|x| x[2]),
            13 => self.get::<Box<u64>>().map(|x| **x),
            14 => self.get::<Option<Option<u64>>>().map(|x| x.unwrap().unwrap()),
            15 => self.get::<std::collections::VecDeque<u64>>().map(|x| x[1]),
            // nothing of this type was set, or both were
            16 => match (self.get::<Empty<1>>(), self.get::<u128>()) { (Some(_), Some(x)) => Some(*x as u64), (None, None) => None, _ => Some(u64::MAX) },
            17 => match self.get::<Empty<2>>() { Some(_) => Some(u64::MAX), None => self.get::<Box<dyn std::any::Any>>().map(|x| *x.downcast_ref::<u64>().unwrap()) },
            18 | 19 => twins(Op::Look(self), slot == 18),
            n => { macro_rules! look { ($c:expr, $n:literal) => { $c.get::<Many<$n>>().map(|x| x.0) } } each!(look, self, n - FORMS) }
        }
    }
    fn errors(&self) -> bool { self.has_errors() }
    fn emit(&mut self, msg: String) { self.emit_error(DecodeError::Custom(InjErr(msg).into())) }
}

pub type Hook = Rc<dyn Fn(Kind, u64, Option<&mut dyn Ctx>)>;

pub struct State {
    pub script: Rc<Script>,
    pub raised: Vec<RErr>,
    pub calls: Vec<Call>,
    pub n: usize,
    pub hook: Option<Hook>,
}

thread_local! { static STACK: RefCell<Vec<State>> = RefCell::new(vec![]); }

pub fn begin(script: Rc<Script>, hook: Option<Hook>) {
    STACK.with(|s| s.borrow_mut().push(State { script, raised: vec![], calls: vec![], n: 0, hook }));
}
pub fn end() -> State { STACK.with(|s| s.borrow_mut().pop().expect("probe state")) }
pub fn reset() { STACK.with(|s| s.borrow_mut().clear()); }
pub fn depth() -> usize { STACK.with(|s| s.borrow().len()) }

/// Run `f` with a fresh probe state and return what the probes saw.
pub fn with<T>(script: &Rc<Script>, hook: Option<Hook>, f: impl FnOnce() -> T) -> (T, State) {
    begin(script.clone(), hook);
    let r = f();
    (r, end())
}

#[derive(Debug, Clone)]
pub struct InjErr(pub String);
impl fmt::Display for InjErr { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for InjErr {}

pub fn name(sc: &Script, k: Kind, key: u64, n: usize, nth: usize) -> String {
    let mut m = match sc.naming {
        Naming::Counter => format!("inj-{}", n),
        Naming::Key => format!("inj-{:x}-{}", sc.hash(k, key) & 0xffff_ffff, nth),
    };
    // some have much to say
    let h = sc.hash(k, key) >> 40;
    let long = match h % 8 { 0 => (h >> 3) % 40, 1 => (h >> 3) % 300, _ => 0 };
    for i in 0..long { m.push(['.', 'x', '-', 'é', ' ', 'T', '日', '7'][(mix(&[h, i]) % 8) as usize]); }
    m
}
/// The library itself never asks for null.
const NULL_WANTED: &str = "expected null scalar, found boolean";
/// Whether a message is of an error that user code raised.
pub fn injected(m: &str) -> bool { m.starts_with("inj-") || m.starts_with("ctx-") || m.contains(" for thing, found inj-") || m == NULL_WANTED }
/// The report an injected error must produce.
pub fn describe(sc: &Script, k: Kind, key: u64, n: usize, nth: usize, at: Sp) -> (u64, RErr) {
    let m = name(sc, k, key, n, nth);
    let form = if matches!(k, Kind::FromStr | Kind::Bytes) { 0 } else { (sc.hash(k, key) >> 20) % 10 };
    (form, match form {
        0 => RErr::new(m, at, "invalid value"),
        1 => RErr::bare(m),
        2 => RErr::new(m, at, "unexpected thing"),
        3 => RErr::new(m, at, "node starts here"),
        4 => RErr::new(m, at, "unsupported value"),
        6 => RErr::new(format!("want for thing, found {}", m), at, "unexpected type name"),
        7 => RErr::new(format!("u16 or no type for thing, found {}", m), at, "unexpected type name"),
        8 => RErr::new(format!("no type for thing, found {}", m), at, "unexpected type name"),
        9 => RErr::new(NULL_WANTED, at, "unexpected boolean"),
        _ => RErr::bare(m),
    })
}
fn build<S: ErrorSpan>(form: u64, msg: String, found: String, span: S, el: Option<Spanned<(), S>>) -> DecodeError<S> {
    let wrong_type = |expected| DecodeError::TypeName { span: span.clone(), found: Some(found.parse().unwrap()), expected, rust_type: "thing" };
    match (form, &el) {
        // the constructors offered to decoders
        (0, Some(e)) => return DecodeError::conversion(e, InjErr(msg)),
        (2, Some(e)) => return DecodeError::unexpected(e, "thing", msg),
        (4, Some(e)) => return DecodeError::unsupported(e, msg),
        _ => {}
    }
    match form {
        6 => wrong_type(ExpectedType::required("want".parse::<TypeName>().unwrap())),
        7 => wrong_type(ExpectedType::optional(BuiltinType::U16)),
        8 => wrong_type(ExpectedType::no_type()),
        9 => DecodeError::ScalarKind { span, expected: decode::Kind::Null.into(), found: decode::Kind::Bool },
        0 => DecodeError::Conversion { span, source: InjErr(msg).into() },
        1 => DecodeError::Custom(InjErr(msg).into()),
        2 => DecodeError::Unexpected { span, kind: "thing", message: msg },
        3 => DecodeError::Missing { span, message: msg },
        4 => DecodeError::Unsupported { span, message: msg.into() },
        _ => DecodeError::MissingNode { message: msg },
    }
}

fn enter(kind: Kind, key: u64, mut ctx: Option<&mut dyn Ctx>) -> Act {
    crate::sched::user_tick();
    let (act, hook) = STACK.with(|s| {
        let mut s = s.borrow_mut();
        let st = match s.last_mut() { Some(x) => x, None => return (Act::Ok, None) };
        st.calls.push(Call { kind, key, has_errors: ctx.as_ref().map(|c| c.errors()) });
        (st.script.act(kind, key), st.hook.clone())
    });
    if let Some(h) = hook { h(kind, key, ctx.take()); }
    act
}
fn raise<S: ErrorSpan>(kind: Kind, key: u64, nth: usize, span: S, el: Option<Spanned<(), S>>) -> DecodeError<S> {
    let ss: miette::SourceSpan = span.clone().into();
    let at = Sp { s: ss.offset(), e: ss.offset() + ss.len() };
    STACK.with(|s| {
        let mut s = s.borrow_mut();
        let st = s.last_mut().expect("raise outside of a run");
        let (form, d) = describe(&st.script.clone(), kind, key, st.n, nth, at);
        let found = name(&st.script, kind, key, st.n, nth);
        st.n += 1;
        st.raised.push(d.clone());
        build(form, d.msg.unwrap(), found, span, el)
    })
}
fn sp<S: ErrorSpan>(s: &S) -> Sp {
    let ss: miette::SourceSpan = s.clone().into();
    Sp { s: ss.offset(), e: ss.offset() + ss.len() }
}

fn play<S: ErrorSpan>(kind: Kind, key: u64, span: &S, el: &dyn Fn() -> Option<Spanned<(), S>>, ctx: &mut Context<S>) -> Result<(), DecodeError<S>> {
    match enter(kind, key, Some(ctx)) {
        Act::Ok => Ok(()),
        Act::Emit => { let e = raise(kind, key, 0, span.clone(), el()); ctx.emit_error(e); Ok(()) }
        Act::Return => Err(raise(kind, key, 0, span.clone(), el())),
        Act::EmitReturn => {
            let e = raise(kind, key, 0, span.clone(), el());
            ctx.emit_error(e);
            Err(raise(kind, key, 1, span.clone(), el()))
        }
        Act::EmitEmit => {
            for i in 0..2 { let e = raise(kind, key, i, span.clone(), el()); ctx.emit_error(e); }
            Ok(())
        }
    }
}
/// For calls that can return an error but hold neither context nor position.
fn play_plain(kind: Kind, key: u64) -> Result<(), InjErr> {
    match enter(kind, key, None) {
        Act::Ok => Ok(()),
        _ => STACK.with(|s| {
            let mut s = s.borrow_mut();
            let st = s.last_mut().unwrap();
            let (_, d) = describe(&st.script.clone(), kind, key, st.n, 0, Sp { s: 0, e: 0 });
            st.n += 1;
            let m = d.msg.clone().unwrap();
            // the library adds the position
            st.raised.push(RErr { msg: d.msg, at: vec![], label: "?".into() });
            Err(InjErr(m))
        }),
    }
}

pub fn lit_kind(l: &Literal) -> &'static str {
    match l { Literal::Null => "null", Literal::Bool(_) => "boolean", Literal::String(_) => "string", Literal::Int(_) => "integer", Literal::Decimal(_) => "decimal" }
}

/// Scalar decoder; also checks type names.
#[derive(Debug, Clone, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct P { pub kind: String, pub s: usize, pub e: usize }
impl ToVal for P { fn to_val(&self) -> Val { Val::St("P", vec![Val::Str(self.kind.clone()), Val::Span(self.s, self.e)]) } }
impl<S: ErrorSpan> DecodeScalar<S> for P {
    fn type_check(t: &Option<Spanned<TypeName, S>>, ctx: &mut Context<S>) {
        if let Some(t) = t {
            let at = sp(t.span());
            let _ = play(Kind::Check, at.s as u64, t.span(), &|| Some(t.clone().map(|_| ())), ctx);
            if t.as_str() == "reject" {
                ctx.emit_error(DecodeError::TypeName {
                    span: t.span().clone(), found: Some((**t).clone()),
                    expected: ExpectedType::required("accept".parse::<TypeName>().unwrap()), rust_type: "P",
                });
            }
        }
    }
    fn raw_decode(v: &Spanned<Literal, S>, ctx: &mut Context<S>) -> Result<P, DecodeError<S>> {
        let at = sp(v.span());
        play(Kind::Scalar, at.s as u64, v.span(), &|| Some(v.clone().map(|_| ())), ctx)?;
        Ok(P { kind: lit_kind(v).to_string(), s: at.s, e: at.e })
    }
}

/// Says that a value has no type name.
pub const NO_TYPE: &str = "a type name is needed";
/// A user decoder of values that must have a type name.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Req(pub Literal);
impl ToVal for Req { fn to_val(&self) -> Val { self.0.to_val() } }
impl<S: ErrorSpan> DecodeScalar<S> for Req {
    fn type_check(t: &Option<Spanned<TypeName, S>>, ctx: &mut Context<S>) {
        match t {
            None => ctx.emit_error(DecodeError::Custom(InjErr(NO_TYPE.into()).into())),
            Some(t) => if t.as_str() != "need" && t.as_builtin() != Some(&BuiltinType::U8) {
                ctx.emit_error(DecodeError::TypeName {
                    span: t.span().clone(), found: Some((**t).clone()),
                    expected: ExpectedType::required("need".parse::<TypeName>().unwrap()), rust_type: "Req",
                });
            }
        }
    }
    fn raw_decode(v: &Spanned<Literal, S>, _: &mut Context<S>) -> Result<Req, DecodeError<S>> { Ok(Req((**v).clone())) }
}

/// A user decoder that hands over to the decoder of another type, step by step.
#[derive(Debug, Clone, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct Raw<T>(pub T);
impl<T: ToVal> ToVal for Raw<T> { fn to_val(&self) -> Val { self.0.to_val() } }
impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Raw<T> {
    fn type_check(t: &Option<Spanned<TypeName, S>>, ctx: &mut Context<S>) { T::type_check(t, ctx) }
    fn raw_decode(v: &Spanned<Literal, S>, ctx: &mut Context<S>) -> Result<Raw<T>, DecodeError<S>> { T::raw_decode(v, ctx).map(Raw) }
}

/// `FromStr` decoder, also used as a property key, node name or type name.
#[derive(Debug, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Ps(pub String);
impl ToVal for Ps { fn to_val(&self) -> Val { Val::Str(self.0.clone()) } }
impl KeyStr for Ps { fn key_str(&self) -> String { self.0.clone() } }
impl FromStr for Ps {
    type Err = InjErr;
    fn from_str(s: &str) -> Result<Ps, InjErr> {
        play_plain(Kind::FromStr, fnv(s.as_bytes()))?;
        Ok(Ps(s.to_string()))
    }
}

/// Bytes decoder.
#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Pb(pub Vec<u8>);
impl ToVal for Pb { fn to_val(&self) -> Val { self.0.to_val() } }
impl TryFrom<Vec<u8>> for Pb {
    type Error = InjErr;
    fn try_from(v: Vec<u8>) -> Result<Pb, InjErr> {
        play_plain(Kind::Bytes, fnv(&v))?;
        Ok(Pb(v))
    }
}

/// Node decoder; looks at nothing but the name and the position.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Pn { pub name: String, pub s: usize, pub e: usize }
impl ToVal for Pn { fn to_val(&self) -> Val { Val::St("Pn", vec![Val::Str(self.name.clone()), Val::Span(self.s, self.e)]) } }
impl<S: ErrorSpan> Decode<S> for Pn {
    fn decode_node(n: &SpannedNode<S>, ctx: &mut Context<S>) -> Result<Pn, DecodeError<S>> {
        let at = sp(n.span());
        play(Kind::Node, at.s as u64, n.span(), &|| Some(n.node_name.clone().map(|_| ()).map_span(|_| n.span().clone())), ctx)?;
        Ok(Pn { name: n.node_name.to_string(), s: at.s, e: at.e })
    }
}

/// Position decoder.
#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Psp(pub usize, pub usize);
impl ToVal for Psp { fn to_val(&self) -> Val { Val::Span(self.0, self.1) } }
impl<S: ErrorSpan> DecodeSpan<S> for Psp {
    fn decode_span(s: &S, ctx: &mut Context<S>) -> Psp {
        let at = sp(s);
        let _ = play(Kind::Span, at.s as u64, s, &|| None, ctx);
        Psp(at.s, at.e)
    }
}

/// Flattened part: takes children and properties whose name starts with `p`.
#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Pp(pub Vec<String>);
impl ToVal for Pp { fn to_val(&self) -> Val { self.0.to_val() } }
impl<S: ErrorSpan> DecodePartial<S> for Pp {
    fn insert_child(&mut self, n: &SpannedNode<S>, ctx: &mut Context<S>) -> Result<bool, DecodeError<S>> {
        let at = sp(n.span());
        play(Kind::PartialChild, at.s as u64, n.span(), &|| Some(n.node_name.clone().map(|_| ()).map_span(|_| n.span().clone())), ctx)?;
        if !n.node_name.starts_with('p') { return Ok(false); }
        self.0.push(n.node_name.to_string());
        Ok(true)
    }
    fn insert_property(&mut self, k: &Spanned<Box<str>, S>, v: &Value<S>, ctx: &mut Context<S>) -> Result<bool, DecodeError<S>> {
        let at = sp(v.literal.span());
        play(Kind::PartialProp, at.s as u64, v.literal.span(), &|| Some(v.literal.clone().map(|_| ())), ctx)?;
        if !k.starts_with('p') { return Ok(false); }
        self.0.push(k.to_string());
        Ok(true)
    }
}
