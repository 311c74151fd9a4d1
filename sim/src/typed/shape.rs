//! Descriptions of annotated types and a reference interpreter of what the
//! annotations mean.  Shares no code with the derive macro.
use super::probe::{self, Act, Call, Kind, RErr, Script};
use super::val::{self, Val};
use crate::refkdl::{RLit, RName, RNode, RValue, Sp};
use crate::stats::fnv;

pub type Dv = fn() -> Val;

/// Scalar types.
#[derive(Debug)]
pub enum Sc {
    Int(&'static str),
    F32,
    F64,
    /// string-like; the name shown in messages
    Text(&'static str),
    Bool,
    Enum(&'static str, &'static [&'static str]),
    Opt(&'static Sc),
    /// value with a position; whether the position goes through the probe
    Spanned(&'static Sc, bool),
    P,
    /// needs a type name
    Req,
    Value,
    Literal,
}
#[derive(Debug, Clone, Copy)]
pub enum StrTy { Ps, U16, Bool, Text, Char }
#[derive(Debug, Clone, Copy)]
pub enum ByTy { Vec, Pb }
/// How a value is decoded.
#[derive(Debug)]
pub enum Dm { Normal(&'static Sc), Str(StrTy), Bytes(ByTy) }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Coll { List, Set }

#[derive(Debug)]
pub struct Arg { pub f: usize, pub name: Option<&'static str>, pub option: bool, pub default: Option<Dv>, pub dm: Dm }
#[derive(Debug)]
pub enum PropKind {
    Named { name: &'static str, option: bool, default: Option<Dv>, dm: Dm },
    Flat(Part),
}
#[derive(Debug)]
pub struct Prop { pub f: usize, pub kind: PropKind }
/// What a flattened field is made of.
#[derive(Debug, Clone, Copy)]
pub enum Part { Probe, Of(&'static str, &'static Fields) }
#[derive(Debug)]
pub enum ChildKind {
    Bool,
    Normal { option: bool, default: Option<Dv> },
    Multi { option: bool, default: Option<Dv>, coll: Coll },
    Flat(Part),
}
#[derive(Debug)]
pub struct Child { pub f: usize, pub name: &'static str, pub kind: ChildKind, pub ty: NodeTy }
#[derive(Debug)]
pub enum NodeTy { None, Shape(&'static Shape), Probe, Unwrap(&'static Fields), Ast, AstNode }

#[derive(Debug)]
pub struct Fields {
    pub n: usize,
    pub spans: &'static [(usize, bool)],
    pub node_names: &'static [(usize, StrTy)],
    pub type_names: &'static [(usize, StrTy, bool)],
    pub args: &'static [Arg],
    pub var_args: Option<(usize, Coll, Dm)>,
    pub props: &'static [Prop],
    pub var_props: Option<(usize, StrTy, Dm)>,
    pub children: &'static [Child],
    pub var_children: Option<(usize, Coll, NodeTy)>,
    pub extra: &'static [(usize, Dv)],
}
#[derive(Debug)]
pub enum VarKind { Unit, Nested(NodeTy), NestedOpt(NodeTy), Tuple(&'static Fields) }
#[derive(Debug)]
pub struct Variant { pub ident: &'static str, pub name: &'static str, pub kind: VarKind }
#[derive(Debug)]
pub enum Shape {
    Struct(&'static str, &'static Fields),
    Enum(&'static str, &'static [Variant]),
    New(&'static str, NodeTy),
    NewOpt(&'static str, NodeTy),
}

pub struct Entry {
    pub name: &'static str,
    pub shape: &'static Shape,
    /// usable as a whole document (children only)
    pub doc: bool,
    /// decodes under both position types
    pub lines: bool,
    /// contains no probe decoders
    pub pure: bool,
}

pub struct Ref<'a> {
    pub errs: Vec<RErr>,
    pub calls: Vec<Call>,
    pub n: usize,
    pub script: &'a Script,
    /// errors raised by the library itself
    pub own: usize,
}
type D<T> = Result<T, RErr>;

fn kind(l: &RLit) -> &'static str {
    match l { RLit::Null => "null", RLit::Bool(_) => "boolean", RLit::Int(..) => "integer", RLit::Dec(_) => "decimal", RLit::Str(_) => "string" }
}
fn esc(s: &str) -> String { s.escape_default().to_string() }

pub fn choice_text(names: &[&str]) -> String {
    if names.len() <= 3 {
        let v: Vec<_> = names.iter().map(|n| format!("`{}`", esc(n))).collect();
        format!("expected one of {}", v.join(", "))
    } else {
        format!("expected `{}`, `{}`, or one of {} others", esc(names[0]), esc(names[1]), names.len() - 2)
    }
}

macro_rules! int_by_name {
    ($name:expr, $r:expr, $t:expr, $($ty:ident),*) => {
        match $name {
            $(stringify!($ty) => match $ty::from_str_radix($t, $r) {
                Ok(v) => Ok(v as i128),
                Err(e) => Err(e.to_string()),
            },)*
            _ => unreachable!(),
        }
    }
}
pub fn int(name: &str, radix: u32, t: &str) -> Result<i128, String> {
    int_by_name!(name, radix, t, u8, i8, u16, i16, u32, i32, u64, i64, usize, isize)
}

/// Strict standard base64 with padding.
pub fn base64(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 { return None; }
    let dig = |c: u8| Some(match c {
        b'A'..=b'Z' => c - b'A', b'a'..=b'z' => c - b'a' + 26, b'0'..=b'9' => c - b'0' + 52,
        b'+' => 62, b'/' => 63, _ => return None,
    } as u32);
    let mut out = vec![];
    let quads = b.len() / 4;
    for (i, q) in b.chunks(4).enumerate() {
        let last = i + 1 == quads;
        let pad = if last { q.iter().rev().take_while(|c| **c == b'=').count() } else { 0 };
        if pad > 2 { return None; }
        let mut v = 0u32;
        for c in &q[..4 - pad] { v = (v << 6) | dig(*c)?; }
        match pad {
            0 => out.extend_from_slice(&[(v >> 16) as u8, (v >> 8) as u8, v as u8]),
            1 => { if v & 3 != 0 { return None; } out.extend_from_slice(&[(v >> 10) as u8, (v >> 2) as u8]) }
            _ => { if v & 15 != 0 { return None; } out.push((v >> 4) as u8) }
        }
    }
    Some(out)
}

fn collect(c: Coll, mut v: Vec<Val>) -> Val {
    if c == Coll::Set { v.sort(); v.dedup(); }
    Val::List(v)
}

enum PState { Probe(Vec<Val>), Of(&'static str, &'static Fields, Vec<Slot>) }
enum Slot { Val(Val), Part(PState) }

impl PState {
    fn new(p: &Part) -> PState {
        match p {
            Part::Probe => PState::Probe(vec![]),
            Part::Of(n, f) => {
                let mut slots: Vec<Slot> = (0..f.n).map(|_| Slot::Val(Val::None)).collect();
                for p in f.props { if let PropKind::Flat(p2) = &p.kind { slots[p.f] = Slot::Part(PState::new(p2)); } }
                for c in f.children {
                    match &c.kind {
                        ChildKind::Bool => slots[c.f] = Slot::Val(Val::Bool(false)),
                        ChildKind::Flat(p2) => slots[c.f] = Slot::Part(PState::new(p2)),
                        _ => {}
                    }
                }
                for (i, d) in f.extra { slots[*i] = Slot::Val(d()); }
                PState::Of(n, f, slots)
            }
        }
    }
    fn done(self) -> Val {
        match self {
            PState::Probe(v) => Val::List(v),
            PState::Of(n, _, s) => Val::St(n, s.into_iter().map(|x| match x { Slot::Val(v) => v, Slot::Part(p) => p.done() }).collect()),
        }
    }
}

impl<'a> Ref<'a> {
    pub fn new(script: &'a Script) -> Ref<'a> { Ref { errs: vec![], calls: vec![], n: 0, script, own: 0 } }

    fn emit(&mut self, e: RErr) { self.errs.push(e) }
    fn own(&mut self, e: RErr) -> RErr { self.own += 1; e }
    fn emit_own(&mut self, e: RErr) { self.own += 1; self.errs.push(e) }

    // probes -------------------------------------------------------------
    fn raise(&mut self, k: Kind, key: u64, nth: usize, at: Sp) -> RErr {
        let (_, e) = probe::describe(self.script, k, key, self.n, nth, at);
        self.n += 1;
        e
    }
    fn play(&mut self, k: Kind, key: u64, at: Sp) -> D<()> {
        self.calls.push(Call { kind: k, key, has_errors: Some(!self.errs.is_empty()) });
        match self.script.act(k, key) {
            Act::Ok => Ok(()),
            Act::Emit => { let e = self.raise(k, key, 0, at); self.emit(e); Ok(()) }
            Act::Return => Err(self.raise(k, key, 0, at)),
            Act::EmitReturn => { let e = self.raise(k, key, 0, at); self.emit(e); Err(self.raise(k, key, 1, at)) }
            Act::EmitEmit => { for i in 0..2 { let e = self.raise(k, key, i, at); self.emit(e); } Ok(()) }
        }
    }
    fn play_plain(&mut self, k: Kind, key: u64, at: Sp) -> D<()> {
        self.calls.push(Call { kind: k, key, has_errors: None });
        match self.script.act(k, key) {
            Act::Ok => Ok(()),
            _ => Err(self.raise(k, key, 0, at)),
        }
    }
    fn span(&mut self, probe: bool, s: Sp) -> Val {
        if probe { let _ = self.play(Kind::Span, s.s as u64, s); }
        val::span(s)
    }

    // scalars ------------------------------------------------------------
    fn from_str(&mut self, t: StrTy, s: &str, at: Sp) -> D<Val> {
        let bad = |e: String| RErr::new(e, at, "invalid value");
        let r = match t {
            StrTy::Ps => { self.play_plain(Kind::FromStr, fnv(s.as_bytes()), at)?; Ok(Val::Str(s.to_string())) }
            StrTy::U16 => s.parse::<u16>().map(|x| Val::Int(x as i128)).map_err(|e| bad(e.to_string())),
            StrTy::Bool => s.parse::<bool>().map(Val::Bool).map_err(|e| bad(e.to_string())),
            StrTy::Char => s.parse::<char>().map(|c| Val::Str(c.to_string())).map_err(|e| bad(e.to_string())),
            StrTy::Text => Ok(Val::Str(s.to_string())),
        };
        r.map_err(|e| self.own(e))
    }
    fn type_name_err(&mut self, t: &RName, expected: &str, rust: &str) {
        self.emit_own(RErr::new(format!("{} for {}, found {}", expected, rust, t.text), t.sp, "unexpected type name"));
    }
    fn scalar_kind(&mut self, expected: &str, v: &RValue) -> RErr {
        let k = kind(&v.lit);
        self.own(RErr::new(format!("expected {} scalar, found {}", expected, k), v.sp, format!("unexpected {}", k)))
    }
    fn type_check(&mut self, sc: &Sc, ty: &Option<RName>) {
        let t = match (ty, sc) {
            (Some(t), _) => t,
            (None, Sc::Opt(x)) | (None, Sc::Spanned(x, _)) => return self.type_check(x, ty),
            (None, Sc::Req) => return self.emit_own(RErr::bare(probe::NO_TYPE)),
            (None, _) => return,
        };
        match sc {
            Sc::Int(n) => if t.text != *n { self.type_name_err(t, &format!("{} or no type", n), n) },
            Sc::F32 => if t.text != "f32" { self.type_name_err(t, "f32 or no type", "f32") },
            Sc::F64 => if t.text != "f64" { self.type_name_err(t, "f64 or no type", "f64") },
            Sc::Text(n) | Sc::Enum(n, _) => self.type_name_err(t, "no type", n),
            Sc::Bool => self.type_name_err(t, "no type", "bool"),
            Sc::Opt(x) => self.type_check(x, ty),
            Sc::Spanned(x, _) => self.type_check(x, ty),
            Sc::P => {
                let _ = self.play(Kind::Check, t.sp.s as u64, t.sp);
                if t.text == "reject" { self.type_name_err(t, "accept", "P") }
            }
            Sc::Req => if t.text != "need" && t.text != "u8" { self.type_name_err(t, "need", "Req") },
            Sc::Value | Sc::Literal => {}
        }
    }
    pub fn scalar(&mut self, sc: &Sc, v: &RValue) -> D<Val> {
        match sc {
            Sc::Opt(x) => {
                if v.lit == RLit::Null { self.type_check(x, &v.ty); return Ok(Val::None); }
                self.scalar(x, v).map(|x| Val::Some(Box::new(x)))
            }
            Sc::Spanned(x, p) => { let r = self.scalar(x, v)?; let s = self.span(*p, v.sp); Ok(Val::St("Spanned", vec![r, s])) }
            Sc::Value => Ok(val::r_value(v)),
            _ => { self.type_check(sc, &v.ty); self.raw(sc, v) }
        }
    }
    fn raw(&mut self, sc: &Sc, v: &RValue) -> D<Val> {
        match sc {
            Sc::Int(n) => match &v.lit {
                RLit::Int(r, t) => match int(n, *r, t) {
                    Ok(x) => Ok(Val::Int(x)),
                    Err(e) => { self.emit_own(RErr::new(e, v.sp, "invalid value")); Ok(Val::Int(0)) }
                },
                _ => { let e = self.scalar_kind("integer", v); self.emit(e); Ok(Val::Int(0)) }
            },
            Sc::F32 => match &v.lit {
                RLit::Dec(t) => Ok(Val::F32(t.parse::<f32>().unwrap().to_bits())),
                _ => { let e = self.scalar_kind("decimal", v); self.emit(e); Ok(Val::F32(0)) }
            },
            Sc::F64 => match &v.lit {
                RLit::Dec(t) => Ok(Val::F64(t.parse::<f64>().unwrap().to_bits())),
                _ => { let e = self.scalar_kind("decimal", v); self.emit(e); Ok(Val::F64(0)) }
            },
            Sc::Text(_) => match &v.lit {
                RLit::Str(s) => Ok(Val::Str(s.clone())),
                _ => { let e = self.scalar_kind("string", v); self.emit(e); Ok(Val::Str(String::new())) }
            },
            Sc::Bool => match &v.lit {
                RLit::Bool(b) => Ok(Val::Bool(*b)),
                _ => { let e = self.scalar_kind("boolean", v); self.emit(e); Ok(Val::Bool(false)) }
            },
            Sc::Enum(_, names) => match &v.lit {
                RLit::Str(s) => match names.iter().find(|n| **n == s) {
                    Some(n) => Ok(Val::St(n, vec![])),
                    None => Err(self.own(RErr::new(choice_text(names), v.sp, "invalid value"))),
                },
                _ => Err(self.scalar_kind("string", v)),
            },
            Sc::P => {
                self.play(Kind::Scalar, v.sp.s as u64, v.sp)?;
                Ok(Val::St("P", vec![Val::Str(kind(&v.lit).into()), val::span(v.sp)]))
            }
            Sc::Literal | Sc::Req => Ok(val::r_lit(&v.lit)),
            Sc::Opt(..) | Sc::Spanned(..) | Sc::Value => unreachable!(),
        }
    }
    fn bytes(&mut self, v: &RValue) -> Vec<u8> {
        match &v.ty {
            Some(t) if t.text == "base64" => match &v.lit {
                RLit::Str(s) => match base64(s) {
                    Some(b) => b,
                    None => {
                        self.emit_own(RErr { msg: None, at: vec![v.sp], label: "invalid value".into() });
                        vec![]
                    }
                },
                _ => { let e = self.scalar_kind("string", v); self.emit(e); vec![] }
            },
            Some(t) => { self.type_name_err(t, "base64 or no type", "bytes"); vec![] }
            None => match &v.lit {
                RLit::Str(s) => s.as_bytes().to_vec(),
                _ => { let e = self.scalar_kind("string", v); self.emit(e); vec![] }
            },
        }
    }
    fn by_ty(&mut self, t: ByTy, b: Vec<u8>, at: Sp) -> D<Val> {
        if let ByTy::Pb = t { self.play_plain(Kind::Bytes, fnv(&b), at)?; }
        Ok(Val::List(b.into_iter().map(|x| Val::Int(x as i128)).collect()))
    }
    fn value(&mut self, dm: &Dm, option: bool, v: &RValue) -> D<Val> {
        match dm {
            Dm::Normal(sc) => self.scalar(sc, v),
            Dm::Str(t) => {
                if let Some(ty) = &v.ty { self.type_name_err(ty, "no type", "str"); }
                match &v.lit {
                    RLit::Str(s) => { let x = self.from_str(*t, s, v.sp)?; Ok(if option { Val::Some(Box::new(x)) } else { x }) }
                    RLit::Null if option => Ok(Val::None),
                    _ => {
                        let e = self.scalar_kind("string", v);
                        if option { self.emit(e); Ok(Val::None) } else { Err(e) }
                    }
                }
            }
            Dm::Bytes(t) => {
                if option && v.lit == RLit::Null { return Ok(Val::None); }
                let b = self.bytes(v);
                match self.by_ty(*t, b, v.sp) {
                    Ok(x) => Ok(if option { Val::Some(Box::new(x)) } else { x }),
                    Err(e) => if option { self.emit(e); Ok(Val::None) } else { Err(e) },
                }
            }
        }
    }

    // nodes --------------------------------------------------------------
    pub fn node(&mut self, sh: &Shape, n: &RNode) -> D<Val> {
        match sh {
            Shape::Struct(name, f) => {
                let mut out = self.specials(f, n)?;
                self.body(f, n, &mut out)?;
                Ok(Val::St(name, out))
            }
            Shape::New(name, t) => Ok(Val::St(name, vec![self.node_ty(t, n)?])),
            Shape::NewOpt(name, t) => Ok(Val::St(name, vec![self.opt_node(t, n)?])),
            Shape::Enum(_, vars) => {
                let v = match vars.iter().find(|v| v.name == n.name.text) {
                    Some(v) => v,
                    None => {
                        let names: Vec<_> = vars.iter().map(|v| v.name).collect();
                        return Err(self.own(RErr::new(choice_text(&names), n.name.sp, "invalid value")));
                    }
                };
                let fields = match &v.kind {
                    VarKind::Unit => { self.flag(n); vec![] }
                    VarKind::Nested(t) => vec![self.node_ty(t, n)?],
                    VarKind::NestedOpt(t) => vec![self.opt_node(t, n)?],
                    VarKind::Tuple(f) => {
                        let mut out = vec![Val::None; f.n];
                        self.body(f, n, &mut out)?;
                        out
                    }
                };
                Ok(Val::St(v.ident, fields))
            }
        }
    }
    fn opt_node(&mut self, t: &NodeTy, n: &RNode) -> D<Val> {
        if n.args.is_empty() && n.props.is_empty() && n.children.is_none() { return Ok(Val::None); }
        Ok(Val::Some(Box::new(self.node_ty(t, n)?)))
    }
    pub fn node_ty(&mut self, t: &NodeTy, n: &RNode) -> D<Val> {
        match t {
            NodeTy::Shape(s) => self.node(s, n),
            NodeTy::Probe => {
                self.play(Kind::Node, n.sp.s as u64, n.sp)?;
                Ok(Val::St("Pn", vec![Val::Str(n.name.text.clone()), val::span(n.sp)]))
            }
            NodeTy::Unwrap(f) => {
                let mut out = vec![Val::None];
                self.body(f, n, &mut out)?;
                Ok(out.pop().unwrap())
            }
            NodeTy::Ast => Ok(val::spanned(val::r_node(n), n.sp)),
            NodeTy::AstNode => Ok(val::r_node(n)),
            NodeTy::None => unreachable!(),
        }
    }
    fn flag(&mut self, n: &RNode) {
        for a in &n.args { self.emit_own(RErr::new("unexpected argument", a.sp, "unexpected argument")); }
        for (k, (sp, _)) in n.effective() {
            self.own += 1;
            self.errs.push(RErr { msg: Some(format!("unexpected property `{}`", esc(k))), at: sp, label: "unexpected property".into() });
        }
        for c in n.kids() { self.emit_own(RErr::new(format!("unexpected node `{}`", esc(&c.name.text)), c.sp, "unexpected node")); }
    }
    fn specials(&mut self, f: &Fields, n: &RNode) -> D<Vec<Val>> {
        let mut out = vec![Val::None; f.n];
        for (i, p) in f.spans { out[*i] = self.span(*p, n.sp); }
        for (i, t) in f.node_names { out[*i] = self.from_str(*t, &n.name.text, n.name.sp)?; }
        for (i, t, option) in f.type_names {
            match &n.ty {
                Some(ty) => {
                    let x = self.from_str(*t, &ty.text, ty.sp)?;
                    out[*i] = if *option { Val::Some(Box::new(x)) } else { x };
                }
                None if *option => {}
                None => return Err(self.own(RErr::new("type name required", n.name.sp, "node starts here"))),
            }
        }
        if f.type_names.is_empty() {
            if let Some(t) = &n.ty { self.emit_own(RErr::new("no type name expected for this node", t.sp, "unexpected type name")); }
        }
        Ok(out)
    }
    fn body(&mut self, f: &Fields, n: &RNode, out: &mut Vec<Val>) -> D<()> {
        // arguments
        let mut it = n.args.iter();
        for a in f.args {
            out[a.f] = match (it.next(), &a.default) {
                (Some(v), _) => self.value(&a.dm, a.option, v)?,
                (None, Some(d)) => d(),
                (None, None) if a.option => Val::None,
                (None, None) => {
                    let m = match a.name { Some(x) => format!("additional argument `{}` is required", x), None => "additional argument is required".into() };
                    let mut e = self.own(RErr::new(m, n.name.sp, "node starts here"));
                    // unwrapped into an unnamed field: the name shown is of no concern
                    if a.name == Some("") { e.msg = None; }
                    return Err(e);
                }
            };
        }
        match &f.var_args {
            Some((i, c, dm)) => {
                let mut v = vec![];
                for x in it { v.push(self.value(dm, false, x)?); }
                out[*i] = collect(*c, v);
            }
            None => if let Some(v) = it.next() {
                return Err(self.own(RErr::new("unexpected argument", v.sp, "unexpected argument")));
            },
        }
        // properties
        let mut got: Vec<Option<Val>> = f.props.iter().map(|_| None).collect();
        let mut parts: Vec<Option<PState>> = f.props.iter().map(|p| match &p.kind { PropKind::Flat(x) => Some(PState::new(x)), _ => None }).collect();
        let mut pairs = vec![];
        'props: for (k, (ks, v)) in n.effective() {
            for (i, p) in f.props.iter().enumerate() {
                match &p.kind {
                    PropKind::Named { name, option, dm, .. } => if *name == k {
                        got[i] = Some(self.value(dm, *option, v)?);
                        continue 'props;
                    },
                    PropKind::Flat(_) => {
                        let mut st = parts[i].take().unwrap();
                        let r = self.part_prop(&mut st, k, v);
                        parts[i] = Some(st);
                        if r? { continue 'props; }
                    }
                }
            }
            match &f.var_props {
                Some((_, t, dm)) => {
                    let key = self.from_str(*t, k, ks[0]).map_err(|mut e| { if e.at.len() == 1 { e.at = ks.clone(); } e })?;
                    let key = match key { Val::Str(s) => s, Val::Int(i) => i.to_string(), x => format!("{:?}", x) };
                    let x = self.value(dm, false, v)?;
                    pairs.push((key, x));
                }
                None => {
                    let mut e = self.own(RErr::new(format!("unexpected property `{}`", esc(k)), ks[0], "unexpected property"));
                    e.at = ks.clone();
                    return Err(e);
                }
            }
        }
        for (i, p) in f.props.iter().enumerate() {
            match &p.kind {
                PropKind::Flat(_) => out[p.f] = parts[i].take().unwrap().done(),
                PropKind::Named { name, option, default, .. } => out[p.f] = match (got[i].take(), default) {
                    (Some(v), _) => v,
                    (None, Some(d)) => d(),
                    (None, None) if *option => Val::None,
                    (None, None) => return Err(self.own(RErr::new(format!("property `{}` is required", name), n.name.sp, "node starts here"))),
                },
            }
        }
        if let Some((i, _, _)) = &f.var_props {
            // sorted by the text of the key; numeric keys may coincide
            let mut m: Vec<(String, Val)> = vec![];
            for (k, v) in pairs {
                match m.iter_mut().find(|x| x.0 == k) { Some(x) => x.1 = v, None => m.push((k, v)) }
            }
            m.sort();
            out[*i] = Val::Map(m);
        }
        self.children(f, n.kids(), Some(n.sp), out)
    }
    fn part_prop(&mut self, st: &mut PState, k: &str, v: &RValue) -> D<bool> {
        match st {
            PState::Probe(l) => {
                self.play(Kind::PartialProp, v.sp.s as u64, v.sp)?;
                if !k.starts_with('p') { return Ok(false); }
                l.push(Val::Str(k.to_string()));
                Ok(true)
            }
            PState::Of(_, f, slots) => {
                for p in f.props {
                    match &p.kind {
                        PropKind::Named { name, option, dm, .. } => if *name == k {
                            slots[p.f] = Slot::Val(self.value(dm, *option, v)?);
                            return Ok(true);
                        },
                        PropKind::Flat(_) => if let Slot::Part(s2) = &mut slots[p.f] {
                            if self.part_prop(s2, k, v)? { return Ok(true); }
                        },
                    }
                }
                Ok(false)
            }
        }
    }
    fn dup(&mut self, c: &RNode) -> RErr {
        self.own(RErr::new(format!("duplicate node `{}`, single node expected", esc(&c.name.text)), c.name.sp, "unexpected node"))
    }
    fn part_child(&mut self, st: &mut PState, c: &RNode) -> D<bool> {
        match st {
            PState::Probe(l) => {
                self.play(Kind::PartialChild, c.sp.s as u64, c.sp)?;
                if !c.name.text.starts_with('p') { return Ok(false); }
                l.push(Val::Str(c.name.text.clone()));
                Ok(true)
            }
            PState::Of(_, f, slots) => {
                for d in f.children {
                    match &d.kind {
                        ChildKind::Flat(_) => if let Slot::Part(s2) = &mut slots[d.f] {
                            if self.part_child(s2, c)? { return Ok(true); }
                        },
                        _ if d.name != c.name.text => {}
                        ChildKind::Bool => {
                            self.flag(c);
                            if matches!(slots[d.f], Slot::Val(Val::Bool(true))) { let e = self.dup(c); self.emit(e); }
                            slots[d.f] = Slot::Val(Val::Bool(true));
                            return Ok(true);
                        }
                        _ => {
                            if !matches!(slots[d.f], Slot::Val(Val::None)) { let e = self.dup(c); self.emit(e); }
                            let v = self.node_ty(&d.ty, c)?;
                            slots[d.f] = Slot::Val(Val::Some(Box::new(v)));
                            return Ok(true);
                        }
                    }
                }
                Ok(false)
            }
        }
    }
    /// `at`: position of the parent; none for a document
    pub fn children(&mut self, f: &Fields, kids: &[RNode], at: Option<Sp>, out: &mut Vec<Val>) -> D<()> {
        let mut got: Vec<Vec<Val>> = f.children.iter().map(|_| vec![]).collect();
        let mut parts: Vec<Option<PState>> = f.children.iter().map(|c| match &c.kind { ChildKind::Flat(p) => Some(PState::new(p)), _ => None }).collect();
        let mut rest = vec![];
        'kids: for c in kids {
            for (i, d) in f.children.iter().enumerate() {
                if let ChildKind::Flat(_) = d.kind {
                    let mut st = parts[i].take().unwrap();
                    let r = self.part_child(&mut st, c);
                    parts[i] = Some(st);
                    if r? { continue 'kids; }
                    continue;
                }
                if d.name != c.name.text { continue; }
                match &d.kind {
                    ChildKind::Bool => {
                        self.flag(c);
                        if !got[i].is_empty() { let e = self.dup(c); self.emit(e); }
                        got[i].push(Val::Bool(true));
                    }
                    ChildKind::Normal { .. } => {
                        if !got[i].is_empty() { return Err(self.dup(c)); }
                        let v = self.node_ty(&d.ty, c)?;
                        got[i].push(v);
                    }
                    _ => { let v = self.node_ty(&d.ty, c)?; got[i].push(v); }
                }
                continue 'kids;
            }
            match &f.var_children {
                Some((_, _, t)) => { let v = self.node_ty(t, c)?; rest.push(v); }
                None => self.emit_own(RErr::new(format!("unexpected node `{}`", esc(&c.name.text)), c.sp, "unexpected node")),
            }
        }
        for (i, d) in f.children.iter().enumerate() {
            let mut g = std::mem::take(&mut got[i]);
            out[d.f] = match &d.kind {
                ChildKind::Flat(_) => parts[i].take().unwrap().done(),
                ChildKind::Bool => Val::Bool(!g.is_empty()),
                ChildKind::Normal { option, default } => match (g.pop(), default) {
                    // the decoded type is optional itself when there is a default
                    (Some(v), Some(_)) => v,
                    (Some(v), None) => if *option { Val::Some(Box::new(v)) } else { v },
                    (None, Some(dv)) => dv(),
                    (None, None) if *option => Val::None,
                    (None, None) => {
                        let m = format!("child node `{}` is required", d.name);
                        return Err(self.own(match at { Some(sp) => RErr::new(m, sp, "node starts here"), None => RErr::bare(m) }));
                    }
                },
                ChildKind::Multi { option, default, coll } => {
                    if g.is_empty() {
                        match default { Some(dv) => dv(), None if *option => Val::None, None => Val::List(vec![]) }
                    } else {
                        let l = collect(*coll, g);
                        if *option { Val::Some(Box::new(l)) } else { l }
                    }
                }
            };
        }
        if let Some((i, c, _)) = &f.var_children { out[*i] = collect(*c, rest); }
        for (i, d) in f.extra { out[*i] = d(); }
        Ok(())
    }

    // whole loads ----------------------------------------------------------
    /// Decode a list of nodes: errors of one do not stop the others.
    pub fn list(&mut self, sh: &Shape, nodes: &[RNode]) -> Val {
        let mut v = vec![];
        for n in nodes {
            match self.node(sh, n) { Ok(x) => v.push(x), Err(e) => self.emit(e) }
        }
        Val::List(v)
    }
    /// Decode a document into a struct of children.
    pub fn doc(&mut self, sh: &Shape, nodes: &[RNode]) -> Option<Val> {
        match sh {
            Shape::Struct(name, f) => {
                let mut out = vec![Val::None; f.n];
                match self.children(f, nodes, None, &mut out) {
                    Ok(()) => Some(Val::St(name, out)),
                    Err(e) => { self.emit(e); None }
                }
            }
            _ => unreachable!(),
        }
    }
}
