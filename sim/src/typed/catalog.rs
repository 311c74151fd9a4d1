// @generated by tools/mkshapes.py
#![allow(dead_code, unused_imports, unused_mut, unused_variables, clippy::all)]
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Arc;

use knuffel::ast::{Literal, Node, SpannedNode, Value};
use knuffel::errors::DecodeError;
use knuffel::span::{LineSpan, Span, Spanned};
use knuffel::Error;

use super::load::{doc_as, list_as, node_as, SetCtx};
use super::probe::{P, Pb, Pn, Pp, Ps, Psp, Raw, Req};
use super::shape::*;
use super::val::{Pairs, ToVal, Val};

#[derive(knuffel::DecodeScalar, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Mode { Fast, SlowAndSteady, None }
impl Default for Mode { fn default() -> Self { Mode::Fast } }
impl ToVal for Mode { fn to_val(&self) -> Val { Val::St(match self { Mode::Fast => "fast", Mode::SlowAndSteady => "slow-and-steady", Mode::None => "none" }, vec![]) } }

#[derive(knuffel::DecodeScalar, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Wide { A, B, HttpServer, X1, D }
impl Default for Wide { fn default() -> Self { Wide::A } }
impl ToVal for Wide { fn to_val(&self) -> Val { Val::St(match self { Wide::A => "a", Wide::B => "b", Wide::HttpServer => "http-server", Wide::X1 => "x1", Wide::D => "d" }, vec![]) } }

#[derive(knuffel::Decode)]
pub struct Empty;
impl ToVal for Empty { fn to_val(&self) -> Val { Val::St("Empty", vec![]) } }
pub static FL_EMPTY: Fields = Fields { n: 0, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_EMPTY: Shape = Shape::Struct("Empty", &FL_EMPTY);

#[derive(knuffel::Decode)]
pub struct NoFields {  }
impl ToVal for NoFields { fn to_val(&self) -> Val { Val::St("NoFields", vec![]) } }
pub static FL_NOFIELDS: Fields = Fields { n: 0, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_NOFIELDS: Shape = Shape::Struct("NoFields", &FL_NOFIELDS);

#[derive(knuffel::Decode)]
pub struct OneArg { #[knuffel(argument)] pub name: String }
impl ToVal for OneArg { fn to_val(&self) -> Val { Val::St("OneArg", vec![self.name.to_val()]) } }
pub static FL_ONEARG: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("name"), option: false, default: None, dm: Dm::Normal(&Sc::Text("String")) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_ONEARG: Shape = Shape::Struct("OneArg", &FL_ONEARG);

#[derive(knuffel::Decode)]
pub struct Ints { #[knuffel(argument)] pub a: u8, #[knuffel(argument)] pub b: i64, #[knuffel(property)] pub c: Option<u16>, #[knuffel(property, default)] pub d: i8 }
impl ToVal for Ints { fn to_val(&self) -> Val { Val::St("Ints", vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()]) } }
pub static FL_INTS: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("a"), option: false, default: None, dm: Dm::Normal(&Sc::Int("u8")) }, Arg { f: 1, name: Some("b"), option: false, default: None, dm: Dm::Normal(&Sc::Int("i64")) }], var_args: None, props: &[Prop { f: 2, kind: PropKind::Named { name: "c", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u16"))) } }, Prop { f: 3, kind: PropKind::Named { name: "d", option: false, default: Some(|| { let x: i8 = Default::default(); x.to_val() }), dm: Dm::Normal(&Sc::Int("i8")) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_INTS: Shape = Shape::Struct("Ints", &FL_INTS);

#[derive(knuffel::Decode)]
pub struct Ints2 { #[knuffel(argument)] pub a: i16, #[knuffel(argument, default=7)] pub b: u32, #[knuffel(property)] pub c: u64, #[knuffel(property)] pub d: Option<isize>, #[knuffel(property, default=Some(9))] pub e: Option<usize>, #[knuffel(property, default=-3)] pub f: i32 }
impl ToVal for Ints2 { fn to_val(&self) -> Val { Val::St("Ints2", vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val(), self.f.to_val()]) } }
pub static FL_INTS2: Fields = Fields { n: 6, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("a"), option: false, default: None, dm: Dm::Normal(&Sc::Int("i16")) }, Arg { f: 1, name: Some("b"), option: false, default: Some(|| { let x: u32 = 7; x.to_val() }), dm: Dm::Normal(&Sc::Int("u32")) }], var_args: None, props: &[Prop { f: 2, kind: PropKind::Named { name: "c", option: false, default: None, dm: Dm::Normal(&Sc::Int("u64")) } }, Prop { f: 3, kind: PropKind::Named { name: "d", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("isize"))) } }, Prop { f: 4, kind: PropKind::Named { name: "e", option: true, default: Some(|| { let x: Option<usize> = Some(9); x.to_val() }), dm: Dm::Normal(&Sc::Opt(&Sc::Int("usize"))) } }, Prop { f: 5, kind: PropKind::Named { name: "f", option: false, default: Some(|| { let x: i32 = -3; x.to_val() }), dm: Dm::Normal(&Sc::Int("i32")) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_INTS2: Shape = Shape::Struct("Ints2", &FL_INTS2);

#[derive(knuffel::Decode)]
pub struct Floats { #[knuffel(argument)] pub a: f64, #[knuffel(property)] pub b: Option<f32>, #[knuffel(property, default=1.5)] pub c: f64 }
impl ToVal for Floats { fn to_val(&self) -> Val { Val::St("Floats", vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } }
pub static FL_FLOATS: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("a"), option: false, default: None, dm: Dm::Normal(&Sc::F64) }], var_args: None, props: &[Prop { f: 1, kind: PropKind::Named { name: "b", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::F32)) } }, Prop { f: 2, kind: PropKind::Named { name: "c", option: false, default: Some(|| { let x: f64 = 1.5; x.to_val() }), dm: Dm::Normal(&Sc::F64) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_FLOATS: Shape = Shape::Struct("Floats", &FL_FLOATS);

#[derive(knuffel::Decode)]
pub struct Texts { #[knuffel(argument)] pub a: String, #[knuffel(argument)] pub b: Option<PathBuf>, #[knuffel(property)] pub c: Arc<str>, #[knuffel(property)] pub d: Option<Arc<Path>>, #[knuffel(property, default=true)] pub e: bool }
impl ToVal for Texts { fn to_val(&self) -> Val { Val::St("Texts", vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val()]) } }
pub static FL_TEXTS: Fields = Fields { n: 5, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("a"), option: false, default: None, dm: Dm::Normal(&Sc::Text("String")) }, Arg { f: 1, name: Some("b"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Text("PathBuf"))) }], var_args: None, props: &[Prop { f: 2, kind: PropKind::Named { name: "c", option: false, default: None, dm: Dm::Normal(&Sc::Text("Arc<str>")) } }, Prop { f: 3, kind: PropKind::Named { name: "d", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Text("Arc<Path>"))) } }, Prop { f: 4, kind: PropKind::Named { name: "e", option: false, default: Some(|| { let x: bool = true; x.to_val() }), dm: Dm::Normal(&Sc::Bool) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_TEXTS: Shape = Shape::Struct("Texts", &FL_TEXTS);

#[derive(knuffel::Decode)]
pub struct Enums { #[knuffel(argument)] pub a: Mode, #[knuffel(property)] pub b: Option<Wide>, #[knuffel(property, default=Mode::SlowAndSteady)] pub c: Mode }
impl ToVal for Enums { fn to_val(&self) -> Val { Val::St("Enums", vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } }
pub static FL_ENUMS: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("a"), option: false, default: None, dm: Dm::Normal(&Sc::Enum("Mode", &["fast", "slow-and-steady", "none"])) }], var_args: None, props: &[Prop { f: 1, kind: PropKind::Named { name: "b", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Enum("Wide", &["a", "b", "http-server", "x1", "d"]))) } }, Prop { f: 2, kind: PropKind::Named { name: "c", option: false, default: Some(|| { let x: Mode = Mode::SlowAndSteady; x.to_val() }), dm: Dm::Normal(&Sc::Enum("Mode", &["fast", "slow-and-steady", "none"])) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_ENUMS: Shape = Shape::Struct("Enums", &FL_ENUMS);

#[derive(knuffel::Decode)]
pub struct OptArgs { #[knuffel(argument)] pub a: Option<String>, #[knuffel(argument, default=Some(3))] pub b: Option<u8>, #[knuffel(argument, default="dflt".into())] pub c: String, #[knuffel(argument)] pub d: Option<bool> }
impl ToVal for OptArgs { fn to_val(&self) -> Val { Val::St("OptArgs", vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()]) } }
pub static FL_OPTARGS: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("a"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Text("String"))) }, Arg { f: 1, name: Some("b"), option: true, default: Some(|| { let x: Option<u8> = Some(3); x.to_val() }), dm: Dm::Normal(&Sc::Opt(&Sc::Int("u8"))) }, Arg { f: 2, name: Some("c"), option: false, default: Some(|| { let x: String = "dflt".into(); x.to_val() }), dm: Dm::Normal(&Sc::Text("String")) }, Arg { f: 3, name: Some("d"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Bool)) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_OPTARGS: Shape = Shape::Struct("OptArgs", &FL_OPTARGS);

#[derive(knuffel::Decode)]
pub struct ReqAfterOpt { #[knuffel(argument)] pub a: Option<u8>, #[knuffel(argument)] pub r#type: String, #[knuffel(arguments)] pub rest: Vec<Option<i32>> }
impl ToVal for ReqAfterOpt { fn to_val(&self) -> Val { Val::St("ReqAfterOpt", vec![self.a.to_val(), self.r#type.to_val(), self.rest.to_val()]) } }
pub static FL_REQAFTEROPT: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("a"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u8"))) }, Arg { f: 1, name: Some("type"), option: false, default: None, dm: Dm::Normal(&Sc::Text("String")) }], var_args: Some((2, Coll::List, Dm::Normal(&Sc::Opt(&Sc::Int("i32"))))), props: &[], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_REQAFTEROPT: Shape = Shape::Struct("ReqAfterOpt", &FL_REQAFTEROPT);

#[derive(knuffel::Decode)]
pub struct VarArgs { #[knuffel(argument)] pub first: u8, #[knuffel(arguments)] pub rest: Vec<String> }
impl ToVal for VarArgs { fn to_val(&self) -> Val { Val::St("VarArgs", vec![self.first.to_val(), self.rest.to_val()]) } }
pub static FL_VARARGS: Fields = Fields { n: 2, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("first"), option: false, default: None, dm: Dm::Normal(&Sc::Int("u8")) }], var_args: Some((1, Coll::List, Dm::Normal(&Sc::Text("String")))), props: &[], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_VARARGS: Shape = Shape::Struct("VarArgs", &FL_VARARGS);

#[derive(knuffel::Decode)]
pub struct SetArgs { #[knuffel(arguments)] pub all: BTreeSet<String>, #[knuffel(property)] pub n: Option<i8> }
impl ToVal for SetArgs { fn to_val(&self) -> Val { Val::St("SetArgs", vec![self.all.to_val(), self.n.to_val()]) } }
pub static FL_SETARGS: Fields = Fields { n: 2, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: Some((0, Coll::Set, Dm::Normal(&Sc::Text("String")))), props: &[Prop { f: 1, kind: PropKind::Named { name: "n", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("i8"))) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_SETARGS: Shape = Shape::Struct("SetArgs", &FL_SETARGS);

#[derive(knuffel::Decode)]
pub struct DequeArgs { #[knuffel(arguments)] pub all: VecDeque<Mode> }
impl ToVal for DequeArgs { fn to_val(&self) -> Val { Val::St("DequeArgs", vec![self.all.to_val()]) } }
pub static FL_DEQUEARGS: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: Some((0, Coll::List, Dm::Normal(&Sc::Enum("Mode", &["fast", "slow-and-steady", "none"])))), props: &[], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_DEQUEARGS: Shape = Shape::Struct("DequeArgs", &FL_DEQUEARGS);

#[derive(knuffel::Decode)]
pub struct BoxArgs { #[knuffel(arguments)] pub all: Box<[u16]>, #[knuffel(properties)] pub p: BTreeMap<String, bool> }
impl ToVal for BoxArgs { fn to_val(&self) -> Val { Val::St("BoxArgs", vec![self.all.to_val(), self.p.to_val()]) } }
pub static FL_BOXARGS: Fields = Fields { n: 2, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: Some((0, Coll::List, Dm::Normal(&Sc::Int("u16")))), props: &[], var_props: Some((1, StrTy::Text, Dm::Normal(&Sc::Bool))), children: &[], var_children: None, extra: &[] };
pub static SH_BOXARGS: Shape = Shape::Struct("BoxArgs", &FL_BOXARGS);

#[derive(knuffel::Decode)]
pub struct StrMode { #[knuffel(argument, str)] pub a: u16, #[knuffel(argument, str)] pub b: Option<Ps>, #[knuffel(property, str)] pub c: char, #[knuffel(property, str)] pub d: Option<bool>, #[knuffel(property, str, default="zz".into())] pub e: String }
impl ToVal for StrMode { fn to_val(&self) -> Val { Val::St("StrMode", vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val()]) } }
pub static FL_STRMODE: Fields = Fields { n: 5, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("a"), option: false, default: None, dm: Dm::Str(StrTy::U16) }, Arg { f: 1, name: Some("b"), option: true, default: None, dm: Dm::Str(StrTy::Ps) }], var_args: None, props: &[Prop { f: 2, kind: PropKind::Named { name: "c", option: false, default: None, dm: Dm::Str(StrTy::Char) } }, Prop { f: 3, kind: PropKind::Named { name: "d", option: true, default: None, dm: Dm::Str(StrTy::Bool) } }, Prop { f: 4, kind: PropKind::Named { name: "e", option: false, default: Some(|| { let x: String = "zz".into(); x.to_val() }), dm: Dm::Str(StrTy::Text) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_STRMODE: Shape = Shape::Struct("StrMode", &FL_STRMODE);

#[derive(knuffel::Decode)]
pub struct StrVar { #[knuffel(arguments, str)] pub a: Vec<Ps>, #[knuffel(properties, str)] pub p: BTreeMap<Ps, u16> }
impl ToVal for StrVar { fn to_val(&self) -> Val { Val::St("StrVar", vec![self.a.to_val(), self.p.to_val()]) } }
pub static FL_STRVAR: Fields = Fields { n: 2, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: Some((0, Coll::List, Dm::Str(StrTy::Ps))), props: &[], var_props: Some((1, StrTy::Ps, Dm::Str(StrTy::U16))), children: &[], var_children: None, extra: &[] };
pub static SH_STRVAR: Shape = Shape::Struct("StrVar", &FL_STRVAR);

#[derive(knuffel::Decode)]
pub struct BytesMode { #[knuffel(argument, bytes)] pub a: Vec<u8>, #[knuffel(argument, bytes)] pub b: Option<Pb>, #[knuffel(property, bytes)] pub c: Pb, #[knuffel(property, bytes)] pub d: Option<Vec<u8>>, #[knuffel(property, bytes, default=vec![1])] pub e: Vec<u8> }
impl ToVal for BytesMode { fn to_val(&self) -> Val { Val::St("BytesMode", vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val()]) } }
pub static FL_BYTESMODE: Fields = Fields { n: 5, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("a"), option: false, default: None, dm: Dm::Bytes(ByTy::Vec) }, Arg { f: 1, name: Some("b"), option: true, default: None, dm: Dm::Bytes(ByTy::Pb) }], var_args: None, props: &[Prop { f: 2, kind: PropKind::Named { name: "c", option: false, default: None, dm: Dm::Bytes(ByTy::Pb) } }, Prop { f: 3, kind: PropKind::Named { name: "d", option: true, default: None, dm: Dm::Bytes(ByTy::Vec) } }, Prop { f: 4, kind: PropKind::Named { name: "e", option: false, default: Some(|| { let x: Vec<u8> = vec![1]; x.to_val() }), dm: Dm::Bytes(ByTy::Vec) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_BYTESMODE: Shape = Shape::Struct("BytesMode", &FL_BYTESMODE);

#[derive(knuffel::Decode)]
pub struct BytesVar { #[knuffel(arguments, bytes)] pub a: Vec<Box<[u8]>>, #[knuffel(properties, bytes)] pub p: HashMap<String, Pb> }
impl ToVal for BytesVar { fn to_val(&self) -> Val { Val::St("BytesVar", vec![self.a.to_val(), self.p.to_val()]) } }
pub static FL_BYTESVAR: Fields = Fields { n: 2, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: Some((0, Coll::List, Dm::Bytes(ByTy::Vec))), props: &[], var_props: Some((1, StrTy::Text, Dm::Bytes(ByTy::Pb))), children: &[], var_children: None, extra: &[] };
pub static SH_BYTESVAR: Shape = Shape::Struct("BytesVar", &FL_BYTESVAR);

#[derive(knuffel::Decode)]
pub struct PropNames { #[knuffel(property(name="odd name"))] pub a: u8, #[knuffel(property(name=""))] pub b: Option<String>, #[knuffel(property, default)] pub some_long_name: i8, #[knuffel(property)] pub r#match: Option<bool> }
impl ToVal for PropNames { fn to_val(&self) -> Val { Val::St("PropNames", vec![self.a.to_val(), self.b.to_val(), self.some_long_name.to_val(), self.r#match.to_val()]) } }
pub static FL_PROPNAMES: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[Prop { f: 0, kind: PropKind::Named { name: "odd name", option: false, default: None, dm: Dm::Normal(&Sc::Int("u8")) } }, Prop { f: 1, kind: PropKind::Named { name: "", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Text("String"))) } }, Prop { f: 2, kind: PropKind::Named { name: "some-long-name", option: false, default: Some(|| { let x: i8 = Default::default(); x.to_val() }), dm: Dm::Normal(&Sc::Int("i8")) } }, Prop { f: 3, kind: PropKind::Named { name: "match", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Bool)) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_PROPNAMES: Shape = Shape::Struct("PropNames", &FL_PROPNAMES);

#[derive(knuffel::Decode)]
pub struct VarProps { #[knuffel(property)] pub fixed: Option<u8>, #[knuffel(properties)] pub rest: HashMap<String, i32> }
impl ToVal for VarProps { fn to_val(&self) -> Val { Val::St("VarProps", vec![self.fixed.to_val(), self.rest.to_val()]) } }
pub static FL_VARPROPS: Fields = Fields { n: 2, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[Prop { f: 0, kind: PropKind::Named { name: "fixed", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u8"))) } }], var_props: Some((1, StrTy::Text, Dm::Normal(&Sc::Int("i32")))), children: &[], var_children: None, extra: &[] };
pub static SH_VARPROPS: Shape = Shape::Struct("VarProps", &FL_VARPROPS);

#[derive(knuffel::Decode)]
pub struct VarPropsPairs { #[knuffel(properties)] pub rest: Pairs<Ps, P> }
impl ToVal for VarPropsPairs { fn to_val(&self) -> Val { Val::St("VarPropsPairs", vec![self.rest.to_val()]) } }
pub static FL_VARPROPSPAIRS: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: Some((0, StrTy::Ps, Dm::Normal(&Sc::P))), children: &[], var_children: None, extra: &[] };
pub static SH_VARPROPSPAIRS: Shape = Shape::Struct("VarPropsPairs", &FL_VARPROPSPAIRS);

#[derive(knuffel::Decode)]
pub struct VarPropsNum { #[knuffel(properties)] pub rest: BTreeMap<u16, String> }
impl ToVal for VarPropsNum { fn to_val(&self) -> Val { Val::St("VarPropsNum", vec![self.rest.to_val()]) } }
pub static FL_VARPROPSNUM: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: Some((0, StrTy::U16, Dm::Normal(&Sc::Text("String")))), children: &[], var_children: None, extra: &[] };
pub static SH_VARPROPSNUM: Shape = Shape::Struct("VarPropsNum", &FL_VARPROPSNUM);

#[derive(knuffel::Decode)]
pub struct OptProps { #[knuffel(property, default=Some("d".into()))] pub a: Option<String>, #[knuffel(property, str, default=Some(Ps("q".into())))] pub b: Option<Ps>, #[knuffel(property, bytes, default=Some(vec![2]))] pub c: Option<Vec<u8>>, #[knuffel(property, default)] pub d: Option<P> }
impl ToVal for OptProps { fn to_val(&self) -> Val { Val::St("OptProps", vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()]) } }
pub static FL_OPTPROPS: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[Prop { f: 0, kind: PropKind::Named { name: "a", option: true, default: Some(|| { let x: Option<String> = Some("d".into()); x.to_val() }), dm: Dm::Normal(&Sc::Opt(&Sc::Text("String"))) } }, Prop { f: 1, kind: PropKind::Named { name: "b", option: true, default: Some(|| { let x: Option<Ps> = Some(Ps("q".into())); x.to_val() }), dm: Dm::Str(StrTy::Ps) } }, Prop { f: 2, kind: PropKind::Named { name: "c", option: true, default: Some(|| { let x: Option<Vec<u8>> = Some(vec![2]); x.to_val() }), dm: Dm::Bytes(ByTy::Vec) } }, Prop { f: 3, kind: PropKind::Named { name: "d", option: true, default: Some(|| { let x: Option<P> = Default::default(); x.to_val() }), dm: Dm::Normal(&Sc::Opt(&Sc::P)) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_OPTPROPS: Shape = Shape::Struct("OptProps", &FL_OPTPROPS);

#[derive(knuffel::Decode)]
pub struct Flags { #[knuffel(child)] pub quiet: bool, #[knuffel(child)] pub very_loud: bool, #[knuffel(argument)] pub n: Option<u8> }
impl ToVal for Flags { fn to_val(&self) -> Val { Val::St("Flags", vec![self.quiet.to_val(), self.very_loud.to_val(), self.n.to_val()]) } }
pub static FL_FLAGS: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 2, name: Some("n"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u8"))) }], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "quiet", kind: ChildKind::Bool, ty: NodeTy::None }, Child { f: 1, name: "very-loud", kind: ChildKind::Bool, ty: NodeTy::None }], var_children: None, extra: &[] };
pub static SH_FLAGS: Shape = Shape::Struct("Flags", &FL_FLAGS);

#[derive(knuffel::Decode)]
pub struct Kids { #[knuffel(child)] pub one: OneArg, #[knuffel(child)] pub two: Option<Ints>, #[knuffel(child)] pub probe: Option<Pn>, #[knuffel(child)] pub flag: bool }
impl ToVal for Kids { fn to_val(&self) -> Val { Val::St("Kids", vec![self.one.to_val(), self.two.to_val(), self.probe.to_val(), self.flag.to_val()]) } }
pub static FL_KIDS: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "one", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Shape(&SH_ONEARG) }, Child { f: 1, name: "two", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Shape(&SH_INTS) }, Child { f: 2, name: "probe", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Probe }, Child { f: 3, name: "flag", kind: ChildKind::Bool, ty: NodeTy::None }], var_children: None, extra: &[] };
pub static SH_KIDS: Shape = Shape::Struct("Kids", &FL_KIDS);

#[derive(knuffel::Decode)]
pub struct KidsBoxed { #[knuffel(child)] pub one: Box<OneArg>, #[knuffel(child)] pub two: Option<Rc<Flags>>, #[knuffel(child)] pub three: Arc<Pn> }
impl ToVal for KidsBoxed { fn to_val(&self) -> Val { Val::St("KidsBoxed", vec![self.one.to_val(), self.two.to_val(), self.three.to_val()]) } }
pub static FL_KIDSBOXED: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "one", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Shape(&SH_ONEARG) }, Child { f: 1, name: "two", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Shape(&SH_FLAGS) }, Child { f: 2, name: "three", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Probe }], var_children: None, extra: &[] };
pub static SH_KIDSBOXED: Shape = Shape::Struct("KidsBoxed", &FL_KIDSBOXED);

#[derive(knuffel::Decode, Default)]
pub struct Dflt { #[knuffel(property)] pub x: Option<u8>, #[knuffel(child)] pub y: bool }
impl ToVal for Dflt { fn to_val(&self) -> Val { Val::St("Dflt", vec![self.x.to_val(), self.y.to_val()]) } }
pub static FL_DFLT: Fields = Fields { n: 2, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[Prop { f: 0, kind: PropKind::Named { name: "x", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u8"))) } }], var_props: None, children: &[Child { f: 1, name: "y", kind: ChildKind::Bool, ty: NodeTy::None }], var_children: None, extra: &[] };
pub static SH_DFLT: Shape = Shape::Struct("Dflt", &FL_DFLT);

#[derive(knuffel::Decode)]
pub struct KidsDefault { #[knuffel(child, default)] pub a: Dflt, #[knuffel(child, default=Dflt { x: Some(4), y: true })] pub b: Dflt, #[knuffel(child)] pub c: Option<Dflt> }
impl ToVal for KidsDefault { fn to_val(&self) -> Val { Val::St("KidsDefault", vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } }
pub static FL_KIDSDEFAULT: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "a", kind: ChildKind::Normal { option: false, default: Some(|| { let x: Dflt = Default::default(); x.to_val() }) }, ty: NodeTy::Shape(&SH_DFLT) }, Child { f: 1, name: "b", kind: ChildKind::Normal { option: false, default: Some(|| { let x: Dflt = Dflt { x: Some(4), y: true }; x.to_val() }) }, ty: NodeTy::Shape(&SH_DFLT) }, Child { f: 2, name: "c", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Shape(&SH_DFLT) }], var_children: None, extra: &[] };
pub static SH_KIDSDEFAULT: Shape = Shape::Struct("KidsDefault", &FL_KIDSDEFAULT);

#[derive(knuffel::Decode)]
pub struct Multi { #[knuffel(children(name="item"))] pub items: Vec<OneArg>, #[knuffel(children(name="probe"))] pub probes: Vec<Pn>, #[knuffel(child)] pub flag: bool }
impl ToVal for Multi { fn to_val(&self) -> Val { Val::St("Multi", vec![self.items.to_val(), self.probes.to_val(), self.flag.to_val()]) } }
pub static FL_MULTI: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "item", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Shape(&SH_ONEARG) }, Child { f: 1, name: "probe", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Probe }, Child { f: 2, name: "flag", kind: ChildKind::Bool, ty: NodeTy::None }], var_children: None, extra: &[] };
pub static SH_MULTI: Shape = Shape::Struct("Multi", &FL_MULTI);

#[derive(knuffel::Decode)]
pub struct MultiOpt { #[knuffel(children(name="item"))] pub items: Option<Vec<OneArg>>, #[knuffel(children(name="dq"), default=VecDeque::new())] pub dq: VecDeque<Pn>, #[knuffel(argument)] pub a: Option<P> }
impl ToVal for MultiOpt { fn to_val(&self) -> Val { Val::St("MultiOpt", vec![self.items.to_val(), self.dq.to_val(), self.a.to_val()]) } }
pub static FL_MULTIOPT: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 2, name: Some("a"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::P)) }], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "item", kind: ChildKind::Multi { option: true, default: None, coll: Coll::List }, ty: NodeTy::Shape(&SH_ONEARG) }, Child { f: 1, name: "dq", kind: ChildKind::Multi { option: false, default: Some(|| { let x: VecDeque<Pn> = VecDeque::new(); x.to_val() }), coll: Coll::List }, ty: NodeTy::Probe }], var_children: None, extra: &[] };
pub static SH_MULTIOPT: Shape = Shape::Struct("MultiOpt", &FL_MULTIOPT);

pub static UW_1: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("items"), option: false, default: None, dm: Dm::Normal(&Sc::Text("String")) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

pub static UW_2: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("o"), option: false, default: None, dm: Dm::Normal(&Sc::Int("u8")) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct MultiDef { #[knuffel(children(name="item"), unwrap(argument), default=vec!["z".into()])] pub items: Vec<String>, #[knuffel(children(name="o"), unwrap(argument), default=Some(vec![7]))] pub o: Option<Vec<u8>> }
impl ToVal for MultiDef { fn to_val(&self) -> Val { Val::St("MultiDef", vec![self.items.to_val(), self.o.to_val()]) } }
pub static FL_MULTIDEF: Fields = Fields { n: 2, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "item", kind: ChildKind::Multi { option: false, default: Some(|| { let x: Vec<String> = vec!["z".into()]; x.to_val() }), coll: Coll::List }, ty: NodeTy::Unwrap(&UW_1) }, Child { f: 1, name: "o", kind: ChildKind::Multi { option: true, default: Some(|| { let x: Option<Vec<u8>> = Some(vec![7]); x.to_val() }), coll: Coll::List }, ty: NodeTy::Unwrap(&UW_2) }], var_children: None, extra: &[] };
pub static SH_MULTIDEF: Shape = Shape::Struct("MultiDef", &FL_MULTIDEF);

#[derive(knuffel::Decode)]
pub struct CatchAll { #[knuffel(child)] pub named: Option<OneArg>, #[knuffel(children)] pub rest: Vec<Pn> }
impl ToVal for CatchAll { fn to_val(&self) -> Val { Val::St("CatchAll", vec![self.named.to_val(), self.rest.to_val()]) } }
pub static FL_CATCHALL: Fields = Fields { n: 2, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "named", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Shape(&SH_ONEARG) }], var_children: Some((1, Coll::List, NodeTy::Probe)), extra: &[] };
pub static SH_CATCHALL: Shape = Shape::Struct("CatchAll", &FL_CATCHALL);

pub static UW_3: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("x"), option: false, default: None, dm: Dm::Normal(&Sc::Int("u8")) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct CatchAll2 { #[knuffel(children(name="x"), unwrap(argument))] pub x: Vec<u8>, #[knuffel(child)] pub flag: bool, #[knuffel(children)] pub rest: Vec<OneArg> }
impl ToVal for CatchAll2 { fn to_val(&self) -> Val { Val::St("CatchAll2", vec![self.x.to_val(), self.flag.to_val(), self.rest.to_val()]) } }
pub static FL_CATCHALL2: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "x", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Unwrap(&UW_3) }, Child { f: 1, name: "flag", kind: ChildKind::Bool, ty: NodeTy::None }], var_children: Some((2, Coll::List, NodeTy::Shape(&SH_ONEARG))), extra: &[] };
pub static SH_CATCHALL2: Shape = Shape::Struct("CatchAll2", &FL_CATCHALL2);

pub static UW_4: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("name"), option: false, default: None, dm: Dm::Normal(&Sc::Text("String")) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

pub static UW_5: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("age"), option: false, default: None, dm: Dm::Normal(&Sc::Int("u8")) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

pub static UW_6: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: Some((0, Coll::List, Dm::Normal(&Sc::Text("String")))), props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

pub static UW_7: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("opt"), option: false, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("i8"))) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct UnwrapArg { #[knuffel(child, unwrap(argument))] pub name: String, #[knuffel(child, unwrap(argument))] pub age: Option<u8>, #[knuffel(child, unwrap(arguments))] pub tags: Vec<String>, #[knuffel(child, unwrap(argument), default=Some(5))] pub opt: Option<i8> }
impl ToVal for UnwrapArg { fn to_val(&self) -> Val { Val::St("UnwrapArg", vec![self.name.to_val(), self.age.to_val(), self.tags.to_val(), self.opt.to_val()]) } }
pub static FL_UNWRAPARG: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "name", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_4) }, Child { f: 1, name: "age", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Unwrap(&UW_5) }, Child { f: 2, name: "tags", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_6) }, Child { f: 3, name: "opt", kind: ChildKind::Normal { option: true, default: Some(|| { let x: Option<i8> = Some(5); x.to_val() }) }, ty: NodeTy::Unwrap(&UW_7) }], var_children: None, extra: &[] };
pub static SH_UNWRAPARG: Shape = Shape::Struct("UnwrapArg", &FL_UNWRAPARG);

pub static UW_8: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[Prop { f: 0, kind: PropKind::Named { name: "px", option: false, default: None, dm: Dm::Normal(&Sc::Int("u32")) } }], var_props: None, children: &[], var_children: None, extra: &[] };

pub static UW_9: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[Prop { f: 0, kind: PropKind::Named { name: "kind", option: false, default: None, dm: Dm::Normal(&Sc::Enum("Mode", &["fast", "slow-and-steady", "none"])) } }], var_props: None, children: &[], var_children: None, extra: &[] };

pub static UW_10: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: Some((0, StrTy::Text, Dm::Normal(&Sc::Int("i64")))), children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct UnwrapProp { #[knuffel(child, unwrap(property(name="px")))] pub size: u32, #[knuffel(child, unwrap(property))] pub kind: Option<Mode>, #[knuffel(child, unwrap(properties))] pub all: Option<BTreeMap<String, i64>> }
impl ToVal for UnwrapProp { fn to_val(&self) -> Val { Val::St("UnwrapProp", vec![self.size.to_val(), self.kind.to_val(), self.all.to_val()]) } }
pub static FL_UNWRAPPROP: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "size", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_8) }, Child { f: 1, name: "kind", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Unwrap(&UW_9) }, Child { f: 2, name: "all", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Unwrap(&UW_10) }], var_children: None, extra: &[] };
pub static SH_UNWRAPPROP: Shape = Shape::Struct("UnwrapProp", &FL_UNWRAPPROP);

pub static UW_11: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "inner", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Shape(&SH_ONEARG) }], var_children: None, extra: &[] };

pub static UW_12: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "li", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Probe }], var_children: None, extra: &[] };

pub static UW_13: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[], var_children: Some((0, Coll::List, NodeTy::Shape(&SH_ONEARG))), extra: &[] };

#[derive(knuffel::Decode)]
pub struct UnwrapKid { #[knuffel(child, unwrap(child))] pub inner: OneArg, #[knuffel(child, unwrap(children(name="li")))] pub list: Option<Vec<Pn>>, #[knuffel(child, unwrap(children), default)] pub any: Vec<OneArg> }
impl ToVal for UnwrapKid { fn to_val(&self) -> Val { Val::St("UnwrapKid", vec![self.inner.to_val(), self.list.to_val(), self.any.to_val()]) } }
pub static FL_UNWRAPKID: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "inner", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_11) }, Child { f: 1, name: "list", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Unwrap(&UW_12) }, Child { f: 2, name: "any", kind: ChildKind::Normal { option: false, default: Some(|| { let x: Vec<OneArg> = Default::default(); x.to_val() }) }, ty: NodeTy::Unwrap(&UW_13) }], var_children: None, extra: &[] };
pub static SH_UNWRAPKID: Shape = Shape::Struct("UnwrapKid", &FL_UNWRAPKID);

pub static UW_15: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("deep"), option: false, default: None, dm: Dm::Normal(&Sc::Text("String")) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

pub static UW_14: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "deep", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_15) }], var_children: None, extra: &[] };

pub static UW_18: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[Prop { f: 0, kind: PropKind::Named { name: "v", option: false, default: None, dm: Dm::Normal(&Sc::Int("u8")) } }], var_props: None, children: &[], var_children: None, extra: &[] };

pub static UW_17: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "deeper", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_18) }], var_children: None, extra: &[] };

pub static UW_16: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "deeper", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_17) }], var_children: None, extra: &[] };

pub static UW_20: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("lst"), option: false, default: None, dm: Dm::Normal(&Sc::P) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

pub static UW_19: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "e", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Unwrap(&UW_20) }], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct UnwrapDeep { #[knuffel(child, unwrap(child, unwrap(argument)))] pub deep: String, #[knuffel(child, unwrap(child, unwrap(child, unwrap(property(name="v")))))] pub deeper: Option<u8>, #[knuffel(child, unwrap(children(name="e"), unwrap(argument)))] pub lst: Option<Vec<P>> }
impl ToVal for UnwrapDeep { fn to_val(&self) -> Val { Val::St("UnwrapDeep", vec![self.deep.to_val(), self.deeper.to_val(), self.lst.to_val()]) } }
pub static FL_UNWRAPDEEP: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "deep", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_14) }, Child { f: 1, name: "deeper", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Unwrap(&UW_16) }, Child { f: 2, name: "lst", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Unwrap(&UW_19) }], var_children: None, extra: &[] };
pub static SH_UNWRAPDEEP: Shape = Shape::Struct("UnwrapDeep", &FL_UNWRAPDEEP);

pub static UW_21: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("s"), option: false, default: None, dm: Dm::Str(StrTy::Ps) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

pub static UW_22: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("b"), option: false, default: None, dm: Dm::Bytes(ByTy::Pb) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

pub static UW_23: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[Prop { f: 0, kind: PropKind::Named { name: "k", option: false, default: None, dm: Dm::Str(StrTy::U16) } }], var_props: None, children: &[], var_children: None, extra: &[] };

pub static UW_24: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("d"), option: false, default: Some(|| { let x: u8 = 42; x.to_val() }), dm: Dm::Normal(&Sc::Int("u8")) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct UnwrapModes { #[knuffel(child, unwrap(argument, str))] pub s: Ps, #[knuffel(child, unwrap(argument, bytes))] pub b: Option<Pb>, #[knuffel(child, unwrap(property(name="k"), str))] pub p: Option<u16>, #[knuffel(child, unwrap(argument, default=42), default=1)] pub d: u8 }
impl ToVal for UnwrapModes { fn to_val(&self) -> Val { Val::St("UnwrapModes", vec![self.s.to_val(), self.b.to_val(), self.p.to_val(), self.d.to_val()]) } }
pub static FL_UNWRAPMODES: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "s", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_21) }, Child { f: 1, name: "b", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Unwrap(&UW_22) }, Child { f: 2, name: "p", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Unwrap(&UW_23) }, Child { f: 3, name: "d", kind: ChildKind::Normal { option: false, default: Some(|| { let x: u8 = 1; x.to_val() }) }, ty: NodeTy::Unwrap(&UW_24) }], var_children: None, extra: &[] };
pub static SH_UNWRAPMODES: Shape = Shape::Struct("UnwrapModes", &FL_UNWRAPMODES);

pub static UW_25: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("vals"), option: false, default: None, dm: Dm::Normal(&Sc::Int("u8")) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

pub static UW_26: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("names"), option: false, default: None, dm: Dm::Normal(&Sc::Text("String")) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

pub static UW_27: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[Prop { f: 0, kind: PropKind::Named { name: "m", option: false, default: None, dm: Dm::Normal(&Sc::Enum("Mode", &["fast", "slow-and-steady", "none"])) } }], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct UnwrapMulti { #[knuffel(children(name="val"), unwrap(argument))] pub vals: Vec<u8>, #[knuffel(children(name="name"), unwrap(argument))] pub names: BTreeSet<String>, #[knuffel(children, unwrap(property(name="m")))] pub rest: Vec<Mode> }
impl ToVal for UnwrapMulti { fn to_val(&self) -> Val { Val::St("UnwrapMulti", vec![self.vals.to_val(), self.names.to_val(), self.rest.to_val()]) } }
pub static FL_UNWRAPMULTI: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "val", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Unwrap(&UW_25) }, Child { f: 1, name: "name", kind: ChildKind::Multi { option: false, default: None, coll: Coll::Set }, ty: NodeTy::Unwrap(&UW_26) }], var_children: Some((2, Coll::List, NodeTy::Unwrap(&UW_27))), extra: &[] };
pub static SH_UNWRAPMULTI: Shape = Shape::Struct("UnwrapMulti", &FL_UNWRAPMULTI);

pub static UW_28: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("on"), option: false, default: None, dm: Dm::Normal(&Sc::Bool) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

pub static UW_29: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("off"), option: false, default: None, dm: Dm::Normal(&Sc::Bool) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct UnwrapBool { #[knuffel(child, unwrap(argument))] pub on: bool, #[knuffel(child, unwrap(argument))] pub off: Option<bool> }
impl ToVal for UnwrapBool { fn to_val(&self) -> Val { Val::St("UnwrapBool", vec![self.on.to_val(), self.off.to_val()]) } }
pub static FL_UNWRAPBOOL: Fields = Fields { n: 2, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "on", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_28) }, Child { f: 1, name: "off", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Unwrap(&UW_29) }], var_children: None, extra: &[] };
pub static SH_UNWRAPBOOL: Shape = Shape::Struct("UnwrapBool", &FL_UNWRAPBOOL);

#[derive(knuffel::Decode)]
pub struct Named { #[knuffel(node_name)] pub name: Ps, #[knuffel(type_name)] pub ty: Option<Ps>, #[knuffel(span)] pub at: Psp, #[knuffel(argument)] pub x: Option<u8> }
impl ToVal for Named { fn to_val(&self) -> Val { Val::St("Named", vec![self.name.to_val(), self.ty.to_val(), self.at.to_val(), self.x.to_val()]) } }
pub static FL_NAMED: Fields = Fields { n: 4, spans: &[(2, true)], node_names: &[(0, StrTy::Ps)], type_names: &[(1, StrTy::Ps, true)], args: &[Arg { f: 3, name: Some("x"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u8"))) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_NAMED: Shape = Shape::Struct("Named", &FL_NAMED);

#[derive(knuffel::Decode)]
#[knuffel(span_type=Span)]
pub struct Named2 { #[knuffel(node_name)] pub name: String, #[knuffel(type_name)] pub ty: String, #[knuffel(span)] pub at: Span, #[knuffel(span)] pub at2: Psp }
impl ToVal for Named2 { fn to_val(&self) -> Val { Val::St("Named2", vec![self.name.to_val(), self.ty.to_val(), self.at.to_val(), self.at2.to_val()]) } }
pub static FL_NAMED2: Fields = Fields { n: 4, spans: &[(2, false), (3, true)], node_names: &[(0, StrTy::Text)], type_names: &[(1, StrTy::Text, false)], args: &[], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_NAMED2: Shape = Shape::Struct("Named2", &FL_NAMED2);

#[derive(knuffel::Decode)]
pub struct NameNum { #[knuffel(node_name)] pub name: u16, #[knuffel(type_name)] pub ty: Option<bool>, #[knuffel(children)] pub c: Vec<Pn> }
impl ToVal for NameNum { fn to_val(&self) -> Val { Val::St("NameNum", vec![self.name.to_val(), self.ty.to_val(), self.c.to_val()]) } }
pub static FL_NAMENUM: Fields = Fields { n: 3, spans: &[], node_names: &[(0, StrTy::U16)], type_names: &[(1, StrTy::Bool, true)], args: &[], var_args: None, props: &[], var_props: None, children: &[], var_children: Some((2, Coll::List, NodeTy::Probe)), extra: &[] };
pub static SH_NAMENUM: Shape = Shape::Struct("NameNum", &FL_NAMENUM);

#[derive(knuffel::Decode)]
#[knuffel(span_type=Span)]
pub struct SpanScal { #[knuffel(argument)] pub a: Spanned<String, Span>, #[knuffel(property)] pub b: Option<Spanned<u8, Psp>>, #[knuffel(property)] pub c: Spanned<Option<P>, Psp> }
impl ToVal for SpanScal { fn to_val(&self) -> Val { Val::St("SpanScal", vec![self.a.to_val(), self.b.to_val(), self.c.to_val()]) } }
pub static FL_SPANSCAL: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("a"), option: false, default: None, dm: Dm::Normal(&Sc::Spanned(&Sc::Text("String"), false)) }], var_args: None, props: &[Prop { f: 1, kind: PropKind::Named { name: "b", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Spanned(&Sc::Int("u8"), true))) } }, Prop { f: 2, kind: PropKind::Named { name: "c", option: false, default: None, dm: Dm::Normal(&Sc::Spanned(&Sc::Opt(&Sc::P), true)) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_SPANSCAL: Shape = Shape::Struct("SpanScal", &FL_SPANSCAL);

#[derive(knuffel::Decode)]
#[knuffel(span_type=Span)]
pub struct AstVals { #[knuffel(argument)] pub a: Value<Span>, #[knuffel(property)] pub b: Option<Value<Span>>, #[knuffel(property)] pub c: Option<Literal>, #[knuffel(arguments)] pub r: Vec<Spanned<Value<Span>, Span>> }
impl ToVal for AstVals { fn to_val(&self) -> Val { Val::St("AstVals", vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.r.to_val()]) } }
pub static FL_ASTVALS: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("a"), option: false, default: None, dm: Dm::Normal(&Sc::Value) }], var_args: Some((3, Coll::List, Dm::Normal(&Sc::Spanned(&Sc::Value, false)))), props: &[Prop { f: 1, kind: PropKind::Named { name: "b", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Value)) } }, Prop { f: 2, kind: PropKind::Named { name: "c", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Literal)) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_ASTVALS: Shape = Shape::Struct("AstVals", &FL_ASTVALS);

#[derive(knuffel::Decode)]
#[knuffel(span_type=Span)]
pub struct AstKids { #[knuffel(child)] pub a: Option<SpannedNode<Span>>, #[knuffel(child)] pub b: Option<Node<Span>>, #[knuffel(children)] pub r: Vec<SpannedNode<Span>> }
impl ToVal for AstKids { fn to_val(&self) -> Val { Val::St("AstKids", vec![self.a.to_val(), self.b.to_val(), self.r.to_val()]) } }
pub static FL_ASTKIDS: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "a", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Ast }, Child { f: 1, name: "b", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::AstNode }], var_children: Some((2, Coll::List, NodeTy::Ast)), extra: &[] };
pub static SH_ASTKIDS: Shape = Shape::Struct("AstKids", &FL_ASTKIDS);

#[derive(knuffel::Decode)]
pub struct Wrapped { #[knuffel(argument)] pub a: Box<u8>, #[knuffel(argument)] pub b: Option<Rc<String>>, #[knuffel(property)] pub c: Arc<P>, #[knuffel(property)] pub d: Option<Box<Mode>> }
impl ToVal for Wrapped { fn to_val(&self) -> Val { Val::St("Wrapped", vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()]) } }
pub static FL_WRAPPED: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("a"), option: false, default: None, dm: Dm::Normal(&Sc::Int("u8")) }, Arg { f: 1, name: Some("b"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Text("String"))) }], var_args: None, props: &[Prop { f: 2, kind: PropKind::Named { name: "c", option: false, default: None, dm: Dm::Normal(&Sc::P) } }, Prop { f: 3, kind: PropKind::Named { name: "d", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Enum("Mode", &["fast", "slow-and-steady", "none"]))) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_WRAPPED: Shape = Shape::Struct("Wrapped", &FL_WRAPPED);

#[derive(knuffel::Decode)]
pub struct Probes { #[knuffel(argument)] pub a: P, #[knuffel(argument)] pub b: Option<P>, #[knuffel(property)] pub c: P, #[knuffel(property)] pub d: Option<P>, #[knuffel(child)] pub k: Option<Pn>, #[knuffel(children)] pub ks: Vec<Pn> }
impl ToVal for Probes { fn to_val(&self) -> Val { Val::St("Probes", vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.k.to_val(), self.ks.to_val()]) } }
pub static FL_PROBES: Fields = Fields { n: 6, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("a"), option: false, default: None, dm: Dm::Normal(&Sc::P) }, Arg { f: 1, name: Some("b"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::P)) }], var_args: None, props: &[Prop { f: 2, kind: PropKind::Named { name: "c", option: false, default: None, dm: Dm::Normal(&Sc::P) } }, Prop { f: 3, kind: PropKind::Named { name: "d", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::P)) } }], var_props: None, children: &[Child { f: 4, name: "k", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Probe }], var_children: Some((5, Coll::List, NodeTy::Probe)), extra: &[] };
pub static SH_PROBES: Shape = Shape::Struct("Probes", &FL_PROBES);

#[derive(knuffel::Decode)]
pub struct Probes2 { #[knuffel(span)] pub s: Psp, #[knuffel(node_name)] pub n: Ps, #[knuffel(arguments)] pub a: Vec<P>, #[knuffel(properties)] pub p: BTreeMap<Ps, P>, #[knuffel(children)] pub ks: Vec<Pn> }
impl ToVal for Probes2 { fn to_val(&self) -> Val { Val::St("Probes2", vec![self.s.to_val(), self.n.to_val(), self.a.to_val(), self.p.to_val(), self.ks.to_val()]) } }
pub static FL_PROBES2: Fields = Fields { n: 5, spans: &[(0, true)], node_names: &[(1, StrTy::Ps)], type_names: &[], args: &[], var_args: Some((2, Coll::List, Dm::Normal(&Sc::P))), props: &[], var_props: Some((3, StrTy::Ps, Dm::Normal(&Sc::P))), children: &[], var_children: Some((4, Coll::List, NodeTy::Probe)), extra: &[] };
pub static SH_PROBES2: Shape = Shape::Struct("Probes2", &FL_PROBES2);

pub static UW_30: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("u"), option: false, default: None, dm: Dm::Normal(&Sc::P) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Probes3 { #[knuffel(arguments)] pub a: Vec<Option<P>>, #[knuffel(child, unwrap(argument))] pub u: Option<P>, #[knuffel(children(name="m"))] pub m: Vec<Pn>, #[knuffel(child)] pub f: bool }
impl ToVal for Probes3 { fn to_val(&self) -> Val { Val::St("Probes3", vec![self.a.to_val(), self.u.to_val(), self.m.to_val(), self.f.to_val()]) } }
pub static FL_PROBES3: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: Some((0, Coll::List, Dm::Normal(&Sc::Opt(&Sc::P)))), props: &[], var_props: None, children: &[Child { f: 1, name: "u", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Unwrap(&UW_30) }, Child { f: 2, name: "m", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Probe }, Child { f: 3, name: "f", kind: ChildKind::Bool, ty: NodeTy::None }], var_children: None, extra: &[] };
pub static SH_PROBES3: Shape = Shape::Struct("Probes3", &FL_PROBES3);

#[derive(knuffel::Decode, Default)]
pub struct PartProps { #[knuffel(property)] pub pa: Option<u8>, #[knuffel(property)] pub pb: Option<P>, #[knuffel(property, str)] pub pc: Option<Ps> }
impl ToVal for PartProps { fn to_val(&self) -> Val { Val::St("PartProps", vec![self.pa.to_val(), self.pb.to_val(), self.pc.to_val()]) } }
pub static FL_PARTPROPS: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[Prop { f: 0, kind: PropKind::Named { name: "pa", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u8"))) } }, Prop { f: 1, kind: PropKind::Named { name: "pb", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::P)) } }, Prop { f: 2, kind: PropKind::Named { name: "pc", option: true, default: None, dm: Dm::Str(StrTy::Ps) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_PARTPROPS: Shape = Shape::Struct("PartProps", &FL_PARTPROPS);

pub static UW_31: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("kd"), option: false, default: None, dm: Dm::Normal(&Sc::Int("u8")) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode, Default)]
pub struct PartKids { #[knuffel(child)] pub ka: Option<OneArg>, #[knuffel(child)] pub kb: bool, #[knuffel(child)] pub kc: Option<Pn>, #[knuffel(child, unwrap(argument))] pub kd: Option<u8> }
impl ToVal for PartKids { fn to_val(&self) -> Val { Val::St("PartKids", vec![self.ka.to_val(), self.kb.to_val(), self.kc.to_val(), self.kd.to_val()]) } }
pub static FL_PARTKIDS: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "ka", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Shape(&SH_ONEARG) }, Child { f: 1, name: "kb", kind: ChildKind::Bool, ty: NodeTy::None }, Child { f: 2, name: "kc", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Probe }, Child { f: 3, name: "kd", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Unwrap(&UW_31) }], var_children: None, extra: &[] };
pub static SH_PARTKIDS: Shape = Shape::Struct("PartKids", &FL_PARTKIDS);

#[derive(knuffel::Decode, Default)]
pub struct PartNest { #[knuffel(property)] pub own: Option<u8>, #[knuffel(flatten(property))] pub inner: PartProps, #[knuffel(child)] pub mine: bool }
impl ToVal for PartNest { fn to_val(&self) -> Val { Val::St("PartNest", vec![self.own.to_val(), self.inner.to_val(), self.mine.to_val()]) } }
pub static FL_PARTNEST: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[Prop { f: 0, kind: PropKind::Named { name: "own", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u8"))) } }, Prop { f: 1, kind: PropKind::Flat(Part::Of("PartProps", &FL_PARTPROPS)) }], var_props: None, children: &[Child { f: 2, name: "mine", kind: ChildKind::Bool, ty: NodeTy::None }], var_children: None, extra: &[] };
pub static SH_PARTNEST: Shape = Shape::Struct("PartNest", &FL_PARTNEST);

#[derive(knuffel::Decode, Default)]
pub struct PartNestK { #[knuffel(child)] pub own: Option<Pn>, #[knuffel(flatten(child))] pub inner: Box<PartKids>, pub cache: u8 }
impl ToVal for PartNestK { fn to_val(&self) -> Val { Val::St("PartNestK", vec![self.own.to_val(), self.inner.to_val(), self.cache.to_val()]) } }
pub static FL_PARTNESTK: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "own", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Probe }, Child { f: 1, name: "", kind: ChildKind::Flat(Part::Of("PartKids", &FL_PARTKIDS)), ty: NodeTy::None }], var_children: None, extra: &[(2, || <u8 as Default>::default().to_val())] };
pub static SH_PARTNESTK: Shape = Shape::Struct("PartNestK", &FL_PARTNESTK);

#[derive(knuffel::Decode)]
pub struct FlatP { #[knuffel(argument)] pub a: Option<u8>, #[knuffel(property)] pub x: u8, #[knuffel(flatten(property))] pub fl: PartProps, #[knuffel(property)] pub pa: Option<String> }
impl ToVal for FlatP { fn to_val(&self) -> Val { Val::St("FlatP", vec![self.a.to_val(), self.x.to_val(), self.fl.to_val(), self.pa.to_val()]) } }
pub static FL_FLATP: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("a"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u8"))) }], var_args: None, props: &[Prop { f: 1, kind: PropKind::Named { name: "x", option: false, default: None, dm: Dm::Normal(&Sc::Int("u8")) } }, Prop { f: 2, kind: PropKind::Flat(Part::Of("PartProps", &FL_PARTPROPS)) }, Prop { f: 3, kind: PropKind::Named { name: "pa", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Text("String"))) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_FLATP: Shape = Shape::Struct("FlatP", &FL_FLATP);

#[derive(knuffel::Decode)]
pub struct FlatP2 { #[knuffel(flatten(property))] pub fl: Rc<PartNest>, #[knuffel(flatten(property))] pub pp: Arc<Pp>, #[knuffel(properties)] pub rest: BTreeMap<String, P> }
impl ToVal for FlatP2 { fn to_val(&self) -> Val { Val::St("FlatP2", vec![self.fl.to_val(), self.pp.to_val(), self.rest.to_val()]) } }
pub static FL_FLATP2: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[Prop { f: 0, kind: PropKind::Flat(Part::Of("PartNest", &FL_PARTNEST)) }, Prop { f: 1, kind: PropKind::Flat(Part::Probe) }], var_props: Some((2, StrTy::Text, Dm::Normal(&Sc::P))), children: &[], var_children: None, extra: &[] };
pub static SH_FLATP2: Shape = Shape::Struct("FlatP2", &FL_FLATP2);

#[derive(knuffel::Decode)]
pub struct FlatP3 { #[knuffel(flatten(property))] pub pp: Box<Pp>, #[knuffel(property)] pub pa: Option<u8>, #[knuffel(property)] pub z: Option<P> }
impl ToVal for FlatP3 { fn to_val(&self) -> Val { Val::St("FlatP3", vec![self.pp.to_val(), self.pa.to_val(), self.z.to_val()]) } }
pub static FL_FLATP3: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[Prop { f: 0, kind: PropKind::Flat(Part::Probe) }, Prop { f: 1, kind: PropKind::Named { name: "pa", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u8"))) } }, Prop { f: 2, kind: PropKind::Named { name: "z", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::P)) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_FLATP3: Shape = Shape::Struct("FlatP3", &FL_FLATP3);

#[derive(knuffel::Decode)]
pub struct FlatK { #[knuffel(child)] pub first: Option<OneArg>, #[knuffel(flatten(child))] pub fl: PartKids, #[knuffel(child)] pub ka: Option<Pn>, #[knuffel(argument)] pub a: Option<P> }
impl ToVal for FlatK { fn to_val(&self) -> Val { Val::St("FlatK", vec![self.first.to_val(), self.fl.to_val(), self.ka.to_val(), self.a.to_val()]) } }
pub static FL_FLATK: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 3, name: Some("a"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::P)) }], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "first", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Shape(&SH_ONEARG) }, Child { f: 1, name: "", kind: ChildKind::Flat(Part::Of("PartKids", &FL_PARTKIDS)), ty: NodeTy::None }, Child { f: 2, name: "ka", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Probe }], var_children: None, extra: &[] };
pub static SH_FLATK: Shape = Shape::Struct("FlatK", &FL_FLATK);

#[derive(knuffel::Decode)]
pub struct FlatK2 { #[knuffel(flatten(child))] pub fl: PartNestK, #[knuffel(flatten(child))] pub pp: Pp, #[knuffel(children)] pub rest: Vec<Pn> }
impl ToVal for FlatK2 { fn to_val(&self) -> Val { Val::St("FlatK2", vec![self.fl.to_val(), self.pp.to_val(), self.rest.to_val()]) } }
pub static FL_FLATK2: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "", kind: ChildKind::Flat(Part::Of("PartNestK", &FL_PARTNESTK)), ty: NodeTy::None }, Child { f: 1, name: "", kind: ChildKind::Flat(Part::Probe), ty: NodeTy::None }], var_children: Some((2, Coll::List, NodeTy::Probe)), extra: &[] };
pub static SH_FLATK2: Shape = Shape::Struct("FlatK2", &FL_FLATK2);

#[derive(knuffel::Decode)]
pub struct FlatK3 { #[knuffel(flatten(child))] pub pp: Arc<Pp>, #[knuffel(child)] pub pq: bool, #[knuffel(child)] pub z: OneArg }
impl ToVal for FlatK3 { fn to_val(&self) -> Val { Val::St("FlatK3", vec![self.pp.to_val(), self.pq.to_val(), self.z.to_val()]) } }
pub static FL_FLATK3: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "", kind: ChildKind::Flat(Part::Probe), ty: NodeTy::None }, Child { f: 1, name: "pq", kind: ChildKind::Bool, ty: NodeTy::None }, Child { f: 2, name: "z", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Shape(&SH_ONEARG) }], var_children: None, extra: &[] };
pub static SH_FLATK3: Shape = Shape::Struct("FlatK3", &FL_FLATK3);

#[derive(knuffel::Decode)]
pub struct FlatBoth { #[knuffel(flatten(property))] pub a: PartProps, #[knuffel(flatten(child))] pub b: PartKids }
impl ToVal for FlatBoth { fn to_val(&self) -> Val { Val::St("FlatBoth", vec![self.a.to_val(), self.b.to_val()]) } }
pub static FL_FLATBOTH: Fields = Fields { n: 2, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[Prop { f: 0, kind: PropKind::Flat(Part::Of("PartProps", &FL_PARTPROPS)) }], var_props: None, children: &[Child { f: 1, name: "", kind: ChildKind::Flat(Part::Of("PartKids", &FL_PARTKIDS)), ty: NodeTy::None }], var_children: None, extra: &[] };
pub static SH_FLATBOTH: Shape = Shape::Struct("FlatBoth", &FL_FLATBOTH);

#[derive(knuffel::Decode)]
pub struct Extra { #[knuffel(argument)] pub a: u8, pub cache: Option<u64>, #[knuffel(property)] pub b: Option<u8>, pub list: Vec<u8>, #[knuffel(child)] pub c: bool, pub n: i32 }
impl ToVal for Extra { fn to_val(&self) -> Val { Val::St("Extra", vec![self.a.to_val(), self.cache.to_val(), self.b.to_val(), self.list.to_val(), self.c.to_val(), self.n.to_val()]) } }
pub static FL_EXTRA: Fields = Fields { n: 6, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("a"), option: false, default: None, dm: Dm::Normal(&Sc::Int("u8")) }], var_args: None, props: &[Prop { f: 2, kind: PropKind::Named { name: "b", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u8"))) } }], var_props: None, children: &[Child { f: 4, name: "c", kind: ChildKind::Bool, ty: NodeTy::None }], var_children: None, extra: &[(1, || <Option<u64> as Default>::default().to_val()), (3, || <Vec<u8> as Default>::default().to_val()), (5, || <i32 as Default>::default().to_val())] };
pub static SH_EXTRA: Shape = Shape::Struct("Extra", &FL_EXTRA);

#[derive(knuffel::Decode)]
pub struct Tup1 ( #[knuffel(argument)] pub u8 );
impl ToVal for Tup1 { fn to_val(&self) -> Val { Val::St("Tup1", vec![self.0.to_val()]) } }
pub static FL_TUP1: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: None, option: false, default: None, dm: Dm::Normal(&Sc::Int("u8")) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_TUP1: Shape = Shape::Struct("Tup1", &FL_TUP1);

#[derive(knuffel::Decode)]
pub struct Tup3 ( #[knuffel(argument)] pub String, #[knuffel(property(name="p"))] pub Option<P>, #[knuffel(arguments)] pub Vec<i16> );
impl ToVal for Tup3 { fn to_val(&self) -> Val { Val::St("Tup3", vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) } }
pub static FL_TUP3: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: None, option: false, default: None, dm: Dm::Normal(&Sc::Text("String")) }], var_args: Some((2, Coll::List, Dm::Normal(&Sc::Int("i16")))), props: &[Prop { f: 1, kind: PropKind::Named { name: "p", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::P)) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_TUP3: Shape = Shape::Struct("Tup3", &FL_TUP3);

#[derive(knuffel::Decode)]
pub struct TupX ( #[knuffel(span)] pub Psp, #[knuffel(node_name)] pub Ps, pub u8, #[knuffel(argument)] pub Option<Mode>, #[knuffel(children)] pub Vec<Pn> );
impl ToVal for TupX { fn to_val(&self) -> Val { Val::St("TupX", vec![self.0.to_val(), self.1.to_val(), self.2.to_val(), self.3.to_val(), self.4.to_val()]) } }
pub static FL_TUPX: Fields = Fields { n: 5, spans: &[(0, true)], node_names: &[(1, StrTy::Ps)], type_names: &[], args: &[Arg { f: 3, name: None, option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Enum("Mode", &["fast", "slow-and-steady", "none"]))) }], var_args: None, props: &[], var_props: None, children: &[], var_children: Some((4, Coll::List, NodeTy::Probe)), extra: &[(2, || <u8 as Default>::default().to_val())] };
pub static SH_TUPX: Shape = Shape::Struct("TupX", &FL_TUPX);

pub static UW_32: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some(""), option: false, default: None, dm: Dm::Normal(&Sc::Text("String")) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct TupU ( #[knuffel(children, unwrap(argument))] pub Vec<String> );
impl ToVal for TupU { fn to_val(&self) -> Val { Val::St("TupU", vec![self.0.to_val()]) } }
pub static FL_TUPU: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[], var_children: Some((0, Coll::List, NodeTy::Unwrap(&UW_32))), extra: &[] };
pub static SH_TUPU: Shape = Shape::Struct("TupU", &FL_TUPU);

#[derive(knuffel::Decode)]
pub struct TupM ( #[knuffel(children(name="m"))] pub Vec<Pn>, pub u8, #[knuffel(children)] pub Vec<OneArg> );
impl ToVal for TupM { fn to_val(&self) -> Val { Val::St("TupM", vec![self.0.to_val(), self.1.to_val(), self.2.to_val()]) } }
pub static FL_TUPM: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "m", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Probe }], var_children: Some((2, Coll::List, NodeTy::Shape(&SH_ONEARG))), extra: &[(1, || <u8 as Default>::default().to_val())] };
pub static SH_TUPM: Shape = Shape::Struct("TupM", &FL_TUPM);

#[derive(knuffel::Decode)]
pub struct New1(pub Probes);
impl ToVal for New1 { fn to_val(&self) -> Val { Val::St("New1", vec![self.0.to_val()]) } }
pub static SH_NEW1: Shape = Shape::New("New1", NodeTy::Shape(&SH_PROBES));

#[derive(knuffel::Decode)]
pub struct NewOpt(pub Option<Ints>);
impl ToVal for NewOpt { fn to_val(&self) -> Val { Val::St("NewOpt", vec![self.0.to_val()]) } }
pub static SH_NEWOPT: Shape = Shape::NewOpt("NewOpt", NodeTy::Shape(&SH_INTS));

#[derive(knuffel::Decode)]
pub struct NewProbe(pub Pn);
impl ToVal for NewProbe { fn to_val(&self) -> Val { Val::St("NewProbe", vec![self.0.to_val()]) } }
pub static SH_NEWPROBE: Shape = Shape::New("NewProbe", NodeTy::Probe);

#[derive(knuffel::Decode)]

#[allow(dead_code)]
pub enum Simple { Start, StopNow }
impl ToVal for Simple { fn to_val(&self) -> Val { match self { Simple::Start => Val::St("Start", vec![]), Simple::StopNow => Val::St("StopNow", vec![]) } } }
pub static SH_SIMPLE: Shape = Shape::Enum("Simple", &[Variant { ident: "Start", name: "start", kind: VarKind::Unit }, Variant { ident: "StopNow", name: "stop-now", kind: VarKind::Unit }]);

pub static EV_33: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: None, option: false, default: None, dm: Dm::Normal(&Sc::Int("u8")) }], var_args: Some((2, Coll::List, Dm::Normal(&Sc::Text("String")))), props: &[Prop { f: 1, kind: PropKind::Named { name: "p", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::P)) } }], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]

#[allow(dead_code)]
pub enum Mixed { Plain, Full(Ints), Maybe(Option<Texts>), Boxed(Box<Kids>), Tup(#[knuffel(argument)] u8, #[knuffel(property(name="p"))] Option<P>, #[knuffel(arguments)] Vec<String>), #[knuffel(skip)] Hidden, PItem(Pn) }
impl ToVal for Mixed { fn to_val(&self) -> Val { match self { Mixed::Plain => Val::St("Plain", vec![]), Mixed::Full(a) => Val::St("Full", vec![a.to_val()]), Mixed::Maybe(a) => Val::St("Maybe", vec![a.to_val()]), Mixed::Boxed(a) => Val::St("Boxed", vec![a.to_val()]), Mixed::Tup(a0, a1, a2) => Val::St("Tup", vec![a0.to_val(), a1.to_val(), a2.to_val()]), Mixed::Hidden => Val::St("Hidden", vec![]), Mixed::PItem(a) => Val::St("PItem", vec![a.to_val()]) } } }
pub static SH_MIXED: Shape = Shape::Enum("Mixed", &[Variant { ident: "Plain", name: "plain", kind: VarKind::Unit }, Variant { ident: "Full", name: "full", kind: VarKind::Nested(NodeTy::Shape(&SH_INTS)) }, Variant { ident: "Maybe", name: "maybe", kind: VarKind::NestedOpt(NodeTy::Shape(&SH_TEXTS)) }, Variant { ident: "Boxed", name: "boxed", kind: VarKind::Nested(NodeTy::Shape(&SH_KIDS)) }, Variant { ident: "Tup", name: "tup", kind: VarKind::Tuple(&EV_33) }, Variant { ident: "PItem", name: "p-item", kind: VarKind::Nested(NodeTy::Probe) }]);

pub static EV_34: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[], var_children: Some((0, Coll::List, NodeTy::Probe)), extra: &[] };

#[derive(knuffel::Decode)]

#[allow(dead_code)]
pub enum Three { A(Option<Pn>), LongName(#[knuffel(children)] Vec<Pn>), C(New1) }
impl ToVal for Three { fn to_val(&self) -> Val { match self { Three::A(a) => Val::St("A", vec![a.to_val()]), Three::LongName(a0) => Val::St("LongName", vec![a0.to_val()]), Three::C(a) => Val::St("C", vec![a.to_val()]) } } }
pub static SH_THREE: Shape = Shape::Enum("Three", &[Variant { ident: "A", name: "a", kind: VarKind::NestedOpt(NodeTy::Probe) }, Variant { ident: "LongName", name: "long-name", kind: VarKind::Tuple(&EV_34) }, Variant { ident: "C", name: "c", kind: VarKind::Nested(NodeTy::Shape(&SH_NEW1)) }]);

pub static EV_35: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: Some((0, Coll::List, Dm::Normal(&Sc::P))), props: &[], var_props: Some((1, StrTy::Text, Dm::Normal(&Sc::Opt(&Sc::Int("u8"))))), children: &[], var_children: Some((2, Coll::List, NodeTy::Shape(&SH_SIMPLE))), extra: &[] };

#[derive(knuffel::Decode)]

#[allow(dead_code)]
pub enum One { Only(#[knuffel(arguments)] Vec<P>, #[knuffel(properties)] BTreeMap<String, Option<u8>>, #[knuffel(children)] Vec<Simple>) }
impl ToVal for One { fn to_val(&self) -> Val { match self { One::Only(a0, a1, a2) => Val::St("Only", vec![a0.to_val(), a1.to_val(), a2.to_val()]) } } }
pub static SH_ONE: Shape = Shape::Enum("One", &[Variant { ident: "Only", name: "only", kind: VarKind::Tuple(&EV_35) }]);

#[derive(knuffel::Decode)]
pub struct Tree { #[knuffel(argument)] pub v: Option<i64>, #[knuffel(children)] pub kids: Vec<Tree> }
impl ToVal for Tree { fn to_val(&self) -> Val { Val::St("Tree", vec![self.v.to_val(), self.kids.to_val()]) } }
pub static FL_TREE: Fields = Fields { n: 2, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("v"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("i64"))) }], var_args: None, props: &[], var_props: None, children: &[], var_children: Some((1, Coll::List, NodeTy::Shape(&SH_TREE))), extra: &[] };
pub static SH_TREE: Shape = Shape::Struct("Tree", &FL_TREE);

#[derive(knuffel::Decode)]
pub struct TreeBox { #[knuffel(property, str)] pub l: Option<Ps>, #[knuffel(child)] pub left: Option<Box<TreeBox>>, #[knuffel(child)] pub right: Option<Box<TreeBox>>, #[knuffel(children(name="plain"))] pub more: Vec<Mixed> }
impl ToVal for TreeBox { fn to_val(&self) -> Val { Val::St("TreeBox", vec![self.l.to_val(), self.left.to_val(), self.right.to_val(), self.more.to_val()]) } }
pub static FL_TREEBOX: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[Prop { f: 0, kind: PropKind::Named { name: "l", option: true, default: None, dm: Dm::Str(StrTy::Ps) } }], var_props: None, children: &[Child { f: 1, name: "left", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Shape(&SH_TREEBOX) }, Child { f: 2, name: "right", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Shape(&SH_TREEBOX) }, Child { f: 3, name: "plain", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Shape(&SH_MIXED) }], var_children: None, extra: &[] };
pub static SH_TREEBOX: Shape = Shape::Struct("TreeBox", &FL_TREEBOX);

pub static UW_36: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("version"), option: false, default: None, dm: Dm::Normal(&Sc::Int("u8")) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Doc1 { #[knuffel(child, unwrap(argument))] pub version: u8, #[knuffel(children(name="item"))] pub items: Vec<Ints>, #[knuffel(child)] pub strict: bool }
impl ToVal for Doc1 { fn to_val(&self) -> Val { Val::St("Doc1", vec![self.version.to_val(), self.items.to_val(), self.strict.to_val()]) } }
pub static FL_DOC1: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "version", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_36) }, Child { f: 1, name: "item", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Shape(&SH_INTS) }, Child { f: 2, name: "strict", kind: ChildKind::Bool, ty: NodeTy::None }], var_children: None, extra: &[] };
pub static SH_DOC1: Shape = Shape::Struct("Doc1", &FL_DOC1);

pub static UW_37: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("name"), option: false, default: None, dm: Dm::Normal(&Sc::Text("String")) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Doc2 { #[knuffel(child, unwrap(argument))] pub name: Option<String>, #[knuffel(children)] pub rest: Vec<Mixed> }
impl ToVal for Doc2 { fn to_val(&self) -> Val { Val::St("Doc2", vec![self.name.to_val(), self.rest.to_val()]) } }
pub static FL_DOC2: Fields = Fields { n: 2, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "name", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Unwrap(&UW_37) }], var_children: Some((1, Coll::List, NodeTy::Shape(&SH_MIXED))), extra: &[] };
pub static SH_DOC2: Shape = Shape::Struct("Doc2", &FL_DOC2);

#[derive(knuffel::Decode)]
pub struct Doc3 { #[knuffel(flatten(child))] pub fl: PartKids, #[knuffel(child)] pub must: OneArg, #[knuffel(children(name="x"))] pub x: Option<Vec<Pn>>, pub c: u8 }
impl ToVal for Doc3 { fn to_val(&self) -> Val { Val::St("Doc3", vec![self.fl.to_val(), self.must.to_val(), self.x.to_val(), self.c.to_val()]) } }
pub static FL_DOC3: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "", kind: ChildKind::Flat(Part::Of("PartKids", &FL_PARTKIDS)), ty: NodeTy::None }, Child { f: 1, name: "must", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Shape(&SH_ONEARG) }, Child { f: 2, name: "x", kind: ChildKind::Multi { option: true, default: None, coll: Coll::List }, ty: NodeTy::Probe }], var_children: None, extra: &[(3, || <u8 as Default>::default().to_val())] };
pub static SH_DOC3: Shape = Shape::Struct("Doc3", &FL_DOC3);

pub static UW_38: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("c"), option: false, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u8"))) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Doc4 { #[knuffel(child)] pub a: Option<Pn>, #[knuffel(child)] pub b: Pn, #[knuffel(child, unwrap(argument), default=Some(8))] pub c: Option<u8>, #[knuffel(children)] pub ks: Vec<Probes> }
impl ToVal for Doc4 { fn to_val(&self) -> Val { Val::St("Doc4", vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.ks.to_val()]) } }
pub static FL_DOC4: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "a", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Probe }, Child { f: 1, name: "b", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Probe }, Child { f: 2, name: "c", kind: ChildKind::Normal { option: true, default: Some(|| { let x: Option<u8> = Some(8); x.to_val() }) }, ty: NodeTy::Unwrap(&UW_38) }], var_children: Some((3, Coll::List, NodeTy::Shape(&SH_PROBES))), extra: &[] };
pub static SH_DOC4: Shape = Shape::Struct("Doc4", &FL_DOC4);

#[derive(knuffel::Decode)]
pub struct Doc5 { #[knuffel(children)] pub all: Vec<Three> }
impl ToVal for Doc5 { fn to_val(&self) -> Val { Val::St("Doc5", vec![self.all.to_val()]) } }
pub static FL_DOC5: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[], var_children: Some((0, Coll::List, NodeTy::Shape(&SH_THREE))), extra: &[] };
pub static SH_DOC5: Shape = Shape::Struct("Doc5", &FL_DOC5);

#[derive(knuffel::Decode)]
pub struct Doc6 { #[knuffel(child)] pub server: Kids, #[knuffel(child)] pub client: Option<UnwrapArg>, #[knuffel(children(name="user"))] pub user: Vec<Probes2>, #[knuffel(flatten(child))] pub p: Pp }
impl ToVal for Doc6 { fn to_val(&self) -> Val { Val::St("Doc6", vec![self.server.to_val(), self.client.to_val(), self.user.to_val(), self.p.to_val()]) } }
pub static FL_DOC6: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "server", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Shape(&SH_KIDS) }, Child { f: 1, name: "client", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Shape(&SH_UNWRAPARG) }, Child { f: 2, name: "user", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Shape(&SH_PROBES2) }, Child { f: 3, name: "", kind: ChildKind::Flat(Part::Probe), ty: NodeTy::None }], var_children: None, extra: &[] };
pub static SH_DOC6: Shape = Shape::Struct("Doc6", &FL_DOC6);

pub static UW_39: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("nums"), option: false, default: None, dm: Dm::Normal(&Sc::Int("u8")) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct OptLists { #[knuffel(children(name="item"))] pub items: Option<Vec<OneArg>>, #[knuffel(children(name="num"), unwrap(argument))] pub nums: Option<VecDeque<u8>>, #[knuffel(property)] pub p: Option<P>, #[knuffel(child)] pub flag: bool }
impl ToVal for OptLists { fn to_val(&self) -> Val { Val::St("OptLists", vec![self.items.to_val(), self.nums.to_val(), self.p.to_val(), self.flag.to_val()]) } }
pub static FL_OPTLISTS: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[Prop { f: 2, kind: PropKind::Named { name: "p", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::P)) } }], var_props: None, children: &[Child { f: 0, name: "item", kind: ChildKind::Multi { option: true, default: None, coll: Coll::List }, ty: NodeTy::Shape(&SH_ONEARG) }, Child { f: 1, name: "num", kind: ChildKind::Multi { option: true, default: None, coll: Coll::List }, ty: NodeTy::Unwrap(&UW_39) }, Child { f: 3, name: "flag", kind: ChildKind::Bool, ty: NodeTy::None }], var_children: None, extra: &[] };
pub static SH_OPTLISTS: Shape = Shape::Struct("OptLists", &FL_OPTLISTS);

#[derive(knuffel::Decode)]
pub struct Big { #[knuffel(argument)] pub a0: u8, #[knuffel(argument)] pub a1: String, #[knuffel(argument)] pub a2: bool, #[knuffel(argument)] pub a3: P, #[knuffel(argument)] pub a4: i64, #[knuffel(argument)] pub a5: Mode, #[knuffel(argument)] pub a6: f64, #[knuffel(argument)] pub a7: Option<u16>, #[knuffel(argument)] pub a8: Option<P>, #[knuffel(argument)] pub a9: Option<String>, #[knuffel(property)] pub p0: u8, #[knuffel(property)] pub p1: Option<String>, #[knuffel(property)] pub p2: P, #[knuffel(property)] pub p3: Option<i8>, #[knuffel(property)] pub p4: Option<P>, #[knuffel(property)] pub p5: bool, #[knuffel(property)] pub p6: Option<Mode>, #[knuffel(property)] pub p7: Option<u32>, #[knuffel(property)] pub p8: Option<f32>, #[knuffel(property)] pub p9: Option<P>, #[knuffel(child)] pub c0: bool, #[knuffel(child)] pub c1: Option<OneArg>, #[knuffel(child)] pub c2: Pn, #[knuffel(child)] pub c3: bool, #[knuffel(child)] pub c4: Option<Pn>, #[knuffel(child)] pub c5: Flags, #[knuffel(child)] pub c6: bool, #[knuffel(child)] pub c7: Option<Texts>, #[knuffel(child)] pub c8: bool, #[knuffel(child)] pub c9: Option<Pn>, #[knuffel(children(name="l"))] pub ls: Vec<Pn>, #[knuffel(children)] pub rest: Vec<Mixed> }
impl ToVal for Big { fn to_val(&self) -> Val { Val::St("Big", vec![self.a0.to_val(), self.a1.to_val(), self.a2.to_val(), self.a3.to_val(), self.a4.to_val(), self.a5.to_val(), self.a6.to_val(), self.a7.to_val(), self.a8.to_val(), self.a9.to_val(), self.p0.to_val(), self.p1.to_val(), self.p2.to_val(), self.p3.to_val(), self.p4.to_val(), self.p5.to_val(), self.p6.to_val(), self.p7.to_val(), self.p8.to_val(), self.p9.to_val(), self.c0.to_val(), self.c1.to_val(), self.c2.to_val(), self.c3.to_val(), self.c4.to_val(), self.c5.to_val(), self.c6.to_val(), self.c7.to_val(), self.c8.to_val(), self.c9.to_val(), self.ls.to_val(), self.rest.to_val()]) } }
pub static FL_BIG: Fields = Fields { n: 32, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("a0"), option: false, default: None, dm: Dm::Normal(&Sc::Int("u8")) }, Arg { f: 1, name: Some("a1"), option: false, default: None, dm: Dm::Normal(&Sc::Text("String")) }, Arg { f: 2, name: Some("a2"), option: false, default: None, dm: Dm::Normal(&Sc::Bool) }, Arg { f: 3, name: Some("a3"), option: false, default: None, dm: Dm::Normal(&Sc::P) }, Arg { f: 4, name: Some("a4"), option: false, default: None, dm: Dm::Normal(&Sc::Int("i64")) }, Arg { f: 5, name: Some("a5"), option: false, default: None, dm: Dm::Normal(&Sc::Enum("Mode", &["fast", "slow-and-steady", "none"])) }, Arg { f: 6, name: Some("a6"), option: false, default: None, dm: Dm::Normal(&Sc::F64) }, Arg { f: 7, name: Some("a7"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u16"))) }, Arg { f: 8, name: Some("a8"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::P)) }, Arg { f: 9, name: Some("a9"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Text("String"))) }], var_args: None, props: &[Prop { f: 10, kind: PropKind::Named { name: "p0", option: false, default: None, dm: Dm::Normal(&Sc::Int("u8")) } }, Prop { f: 11, kind: PropKind::Named { name: "p1", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Text("String"))) } }, Prop { f: 12, kind: PropKind::Named { name: "p2", option: false, default: None, dm: Dm::Normal(&Sc::P) } }, Prop { f: 13, kind: PropKind::Named { name: "p3", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("i8"))) } }, Prop { f: 14, kind: PropKind::Named { name: "p4", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::P)) } }, Prop { f: 15, kind: PropKind::Named { name: "p5", option: false, default: None, dm: Dm::Normal(&Sc::Bool) } }, Prop { f: 16, kind: PropKind::Named { name: "p6", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Enum("Mode", &["fast", "slow-and-steady", "none"]))) } }, Prop { f: 17, kind: PropKind::Named { name: "p7", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u32"))) } }, Prop { f: 18, kind: PropKind::Named { name: "p8", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::F32)) } }, Prop { f: 19, kind: PropKind::Named { name: "p9", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::P)) } }], var_props: None, children: &[Child { f: 20, name: "c0", kind: ChildKind::Bool, ty: NodeTy::None }, Child { f: 21, name: "c1", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Shape(&SH_ONEARG) }, Child { f: 22, name: "c2", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Probe }, Child { f: 23, name: "c3", kind: ChildKind::Bool, ty: NodeTy::None }, Child { f: 24, name: "c4", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Probe }, Child { f: 25, name: "c5", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Shape(&SH_FLAGS) }, Child { f: 26, name: "c6", kind: ChildKind::Bool, ty: NodeTy::None }, Child { f: 27, name: "c7", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Shape(&SH_TEXTS) }, Child { f: 28, name: "c8", kind: ChildKind::Bool, ty: NodeTy::None }, Child { f: 29, name: "c9", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Probe }, Child { f: 30, name: "l", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Probe }], var_children: Some((31, Coll::List, NodeTy::Shape(&SH_MIXED))), extra: &[] };
pub static SH_BIG: Shape = Shape::Struct("Big", &FL_BIG);

pub static EV_40: Fields = Fields { n: 2, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: None, option: false, default: None, dm: Dm::Normal(&Sc::P) }], var_args: None, props: &[], var_props: None, children: &[], var_children: Some((1, Coll::List, NodeTy::Probe)), extra: &[] };

#[derive(knuffel::Decode)]

#[allow(dead_code)]
pub enum Dozen { January, FebruaryTwo(OneArg), Mar, Apr(Option<Ints>), MayMay(Pn), Jun, July7(Flags), AUG(Option<Pn>), SepT, O(Texts), NovEmber(#[knuffel(argument)] P, #[knuffel(children)] Vec<Pn>), Dec12(New1) }
impl ToVal for Dozen { fn to_val(&self) -> Val { match self { Dozen::January => Val::St("January", vec![]), Dozen::FebruaryTwo(a) => Val::St("FebruaryTwo", vec![a.to_val()]), Dozen::Mar => Val::St("Mar", vec![]), Dozen::Apr(a) => Val::St("Apr", vec![a.to_val()]), Dozen::MayMay(a) => Val::St("MayMay", vec![a.to_val()]), Dozen::Jun => Val::St("Jun", vec![]), Dozen::July7(a) => Val::St("July7", vec![a.to_val()]), Dozen::AUG(a) => Val::St("AUG", vec![a.to_val()]), Dozen::SepT => Val::St("SepT", vec![]), Dozen::O(a) => Val::St("O", vec![a.to_val()]), Dozen::NovEmber(a0, a1) => Val::St("NovEmber", vec![a0.to_val(), a1.to_val()]), Dozen::Dec12(a) => Val::St("Dec12", vec![a.to_val()]) } } }
pub static SH_DOZEN: Shape = Shape::Enum("Dozen", &[Variant { ident: "January", name: "january", kind: VarKind::Unit }, Variant { ident: "FebruaryTwo", name: "february-two", kind: VarKind::Nested(NodeTy::Shape(&SH_ONEARG)) }, Variant { ident: "Mar", name: "mar", kind: VarKind::Unit }, Variant { ident: "Apr", name: "apr", kind: VarKind::NestedOpt(NodeTy::Shape(&SH_INTS)) }, Variant { ident: "MayMay", name: "may-may", kind: VarKind::Nested(NodeTy::Probe) }, Variant { ident: "Jun", name: "jun", kind: VarKind::Unit }, Variant { ident: "July7", name: "july7", kind: VarKind::Nested(NodeTy::Shape(&SH_FLAGS)) }, Variant { ident: "AUG", name: "aug", kind: VarKind::NestedOpt(NodeTy::Probe) }, Variant { ident: "SepT", name: "sep-t", kind: VarKind::Unit }, Variant { ident: "O", name: "o", kind: VarKind::Nested(NodeTy::Shape(&SH_TEXTS)) }, Variant { ident: "NovEmber", name: "nov-ember", kind: VarKind::Tuple(&EV_40) }, Variant { ident: "Dec12", name: "dec12", kind: VarKind::Nested(NodeTy::Shape(&SH_NEW1)) }]);

#[derive(knuffel::Decode)]
pub struct RawWrap { #[knuffel(argument)] pub a: Raw<Option<u8>>, #[knuffel(argument)] pub b: Option<Raw<Box<P>>>, #[knuffel(property)] pub c: Raw<Arc<Option<Mode>>>, #[knuffel(property)] pub d: Option<Raw<Rc<String>>>, #[knuffel(property)] pub e: Option<Raw<Box<Option<P>>>>, #[knuffel(arguments)] pub r: Vec<Raw<Rc<Option<Arc<i16>>>>> }
impl ToVal for RawWrap { fn to_val(&self) -> Val { Val::St("RawWrap", vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val(), self.r.to_val()]) } }
pub static FL_RAWWRAP: Fields = Fields { n: 6, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("a"), option: false, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u8"))) }, Arg { f: 1, name: Some("b"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::P)) }], var_args: Some((5, Coll::List, Dm::Normal(&Sc::Opt(&Sc::Int("i16"))))), props: &[Prop { f: 2, kind: PropKind::Named { name: "c", option: false, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Enum("Mode", &["fast", "slow-and-steady", "none"]))) } }, Prop { f: 3, kind: PropKind::Named { name: "d", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Text("String"))) } }, Prop { f: 4, kind: PropKind::Named { name: "e", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Opt(&Sc::P))) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_RAWWRAP: Shape = Shape::Struct("RawWrap", &FL_RAWWRAP);

#[derive(knuffel::Decode)]
#[knuffel(span_type=Span)]
pub struct Needs { #[knuffel(argument)] pub a: Req, #[knuffel(argument)] pub b: Option<Raw<Box<Req>>>, #[knuffel(property)] pub c: Raw<Rc<Req>>, #[knuffel(property)] pub d: Option<Arc<Req>>, #[knuffel(property)] pub e: Option<Raw<Arc<Option<Req>>>>, #[knuffel(property)] pub f: Option<Spanned<Req, Span>>, #[knuffel(arguments)] pub r: Vec<Raw<Spanned<Box<Req>, Psp>>> }
impl ToVal for Needs { fn to_val(&self) -> Val { Val::St("Needs", vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val(), self.f.to_val(), self.r.to_val()]) } }
pub static FL_NEEDS: Fields = Fields { n: 7, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("a"), option: false, default: None, dm: Dm::Normal(&Sc::Req) }, Arg { f: 1, name: Some("b"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Req)) }], var_args: Some((6, Coll::List, Dm::Normal(&Sc::Spanned(&Sc::Req, true)))), props: &[Prop { f: 2, kind: PropKind::Named { name: "c", option: false, default: None, dm: Dm::Normal(&Sc::Req) } }, Prop { f: 3, kind: PropKind::Named { name: "d", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Req)) } }, Prop { f: 4, kind: PropKind::Named { name: "e", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Opt(&Sc::Req))) } }, Prop { f: 5, kind: PropKind::Named { name: "f", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Spanned(&Sc::Req, false))) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_NEEDS: Shape = Shape::Struct("Needs", &FL_NEEDS);

#[derive(knuffel::Decode)]
#[knuffel(span_type=Span)]
pub struct ValWrap { #[knuffel(argument)] pub a: Box<Value<Span>>, #[knuffel(argument)] pub b: Option<Rc<Value<Span>>>, #[knuffel(property)] pub c: Option<Arc<Value<Span>>>, #[knuffel(property)] pub d: Option<Box<Literal>>, #[knuffel(property)] pub e: Option<Rc<Option<Value<Span>>>>, #[knuffel(property)] pub f: Option<Arc<Spanned<Literal, Span>>>, #[knuffel(arguments)] pub r: Vec<Rc<Spanned<Arc<Value<Span>>, Span>>> }
impl ToVal for ValWrap { fn to_val(&self) -> Val { Val::St("ValWrap", vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val(), self.f.to_val(), self.r.to_val()]) } }
pub static FL_VALWRAP: Fields = Fields { n: 7, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("a"), option: false, default: None, dm: Dm::Normal(&Sc::Value) }, Arg { f: 1, name: Some("b"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Value)) }], var_args: Some((6, Coll::List, Dm::Normal(&Sc::Spanned(&Sc::Value, false)))), props: &[Prop { f: 2, kind: PropKind::Named { name: "c", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Value)) } }, Prop { f: 3, kind: PropKind::Named { name: "d", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Literal)) } }, Prop { f: 4, kind: PropKind::Named { name: "e", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Opt(&Sc::Value))) } }, Prop { f: 5, kind: PropKind::Named { name: "f", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Spanned(&Sc::Literal, false))) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_VALWRAP: Shape = Shape::Struct("ValWrap", &FL_VALWRAP);

#[derive(knuffel::Decode)]
#[knuffel(span_type=Span)]
pub struct RawSpan { #[knuffel(argument)] pub a: Raw<Spanned<Option<i16>, Psp>>, #[knuffel(argument)] pub b: Option<Raw<Option<Spanned<P, Span>>>>, #[knuffel(property)] pub c: Option<Raw<Literal>>, #[knuffel(property)] pub d: Option<Box<Spanned<Mode, Span>>>, #[knuffel(property)] pub e: Option<Raw<Arc<str>>>, #[knuffel(property)] pub f: Option<Raw<Arc<Path>>>, #[knuffel(arguments)] pub r: Vec<Raw<Arc<Spanned<Box<f64>, Psp>>>> }
impl ToVal for RawSpan { fn to_val(&self) -> Val { Val::St("RawSpan", vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val(), self.f.to_val(), self.r.to_val()]) } }
pub static FL_RAWSPAN: Fields = Fields { n: 7, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("a"), option: false, default: None, dm: Dm::Normal(&Sc::Spanned(&Sc::Opt(&Sc::Int("i16")), true)) }, Arg { f: 1, name: Some("b"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Opt(&Sc::Spanned(&Sc::P, false)))) }], var_args: Some((6, Coll::List, Dm::Normal(&Sc::Spanned(&Sc::F64, true)))), props: &[Prop { f: 2, kind: PropKind::Named { name: "c", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Literal)) } }, Prop { f: 3, kind: PropKind::Named { name: "d", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Spanned(&Sc::Enum("Mode", &["fast", "slow-and-steady", "none"]), false))) } }, Prop { f: 4, kind: PropKind::Named { name: "e", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Text("Arc<str>"))) } }, Prop { f: 5, kind: PropKind::Named { name: "f", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Text("Arc<Path>"))) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_RAWSPAN: Shape = Shape::Struct("RawSpan", &FL_RAWSPAN);

#[derive(knuffel::Decode)]
pub struct OptNest { #[knuffel(argument)] pub a: Box<Option<u8>>, #[knuffel(argument)] pub b: Option<Box<Option<P>>>, #[knuffel(property)] pub c: Arc<Option<String>>, #[knuffel(property, default)] pub d: Option<Arc<Option<bool>>>, #[knuffel(properties)] pub p: BTreeMap<String, Rc<Option<i8>>> }
impl ToVal for OptNest { fn to_val(&self) -> Val { Val::St("OptNest", vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.p.to_val()]) } }
pub static FL_OPTNEST: Fields = Fields { n: 5, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("a"), option: false, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u8"))) }, Arg { f: 1, name: Some("b"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Opt(&Sc::P))) }], var_args: None, props: &[Prop { f: 2, kind: PropKind::Named { name: "c", option: false, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Text("String"))) } }, Prop { f: 3, kind: PropKind::Named { name: "d", option: true, default: Some(|| { let x: Option<Arc<Option<bool>>> = Default::default(); x.to_val() }), dm: Dm::Normal(&Sc::Opt(&Sc::Opt(&Sc::Bool))) } }], var_props: Some((4, StrTy::Text, Dm::Normal(&Sc::Opt(&Sc::Int("i8"))))), children: &[], var_children: None, extra: &[] };
pub static SH_OPTNEST: Shape = Shape::Struct("OptNest", &FL_OPTNEST);

#[derive(knuffel::Decode)]
pub struct Rnd0 { #[knuffel(span)] pub delta: Psp, #[knuffel(property, str)] pub p_l: u16, #[knuffel(argument, bytes)] pub beta: Option<Pb>, #[knuffel(argument)] pub theta: Option<i32>, #[knuffel(argument)] pub epsilon_x: usize, #[knuffel(type_name)] pub p_k: Option<Ps> }
impl ToVal for Rnd0 { fn to_val(&self) -> Val { Val::St("Rnd0", vec![self.delta.to_val(), self.p_l.to_val(), self.beta.to_val(), self.theta.to_val(), self.epsilon_x.to_val(), self.p_k.to_val()]) } }
pub static FL_RND0: Fields = Fields { n: 6, spans: &[(0, true)], node_names: &[], type_names: &[(5, StrTy::Ps, true)], args: &[Arg { f: 2, name: Some("beta"), option: true, default: None, dm: Dm::Bytes(ByTy::Pb) }, Arg { f: 3, name: Some("theta"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("i32"))) }, Arg { f: 4, name: Some("epsilon_x"), option: false, default: None, dm: Dm::Normal(&Sc::Int("usize")) }], var_args: None, props: &[Prop { f: 1, kind: PropKind::Named { name: "p-l", option: false, default: None, dm: Dm::Str(StrTy::U16) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_RND0: Shape = Shape::Struct("Rnd0", &FL_RND0);

pub static UW_41: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("delta"), option: false, default: None, dm: Dm::Str(StrTy::Text) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Rnd1 { #[knuffel(flatten(property))] pub eta: Pp, #[knuffel(children(name="delta"), unwrap(argument, str))] pub delta: Vec<String>, #[knuffel(node_name)] pub theta: Ps, #[knuffel(argument, bytes)] pub p_k: Option<Pb>, #[knuffel(argument, str)] pub alpha: Option<u16>, #[knuffel(argument, str)] pub beta: String, #[knuffel(arguments)] pub mu: VecDeque<u8> }
impl ToVal for Rnd1 { fn to_val(&self) -> Val { Val::St("Rnd1", vec![self.eta.to_val(), self.delta.to_val(), self.theta.to_val(), self.p_k.to_val(), self.alpha.to_val(), self.beta.to_val(), self.mu.to_val()]) } }
pub static FL_RND1: Fields = Fields { n: 7, spans: &[], node_names: &[(2, StrTy::Ps)], type_names: &[], args: &[Arg { f: 3, name: Some("p_k"), option: true, default: None, dm: Dm::Bytes(ByTy::Pb) }, Arg { f: 4, name: Some("alpha"), option: true, default: None, dm: Dm::Str(StrTy::U16) }, Arg { f: 5, name: Some("beta"), option: false, default: None, dm: Dm::Str(StrTy::Text) }], var_args: Some((6, Coll::List, Dm::Normal(&Sc::Int("u8")))), props: &[Prop { f: 0, kind: PropKind::Flat(Part::Probe) }], var_props: None, children: &[Child { f: 1, name: "delta", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Unwrap(&UW_41) }], var_children: None, extra: &[] };
pub static SH_RND1: Shape = Shape::Struct("Rnd1", &FL_RND1);

#[derive(knuffel::Decode)]
pub struct Rnd2 { #[knuffel(child)] pub p_l: Option<Tup1>, #[knuffel(type_name)] pub delta: Ps, #[knuffel(property)] pub eta: Option<u8>, #[knuffel(property(name="x y"), str)] pub mu: Option<Ps>, #[knuffel(argument, default=Mode::None)] pub gamma: Mode, #[knuffel(children)] pub p_k: Vec<OneArg> }
impl ToVal for Rnd2 { fn to_val(&self) -> Val { Val::St("Rnd2", vec![self.p_l.to_val(), self.delta.to_val(), self.eta.to_val(), self.mu.to_val(), self.gamma.to_val(), self.p_k.to_val()]) } }
pub static FL_RND2: Fields = Fields { n: 6, spans: &[], node_names: &[], type_names: &[(1, StrTy::Ps, false)], args: &[Arg { f: 4, name: Some("gamma"), option: false, default: Some(|| { let x: Mode = Mode::None; x.to_val() }), dm: Dm::Normal(&Sc::Enum("Mode", &["fast", "slow-and-steady", "none"])) }], var_args: None, props: &[Prop { f: 2, kind: PropKind::Named { name: "eta", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u8"))) } }, Prop { f: 3, kind: PropKind::Named { name: "x y", option: true, default: None, dm: Dm::Str(StrTy::Ps) } }], var_props: None, children: &[Child { f: 0, name: "p-l", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Shape(&SH_TUP1) }], var_children: Some((5, Coll::List, NodeTy::Shape(&SH_ONEARG))), extra: &[] };
pub static SH_RND2: Shape = Shape::Struct("Rnd2", &FL_RND2);

#[derive(knuffel::Decode)]
pub struct Rnd3 { #[knuffel(span)] pub beta: Psp, #[knuffel(child)] pub delta: bool, #[knuffel(type_name)] pub mu: Ps, pub epsilon_x: Option<u8> }
impl ToVal for Rnd3 { fn to_val(&self) -> Val { Val::St("Rnd3", vec![self.beta.to_val(), self.delta.to_val(), self.mu.to_val(), self.epsilon_x.to_val()]) } }
pub static FL_RND3: Fields = Fields { n: 4, spans: &[(0, true)], node_names: &[], type_names: &[(2, StrTy::Ps, false)], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 1, name: "delta", kind: ChildKind::Bool, ty: NodeTy::None }], var_children: None, extra: &[(3, || <Option<u8> as Default>::default().to_val())] };
pub static SH_RND3: Shape = Shape::Struct("Rnd3", &FL_RND3);

#[derive(knuffel::Decode)]
pub struct Rnd4 { #[knuffel(child)] pub alpha: Option<Tup1>, #[knuffel(child)] pub zeta: bool }
impl ToVal for Rnd4 { fn to_val(&self) -> Val { Val::St("Rnd4", vec![self.alpha.to_val(), self.zeta.to_val()]) } }
pub static FL_RND4: Fields = Fields { n: 2, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "alpha", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Shape(&SH_TUP1) }, Child { f: 1, name: "zeta", kind: ChildKind::Bool, ty: NodeTy::None }], var_children: None, extra: &[] };
pub static SH_RND4: Shape = Shape::Struct("Rnd4", &FL_RND4);

pub static UW_43: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("delta"), option: false, default: None, dm: Dm::Bytes(ByTy::Vec) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

pub static UW_42: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "delta", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_43) }], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Rnd5 { #[knuffel(span)] pub p_k: Psp, #[knuffel(property, default=Some(Wide::X1))] pub gamma: Option<Wide>, #[knuffel(property)] pub alpha: bool, #[knuffel(properties, str)] pub theta: BTreeMap<Ps, u16>, #[knuffel(children(name="delta"), unwrap(child, unwrap(argument, bytes)))] pub delta: Vec<Vec<u8>>, #[knuffel(type_name)] pub p_l: Option<Ps>, #[knuffel(argument, default)] pub mu: Option<bool>, #[knuffel(argument)] pub beta: Rc<P>, #[knuffel(argument, str)] pub iota: Option<u16>, #[knuffel(arguments)] pub epsilon_x: Vec<String> }
impl ToVal for Rnd5 { fn to_val(&self) -> Val { Val::St("Rnd5", vec![self.p_k.to_val(), self.gamma.to_val(), self.alpha.to_val(), self.theta.to_val(), self.delta.to_val(), self.p_l.to_val(), self.mu.to_val(), self.beta.to_val(), self.iota.to_val(), self.epsilon_x.to_val()]) } }
pub static FL_RND5: Fields = Fields { n: 10, spans: &[(0, true)], node_names: &[], type_names: &[(5, StrTy::Ps, true)], args: &[Arg { f: 6, name: Some("mu"), option: true, default: Some(|| { let x: Option<bool> = Default::default(); x.to_val() }), dm: Dm::Normal(&Sc::Opt(&Sc::Bool)) }, Arg { f: 7, name: Some("beta"), option: false, default: None, dm: Dm::Normal(&Sc::P) }, Arg { f: 8, name: Some("iota"), option: true, default: None, dm: Dm::Str(StrTy::U16) }], var_args: Some((9, Coll::List, Dm::Normal(&Sc::Text("String")))), props: &[Prop { f: 1, kind: PropKind::Named { name: "gamma", option: true, default: Some(|| { let x: Option<Wide> = Some(Wide::X1); x.to_val() }), dm: Dm::Normal(&Sc::Opt(&Sc::Enum("Wide", &["a", "b", "http-server", "x1", "d"]))) } }, Prop { f: 2, kind: PropKind::Named { name: "alpha", option: false, default: None, dm: Dm::Normal(&Sc::Bool) } }], var_props: Some((3, StrTy::Ps, Dm::Str(StrTy::U16))), children: &[Child { f: 4, name: "delta", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Unwrap(&UW_42) }], var_children: None, extra: &[] };
pub static SH_RND5: Shape = Shape::Struct("Rnd5", &FL_RND5);

#[derive(knuffel::Decode)]
pub struct Rnd6 { #[knuffel(flatten(property))] pub mu: PartNest, #[knuffel(child)] pub p_k: Option<StrMode>, #[knuffel(node_name)] pub zeta: String, pub gamma: Option<u8>, #[knuffel(argument, str)] pub eta: Ps, #[knuffel(property, bytes)] pub iota: Vec<u8> }
impl ToVal for Rnd6 { fn to_val(&self) -> Val { Val::St("Rnd6", vec![self.mu.to_val(), self.p_k.to_val(), self.zeta.to_val(), self.gamma.to_val(), self.eta.to_val(), self.iota.to_val()]) } }
pub static FL_RND6: Fields = Fields { n: 6, spans: &[], node_names: &[(2, StrTy::Text)], type_names: &[], args: &[Arg { f: 4, name: Some("eta"), option: false, default: None, dm: Dm::Str(StrTy::Ps) }], var_args: None, props: &[Prop { f: 0, kind: PropKind::Flat(Part::Of("PartNest", &FL_PARTNEST)) }, Prop { f: 5, kind: PropKind::Named { name: "iota", option: false, default: None, dm: Dm::Bytes(ByTy::Vec) } }], var_props: None, children: &[Child { f: 1, name: "p-k", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Shape(&SH_STRMODE) }], var_children: None, extra: &[(3, || <Option<u8> as Default>::default().to_val())] };
pub static SH_RND6: Shape = Shape::Struct("Rnd6", &FL_RND6);

#[derive(knuffel::Decode)]
pub struct Rnd7 { #[knuffel(type_name)] pub alpha: Option<String>, #[knuffel(property(name="x y"), bytes)] pub zeta: Pb, #[knuffel(properties)] pub mu: BTreeMap<Ps, Mode>, #[knuffel(argument)] pub gamma: Option<u32> }
impl ToVal for Rnd7 { fn to_val(&self) -> Val { Val::St("Rnd7", vec![self.alpha.to_val(), self.zeta.to_val(), self.mu.to_val(), self.gamma.to_val()]) } }
pub static FL_RND7: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[(0, StrTy::Text, true)], args: &[Arg { f: 3, name: Some("gamma"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u32"))) }], var_args: None, props: &[Prop { f: 1, kind: PropKind::Named { name: "x y", option: false, default: None, dm: Dm::Bytes(ByTy::Pb) } }], var_props: Some((2, StrTy::Ps, Dm::Normal(&Sc::Enum("Mode", &["fast", "slow-and-steady", "none"])))), children: &[], var_children: None, extra: &[] };
pub static SH_RND7: Shape = Shape::Struct("Rnd7", &FL_RND7);

#[derive(knuffel::Decode)]
pub struct Rnd8 { #[knuffel(type_name)] pub iota: Option<String>, pub zeta: Option<u8>, #[knuffel(argument, str)] pub delta: Option<Ps>, #[knuffel(argument)] pub mu: Option<i32>, #[knuffel(argument, bytes)] pub beta: Pb }
impl ToVal for Rnd8 { fn to_val(&self) -> Val { Val::St("Rnd8", vec![self.iota.to_val(), self.zeta.to_val(), self.delta.to_val(), self.mu.to_val(), self.beta.to_val()]) } }
pub static FL_RND8: Fields = Fields { n: 5, spans: &[], node_names: &[], type_names: &[(0, StrTy::Text, true)], args: &[Arg { f: 2, name: Some("delta"), option: true, default: None, dm: Dm::Str(StrTy::Ps) }, Arg { f: 3, name: Some("mu"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("i32"))) }, Arg { f: 4, name: Some("beta"), option: false, default: None, dm: Dm::Bytes(ByTy::Pb) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[(1, || <Option<u8> as Default>::default().to_val())] };
pub static SH_RND8: Shape = Shape::Struct("Rnd8", &FL_RND8);

pub static UW_44: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[Prop { f: 0, kind: PropKind::Named { name: "k", option: false, default: None, dm: Dm::Normal(&Sc::Int("u32")) } }], var_props: None, children: &[], var_children: None, extra: &[] };

pub static UW_45: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("gamma"), option: false, default: None, dm: Dm::Normal(&Sc::P) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Rnd9 { #[knuffel(child, unwrap(property(name="k")))] pub zeta: u32, #[knuffel(child)] pub p_k: Option<Flags>, #[knuffel(child, unwrap(argument))] pub gamma: P, #[knuffel(children)] pub eta: Vec<Flags> }
impl ToVal for Rnd9 { fn to_val(&self) -> Val { Val::St("Rnd9", vec![self.zeta.to_val(), self.p_k.to_val(), self.gamma.to_val(), self.eta.to_val()]) } }
pub static FL_RND9: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "zeta", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_44) }, Child { f: 1, name: "p-k", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Shape(&SH_FLAGS) }, Child { f: 2, name: "gamma", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_45) }], var_children: Some((3, Coll::List, NodeTy::Shape(&SH_FLAGS))), extra: &[] };
pub static SH_RND9: Shape = Shape::Struct("Rnd9", &FL_RND9);

#[derive(knuffel::Decode)]
pub struct Rnd10 { #[knuffel(node_name)] pub gamma: String, #[knuffel(argument)] pub beta: Option<u16>, #[knuffel(property, bytes)] pub zeta: Vec<u8>, #[knuffel(type_name)] pub delta: Ps, #[knuffel(argument, bytes)] pub mu: Option<Vec<u8>>, pub theta: Option<u8> }
impl ToVal for Rnd10 { fn to_val(&self) -> Val { Val::St("Rnd10", vec![self.gamma.to_val(), self.beta.to_val(), self.zeta.to_val(), self.delta.to_val(), self.mu.to_val(), self.theta.to_val()]) } }
pub static FL_RND10: Fields = Fields { n: 6, spans: &[], node_names: &[(0, StrTy::Text)], type_names: &[(3, StrTy::Ps, false)], args: &[Arg { f: 1, name: Some("beta"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u16"))) }, Arg { f: 4, name: Some("mu"), option: true, default: None, dm: Dm::Bytes(ByTy::Vec) }], var_args: None, props: &[Prop { f: 2, kind: PropKind::Named { name: "zeta", option: false, default: None, dm: Dm::Bytes(ByTy::Vec) } }], var_props: None, children: &[], var_children: None, extra: &[(5, || <Option<u8> as Default>::default().to_val())] };
pub static SH_RND10: Shape = Shape::Struct("Rnd10", &FL_RND10);

#[derive(knuffel::Decode)]
pub struct Rnd11 { #[knuffel(children)] pub alpha: Vec<Mixed>, #[knuffel(argument, default)] pub mu: f32, #[knuffel(argument)] pub epsilon_x: Mode, #[knuffel(flatten(property))] pub beta: Box<Pp> }
impl ToVal for Rnd11 { fn to_val(&self) -> Val { Val::St("Rnd11", vec![self.alpha.to_val(), self.mu.to_val(), self.epsilon_x.to_val(), self.beta.to_val()]) } }
pub static FL_RND11: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 1, name: Some("mu"), option: false, default: Some(|| { let x: f32 = Default::default(); x.to_val() }), dm: Dm::Normal(&Sc::F32) }, Arg { f: 2, name: Some("epsilon_x"), option: false, default: None, dm: Dm::Normal(&Sc::Enum("Mode", &["fast", "slow-and-steady", "none"])) }], var_args: None, props: &[Prop { f: 3, kind: PropKind::Flat(Part::Probe) }], var_props: None, children: &[], var_children: Some((0, Coll::List, NodeTy::Shape(&SH_MIXED))), extra: &[] };
pub static SH_RND11: Shape = Shape::Struct("Rnd11", &FL_RND11);

pub static UW_46: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: Some((0, Coll::List, Dm::Normal(&Sc::Int("i32")))), props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Rnd12 { #[knuffel(children(name="mu"))] pub mu: Vec<StrMode>, pub theta: Option<u8>, #[knuffel(child)] pub eta: bool, #[knuffel(child, unwrap(arguments))] pub p_k: Vec<i32>, #[knuffel(argument)] pub gamma: Option<i8>, #[knuffel(property, default=Some(Mode::None))] pub epsilon_x: Option<Mode>, #[knuffel(children)] pub beta: Vec<Empty>, #[knuffel(arguments)] pub zeta: Vec<Mode>, #[knuffel(properties, str)] pub alpha: BTreeMap<String, Ps> }
impl ToVal for Rnd12 { fn to_val(&self) -> Val { Val::St("Rnd12", vec![self.mu.to_val(), self.theta.to_val(), self.eta.to_val(), self.p_k.to_val(), self.gamma.to_val(), self.epsilon_x.to_val(), self.beta.to_val(), self.zeta.to_val(), self.alpha.to_val()]) } }
pub static FL_RND12: Fields = Fields { n: 9, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 4, name: Some("gamma"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("i8"))) }], var_args: Some((7, Coll::List, Dm::Normal(&Sc::Enum("Mode", &["fast", "slow-and-steady", "none"])))), props: &[Prop { f: 5, kind: PropKind::Named { name: "epsilon-x", option: true, default: Some(|| { let x: Option<Mode> = Some(Mode::None); x.to_val() }), dm: Dm::Normal(&Sc::Opt(&Sc::Enum("Mode", &["fast", "slow-and-steady", "none"]))) } }], var_props: Some((8, StrTy::Text, Dm::Str(StrTy::Ps))), children: &[Child { f: 0, name: "mu", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Shape(&SH_STRMODE) }, Child { f: 2, name: "eta", kind: ChildKind::Bool, ty: NodeTy::None }, Child { f: 3, name: "p-k", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_46) }], var_children: Some((6, Coll::List, NodeTy::Shape(&SH_EMPTY))), extra: &[(1, || <Option<u8> as Default>::default().to_val())] };
pub static SH_RND12: Shape = Shape::Struct("Rnd12", &FL_RND12);

#[derive(knuffel::Decode)]
pub struct Rnd13 { #[knuffel(span)] pub iota: Psp, #[knuffel(argument)] pub theta: Option<P>, #[knuffel(type_name)] pub zeta: Option<String>, #[knuffel(argument)] pub gamma: f32, #[knuffel(property, str)] pub epsilon_x: u16, #[knuffel(argument, default)] pub eta: P }
impl ToVal for Rnd13 { fn to_val(&self) -> Val { Val::St("Rnd13", vec![self.iota.to_val(), self.theta.to_val(), self.zeta.to_val(), self.gamma.to_val(), self.epsilon_x.to_val(), self.eta.to_val()]) } }
pub static FL_RND13: Fields = Fields { n: 6, spans: &[(0, true)], node_names: &[], type_names: &[(2, StrTy::Text, true)], args: &[Arg { f: 1, name: Some("theta"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::P)) }, Arg { f: 3, name: Some("gamma"), option: false, default: None, dm: Dm::Normal(&Sc::F32) }, Arg { f: 5, name: Some("eta"), option: false, default: Some(|| { let x: P = Default::default(); x.to_val() }), dm: Dm::Normal(&Sc::P) }], var_args: None, props: &[Prop { f: 4, kind: PropKind::Named { name: "epsilon-x", option: false, default: None, dm: Dm::Str(StrTy::U16) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_RND13: Shape = Shape::Struct("Rnd13", &FL_RND13);

#[derive(knuffel::Decode)]
pub struct Rnd14 { #[knuffel(child)] pub epsilon_x: bool, #[knuffel(children(name="gamma"))] pub gamma: Vec<NewOpt>, #[knuffel(children(name="eta"))] pub eta: Vec<OneArg>, #[knuffel(child)] pub mu: Box<Flags> }
impl ToVal for Rnd14 { fn to_val(&self) -> Val { Val::St("Rnd14", vec![self.epsilon_x.to_val(), self.gamma.to_val(), self.eta.to_val(), self.mu.to_val()]) } }
pub static FL_RND14: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "epsilon-x", kind: ChildKind::Bool, ty: NodeTy::None }, Child { f: 1, name: "gamma", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Shape(&SH_NEWOPT) }, Child { f: 2, name: "eta", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Shape(&SH_ONEARG) }, Child { f: 3, name: "mu", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Shape(&SH_FLAGS) }], var_children: None, extra: &[] };
pub static SH_RND14: Shape = Shape::Struct("Rnd14", &FL_RND14);

#[derive(knuffel::Decode)]
pub struct Rnd15 { #[knuffel(arguments)] pub p_l: VecDeque<f64>, #[knuffel(type_name)] pub delta: Option<Ps>, #[knuffel(property)] pub beta: u64, #[knuffel(flatten(child))] pub eta: PartKids }
impl ToVal for Rnd15 { fn to_val(&self) -> Val { Val::St("Rnd15", vec![self.p_l.to_val(), self.delta.to_val(), self.beta.to_val(), self.eta.to_val()]) } }
pub static FL_RND15: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[(1, StrTy::Ps, true)], args: &[], var_args: Some((0, Coll::List, Dm::Normal(&Sc::F64))), props: &[Prop { f: 2, kind: PropKind::Named { name: "beta", option: false, default: None, dm: Dm::Normal(&Sc::Int("u64")) } }], var_props: None, children: &[Child { f: 3, name: "", kind: ChildKind::Flat(Part::Of("PartKids", &FL_PARTKIDS)), ty: NodeTy::None }], var_children: None, extra: &[] };
pub static SH_RND15: Shape = Shape::Struct("Rnd15", &FL_RND15);

pub static UW_47: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("epsilon_x"), option: false, default: None, dm: Dm::Normal(&Sc::Int("i64")) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Rnd16 { #[knuffel(argument, bytes)] pub zeta: Pb, #[knuffel(type_name)] pub delta: Option<Ps>, #[knuffel(argument, str)] pub iota: char, #[knuffel(children(name="epsilon-x"), unwrap(argument))] pub epsilon_x: Vec<i64>, #[knuffel(children)] pub gamma: Vec<StrMode> }
impl ToVal for Rnd16 { fn to_val(&self) -> Val { Val::St("Rnd16", vec![self.zeta.to_val(), self.delta.to_val(), self.iota.to_val(), self.epsilon_x.to_val(), self.gamma.to_val()]) } }
pub static FL_RND16: Fields = Fields { n: 5, spans: &[], node_names: &[], type_names: &[(1, StrTy::Ps, true)], args: &[Arg { f: 0, name: Some("zeta"), option: false, default: None, dm: Dm::Bytes(ByTy::Pb) }, Arg { f: 2, name: Some("iota"), option: false, default: None, dm: Dm::Str(StrTy::Char) }], var_args: None, props: &[], var_props: None, children: &[Child { f: 3, name: "epsilon-x", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Unwrap(&UW_47) }], var_children: Some((4, Coll::List, NodeTy::Shape(&SH_STRMODE))), extra: &[] };
pub static SH_RND16: Shape = Shape::Struct("Rnd16", &FL_RND16);

pub static UW_48: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("zeta"), option: false, default: None, dm: Dm::Normal(&Sc::Int("usize")) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Rnd17 { #[knuffel(argument, default=8)] pub p_l: u64, #[knuffel(property)] pub iota: P, #[knuffel(children(name="delta"))] pub delta: Vec<Dflt>, #[knuffel(argument)] pub alpha: P, #[knuffel(child, unwrap(argument))] pub zeta: Option<usize>, #[knuffel(span)] pub eta: Psp, pub theta: Option<u8>, #[knuffel(arguments)] pub beta: Vec<P> }
impl ToVal for Rnd17 { fn to_val(&self) -> Val { Val::St("Rnd17", vec![self.p_l.to_val(), self.iota.to_val(), self.delta.to_val(), self.alpha.to_val(), self.zeta.to_val(), self.eta.to_val(), self.theta.to_val(), self.beta.to_val()]) } }
pub static FL_RND17: Fields = Fields { n: 8, spans: &[(5, true)], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("p_l"), option: false, default: Some(|| { let x: u64 = 8; x.to_val() }), dm: Dm::Normal(&Sc::Int("u64")) }, Arg { f: 3, name: Some("alpha"), option: false, default: None, dm: Dm::Normal(&Sc::P) }], var_args: Some((7, Coll::List, Dm::Normal(&Sc::P))), props: &[Prop { f: 1, kind: PropKind::Named { name: "iota", option: false, default: None, dm: Dm::Normal(&Sc::P) } }], var_props: None, children: &[Child { f: 2, name: "delta", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Shape(&SH_DFLT) }, Child { f: 4, name: "zeta", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Unwrap(&UW_48) }], var_children: None, extra: &[(6, || <Option<u8> as Default>::default().to_val())] };
pub static SH_RND17: Shape = Shape::Struct("Rnd17", &FL_RND17);

#[derive(knuffel::Decode)]
pub struct Rnd18 { #[knuffel(property(name="x y"), str)] pub gamma: Option<u16>, #[knuffel(argument, bytes)] pub iota: Option<Pb>, #[knuffel(argument)] pub delta: i16, #[knuffel(argument, str)] pub zeta: Option<u16> }
impl ToVal for Rnd18 { fn to_val(&self) -> Val { Val::St("Rnd18", vec![self.gamma.to_val(), self.iota.to_val(), self.delta.to_val(), self.zeta.to_val()]) } }
pub static FL_RND18: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 1, name: Some("iota"), option: true, default: None, dm: Dm::Bytes(ByTy::Pb) }, Arg { f: 2, name: Some("delta"), option: false, default: None, dm: Dm::Normal(&Sc::Int("i16")) }, Arg { f: 3, name: Some("zeta"), option: true, default: None, dm: Dm::Str(StrTy::U16) }], var_args: None, props: &[Prop { f: 0, kind: PropKind::Named { name: "x y", option: true, default: None, dm: Dm::Str(StrTy::U16) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_RND18: Shape = Shape::Struct("Rnd18", &FL_RND18);

pub static UW_49: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("p_l"), option: false, default: None, dm: Dm::Normal(&Sc::Int("i16")) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Rnd19 { pub delta: Option<u8>, #[knuffel(child, unwrap(argument))] pub p_l: Option<i16>, #[knuffel(child)] pub p_k: bool, #[knuffel(child)] pub epsilon_x: bool }
impl ToVal for Rnd19 { fn to_val(&self) -> Val { Val::St("Rnd19", vec![self.delta.to_val(), self.p_l.to_val(), self.p_k.to_val(), self.epsilon_x.to_val()]) } }
pub static FL_RND19: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 1, name: "p-l", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Unwrap(&UW_49) }, Child { f: 2, name: "p-k", kind: ChildKind::Bool, ty: NodeTy::None }, Child { f: 3, name: "epsilon-x", kind: ChildKind::Bool, ty: NodeTy::None }], var_children: None, extra: &[(0, || <Option<u8> as Default>::default().to_val())] };
pub static SH_RND19: Shape = Shape::Struct("Rnd19", &FL_RND19);

pub static UW_50: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: Some((0, StrTy::Text, Dm::Normal(&Sc::Int("i32")))), children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Rnd20 { #[knuffel(children(name="beta"))] pub beta: Vec<Dflt>, #[knuffel(child, unwrap(properties))] pub eta: Option<BTreeMap<String, i32>>, #[knuffel(properties)] pub gamma: BTreeMap<Ps, Mode>, #[knuffel(children(name="p-l"))] pub p_l: Vec<Texts>, #[knuffel(children)] pub zeta: Vec<BytesMode> }
impl ToVal for Rnd20 { fn to_val(&self) -> Val { Val::St("Rnd20", vec![self.beta.to_val(), self.eta.to_val(), self.gamma.to_val(), self.p_l.to_val(), self.zeta.to_val()]) } }
pub static FL_RND20: Fields = Fields { n: 5, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: Some((2, StrTy::Ps, Dm::Normal(&Sc::Enum("Mode", &["fast", "slow-and-steady", "none"])))), children: &[Child { f: 0, name: "beta", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Shape(&SH_DFLT) }, Child { f: 1, name: "eta", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Unwrap(&UW_50) }, Child { f: 3, name: "p-l", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Shape(&SH_TEXTS) }], var_children: Some((4, Coll::List, NodeTy::Shape(&SH_BYTESMODE))), extra: &[] };
pub static SH_RND20: Shape = Shape::Struct("Rnd20", &FL_RND20);

pub static UW_51: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("iota"), option: false, default: None, dm: Dm::Str(StrTy::Char) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Rnd21 { #[knuffel(children(name="iota"), unwrap(argument, str))] pub iota: Vec<char>, #[knuffel(property(name="x y"))] pub p_l: String, #[knuffel(span)] pub eta: Psp }
impl ToVal for Rnd21 { fn to_val(&self) -> Val { Val::St("Rnd21", vec![self.iota.to_val(), self.p_l.to_val(), self.eta.to_val()]) } }
pub static FL_RND21: Fields = Fields { n: 3, spans: &[(2, true)], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[Prop { f: 1, kind: PropKind::Named { name: "x y", option: false, default: None, dm: Dm::Normal(&Sc::Text("String")) } }], var_props: None, children: &[Child { f: 0, name: "iota", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Unwrap(&UW_51) }], var_children: None, extra: &[] };
pub static SH_RND21: Shape = Shape::Struct("Rnd21", &FL_RND21);

#[derive(knuffel::Decode)]
pub struct Rnd22 { #[knuffel(type_name)] pub p_l: Option<String>, #[knuffel(argument, default)] pub delta: Arc<str>, #[knuffel(arguments)] pub alpha: Vec<u8> }
impl ToVal for Rnd22 { fn to_val(&self) -> Val { Val::St("Rnd22", vec![self.p_l.to_val(), self.delta.to_val(), self.alpha.to_val()]) } }
pub static FL_RND22: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[(0, StrTy::Text, true)], args: &[Arg { f: 1, name: Some("delta"), option: false, default: Some(|| { let x: Arc<str> = Default::default(); x.to_val() }), dm: Dm::Normal(&Sc::Text("Arc<str>")) }], var_args: Some((2, Coll::List, Dm::Normal(&Sc::Int("u8")))), props: &[], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_RND22: Shape = Shape::Struct("Rnd22", &FL_RND22);

#[derive(knuffel::Decode)]
pub struct Rnd23 { #[knuffel(children(name="mu"))] pub mu: Vec<StrMode>, #[knuffel(child)] pub iota: bool, #[knuffel(flatten(child))] pub delta: Rc<Pp>, #[knuffel(children)] pub epsilon_x: Vec<Dflt>, #[knuffel(argument)] pub p_k: Option<i8>, #[knuffel(argument, bytes)] pub gamma: Vec<u8>, #[knuffel(argument, default)] pub theta: Option<PathBuf> }
impl ToVal for Rnd23 { fn to_val(&self) -> Val { Val::St("Rnd23", vec![self.mu.to_val(), self.iota.to_val(), self.delta.to_val(), self.epsilon_x.to_val(), self.p_k.to_val(), self.gamma.to_val(), self.theta.to_val()]) } }
pub static FL_RND23: Fields = Fields { n: 7, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 4, name: Some("p_k"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("i8"))) }, Arg { f: 5, name: Some("gamma"), option: false, default: None, dm: Dm::Bytes(ByTy::Vec) }, Arg { f: 6, name: Some("theta"), option: true, default: Some(|| { let x: Option<PathBuf> = Default::default(); x.to_val() }), dm: Dm::Normal(&Sc::Opt(&Sc::Text("PathBuf"))) }], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "mu", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Shape(&SH_STRMODE) }, Child { f: 1, name: "iota", kind: ChildKind::Bool, ty: NodeTy::None }, Child { f: 2, name: "", kind: ChildKind::Flat(Part::Probe), ty: NodeTy::None }], var_children: Some((3, Coll::List, NodeTy::Shape(&SH_DFLT))), extra: &[] };
pub static SH_RND23: Shape = Shape::Struct("Rnd23", &FL_RND23);

#[derive(knuffel::Decode)]
pub struct Rnd24 { #[knuffel(child)] pub delta: Box<Empty>, #[knuffel(children(name="iota"))] pub iota: Vec<OneArg>, #[knuffel(children(name="epsilon-x"))] pub epsilon_x: Vec<NewOpt>, #[knuffel(children)] pub p_l: Vec<Flags> }
impl ToVal for Rnd24 { fn to_val(&self) -> Val { Val::St("Rnd24", vec![self.delta.to_val(), self.iota.to_val(), self.epsilon_x.to_val(), self.p_l.to_val()]) } }
pub static FL_RND24: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "delta", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Shape(&SH_EMPTY) }, Child { f: 1, name: "iota", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Shape(&SH_ONEARG) }, Child { f: 2, name: "epsilon-x", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Shape(&SH_NEWOPT) }], var_children: Some((3, Coll::List, NodeTy::Shape(&SH_FLAGS))), extra: &[] };
pub static SH_RND24: Shape = Shape::Struct("Rnd24", &FL_RND24);

#[derive(knuffel::Decode)]
pub struct Rnd25 { #[knuffel(child)] pub epsilon_x: OptArgs, #[knuffel(span)] pub gamma: Psp, #[knuffel(argument)] pub alpha: Option<Rc<P>>, #[knuffel(property(name="x y"), default)] pub eta: Box<u8>, pub zeta: Option<u8>, #[knuffel(flatten(property))] pub p_l: Box<Pp>, #[knuffel(argument)] pub iota: PathBuf, #[knuffel(argument)] pub p_k: isize, #[knuffel(arguments)] pub delta: VecDeque<Option<P>> }
impl ToVal for Rnd25 { fn to_val(&self) -> Val { Val::St("Rnd25", vec![self.epsilon_x.to_val(), self.gamma.to_val(), self.alpha.to_val(), self.eta.to_val(), self.zeta.to_val(), self.p_l.to_val(), self.iota.to_val(), self.p_k.to_val(), self.delta.to_val()]) } }
pub static FL_RND25: Fields = Fields { n: 9, spans: &[(1, true)], node_names: &[], type_names: &[], args: &[Arg { f: 2, name: Some("alpha"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::P)) }, Arg { f: 6, name: Some("iota"), option: false, default: None, dm: Dm::Normal(&Sc::Text("PathBuf")) }, Arg { f: 7, name: Some("p_k"), option: false, default: None, dm: Dm::Normal(&Sc::Int("isize")) }], var_args: Some((8, Coll::List, Dm::Normal(&Sc::Opt(&Sc::P)))), props: &[Prop { f: 3, kind: PropKind::Named { name: "x y", option: false, default: Some(|| { let x: Box<u8> = Default::default(); x.to_val() }), dm: Dm::Normal(&Sc::Int("u8")) } }, Prop { f: 5, kind: PropKind::Flat(Part::Probe) }], var_props: None, children: &[Child { f: 0, name: "epsilon-x", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Shape(&SH_OPTARGS) }], var_children: None, extra: &[(4, || <Option<u8> as Default>::default().to_val())] };
pub static SH_RND25: Shape = Shape::Struct("Rnd25", &FL_RND25);

#[derive(knuffel::Decode)]
pub struct Rnd26 { #[knuffel(child)] pub epsilon_x: Option<Box<OneArg>>, #[knuffel(span)] pub mu: Psp, #[knuffel(type_name)] pub alpha: Ps, #[knuffel(argument, default=Some(5))] pub beta: Option<i32>, #[knuffel(flatten(property))] pub eta: PartNest, #[knuffel(argument, default)] pub p_l: Option<u8>, #[knuffel(argument)] pub theta: Option<String>, #[knuffel(property, bytes)] pub gamma: Vec<u8> }
impl ToVal for Rnd26 { fn to_val(&self) -> Val { Val::St("Rnd26", vec![self.epsilon_x.to_val(), self.mu.to_val(), self.alpha.to_val(), self.beta.to_val(), self.eta.to_val(), self.p_l.to_val(), self.theta.to_val(), self.gamma.to_val()]) } }
pub static FL_RND26: Fields = Fields { n: 8, spans: &[(1, true)], node_names: &[], type_names: &[(2, StrTy::Ps, false)], args: &[Arg { f: 3, name: Some("beta"), option: true, default: Some(|| { let x: Option<i32> = Some(5); x.to_val() }), dm: Dm::Normal(&Sc::Opt(&Sc::Int("i32"))) }, Arg { f: 5, name: Some("p_l"), option: true, default: Some(|| { let x: Option<u8> = Default::default(); x.to_val() }), dm: Dm::Normal(&Sc::Opt(&Sc::Int("u8"))) }, Arg { f: 6, name: Some("theta"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Text("String"))) }], var_args: None, props: &[Prop { f: 4, kind: PropKind::Flat(Part::Of("PartNest", &FL_PARTNEST)) }, Prop { f: 7, kind: PropKind::Named { name: "gamma", option: false, default: None, dm: Dm::Bytes(ByTy::Vec) } }], var_props: None, children: &[Child { f: 0, name: "epsilon-x", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Shape(&SH_ONEARG) }], var_children: None, extra: &[] };
pub static SH_RND26: Shape = Shape::Struct("Rnd26", &FL_RND26);

pub static UW_53: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("theta"), option: false, default: None, dm: Dm::Normal(&Sc::Enum("Wide", &["a", "b", "http-server", "x1", "d"])) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

pub static UW_52: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "theta", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_53) }], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Rnd27 { #[knuffel(argument, str)] pub eta: u16, #[knuffel(argument, default)] pub mu: Option<bool>, #[knuffel(property, str)] pub p_l: Option<char>, #[knuffel(property(name="x y"), str)] pub gamma: Ps, pub iota: Option<u8>, #[knuffel(child, unwrap(child, unwrap(argument)))] pub theta: Wide }
impl ToVal for Rnd27 { fn to_val(&self) -> Val { Val::St("Rnd27", vec![self.eta.to_val(), self.mu.to_val(), self.p_l.to_val(), self.gamma.to_val(), self.iota.to_val(), self.theta.to_val()]) } }
pub static FL_RND27: Fields = Fields { n: 6, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("eta"), option: false, default: None, dm: Dm::Str(StrTy::U16) }, Arg { f: 1, name: Some("mu"), option: true, default: Some(|| { let x: Option<bool> = Default::default(); x.to_val() }), dm: Dm::Normal(&Sc::Opt(&Sc::Bool)) }], var_args: None, props: &[Prop { f: 2, kind: PropKind::Named { name: "p-l", option: true, default: None, dm: Dm::Str(StrTy::Char) } }, Prop { f: 3, kind: PropKind::Named { name: "x y", option: false, default: None, dm: Dm::Str(StrTy::Ps) } }], var_props: None, children: &[Child { f: 5, name: "theta", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_52) }], var_children: None, extra: &[(4, || <Option<u8> as Default>::default().to_val())] };
pub static SH_RND27: Shape = Shape::Struct("Rnd27", &FL_RND27);

pub static UW_54: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "li", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Shape(&SH_TEXTS) }], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Rnd28 { #[knuffel(arguments)] pub p_l: Vec<Option<P>>, #[knuffel(child)] pub iota: bool, #[knuffel(child, unwrap(children(name="li")))] pub alpha: Vec<Texts>, #[knuffel(child)] pub eta: Box<Simple> }
impl ToVal for Rnd28 { fn to_val(&self) -> Val { Val::St("Rnd28", vec![self.p_l.to_val(), self.iota.to_val(), self.alpha.to_val(), self.eta.to_val()]) } }
pub static FL_RND28: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: Some((0, Coll::List, Dm::Normal(&Sc::Opt(&Sc::P)))), props: &[], var_props: None, children: &[Child { f: 1, name: "iota", kind: ChildKind::Bool, ty: NodeTy::None }, Child { f: 2, name: "alpha", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_54) }, Child { f: 3, name: "eta", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Shape(&SH_SIMPLE) }], var_children: None, extra: &[] };
pub static SH_RND28: Shape = Shape::Struct("Rnd28", &FL_RND28);

pub static UW_55: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("iota"), option: false, default: None, dm: Dm::Normal(&Sc::P) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

pub static UW_56: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("p_k"), option: false, default: None, dm: Dm::Normal(&Sc::F32) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Rnd29 { #[knuffel(flatten(child))] pub zeta: Rc<Pp>, #[knuffel(child, unwrap(argument))] pub iota: Option<P>, #[knuffel(child, unwrap(argument))] pub p_k: f32, #[knuffel(child)] pub eta: bool }
impl ToVal for Rnd29 { fn to_val(&self) -> Val { Val::St("Rnd29", vec![self.zeta.to_val(), self.iota.to_val(), self.p_k.to_val(), self.eta.to_val()]) } }
pub static FL_RND29: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "", kind: ChildKind::Flat(Part::Probe), ty: NodeTy::None }, Child { f: 1, name: "iota", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Unwrap(&UW_55) }, Child { f: 2, name: "p-k", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_56) }, Child { f: 3, name: "eta", kind: ChildKind::Bool, ty: NodeTy::None }], var_children: None, extra: &[] };
pub static SH_RND29: Shape = Shape::Struct("Rnd29", &FL_RND29);

#[derive(knuffel::Decode)]
pub struct Rnd30 { #[knuffel(properties)] pub alpha: BTreeMap<String, Option<u8>>, #[knuffel(span)] pub mu: Psp, #[knuffel(argument, bytes)] pub zeta: Option<Vec<u8>>, #[knuffel(arguments)] pub gamma: VecDeque<i32> }
impl ToVal for Rnd30 { fn to_val(&self) -> Val { Val::St("Rnd30", vec![self.alpha.to_val(), self.mu.to_val(), self.zeta.to_val(), self.gamma.to_val()]) } }
pub static FL_RND30: Fields = Fields { n: 4, spans: &[(1, true)], node_names: &[], type_names: &[], args: &[Arg { f: 2, name: Some("zeta"), option: true, default: None, dm: Dm::Bytes(ByTy::Vec) }], var_args: Some((3, Coll::List, Dm::Normal(&Sc::Int("i32")))), props: &[], var_props: Some((0, StrTy::Text, Dm::Normal(&Sc::Opt(&Sc::Int("u8"))))), children: &[], var_children: None, extra: &[] };
pub static SH_RND30: Shape = Shape::Struct("Rnd30", &FL_RND30);

pub static UW_57: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("epsilon_x"), option: false, default: None, dm: Dm::Normal(&Sc::F32) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Rnd31 { #[knuffel(argument)] pub p_l: P, #[knuffel(argument)] pub iota: Option<isize>, #[knuffel(flatten(child))] pub zeta: Rc<Pp>, #[knuffel(argument)] pub delta: Option<u64>, #[knuffel(span)] pub alpha: Psp, #[knuffel(child, unwrap(argument))] pub epsilon_x: f32, #[knuffel(children(name="theta"))] pub theta: Vec<StrMode>, #[knuffel(children)] pub mu: Vec<Dflt> }
impl ToVal for Rnd31 { fn to_val(&self) -> Val { Val::St("Rnd31", vec![self.p_l.to_val(), self.iota.to_val(), self.zeta.to_val(), self.delta.to_val(), self.alpha.to_val(), self.epsilon_x.to_val(), self.theta.to_val(), self.mu.to_val()]) } }
pub static FL_RND31: Fields = Fields { n: 8, spans: &[(4, true)], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("p_l"), option: false, default: None, dm: Dm::Normal(&Sc::P) }, Arg { f: 1, name: Some("iota"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("isize"))) }, Arg { f: 3, name: Some("delta"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u64"))) }], var_args: None, props: &[], var_props: None, children: &[Child { f: 2, name: "", kind: ChildKind::Flat(Part::Probe), ty: NodeTy::None }, Child { f: 5, name: "epsilon-x", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_57) }, Child { f: 6, name: "theta", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Shape(&SH_STRMODE) }], var_children: Some((7, Coll::List, NodeTy::Shape(&SH_DFLT))), extra: &[] };
pub static SH_RND31: Shape = Shape::Struct("Rnd31", &FL_RND31);

#[derive(knuffel::Decode)]
pub struct Rnd32 { #[knuffel(arguments, str)] pub zeta: VecDeque<Ps>, #[knuffel(type_name)] pub gamma: Option<Ps> }
impl ToVal for Rnd32 { fn to_val(&self) -> Val { Val::St("Rnd32", vec![self.zeta.to_val(), self.gamma.to_val()]) } }
pub static FL_RND32: Fields = Fields { n: 2, spans: &[], node_names: &[], type_names: &[(1, StrTy::Ps, true)], args: &[], var_args: Some((0, Coll::List, Dm::Str(StrTy::Ps))), props: &[], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_RND32: Shape = Shape::Struct("Rnd32", &FL_RND32);

pub static UW_58: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("delta"), option: false, default: None, dm: Dm::Normal(&Sc::Enum("Mode", &["fast", "slow-and-steady", "none"])) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

pub static UW_59: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("beta"), option: false, default: None, dm: Dm::Bytes(ByTy::Pb) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Rnd33 { #[knuffel(children(name="delta"), unwrap(argument))] pub delta: Vec<Mode>, #[knuffel(children(name="beta"), unwrap(argument, bytes))] pub beta: Vec<Pb>, #[knuffel(argument, bytes)] pub zeta: Pb, #[knuffel(arguments)] pub p_l: VecDeque<i32>, #[knuffel(children)] pub gamma: Vec<NewOpt> }
impl ToVal for Rnd33 { fn to_val(&self) -> Val { Val::St("Rnd33", vec![self.delta.to_val(), self.beta.to_val(), self.zeta.to_val(), self.p_l.to_val(), self.gamma.to_val()]) } }
pub static FL_RND33: Fields = Fields { n: 5, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 2, name: Some("zeta"), option: false, default: None, dm: Dm::Bytes(ByTy::Pb) }], var_args: Some((3, Coll::List, Dm::Normal(&Sc::Int("i32")))), props: &[], var_props: None, children: &[Child { f: 0, name: "delta", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Unwrap(&UW_58) }, Child { f: 1, name: "beta", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Unwrap(&UW_59) }], var_children: Some((4, Coll::List, NodeTy::Shape(&SH_NEWOPT))), extra: &[] };
pub static SH_RND33: Shape = Shape::Struct("Rnd33", &FL_RND33);

pub static UW_60: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[], var_children: Some((0, Coll::List, NodeTy::Shape(&SH_MIXED))), extra: &[] };

pub static UW_61: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("theta"), option: false, default: None, dm: Dm::Bytes(ByTy::Pb) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Rnd34 { #[knuffel(children(name="beta"), unwrap(children))] pub beta: Vec<Vec<Mixed>>, #[knuffel(child, unwrap(argument, bytes))] pub theta: Option<Pb> }
impl ToVal for Rnd34 { fn to_val(&self) -> Val { Val::St("Rnd34", vec![self.beta.to_val(), self.theta.to_val()]) } }
pub static FL_RND34: Fields = Fields { n: 2, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "beta", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Unwrap(&UW_60) }, Child { f: 1, name: "theta", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Unwrap(&UW_61) }], var_children: None, extra: &[] };
pub static SH_RND34: Shape = Shape::Struct("Rnd34", &FL_RND34);

#[derive(knuffel::Decode)]
pub struct Rnd35 { #[knuffel(argument, default="d".into())] pub zeta: String, #[knuffel(child)] pub mu: Option<Box<Pn>>, #[knuffel(arguments, str)] pub theta: VecDeque<u16>, #[knuffel(span)] pub epsilon_x: Psp, #[knuffel(type_name)] pub gamma: Option<Ps> }
impl ToVal for Rnd35 { fn to_val(&self) -> Val { Val::St("Rnd35", vec![self.zeta.to_val(), self.mu.to_val(), self.theta.to_val(), self.epsilon_x.to_val(), self.gamma.to_val()]) } }
pub static FL_RND35: Fields = Fields { n: 5, spans: &[(3, true)], node_names: &[], type_names: &[(4, StrTy::Ps, true)], args: &[Arg { f: 0, name: Some("zeta"), option: false, default: Some(|| { let x: String = "d".into(); x.to_val() }), dm: Dm::Normal(&Sc::Text("String")) }], var_args: Some((2, Coll::List, Dm::Str(StrTy::U16))), props: &[], var_props: None, children: &[Child { f: 1, name: "mu", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Probe }], var_children: None, extra: &[] };
pub static SH_RND35: Shape = Shape::Struct("Rnd35", &FL_RND35);

pub static UW_64: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("gamma"), option: false, default: None, dm: Dm::Str(StrTy::Text) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

pub static UW_63: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "gamma", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_64) }], var_children: None, extra: &[] };

pub static UW_62: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "gamma", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_63) }], var_children: None, extra: &[] };

pub static UW_65: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: Some((0, Coll::List, Dm::Normal(&Sc::Opt(&Sc::Int("u8"))))), props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Rnd36 { #[knuffel(flatten(property))] pub delta: Pp, #[knuffel(property(name="x y"), bytes)] pub p_k: Pb, #[knuffel(type_name)] pub alpha: Option<Ps>, #[knuffel(argument)] pub theta: Option<u64>, #[knuffel(argument, default=1)] pub eta: i8, #[knuffel(child)] pub iota: Pn, #[knuffel(child, unwrap(child, unwrap(child, unwrap(argument, str))))] pub gamma: String, #[knuffel(child, unwrap(arguments))] pub epsilon_x: Option<Vec<Option<u8>>>, #[knuffel(children)] pub zeta: Vec<Tup1> }
impl ToVal for Rnd36 { fn to_val(&self) -> Val { Val::St("Rnd36", vec![self.delta.to_val(), self.p_k.to_val(), self.alpha.to_val(), self.theta.to_val(), self.eta.to_val(), self.iota.to_val(), self.gamma.to_val(), self.epsilon_x.to_val(), self.zeta.to_val()]) } }
pub static FL_RND36: Fields = Fields { n: 9, spans: &[], node_names: &[], type_names: &[(2, StrTy::Ps, true)], args: &[Arg { f: 3, name: Some("theta"), option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u64"))) }, Arg { f: 4, name: Some("eta"), option: false, default: Some(|| { let x: i8 = 1; x.to_val() }), dm: Dm::Normal(&Sc::Int("i8")) }], var_args: None, props: &[Prop { f: 0, kind: PropKind::Flat(Part::Probe) }, Prop { f: 1, kind: PropKind::Named { name: "x y", option: false, default: None, dm: Dm::Bytes(ByTy::Pb) } }], var_props: None, children: &[Child { f: 5, name: "iota", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Probe }, Child { f: 6, name: "gamma", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_62) }, Child { f: 7, name: "epsilon-x", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Unwrap(&UW_65) }], var_children: Some((8, Coll::List, NodeTy::Shape(&SH_TUP1))), extra: &[] };
pub static SH_RND36: Shape = Shape::Struct("Rnd36", &FL_RND36);

pub static UW_66: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[Prop { f: 0, kind: PropKind::Named { name: "k", option: false, default: None, dm: Dm::Normal(&Sc::Int("i32")) } }], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Rnd37 { #[knuffel(node_name)] pub iota: String, #[knuffel(child, unwrap(property(name="k")))] pub zeta: i32, #[knuffel(arguments)] pub p_k: Vec<P>, #[knuffel(child)] pub beta: BytesMode, #[knuffel(child)] pub theta: Empty }
impl ToVal for Rnd37 { fn to_val(&self) -> Val { Val::St("Rnd37", vec![self.iota.to_val(), self.zeta.to_val(), self.p_k.to_val(), self.beta.to_val(), self.theta.to_val()]) } }
pub static FL_RND37: Fields = Fields { n: 5, spans: &[], node_names: &[(0, StrTy::Text)], type_names: &[], args: &[], var_args: Some((2, Coll::List, Dm::Normal(&Sc::P))), props: &[], var_props: None, children: &[Child { f: 1, name: "zeta", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_66) }, Child { f: 3, name: "beta", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Shape(&SH_BYTESMODE) }, Child { f: 4, name: "theta", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Shape(&SH_EMPTY) }], var_children: None, extra: &[] };
pub static SH_RND37: Shape = Shape::Struct("Rnd37", &FL_RND37);

pub static UW_67: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("beta"), option: false, default: None, dm: Dm::Normal(&Sc::Text("PathBuf")) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Rnd38 { #[knuffel(node_name)] pub zeta: String, #[knuffel(type_name)] pub p_l: Ps, #[knuffel(argument, default)] pub theta: Option<i64>, #[knuffel(property)] pub alpha: P, #[knuffel(children(name="beta"), unwrap(argument))] pub beta: Vec<PathBuf>, #[knuffel(properties)] pub gamma: BTreeMap<String, Option<u8>>, #[knuffel(child)] pub iota: Option<Empty>, #[knuffel(child)] pub eta: bool }
impl ToVal for Rnd38 { fn to_val(&self) -> Val { Val::St("Rnd38", vec![self.zeta.to_val(), self.p_l.to_val(), self.theta.to_val(), self.alpha.to_val(), self.beta.to_val(), self.gamma.to_val(), self.iota.to_val(), self.eta.to_val()]) } }
pub static FL_RND38: Fields = Fields { n: 8, spans: &[], node_names: &[(0, StrTy::Text)], type_names: &[(1, StrTy::Ps, false)], args: &[Arg { f: 2, name: Some("theta"), option: true, default: Some(|| { let x: Option<i64> = Default::default(); x.to_val() }), dm: Dm::Normal(&Sc::Opt(&Sc::Int("i64"))) }], var_args: None, props: &[Prop { f: 3, kind: PropKind::Named { name: "alpha", option: false, default: None, dm: Dm::Normal(&Sc::P) } }], var_props: Some((5, StrTy::Text, Dm::Normal(&Sc::Opt(&Sc::Int("u8"))))), children: &[Child { f: 4, name: "beta", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Unwrap(&UW_67) }, Child { f: 6, name: "iota", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Shape(&SH_EMPTY) }, Child { f: 7, name: "eta", kind: ChildKind::Bool, ty: NodeTy::None }], var_children: None, extra: &[] };
pub static SH_RND38: Shape = Shape::Struct("Rnd38", &FL_RND38);

pub static UW_68: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("delta"), option: false, default: None, dm: Dm::Str(StrTy::Char) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Rnd39 { #[knuffel(child)] pub beta: OptArgs, #[knuffel(child, unwrap(argument, str))] pub delta: Option<char>, #[knuffel(child)] pub p_k: Option<Tup1> }
impl ToVal for Rnd39 { fn to_val(&self) -> Val { Val::St("Rnd39", vec![self.beta.to_val(), self.delta.to_val(), self.p_k.to_val()]) } }
pub static FL_RND39: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: None, children: &[Child { f: 0, name: "beta", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Shape(&SH_OPTARGS) }, Child { f: 1, name: "delta", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Unwrap(&UW_68) }, Child { f: 2, name: "p-k", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Shape(&SH_TUP1) }], var_children: None, extra: &[] };
pub static SH_RND39: Shape = Shape::Struct("Rnd39", &FL_RND39);

#[derive(knuffel::Decode)]
pub struct Rnd40 { #[knuffel(argument)] pub beta: f64, #[knuffel(property(name="x y"), default="d".into())] pub mu: String, #[knuffel(argument, default)] pub gamma: P, #[knuffel(span)] pub iota: Psp }
impl ToVal for Rnd40 { fn to_val(&self) -> Val { Val::St("Rnd40", vec![self.beta.to_val(), self.mu.to_val(), self.gamma.to_val(), self.iota.to_val()]) } }
pub static FL_RND40: Fields = Fields { n: 4, spans: &[(3, true)], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("beta"), option: false, default: None, dm: Dm::Normal(&Sc::F64) }, Arg { f: 2, name: Some("gamma"), option: false, default: Some(|| { let x: P = Default::default(); x.to_val() }), dm: Dm::Normal(&Sc::P) }], var_args: None, props: &[Prop { f: 1, kind: PropKind::Named { name: "x y", option: false, default: Some(|| { let x: String = "d".into(); x.to_val() }), dm: Dm::Normal(&Sc::Text("String")) } }], var_props: None, children: &[], var_children: None, extra: &[] };
pub static SH_RND40: Shape = Shape::Struct("Rnd40", &FL_RND40);

pub static UW_69: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("epsilon_x"), option: false, default: None, dm: Dm::Normal(&Sc::Int("i16")) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Rnd41 { #[knuffel(child, unwrap(argument))] pub epsilon_x: i16, #[knuffel(property, default)] pub theta: Arc<str>, #[knuffel(property, str)] pub iota: Ps, #[knuffel(children)] pub beta: Vec<BytesMode>, #[knuffel(span)] pub delta: Psp, #[knuffel(type_name)] pub eta: Option<Ps>, #[knuffel(argument, default=Some(Mode::None))] pub mu: Option<Mode>, #[knuffel(argument, bytes)] pub alpha: Pb, #[knuffel(properties)] pub zeta: BTreeMap<Ps, P>, #[knuffel(argument, bytes)] pub p_k: Vec<u8>, #[knuffel(arguments)] pub gamma: VecDeque<String> }
impl ToVal for Rnd41 { fn to_val(&self) -> Val { Val::St("Rnd41", vec![self.epsilon_x.to_val(), self.theta.to_val(), self.iota.to_val(), self.beta.to_val(), self.delta.to_val(), self.eta.to_val(), self.mu.to_val(), self.alpha.to_val(), self.zeta.to_val(), self.p_k.to_val(), self.gamma.to_val()]) } }
pub static FL_RND41: Fields = Fields { n: 11, spans: &[(4, true)], node_names: &[], type_names: &[(5, StrTy::Ps, true)], args: &[Arg { f: 6, name: Some("mu"), option: true, default: Some(|| { let x: Option<Mode> = Some(Mode::None); x.to_val() }), dm: Dm::Normal(&Sc::Opt(&Sc::Enum("Mode", &["fast", "slow-and-steady", "none"]))) }, Arg { f: 7, name: Some("alpha"), option: false, default: None, dm: Dm::Bytes(ByTy::Pb) }, Arg { f: 9, name: Some("p_k"), option: false, default: None, dm: Dm::Bytes(ByTy::Vec) }], var_args: Some((10, Coll::List, Dm::Normal(&Sc::Text("String")))), props: &[Prop { f: 1, kind: PropKind::Named { name: "theta", option: false, default: Some(|| { let x: Arc<str> = Default::default(); x.to_val() }), dm: Dm::Normal(&Sc::Text("Arc<str>")) } }, Prop { f: 2, kind: PropKind::Named { name: "iota", option: false, default: None, dm: Dm::Str(StrTy::Ps) } }], var_props: Some((8, StrTy::Ps, Dm::Normal(&Sc::P))), children: &[Child { f: 0, name: "epsilon-x", kind: ChildKind::Normal { option: false, default: None }, ty: NodeTy::Unwrap(&UW_69) }], var_children: Some((3, Coll::List, NodeTy::Shape(&SH_BYTESMODE))), extra: &[] };
pub static SH_RND41: Shape = Shape::Struct("Rnd41", &FL_RND41);

pub static UW_70: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("epsilon_x"), option: false, default: None, dm: Dm::Normal(&Sc::Text("String")) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Rnd42 { #[knuffel(child, unwrap(argument))] pub epsilon_x: Option<String>, #[knuffel(arguments)] pub p_l: Vec<Mode>, #[knuffel(property, default="d".into())] pub mu: String, #[knuffel(properties, str)] pub p_k: BTreeMap<Ps, u16> }
impl ToVal for Rnd42 { fn to_val(&self) -> Val { Val::St("Rnd42", vec![self.epsilon_x.to_val(), self.p_l.to_val(), self.mu.to_val(), self.p_k.to_val()]) } }
pub static FL_RND42: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: Some((1, Coll::List, Dm::Normal(&Sc::Enum("Mode", &["fast", "slow-and-steady", "none"])))), props: &[Prop { f: 2, kind: PropKind::Named { name: "mu", option: false, default: Some(|| { let x: String = "d".into(); x.to_val() }), dm: Dm::Normal(&Sc::Text("String")) } }], var_props: Some((3, StrTy::Ps, Dm::Str(StrTy::U16))), children: &[Child { f: 0, name: "epsilon-x", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Unwrap(&UW_70) }], var_children: None, extra: &[] };
pub static SH_RND42: Shape = Shape::Struct("Rnd42", &FL_RND42);

pub static UW_71: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[], var_args: None, props: &[], var_props: Some((0, StrTy::Ps, Dm::Normal(&Sc::Opt(&Sc::P)))), children: &[], var_children: None, extra: &[] };

pub static UW_72: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: Some("alpha"), option: false, default: None, dm: Dm::Bytes(ByTy::Vec) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]
pub struct Rnd43 { #[knuffel(span)] pub gamma: Psp, #[knuffel(argument)] pub eta: u32, #[knuffel(property, default=Some(9))] pub epsilon_x: Option<u16>, #[knuffel(child, unwrap(properties))] pub p_k: Option<BTreeMap<Ps, Option<P>>>, #[knuffel(children(name="alpha"), unwrap(argument, bytes))] pub alpha: Vec<Vec<u8>>, #[knuffel(property)] pub p_l: Option<Mode>, #[knuffel(arguments)] pub zeta: VecDeque<i32>, #[knuffel(child)] pub theta: Option<Box<Empty>> }
impl ToVal for Rnd43 { fn to_val(&self) -> Val { Val::St("Rnd43", vec![self.gamma.to_val(), self.eta.to_val(), self.epsilon_x.to_val(), self.p_k.to_val(), self.alpha.to_val(), self.p_l.to_val(), self.zeta.to_val(), self.theta.to_val()]) } }
pub static FL_RND43: Fields = Fields { n: 8, spans: &[(0, true)], node_names: &[], type_names: &[], args: &[Arg { f: 1, name: Some("eta"), option: false, default: None, dm: Dm::Normal(&Sc::Int("u32")) }], var_args: Some((6, Coll::List, Dm::Normal(&Sc::Int("i32")))), props: &[Prop { f: 2, kind: PropKind::Named { name: "epsilon-x", option: true, default: Some(|| { let x: Option<u16> = Some(9); x.to_val() }), dm: Dm::Normal(&Sc::Opt(&Sc::Int("u16"))) } }, Prop { f: 5, kind: PropKind::Named { name: "p-l", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Enum("Mode", &["fast", "slow-and-steady", "none"]))) } }], var_props: None, children: &[Child { f: 3, name: "p-k", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Unwrap(&UW_71) }, Child { f: 4, name: "alpha", kind: ChildKind::Multi { option: false, default: None, coll: Coll::List }, ty: NodeTy::Unwrap(&UW_72) }, Child { f: 7, name: "theta", kind: ChildKind::Normal { option: true, default: None }, ty: NodeTy::Shape(&SH_EMPTY) }], var_children: None, extra: &[] };
pub static SH_RND43: Shape = Shape::Struct("Rnd43", &FL_RND43);

pub static EV_73: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: None, option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u64"))) }, Arg { f: 1, name: None, option: false, default: Some(|| { let x: isize = 6; x.to_val() }), dm: Dm::Normal(&Sc::Int("isize")) }], var_args: None, props: &[Prop { f: 2, kind: PropKind::Named { name: "k", option: false, default: None, dm: Dm::Str(StrTy::U16) } }], var_props: None, children: &[], var_children: Some((3, Coll::List, NodeTy::Shape(&SH_SIMPLE))), extra: &[] };

pub static EV_74: Fields = Fields { n: 1, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: None, option: true, default: None, dm: Dm::Str(StrTy::Bool) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]

#[allow(dead_code)]
pub enum RndE0 { Delta9(#[knuffel(argument)] Option<u64>, #[knuffel(argument, default=6)] isize, #[knuffel(property(name="k"), str)] u16, #[knuffel(children)] Vec<Simple>), Z, BetaTwo(Mixed), Gamma(Option<Simple>), HTTPThing(#[knuffel(argument, str)] Option<bool>) }
impl ToVal for RndE0 { fn to_val(&self) -> Val { match self { RndE0::Delta9(a0, a1, a2, a3) => Val::St("Delta9", vec![a0.to_val(), a1.to_val(), a2.to_val(), a3.to_val()]), RndE0::Z => Val::St("Z", vec![]), RndE0::BetaTwo(a) => Val::St("BetaTwo", vec![a.to_val()]), RndE0::Gamma(a) => Val::St("Gamma", vec![a.to_val()]), RndE0::HTTPThing(a0) => Val::St("HTTPThing", vec![a0.to_val()]) } } }
pub static SH_RNDE0: Shape = Shape::Enum("RndE0", &[Variant { ident: "Delta9", name: "delta9", kind: VarKind::Tuple(&EV_73) }, Variant { ident: "Z", name: "z", kind: VarKind::Unit }, Variant { ident: "BetaTwo", name: "beta-two", kind: VarKind::Nested(NodeTy::Shape(&SH_MIXED)) }, Variant { ident: "Gamma", name: "gamma", kind: VarKind::NestedOpt(NodeTy::Shape(&SH_SIMPLE)) }, Variant { ident: "HTTPThing", name: "http-thing", kind: VarKind::Tuple(&EV_74) }]);

#[derive(knuffel::Decode)]

#[allow(dead_code)]
pub enum RndE1 { BetaTwo(Option<Ints>), Delta9 }
impl ToVal for RndE1 { fn to_val(&self) -> Val { match self { RndE1::BetaTwo(a) => Val::St("BetaTwo", vec![a.to_val()]), RndE1::Delta9 => Val::St("Delta9", vec![]) } } }
pub static SH_RNDE1: Shape = Shape::Enum("RndE1", &[Variant { ident: "BetaTwo", name: "beta-two", kind: VarKind::NestedOpt(NodeTy::Shape(&SH_INTS)) }, Variant { ident: "Delta9", name: "delta9", kind: VarKind::Unit }]);

pub static EV_75: Fields = Fields { n: 2, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: None, option: true, default: None, dm: Dm::Bytes(ByTy::Vec) }], var_args: None, props: &[], var_props: None, children: &[], var_children: Some((1, Coll::List, NodeTy::Shape(&SH_MIXED))), extra: &[] };

pub static EV_76: Fields = Fields { n: 2, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: None, option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Bool)) }, Arg { f: 1, name: None, option: false, default: None, dm: Dm::Normal(&Sc::Int("i8")) }], var_args: None, props: &[], var_props: None, children: &[], var_children: None, extra: &[] };

pub static EV_77: Fields = Fields { n: 2, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: None, option: false, default: Some(|| { let x: Box<u8> = Default::default(); x.to_val() }), dm: Dm::Normal(&Sc::Int("u8")) }], var_args: None, props: &[Prop { f: 1, kind: PropKind::Named { name: "k", option: false, default: None, dm: Dm::Normal(&Sc::P) } }], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]

#[allow(dead_code)]
pub enum RndE2 { Delta9(#[knuffel(argument, bytes)] Option<Vec<u8>>, #[knuffel(children)] Vec<Mixed>), HTTPThing(#[knuffel(argument)] Option<bool>, #[knuffel(argument)] i8), Z(#[knuffel(argument, default)] Box<u8>, #[knuffel(property(name="k"))] P) }
impl ToVal for RndE2 { fn to_val(&self) -> Val { match self { RndE2::Delta9(a0, a1) => Val::St("Delta9", vec![a0.to_val(), a1.to_val()]), RndE2::HTTPThing(a0, a1) => Val::St("HTTPThing", vec![a0.to_val(), a1.to_val()]), RndE2::Z(a0, a1) => Val::St("Z", vec![a0.to_val(), a1.to_val()]) } } }
pub static SH_RNDE2: Shape = Shape::Enum("RndE2", &[Variant { ident: "Delta9", name: "delta9", kind: VarKind::Tuple(&EV_75) }, Variant { ident: "HTTPThing", name: "http-thing", kind: VarKind::Tuple(&EV_76) }, Variant { ident: "Z", name: "z", kind: VarKind::Tuple(&EV_77) }]);

pub static EV_78: Fields = Fields { n: 3, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: None, option: false, default: None, dm: Dm::Bytes(ByTy::Vec) }, Arg { f: 1, name: None, option: true, default: None, dm: Dm::Str(StrTy::Ps) }], var_args: None, props: &[], var_props: None, children: &[], var_children: Some((2, Coll::List, NodeTy::Shape(&SH_DFLT))), extra: &[] };

pub static EV_79: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: None, option: true, default: None, dm: Dm::Str(StrTy::Text) }, Arg { f: 1, name: None, option: true, default: None, dm: Dm::Bytes(ByTy::Pb) }], var_args: None, props: &[Prop { f: 2, kind: PropKind::Named { name: "k", option: false, default: Some(|| { let x: Rc<P> = Default::default(); x.to_val() }), dm: Dm::Normal(&Sc::P) } }], var_props: None, children: &[], var_children: Some((3, Coll::List, NodeTy::Shape(&SH_TEXTS))), extra: &[] };

#[derive(knuffel::Decode)]

#[allow(dead_code)]
pub enum RndE3 { Gamma(#[knuffel(argument, bytes)] Vec<u8>, #[knuffel(argument, str)] Option<Ps>, #[knuffel(children)] Vec<Dflt>), Delta9(#[knuffel(argument, str)] Option<String>, #[knuffel(argument, bytes)] Option<Pb>, #[knuffel(property(name="k"), default)] Rc<P>, #[knuffel(children)] Vec<Texts>) }
impl ToVal for RndE3 { fn to_val(&self) -> Val { match self { RndE3::Gamma(a0, a1, a2) => Val::St("Gamma", vec![a0.to_val(), a1.to_val(), a2.to_val()]), RndE3::Delta9(a0, a1, a2, a3) => Val::St("Delta9", vec![a0.to_val(), a1.to_val(), a2.to_val(), a3.to_val()]) } } }
pub static SH_RNDE3: Shape = Shape::Enum("RndE3", &[Variant { ident: "Gamma", name: "gamma", kind: VarKind::Tuple(&EV_78) }, Variant { ident: "Delta9", name: "delta9", kind: VarKind::Tuple(&EV_79) }]);

pub static EV_80: Fields = Fields { n: 2, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: None, option: true, default: None, dm: Dm::Str(StrTy::Char) }], var_args: None, props: &[Prop { f: 1, kind: PropKind::Named { name: "k", option: false, default: None, dm: Dm::Str(StrTy::Text) } }], var_props: None, children: &[], var_children: None, extra: &[] };

#[derive(knuffel::Decode)]

#[allow(dead_code)]
pub enum RndE4 { Z(#[knuffel(argument, str)] Option<char>, #[knuffel(property(name="k"), str)] String), HTTPThing(Option<Pn>) }
impl ToVal for RndE4 { fn to_val(&self) -> Val { match self { RndE4::Z(a0, a1) => Val::St("Z", vec![a0.to_val(), a1.to_val()]), RndE4::HTTPThing(a) => Val::St("HTTPThing", vec![a.to_val()]) } } }
pub static SH_RNDE4: Shape = Shape::Enum("RndE4", &[Variant { ident: "Z", name: "z", kind: VarKind::Tuple(&EV_80) }, Variant { ident: "HTTPThing", name: "http-thing", kind: VarKind::NestedOpt(NodeTy::Probe) }]);

pub static EV_81: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: None, option: false, default: Some(|| { let x: String = "d".into(); x.to_val() }), dm: Dm::Normal(&Sc::Text("String")) }, Arg { f: 1, name: None, option: false, default: None, dm: Dm::Normal(&Sc::Text("String")) }], var_args: None, props: &[Prop { f: 2, kind: PropKind::Named { name: "k", option: false, default: None, dm: Dm::Normal(&Sc::Int("i32")) } }], var_props: None, children: &[], var_children: Some((3, Coll::List, NodeTy::Shape(&SH_FLAGS))), extra: &[] };

pub static EV_82: Fields = Fields { n: 4, spans: &[], node_names: &[], type_names: &[], args: &[Arg { f: 0, name: None, option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u8"))) }, Arg { f: 1, name: None, option: false, default: None, dm: Dm::Str(StrTy::Text) }], var_args: None, props: &[Prop { f: 2, kind: PropKind::Named { name: "k", option: true, default: None, dm: Dm::Normal(&Sc::Opt(&Sc::Int("u8"))) } }], var_props: None, children: &[], var_children: Some((3, Coll::List, NodeTy::Shape(&SH_BYTESMODE))), extra: &[] };

#[derive(knuffel::Decode)]

#[allow(dead_code)]
pub enum RndE5 { Delta9(Mixed), Gamma(#[knuffel(argument, default="d".into())] String, #[knuffel(argument)] String, #[knuffel(property(name="k"))] i32, #[knuffel(children)] Vec<Flags>), Alpha(#[knuffel(argument)] Option<Box<u8>>, #[knuffel(argument, str)] String, #[knuffel(property(name="k"))] Option<Box<u8>>, #[knuffel(children)] Vec<BytesMode>) }
impl ToVal for RndE5 { fn to_val(&self) -> Val { match self { RndE5::Delta9(a) => Val::St("Delta9", vec![a.to_val()]), RndE5::Gamma(a0, a1, a2, a3) => Val::St("Gamma", vec![a0.to_val(), a1.to_val(), a2.to_val(), a3.to_val()]), RndE5::Alpha(a0, a1, a2, a3) => Val::St("Alpha", vec![a0.to_val(), a1.to_val(), a2.to_val(), a3.to_val()]) } } }
pub static SH_RNDE5: Shape = Shape::Enum("RndE5", &[Variant { ident: "Delta9", name: "delta9", kind: VarKind::Nested(NodeTy::Shape(&SH_MIXED)) }, Variant { ident: "Gamma", name: "gamma", kind: VarKind::Tuple(&EV_81) }, Variant { ident: "Alpha", name: "alpha", kind: VarKind::Tuple(&EV_82) }]);

pub static CATALOG: &[Entry] = &[
    Entry { name: "Empty", shape: &SH_EMPTY, doc: true, lines: true, pure: true },
    Entry { name: "NoFields", shape: &SH_NOFIELDS, doc: true, lines: false, pure: true },
    Entry { name: "OneArg", shape: &SH_ONEARG, doc: false, lines: true, pure: true },
    Entry { name: "Ints", shape: &SH_INTS, doc: false, lines: false, pure: true },
    Entry { name: "Ints2", shape: &SH_INTS2, doc: false, lines: true, pure: true },
    Entry { name: "Floats", shape: &SH_FLOATS, doc: false, lines: false, pure: true },
    Entry { name: "Texts", shape: &SH_TEXTS, doc: false, lines: true, pure: true },
    Entry { name: "Enums", shape: &SH_ENUMS, doc: false, lines: false, pure: true },
    Entry { name: "OptArgs", shape: &SH_OPTARGS, doc: false, lines: true, pure: true },
    Entry { name: "ReqAfterOpt", shape: &SH_REQAFTEROPT, doc: false, lines: false, pure: true },
    Entry { name: "VarArgs", shape: &SH_VARARGS, doc: false, lines: true, pure: true },
    Entry { name: "SetArgs", shape: &SH_SETARGS, doc: false, lines: false, pure: true },
    Entry { name: "DequeArgs", shape: &SH_DEQUEARGS, doc: false, lines: true, pure: true },
    Entry { name: "BoxArgs", shape: &SH_BOXARGS, doc: false, lines: false, pure: true },
    Entry { name: "StrMode", shape: &SH_STRMODE, doc: false, lines: true, pure: false },
    Entry { name: "StrVar", shape: &SH_STRVAR, doc: false, lines: false, pure: false },
    Entry { name: "BytesMode", shape: &SH_BYTESMODE, doc: false, lines: true, pure: false },
    Entry { name: "BytesVar", shape: &SH_BYTESVAR, doc: false, lines: false, pure: false },
    Entry { name: "PropNames", shape: &SH_PROPNAMES, doc: false, lines: true, pure: true },
    Entry { name: "VarProps", shape: &SH_VARPROPS, doc: false, lines: false, pure: true },
    Entry { name: "VarPropsPairs", shape: &SH_VARPROPSPAIRS, doc: false, lines: true, pure: false },
    Entry { name: "VarPropsNum", shape: &SH_VARPROPSNUM, doc: false, lines: false, pure: true },
    Entry { name: "OptProps", shape: &SH_OPTPROPS, doc: false, lines: true, pure: false },
    Entry { name: "Flags", shape: &SH_FLAGS, doc: false, lines: false, pure: true },
    Entry { name: "Kids", shape: &SH_KIDS, doc: true, lines: true, pure: false },
    Entry { name: "KidsBoxed", shape: &SH_KIDSBOXED, doc: true, lines: false, pure: false },
    Entry { name: "Dflt", shape: &SH_DFLT, doc: false, lines: true, pure: true },
    Entry { name: "KidsDefault", shape: &SH_KIDSDEFAULT, doc: true, lines: false, pure: true },
    Entry { name: "Multi", shape: &SH_MULTI, doc: true, lines: true, pure: false },
    Entry { name: "MultiOpt", shape: &SH_MULTIOPT, doc: false, lines: false, pure: false },
    Entry { name: "MultiDef", shape: &SH_MULTIDEF, doc: true, lines: true, pure: true },
    Entry { name: "CatchAll", shape: &SH_CATCHALL, doc: true, lines: false, pure: false },
    Entry { name: "CatchAll2", shape: &SH_CATCHALL2, doc: true, lines: true, pure: true },
    Entry { name: "UnwrapArg", shape: &SH_UNWRAPARG, doc: true, lines: false, pure: true },
    Entry { name: "UnwrapProp", shape: &SH_UNWRAPPROP, doc: true, lines: true, pure: true },
    Entry { name: "UnwrapKid", shape: &SH_UNWRAPKID, doc: true, lines: false, pure: false },
    Entry { name: "UnwrapDeep", shape: &SH_UNWRAPDEEP, doc: true, lines: true, pure: false },
    Entry { name: "UnwrapModes", shape: &SH_UNWRAPMODES, doc: true, lines: false, pure: false },
    Entry { name: "UnwrapMulti", shape: &SH_UNWRAPMULTI, doc: true, lines: true, pure: true },
    Entry { name: "UnwrapBool", shape: &SH_UNWRAPBOOL, doc: true, lines: false, pure: true },
    Entry { name: "Named", shape: &SH_NAMED, doc: false, lines: true, pure: false },
    Entry { name: "Named2", shape: &SH_NAMED2, doc: false, lines: false, pure: false },
    Entry { name: "NameNum", shape: &SH_NAMENUM, doc: false, lines: true, pure: false },
    Entry { name: "SpanScal", shape: &SH_SPANSCAL, doc: false, lines: false, pure: false },
    Entry { name: "AstVals", shape: &SH_ASTVALS, doc: false, lines: false, pure: true },
    Entry { name: "AstKids", shape: &SH_ASTKIDS, doc: true, lines: false, pure: true },
    Entry { name: "Wrapped", shape: &SH_WRAPPED, doc: false, lines: true, pure: false },
    Entry { name: "Probes", shape: &SH_PROBES, doc: false, lines: false, pure: false },
    Entry { name: "Probes2", shape: &SH_PROBES2, doc: false, lines: true, pure: false },
    Entry { name: "Probes3", shape: &SH_PROBES3, doc: false, lines: false, pure: false },
    Entry { name: "PartProps", shape: &SH_PARTPROPS, doc: false, lines: true, pure: false },
    Entry { name: "PartKids", shape: &SH_PARTKIDS, doc: true, lines: false, pure: false },
    Entry { name: "PartNest", shape: &SH_PARTNEST, doc: false, lines: true, pure: false },
    Entry { name: "PartNestK", shape: &SH_PARTNESTK, doc: true, lines: false, pure: false },
    Entry { name: "FlatP", shape: &SH_FLATP, doc: false, lines: true, pure: false },
    Entry { name: "FlatP2", shape: &SH_FLATP2, doc: false, lines: false, pure: false },
    Entry { name: "FlatP3", shape: &SH_FLATP3, doc: false, lines: true, pure: false },
    Entry { name: "FlatK", shape: &SH_FLATK, doc: false, lines: false, pure: false },
    Entry { name: "FlatK2", shape: &SH_FLATK2, doc: true, lines: true, pure: false },
    Entry { name: "FlatK3", shape: &SH_FLATK3, doc: true, lines: false, pure: false },
    Entry { name: "FlatBoth", shape: &SH_FLATBOTH, doc: false, lines: true, pure: false },
    Entry { name: "Extra", shape: &SH_EXTRA, doc: false, lines: false, pure: true },
    Entry { name: "Tup1", shape: &SH_TUP1, doc: false, lines: true, pure: true },
    Entry { name: "Tup3", shape: &SH_TUP3, doc: false, lines: false, pure: false },
    Entry { name: "TupX", shape: &SH_TUPX, doc: false, lines: true, pure: false },
    Entry { name: "TupU", shape: &SH_TUPU, doc: true, lines: false, pure: true },
    Entry { name: "TupM", shape: &SH_TUPM, doc: true, lines: true, pure: false },
    Entry { name: "New1", shape: &SH_NEW1, doc: false, lines: false, pure: false },
    Entry { name: "NewOpt", shape: &SH_NEWOPT, doc: false, lines: true, pure: true },
    Entry { name: "NewProbe", shape: &SH_NEWPROBE, doc: false, lines: false, pure: false },
    Entry { name: "Simple", shape: &SH_SIMPLE, doc: false, lines: true, pure: true },
    Entry { name: "Mixed", shape: &SH_MIXED, doc: false, lines: false, pure: false },
    Entry { name: "Three", shape: &SH_THREE, doc: false, lines: true, pure: false },
    Entry { name: "One", shape: &SH_ONE, doc: false, lines: false, pure: false },
    Entry { name: "Tree", shape: &SH_TREE, doc: false, lines: true, pure: true },
    Entry { name: "TreeBox", shape: &SH_TREEBOX, doc: false, lines: false, pure: false },
    Entry { name: "Doc1", shape: &SH_DOC1, doc: true, lines: true, pure: true },
    Entry { name: "Doc2", shape: &SH_DOC2, doc: true, lines: false, pure: false },
    Entry { name: "Doc3", shape: &SH_DOC3, doc: true, lines: true, pure: false },
    Entry { name: "Doc4", shape: &SH_DOC4, doc: true, lines: false, pure: false },
    Entry { name: "Doc5", shape: &SH_DOC5, doc: true, lines: true, pure: false },
    Entry { name: "Doc6", shape: &SH_DOC6, doc: true, lines: false, pure: false },
    Entry { name: "OptLists", shape: &SH_OPTLISTS, doc: false, lines: true, pure: false },
    Entry { name: "Big", shape: &SH_BIG, doc: false, lines: false, pure: false },
    Entry { name: "Dozen", shape: &SH_DOZEN, doc: false, lines: true, pure: false },
    Entry { name: "RawWrap", shape: &SH_RAWWRAP, doc: false, lines: false, pure: false },
    Entry { name: "Needs", shape: &SH_NEEDS, doc: false, lines: false, pure: false },
    Entry { name: "ValWrap", shape: &SH_VALWRAP, doc: false, lines: false, pure: true },
    Entry { name: "RawSpan", shape: &SH_RAWSPAN, doc: false, lines: false, pure: false },
    Entry { name: "OptNest", shape: &SH_OPTNEST, doc: false, lines: false, pure: false },
    Entry { name: "Rnd0", shape: &SH_RND0, doc: false, lines: false, pure: false },
    Entry { name: "Rnd1", shape: &SH_RND1, doc: false, lines: false, pure: false },
    Entry { name: "Rnd2", shape: &SH_RND2, doc: false, lines: true, pure: false },
    Entry { name: "Rnd3", shape: &SH_RND3, doc: false, lines: false, pure: false },
    Entry { name: "Rnd4", shape: &SH_RND4, doc: true, lines: false, pure: true },
    Entry { name: "Rnd5", shape: &SH_RND5, doc: false, lines: false, pure: false },
    Entry { name: "Rnd6", shape: &SH_RND6, doc: false, lines: true, pure: false },
    Entry { name: "Rnd7", shape: &SH_RND7, doc: false, lines: false, pure: false },
    Entry { name: "Rnd8", shape: &SH_RND8, doc: false, lines: false, pure: false },
    Entry { name: "Rnd9", shape: &SH_RND9, doc: true, lines: false, pure: false },
    Entry { name: "Rnd10", shape: &SH_RND10, doc: false, lines: true, pure: false },
    Entry { name: "Rnd11", shape: &SH_RND11, doc: false, lines: false, pure: false },
    Entry { name: "Rnd12", shape: &SH_RND12, doc: false, lines: false, pure: false },
    Entry { name: "Rnd13", shape: &SH_RND13, doc: false, lines: false, pure: false },
    Entry { name: "Rnd14", shape: &SH_RND14, doc: true, lines: true, pure: true },
    Entry { name: "Rnd15", shape: &SH_RND15, doc: false, lines: false, pure: false },
    Entry { name: "Rnd16", shape: &SH_RND16, doc: false, lines: false, pure: false },
    Entry { name: "Rnd17", shape: &SH_RND17, doc: false, lines: false, pure: false },
    Entry { name: "Rnd18", shape: &SH_RND18, doc: false, lines: true, pure: false },
    Entry { name: "Rnd19", shape: &SH_RND19, doc: true, lines: false, pure: true },
    Entry { name: "Rnd20", shape: &SH_RND20, doc: false, lines: false, pure: false },
    Entry { name: "Rnd21", shape: &SH_RND21, doc: false, lines: false, pure: false },
    Entry { name: "Rnd22", shape: &SH_RND22, doc: false, lines: true, pure: true },
    Entry { name: "Rnd23", shape: &SH_RND23, doc: false, lines: false, pure: false },
    Entry { name: "Rnd24", shape: &SH_RND24, doc: true, lines: false, pure: true },
    Entry { name: "Rnd25", shape: &SH_RND25, doc: false, lines: false, pure: false },
    Entry { name: "Rnd26", shape: &SH_RND26, doc: false, lines: true, pure: false },
    Entry { name: "Rnd27", shape: &SH_RND27, doc: false, lines: false, pure: false },
    Entry { name: "Rnd28", shape: &SH_RND28, doc: false, lines: false, pure: false },
    Entry { name: "Rnd29", shape: &SH_RND29, doc: true, lines: false, pure: false },
    Entry { name: "Rnd30", shape: &SH_RND30, doc: false, lines: true, pure: false },
    Entry { name: "Rnd31", shape: &SH_RND31, doc: false, lines: false, pure: false },
    Entry { name: "Rnd32", shape: &SH_RND32, doc: false, lines: false, pure: false },
    Entry { name: "Rnd33", shape: &SH_RND33, doc: false, lines: false, pure: false },
    Entry { name: "Rnd34", shape: &SH_RND34, doc: true, lines: true, pure: false },
    Entry { name: "Rnd35", shape: &SH_RND35, doc: false, lines: false, pure: false },
    Entry { name: "Rnd36", shape: &SH_RND36, doc: false, lines: false, pure: false },
    Entry { name: "Rnd37", shape: &SH_RND37, doc: false, lines: false, pure: false },
    Entry { name: "Rnd38", shape: &SH_RND38, doc: false, lines: true, pure: false },
    Entry { name: "Rnd39", shape: &SH_RND39, doc: true, lines: false, pure: true },
    Entry { name: "Rnd40", shape: &SH_RND40, doc: false, lines: false, pure: false },
    Entry { name: "Rnd41", shape: &SH_RND41, doc: false, lines: false, pure: false },
    Entry { name: "Rnd42", shape: &SH_RND42, doc: false, lines: true, pure: false },
    Entry { name: "Rnd43", shape: &SH_RND43, doc: false, lines: false, pure: false },
    Entry { name: "RndE0", shape: &SH_RNDE0, doc: false, lines: false, pure: false },
    Entry { name: "RndE1", shape: &SH_RNDE1, doc: false, lines: false, pure: true },
    Entry { name: "RndE2", shape: &SH_RNDE2, doc: false, lines: true, pure: false },
    Entry { name: "RndE3", shape: &SH_RNDE3, doc: false, lines: false, pure: false },
    Entry { name: "RndE4", shape: &SH_RNDE4, doc: false, lines: false, pure: false },
    Entry { name: "RndE5", shape: &SH_RNDE5, doc: false, lines: false, pure: false },
];

pub fn list(id: usize, file: &str, text: &str, f: SetCtx<Span>) -> Result<Val, Error> {
    match id {
        0 => list_as::<Empty, Span>(file, text, f),
        1 => list_as::<NoFields, Span>(file, text, f),
        2 => list_as::<OneArg, Span>(file, text, f),
        3 => list_as::<Ints, Span>(file, text, f),
        4 => list_as::<Ints2, Span>(file, text, f),
        5 => list_as::<Floats, Span>(file, text, f),
        6 => list_as::<Texts, Span>(file, text, f),
        7 => list_as::<Enums, Span>(file, text, f),
        8 => list_as::<OptArgs, Span>(file, text, f),
        9 => list_as::<ReqAfterOpt, Span>(file, text, f),
        10 => list_as::<VarArgs, Span>(file, text, f),
        11 => list_as::<SetArgs, Span>(file, text, f),
        12 => list_as::<DequeArgs, Span>(file, text, f),
        13 => list_as::<BoxArgs, Span>(file, text, f),
        14 => list_as::<StrMode, Span>(file, text, f),
        15 => list_as::<StrVar, Span>(file, text, f),
        16 => list_as::<BytesMode, Span>(file, text, f),
        17 => list_as::<BytesVar, Span>(file, text, f),
        18 => list_as::<PropNames, Span>(file, text, f),
        19 => list_as::<VarProps, Span>(file, text, f),
        20 => list_as::<VarPropsPairs, Span>(file, text, f),
        21 => list_as::<VarPropsNum, Span>(file, text, f),
        22 => list_as::<OptProps, Span>(file, text, f),
        23 => list_as::<Flags, Span>(file, text, f),
        24 => list_as::<Kids, Span>(file, text, f),
        25 => list_as::<KidsBoxed, Span>(file, text, f),
        26 => list_as::<Dflt, Span>(file, text, f),
        27 => list_as::<KidsDefault, Span>(file, text, f),
        28 => list_as::<Multi, Span>(file, text, f),
        29 => list_as::<MultiOpt, Span>(file, text, f),
        30 => list_as::<MultiDef, Span>(file, text, f),
        31 => list_as::<CatchAll, Span>(file, text, f),
        32 => list_as::<CatchAll2, Span>(file, text, f),
        33 => list_as::<UnwrapArg, Span>(file, text, f),
        34 => list_as::<UnwrapProp, Span>(file, text, f),
        35 => list_as::<UnwrapKid, Span>(file, text, f),
        36 => list_as::<UnwrapDeep, Span>(file, text, f),
        37 => list_as::<UnwrapModes, Span>(file, text, f),
        38 => list_as::<UnwrapMulti, Span>(file, text, f),
        39 => list_as::<UnwrapBool, Span>(file, text, f),
        40 => list_as::<Named, Span>(file, text, f),
        41 => list_as::<Named2, Span>(file, text, f),
        42 => list_as::<NameNum, Span>(file, text, f),
        43 => list_as::<SpanScal, Span>(file, text, f),
        44 => list_as::<AstVals, Span>(file, text, f),
        45 => list_as::<AstKids, Span>(file, text, f),
        46 => list_as::<Wrapped, Span>(file, text, f),
        47 => list_as::<Probes, Span>(file, text, f),
        48 => list_as::<Probes2, Span>(file, text, f),
        49 => list_as::<Probes3, Span>(file, text, f),
        50 => list_as::<PartProps, Span>(file, text, f),
        51 => list_as::<PartKids, Span>(file, text, f),
        52 => list_as::<PartNest, Span>(file, text, f),
        53 => list_as::<PartNestK, Span>(file, text, f),
        54 => list_as::<FlatP, Span>(file, text, f),
        55 => list_as::<FlatP2, Span>(file, text, f),
        56 => list_as::<FlatP3, Span>(file, text, f),
        57 => list_as::<FlatK, Span>(file, text, f),
        58 => list_as::<FlatK2, Span>(file, text, f),
        59 => list_as::<FlatK3, Span>(file, text, f),
        60 => list_as::<FlatBoth, Span>(file, text, f),
        61 => list_as::<Extra, Span>(file, text, f),
        62 => list_as::<Tup1, Span>(file, text, f),
        63 => list_as::<Tup3, Span>(file, text, f),
        64 => list_as::<TupX, Span>(file, text, f),
        65 => list_as::<TupU, Span>(file, text, f),
        66 => list_as::<TupM, Span>(file, text, f),
        67 => list_as::<New1, Span>(file, text, f),
        68 => list_as::<NewOpt, Span>(file, text, f),
        69 => list_as::<NewProbe, Span>(file, text, f),
        70 => list_as::<Simple, Span>(file, text, f),
        71 => list_as::<Mixed, Span>(file, text, f),
        72 => list_as::<Three, Span>(file, text, f),
        73 => list_as::<One, Span>(file, text, f),
        74 => list_as::<Tree, Span>(file, text, f),
        75 => list_as::<TreeBox, Span>(file, text, f),
        76 => list_as::<Doc1, Span>(file, text, f),
        77 => list_as::<Doc2, Span>(file, text, f),
        78 => list_as::<Doc3, Span>(file, text, f),
        79 => list_as::<Doc4, Span>(file, text, f),
        80 => list_as::<Doc5, Span>(file, text, f),
        81 => list_as::<Doc6, Span>(file, text, f),
        82 => list_as::<OptLists, Span>(file, text, f),
        83 => list_as::<Big, Span>(file, text, f),
        84 => list_as::<Dozen, Span>(file, text, f),
        85 => list_as::<RawWrap, Span>(file, text, f),
        86 => list_as::<Needs, Span>(file, text, f),
        87 => list_as::<ValWrap, Span>(file, text, f),
        88 => list_as::<RawSpan, Span>(file, text, f),
        89 => list_as::<OptNest, Span>(file, text, f),
        90 => list_as::<Rnd0, Span>(file, text, f),
        91 => list_as::<Rnd1, Span>(file, text, f),
        92 => list_as::<Rnd2, Span>(file, text, f),
        93 => list_as::<Rnd3, Span>(file, text, f),
        94 => list_as::<Rnd4, Span>(file, text, f),
        95 => list_as::<Rnd5, Span>(file, text, f),
        96 => list_as::<Rnd6, Span>(file, text, f),
        97 => list_as::<Rnd7, Span>(file, text, f),
        98 => list_as::<Rnd8, Span>(file, text, f),
        99 => list_as::<Rnd9, Span>(file, text, f),
        100 => list_as::<Rnd10, Span>(file, text, f),
        101 => list_as::<Rnd11, Span>(file, text, f),
        102 => list_as::<Rnd12, Span>(file, text, f),
        103 => list_as::<Rnd13, Span>(file, text, f),
        104 => list_as::<Rnd14, Span>(file, text, f),
        105 => list_as::<Rnd15, Span>(file, text, f),
        106 => list_as::<Rnd16, Span>(file, text, f),
        107 => list_as::<Rnd17, Span>(file, text, f),
        108 => list_as::<Rnd18, Span>(file, text, f),
        109 => list_as::<Rnd19, Span>(file, text, f),
        110 => list_as::<Rnd20, Span>(file, text, f),
        111 => list_as::<Rnd21, Span>(file, text, f),
        112 => list_as::<Rnd22, Span>(file, text, f),
        113 => list_as::<Rnd23, Span>(file, text, f),
        114 => list_as::<Rnd24, Span>(file, text, f),
        115 => list_as::<Rnd25, Span>(file, text, f),
        116 => list_as::<Rnd26, Span>(file, text, f),
        117 => list_as::<Rnd27, Span>(file, text, f),
        118 => list_as::<Rnd28, Span>(file, text, f),
        119 => list_as::<Rnd29, Span>(file, text, f),
        120 => list_as::<Rnd30, Span>(file, text, f),
        121 => list_as::<Rnd31, Span>(file, text, f),
        122 => list_as::<Rnd32, Span>(file, text, f),
        123 => list_as::<Rnd33, Span>(file, text, f),
        124 => list_as::<Rnd34, Span>(file, text, f),
        125 => list_as::<Rnd35, Span>(file, text, f),
        126 => list_as::<Rnd36, Span>(file, text, f),
        127 => list_as::<Rnd37, Span>(file, text, f),
        128 => list_as::<Rnd38, Span>(file, text, f),
        129 => list_as::<Rnd39, Span>(file, text, f),
        130 => list_as::<Rnd40, Span>(file, text, f),
        131 => list_as::<Rnd41, Span>(file, text, f),
        132 => list_as::<Rnd42, Span>(file, text, f),
        133 => list_as::<Rnd43, Span>(file, text, f),
        134 => list_as::<RndE0, Span>(file, text, f),
        135 => list_as::<RndE1, Span>(file, text, f),
        136 => list_as::<RndE2, Span>(file, text, f),
        137 => list_as::<RndE3, Span>(file, text, f),
        138 => list_as::<RndE4, Span>(file, text, f),
        139 => list_as::<RndE5, Span>(file, text, f),
        _ => unreachable!(),
    }
}

pub fn list_lines(id: usize, file: &str, text: &str, f: SetCtx<LineSpan>) -> Result<Val, Error> {
    match id {
        0 => list_as::<Empty, LineSpan>(file, text, f),
        2 => list_as::<OneArg, LineSpan>(file, text, f),
        4 => list_as::<Ints2, LineSpan>(file, text, f),
        6 => list_as::<Texts, LineSpan>(file, text, f),
        8 => list_as::<OptArgs, LineSpan>(file, text, f),
        10 => list_as::<VarArgs, LineSpan>(file, text, f),
        12 => list_as::<DequeArgs, LineSpan>(file, text, f),
        14 => list_as::<StrMode, LineSpan>(file, text, f),
        16 => list_as::<BytesMode, LineSpan>(file, text, f),
        18 => list_as::<PropNames, LineSpan>(file, text, f),
        20 => list_as::<VarPropsPairs, LineSpan>(file, text, f),
        22 => list_as::<OptProps, LineSpan>(file, text, f),
        24 => list_as::<Kids, LineSpan>(file, text, f),
        26 => list_as::<Dflt, LineSpan>(file, text, f),
        28 => list_as::<Multi, LineSpan>(file, text, f),
        30 => list_as::<MultiDef, LineSpan>(file, text, f),
        32 => list_as::<CatchAll2, LineSpan>(file, text, f),
        34 => list_as::<UnwrapProp, LineSpan>(file, text, f),
        36 => list_as::<UnwrapDeep, LineSpan>(file, text, f),
        38 => list_as::<UnwrapMulti, LineSpan>(file, text, f),
        40 => list_as::<Named, LineSpan>(file, text, f),
        42 => list_as::<NameNum, LineSpan>(file, text, f),
        46 => list_as::<Wrapped, LineSpan>(file, text, f),
        48 => list_as::<Probes2, LineSpan>(file, text, f),
        50 => list_as::<PartProps, LineSpan>(file, text, f),
        52 => list_as::<PartNest, LineSpan>(file, text, f),
        54 => list_as::<FlatP, LineSpan>(file, text, f),
        56 => list_as::<FlatP3, LineSpan>(file, text, f),
        58 => list_as::<FlatK2, LineSpan>(file, text, f),
        60 => list_as::<FlatBoth, LineSpan>(file, text, f),
        62 => list_as::<Tup1, LineSpan>(file, text, f),
        64 => list_as::<TupX, LineSpan>(file, text, f),
        66 => list_as::<TupM, LineSpan>(file, text, f),
        68 => list_as::<NewOpt, LineSpan>(file, text, f),
        70 => list_as::<Simple, LineSpan>(file, text, f),
        72 => list_as::<Three, LineSpan>(file, text, f),
        74 => list_as::<Tree, LineSpan>(file, text, f),
        76 => list_as::<Doc1, LineSpan>(file, text, f),
        78 => list_as::<Doc3, LineSpan>(file, text, f),
        80 => list_as::<Doc5, LineSpan>(file, text, f),
        82 => list_as::<OptLists, LineSpan>(file, text, f),
        84 => list_as::<Dozen, LineSpan>(file, text, f),
        92 => list_as::<Rnd2, LineSpan>(file, text, f),
        96 => list_as::<Rnd6, LineSpan>(file, text, f),
        100 => list_as::<Rnd10, LineSpan>(file, text, f),
        104 => list_as::<Rnd14, LineSpan>(file, text, f),
        108 => list_as::<Rnd18, LineSpan>(file, text, f),
        112 => list_as::<Rnd22, LineSpan>(file, text, f),
        116 => list_as::<Rnd26, LineSpan>(file, text, f),
        120 => list_as::<Rnd30, LineSpan>(file, text, f),
        124 => list_as::<Rnd34, LineSpan>(file, text, f),
        128 => list_as::<Rnd38, LineSpan>(file, text, f),
        132 => list_as::<Rnd42, LineSpan>(file, text, f),
        136 => list_as::<RndE2, LineSpan>(file, text, f),
        _ => unreachable!(),
    }
}

pub fn doc(id: usize, file: &str, text: &str, f: SetCtx<Span>) -> Result<Val, Error> {
    match id {
        0 => doc_as::<Empty, Span>(file, text, f),
        1 => doc_as::<NoFields, Span>(file, text, f),
        24 => doc_as::<Kids, Span>(file, text, f),
        25 => doc_as::<KidsBoxed, Span>(file, text, f),
        27 => doc_as::<KidsDefault, Span>(file, text, f),
        28 => doc_as::<Multi, Span>(file, text, f),
        30 => doc_as::<MultiDef, Span>(file, text, f),
        31 => doc_as::<CatchAll, Span>(file, text, f),
        32 => doc_as::<CatchAll2, Span>(file, text, f),
        33 => doc_as::<UnwrapArg, Span>(file, text, f),
        34 => doc_as::<UnwrapProp, Span>(file, text, f),
        35 => doc_as::<UnwrapKid, Span>(file, text, f),
        36 => doc_as::<UnwrapDeep, Span>(file, text, f),
        37 => doc_as::<UnwrapModes, Span>(file, text, f),
        38 => doc_as::<UnwrapMulti, Span>(file, text, f),
        39 => doc_as::<UnwrapBool, Span>(file, text, f),
        45 => doc_as::<AstKids, Span>(file, text, f),
        51 => doc_as::<PartKids, Span>(file, text, f),
        53 => doc_as::<PartNestK, Span>(file, text, f),
        58 => doc_as::<FlatK2, Span>(file, text, f),
        59 => doc_as::<FlatK3, Span>(file, text, f),
        65 => doc_as::<TupU, Span>(file, text, f),
        66 => doc_as::<TupM, Span>(file, text, f),
        76 => doc_as::<Doc1, Span>(file, text, f),
        77 => doc_as::<Doc2, Span>(file, text, f),
        78 => doc_as::<Doc3, Span>(file, text, f),
        79 => doc_as::<Doc4, Span>(file, text, f),
        80 => doc_as::<Doc5, Span>(file, text, f),
        81 => doc_as::<Doc6, Span>(file, text, f),
        94 => doc_as::<Rnd4, Span>(file, text, f),
        99 => doc_as::<Rnd9, Span>(file, text, f),
        104 => doc_as::<Rnd14, Span>(file, text, f),
        109 => doc_as::<Rnd19, Span>(file, text, f),
        114 => doc_as::<Rnd24, Span>(file, text, f),
        119 => doc_as::<Rnd29, Span>(file, text, f),
        124 => doc_as::<Rnd34, Span>(file, text, f),
        129 => doc_as::<Rnd39, Span>(file, text, f),
        _ => unreachable!(),
    }
}

pub fn node(id: usize, n: &SpannedNode<Span>) -> Result<Val, Vec<DecodeError<Span>>> {
    match id {
        0 => node_as::<Empty>(n),
        1 => node_as::<NoFields>(n),
        2 => node_as::<OneArg>(n),
        3 => node_as::<Ints>(n),
        4 => node_as::<Ints2>(n),
        5 => node_as::<Floats>(n),
        6 => node_as::<Texts>(n),
        7 => node_as::<Enums>(n),
        8 => node_as::<OptArgs>(n),
        9 => node_as::<ReqAfterOpt>(n),
        10 => node_as::<VarArgs>(n),
        11 => node_as::<SetArgs>(n),
        12 => node_as::<DequeArgs>(n),
        13 => node_as::<BoxArgs>(n),
        14 => node_as::<StrMode>(n),
        15 => node_as::<StrVar>(n),
        16 => node_as::<BytesMode>(n),
        17 => node_as::<BytesVar>(n),
        18 => node_as::<PropNames>(n),
        19 => node_as::<VarProps>(n),
        20 => node_as::<VarPropsPairs>(n),
        21 => node_as::<VarPropsNum>(n),
        22 => node_as::<OptProps>(n),
        23 => node_as::<Flags>(n),
        24 => node_as::<Kids>(n),
        25 => node_as::<KidsBoxed>(n),
        26 => node_as::<Dflt>(n),
        27 => node_as::<KidsDefault>(n),
        28 => node_as::<Multi>(n),
        29 => node_as::<MultiOpt>(n),
        30 => node_as::<MultiDef>(n),
        31 => node_as::<CatchAll>(n),
        32 => node_as::<CatchAll2>(n),
        33 => node_as::<UnwrapArg>(n),
        34 => node_as::<UnwrapProp>(n),
        35 => node_as::<UnwrapKid>(n),
        36 => node_as::<UnwrapDeep>(n),
        37 => node_as::<UnwrapModes>(n),
        38 => node_as::<UnwrapMulti>(n),
        39 => node_as::<UnwrapBool>(n),
        40 => node_as::<Named>(n),
        41 => node_as::<Named2>(n),
        42 => node_as::<NameNum>(n),
        43 => node_as::<SpanScal>(n),
        44 => node_as::<AstVals>(n),
        45 => node_as::<AstKids>(n),
        46 => node_as::<Wrapped>(n),
        47 => node_as::<Probes>(n),
        48 => node_as::<Probes2>(n),
        49 => node_as::<Probes3>(n),
        50 => node_as::<PartProps>(n),
        51 => node_as::<PartKids>(n),
        52 => node_as::<PartNest>(n),
        53 => node_as::<PartNestK>(n),
        54 => node_as::<FlatP>(n),
        55 => node_as::<FlatP2>(n),
        56 => node_as::<FlatP3>(n),
        57 => node_as::<FlatK>(n),
        58 => node_as::<FlatK2>(n),
        59 => node_as::<FlatK3>(n),
        60 => node_as::<FlatBoth>(n),
        61 => node_as::<Extra>(n),
        62 => node_as::<Tup1>(n),
        63 => node_as::<Tup3>(n),
        64 => node_as::<TupX>(n),
        65 => node_as::<TupU>(n),
        66 => node_as::<TupM>(n),
        67 => node_as::<New1>(n),
        68 => node_as::<NewOpt>(n),
        69 => node_as::<NewProbe>(n),
        70 => node_as::<Simple>(n),
        71 => node_as::<Mixed>(n),
        72 => node_as::<Three>(n),
        73 => node_as::<One>(n),
        74 => node_as::<Tree>(n),
        75 => node_as::<TreeBox>(n),
        76 => node_as::<Doc1>(n),
        77 => node_as::<Doc2>(n),
        78 => node_as::<Doc3>(n),
        79 => node_as::<Doc4>(n),
        80 => node_as::<Doc5>(n),
        81 => node_as::<Doc6>(n),
        82 => node_as::<OptLists>(n),
        83 => node_as::<Big>(n),
        84 => node_as::<Dozen>(n),
        85 => node_as::<RawWrap>(n),
        86 => node_as::<Needs>(n),
        87 => node_as::<ValWrap>(n),
        88 => node_as::<RawSpan>(n),
        89 => node_as::<OptNest>(n),
        90 => node_as::<Rnd0>(n),
        91 => node_as::<Rnd1>(n),
        92 => node_as::<Rnd2>(n),
        93 => node_as::<Rnd3>(n),
        94 => node_as::<Rnd4>(n),
        95 => node_as::<Rnd5>(n),
        96 => node_as::<Rnd6>(n),
        97 => node_as::<Rnd7>(n),
        98 => node_as::<Rnd8>(n),
        99 => node_as::<Rnd9>(n),
        100 => node_as::<Rnd10>(n),
        101 => node_as::<Rnd11>(n),
        102 => node_as::<Rnd12>(n),
        103 => node_as::<Rnd13>(n),
        104 => node_as::<Rnd14>(n),
        105 => node_as::<Rnd15>(n),
        106 => node_as::<Rnd16>(n),
        107 => node_as::<Rnd17>(n),
        108 => node_as::<Rnd18>(n),
        109 => node_as::<Rnd19>(n),
        110 => node_as::<Rnd20>(n),
        111 => node_as::<Rnd21>(n),
        112 => node_as::<Rnd22>(n),
        113 => node_as::<Rnd23>(n),
        114 => node_as::<Rnd24>(n),
        115 => node_as::<Rnd25>(n),
        116 => node_as::<Rnd26>(n),
        117 => node_as::<Rnd27>(n),
        118 => node_as::<Rnd28>(n),
        119 => node_as::<Rnd29>(n),
        120 => node_as::<Rnd30>(n),
        121 => node_as::<Rnd31>(n),
        122 => node_as::<Rnd32>(n),
        123 => node_as::<Rnd33>(n),
        124 => node_as::<Rnd34>(n),
        125 => node_as::<Rnd35>(n),
        126 => node_as::<Rnd36>(n),
        127 => node_as::<Rnd37>(n),
        128 => node_as::<Rnd38>(n),
        129 => node_as::<Rnd39>(n),
        130 => node_as::<Rnd40>(n),
        131 => node_as::<Rnd41>(n),
        132 => node_as::<Rnd42>(n),
        133 => node_as::<Rnd43>(n),
        134 => node_as::<RndE0>(n),
        135 => node_as::<RndE1>(n),
        136 => node_as::<RndE2>(n),
        137 => node_as::<RndE3>(n),
        138 => node_as::<RndE4>(n),
        139 => node_as::<RndE5>(n),
        _ => unreachable!(),
    }
}
