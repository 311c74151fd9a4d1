//! One member of the fleet: a program linked with knuffel built with some of
//! its optional features.  Loads what it is given through everything the
//! library offers in this build and tells what it saw, line by line:
//!   NEEDS VARIES KEY PAYLOAD
//! NEEDS are the features an observation takes to be made at all, VARIES those
//! its payload may differ with.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::{Debug, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

use knuffel::ast::{BuiltinType, Document, Integer, Literal, Node, SpannedNode, TypeName, Value};
use knuffel::decode::{self, Context, Kind};
use knuffel::errors::{DecodeError, ExpectedType};
use knuffel::span::{LinePos, LineSpan, Span, Spanned};
use knuffel::traits::{DecodePartial, DecodeSpan, ErrorSpan};
use knuffel::{Decode, DecodeChildren, DecodeScalar};
use miette::Diagnostic;

pub const D: u8 = 1;
pub const B: u8 = 2;
pub const L: u8 = 4;
pub const M: u8 = 8;

// ------------------------------------------------------------------ seams ---

/// Allocator calls are reported to the simulator as steps.
static TICK: AtomicUsize = AtomicUsize::new(0);
struct Ticking;
fn tick(n: isize) {
    let f = TICK.load(Relaxed);
    if f != 0 { let f: extern "C" fn(isize) = unsafe { std::mem::transmute(f) }; f(n) }
}
unsafe impl GlobalAlloc for Ticking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { tick(l.size() as isize); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { tick(-(l.size() as isize)); System.dealloc(p, l) }
}
#[global_allocator]
static ALLOC: Ticking = Ticking;

#[no_mangle]
pub extern "C" fn fleet_init(t: extern "C" fn(isize)) -> u32 {
    std::panic::set_hook(Box::new(|_| {}));
    TICK.store(t as usize, Relaxed);
    (cfg!(feature = "derive") as u8 * D | cfg!(feature = "base64") as u8 * B | cfg!(feature = "lines") as u8 * L | cfg!(feature = "cbor") as u8 * M) as u32
}
type Tell = extern "C" fn(*mut u8, *const u8, usize);
/// op 0: a text; op 1: a snapshot
#[no_mangle]
pub extern "C" fn fleet_eval(op: u32, script: u64, p: *const u8, n: usize, tell: Tell, to: *mut u8) {
    let b = unsafe { std::slice::from_raw_parts(p, n) };
    let mut o = Obs { out: String::new(), script };
    match op {
        0 => o.text(std::str::from_utf8(b).unwrap()),
        _ => o.snapshot(b),
    }
    tell(to, o.out.as_ptr(), o.out.len());
}

struct Obs { out: String, script: u64 }
impl Obs {
    fn put(&mut self, needs: u8, varies: u8, key: &str, f: impl FnOnce() -> String) {
        let t = match catch_unwind(AssertUnwindSafe(f)) { Ok(t) => t, Err(_) => "PANIC".into() };
        writeln!(self.out, "{:x} {:x} {} {:?}", needs, varies, key, t).unwrap();
    }
}

// -------------------------------------------------------- what errors say ---

fn say(d: &dyn Diagnostic, src: &dyn miette::SourceCode, o: &mut String) {
    write!(o, "[{} code {:?} severity {:?} help {:?} url {:?}", d, d.code().map(|x| x.to_string()), d.severity(), d.help().map(|x| x.to_string()), d.url().map(|x| x.to_string())).unwrap();
    for l in d.labels().into_iter().flatten() {
        write!(o, " @{}+{} {:?}", l.offset(), l.len(), l.label()).unwrap();
        match src.read_span(l.inner(), 1, 1) {
            Ok(c) => write!(o, " in {:?}:{}:{} {:?}", c.name(), c.line(), c.column(), String::from_utf8_lossy(c.data())).unwrap(),
            Err(e) => write!(o, " {:?}", e).unwrap(),
        }
    }
    for r in d.related().into_iter().flatten() { say(r, src, o) }
    let mut e = d.source();
    while let Some(x) = e { write!(o, " because {}", x).unwrap(); e = x.source(); }
    o.push(']');
}
fn report(e: &knuffel::Error) -> String {
    let mut o = String::from("Err ");
    match Diagnostic::source_code(e) { Some(s) => say(e, s, &mut o), None => o.push_str("no source") }
    write!(o, "\n{:?}\n", e).unwrap();
    let _ = miette::NarratableReportHandler::new().render_report(&mut o, e);
    let _ = miette::JSONReportHandler::new().render_report(&mut o, e);
    o
}
fn errors<S: ErrorSpan>(l: &[DecodeError<S>]) -> String {
    let mut o = String::from("Err");
    for e in l {
        write!(o, " {{{}", e).unwrap();
        for l in e.labels().into_iter().flatten() { write!(o, " @{}+{} {}", l.offset(), l.len(), l.label().unwrap_or("")).unwrap() }
        write!(o, "}}").unwrap();
    }
    o
}
fn outcome<T: Debug>(r: Result<T, knuffel::Error>) -> String {
    match r { Ok(v) => format!("Ok {:?}", v), Err(e) => report(&e) }
}
fn one<T: Debug, S: ErrorSpan>(r: Result<T, Vec<DecodeError<S>>>) -> String {
    match r { Ok(v) => format!("Ok {:?}", v), Err(l) => errors(&l) }
}

// --------------------------------------------- decoders written by a user ---

thread_local! { static WHICH: Cell<usize> = const { Cell::new(0) }; static SCRIPT: Cell<u64> = const { Cell::new(0) }; }
fn mix(a: u64) -> u64 { let mut z = a.wrapping_add(0x9E3779B97F4A7C15); z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }

fn values<'a, S>(n: &'a Node<S>, o: &mut Vec<&'a Value<S>>) {
    o.extend(&n.arguments);
    o.extend(n.properties.values());
    for c in n.children() { values(c, o) }
}
macro_rules! pick { ($name:ident, $v:ident, $c:ident, $e:expr) => {
    #[derive(Debug)]
    struct $name(#[allow(dead_code)] String);
    impl<S: ErrorSpan> Decode<S> for $name {
        fn decode_node(n: &SpannedNode<S>, $c: &mut Context<S>) -> Result<Self, DecodeError<S>> {
            let mut l = vec![];
            values(n, &mut l);
            let $v = l[WHICH.with(|w| w.get())];
            Ok($name(format!("{:?}", $e)))
        }
    }
} }
pick!(Bytes, v, c, decode::bytes(v, c));
macro_rules! scalars { ($($m:ident $t:ty),*) => {
    $( mod $m { use super::*; pick!(P, v, c, <$t as DecodeScalar<S>>::decode(v, c)?); pub fn go<S: ErrorSpan>(n: &SpannedNode<S>) -> String { one(decode::node::<P, S>(n)) } } )*
    fn scalars<S: ErrorSpan>(n: &SpannedNode<S>) -> String { [$( concat!(stringify!($t), ":").to_string() + &$m::go(n) ),*].join(" ") }
} }
scalars!(a u8, b i8, c u16, d i16, e u32, f i32, g u64, h i64, i usize, j isize, k f32, l f64, m bool, n String, o std::path::PathBuf, p Option<u8>, q Box<i32>, r std::sync::Arc<String>, s std::rc::Rc<bool>, t Option<Option<String>>);

#[derive(Debug)]
struct Flag;
impl<S: ErrorSpan> Decode<S> for Flag {
    fn decode_node(n: &SpannedNode<S>, c: &mut Context<S>) -> Result<Self, DecodeError<S>> { decode::check_flag_node(n, c); Ok(Flag) }
}

/// A user's own position type.
#[derive(Debug, Clone, PartialEq)]
struct Pos(usize, usize);
impl From<Pos> for miette::SourceSpan { fn from(p: Pos) -> miette::SourceSpan { (p.0, p.1.saturating_sub(p.0)).into() } }
impl DecodeSpan<Span> for Pos { fn decode_span(s: &Span, c: &mut Context<Span>) -> Pos { let add = c.get::<Base>().map_or(0, |b| b.0); Pos(s.0 + add, s.1 + add) } }
#[cfg(feature = "lines")]
impl DecodeSpan<LineSpan> for Pos { fn decode_span(s: &LineSpan, _: &mut Context<LineSpan>) -> Pos { Pos(s.0.offset, s.1.offset) } }
struct Base(usize);

/// Fails as the script decides.
#[derive(Debug)]
#[allow(dead_code)]
struct Scripted { name: String, kids: Vec<Scripted>, vals: Vec<Played>, seen: Option<usize> }
#[derive(Debug)]
#[allow(dead_code)]
struct Played(String);
fn play<S: ErrorSpan>(at: &S, c: &mut Context<S>, what: &str) -> Result<(), DecodeError<S>> {
    let p: miette::SourceSpan = at.clone().into();
    let k = mix(SCRIPT.with(|s| s.get()) ^ p.offset() as u64 ^ (what.len() as u64) << 40);
    let e = |k: u64| match k % 4 {
        0 => DecodeError::Unexpected { span: at.clone(), kind: "thing", message: format!("{} {}", what, k % 7) },
        1 => DecodeError::Missing { span: at.clone(), message: what.to_string() },
        2 => DecodeError::MissingNode { message: what.to_string() },
        _ => DecodeError::Custom(format!("{} failed", what).into()),
    };
    if k % 5 == 0 { c.emit_error(e(k >> 8)) }
    if k % 7 == 0 { return Err(e(k >> 16)) }
    Ok(())
}
impl<S: ErrorSpan> DecodeScalar<S> for Played {
    fn type_check(t: &Option<Spanned<TypeName, S>>, c: &mut Context<S>) {
        if let Some(t) = t { if t.as_str().len() > 3 { c.emit_error(DecodeError::TypeName { span: t.span().clone(), found: Some((**t).clone()), expected: ExpectedType::required(BuiltinType::U8), rust_type: "Played" }) } }
    }
    fn raw_decode(v: &Spanned<Literal, S>, c: &mut Context<S>) -> Result<Self, DecodeError<S>> { play(v.span(), c, "value")?; Ok(Played(format!("{:?}", **v))) }
}
impl<S: ErrorSpan> Decode<S> for Scripted {
    fn decode_node(n: &SpannedNode<S>, c: &mut Context<S>) -> Result<Self, DecodeError<S>> {
        play(n.span(), c, "node")?;
        let mut vals = vec![];
        for v in n.arguments.iter().chain(n.properties.values()) { vals.push(DecodeScalar::decode(v, c)?) }
        let kids = match &n.children { Some(k) => DecodeChildren::decode_children(k, c)?, None => vec![] };
        Ok(Scripted { name: n.node_name.to_string(), kids, vals, seen: c.get::<Base>().map(|b| b.0) })
    }
}
/// Children taken one by one.
#[derive(Debug, Default)]
#[allow(dead_code)]
struct Part { got: Vec<String> }
impl<S: ErrorSpan> DecodePartial<S> for Part {
    fn insert_child(&mut self, n: &SpannedNode<S>, c: &mut Context<S>) -> Result<bool, DecodeError<S>> { play(n.span(), c, "child")?; self.got.push(n.node_name.to_string()); Ok(true) }
    fn insert_property(&mut self, k: &Spanned<Box<str>, S>, v: &Value<S>, c: &mut Context<S>) -> Result<bool, DecodeError<S>> { play(v.literal.span(), c, "property")?; self.got.push(k.to_string()); Ok(true) }
}
#[derive(Debug)]
#[allow(dead_code)]
struct Parts(Box<Part>, std::sync::Arc<u8>);
impl<S: ErrorSpan> Decode<S> for Parts {
    fn decode_node(n: &SpannedNode<S>, c: &mut Context<S>) -> Result<Self, DecodeError<S>> {
        let mut p = Box::new(Part::default());
        for (k, v) in &n.properties { p.insert_property(k, v, c)?; }
        for k in n.children() { p.insert_child(k, c)?; }
        Ok(Parts(p, std::sync::Arc::new(7)))
    }
}

fn plain<S: Debug>(n: &SpannedNode<S>, o: &mut String) {
    write!(o, "{:?} {} ", n.type_name.as_ref().map(|t| (t.as_str().to_string(), t.as_builtin().cloned(), format!("{}", **t))), &**n.node_name).unwrap();
    let mut l = vec![];
    l.extend(&n.arguments);
    l.extend(n.properties.values());
    for v in l {
        write!(o, "{} {:?} ", Kind::from(&*v.literal), v.type_name.as_ref().map(|t| t.as_builtin().map(|b| b.as_str()))).unwrap();
        match &*v.literal {
            Literal::Int(i) => write!(o, "{:?} {:?} {:?} ", u8::try_from(i).map_err(|e| e.to_string()), i64::try_from(i).map_err(|e| e.to_string()), usize::try_from(i).map_err(|e| e.to_string())).unwrap(),
            Literal::Decimal(d) => write!(o, "{:?} {:?} ", f32::try_from(d).map_err(|e| e.to_string()), f64::try_from(d).map_err(|e| e.to_string())).unwrap(),
            _ => {}
        }
    }
    for (k, v) in &n.properties { let s: &str = k; write!(o, "{} ", n.properties.get(s).map_or(false, |x| std::ptr::eq(x, v))).unwrap(); }
    write!(o, "{{{} ", n.children().len()).unwrap();
    for c in n.children() { plain(c, o) }
    o.push('}');
}
fn compare<S>(n: &SpannedNode<S>, o: &mut String) {
    use std::hash::{Hash, Hasher};
    let mut l = vec![];
    values(n, &mut l);
    for w in l.windows(2) { write!(o, "{} {} ", w[0].literal == w[1].literal, w[0].type_name == w[1].type_name).unwrap() }
    let names: Vec<_> = n.properties.keys().chain([&n.node_name]).collect();
    for w in names.windows(2) { write!(o, "{:?} ", w[0].cmp(w[1])).unwrap() }
    for k in names { let mut h = std::collections::hash_map::DefaultHasher::new(); k.hash(&mut h); write!(o, "{:x} ", h.finish()).unwrap() }
}

const FILE: &str = "fleet/config.kdl";
const VALUES: usize = 24;

impl Obs {
    fn text(&mut self, t: &str) {
        SCRIPT.with(|s| s.set(self.script));
        self.put(0, 0, "ast", || outcome(knuffel::parse_ast::<Span>(FILE, t)));
        let doc = catch_unwind(AssertUnwindSafe(|| knuffel::parse_ast::<Span>(FILE, t).ok())).ok().flatten();
        if let Some(d) = &doc { self.tree("", 0, d); }
        self.put(0, 0, "nodes", || outcome(knuffel::parse::<Vec<SpannedNode<Span>>>(FILE, t)));
        self.put(0, 0, "moved", || outcome(knuffel::parse_with_context::<Vec<SpannedNode<Pos>>, Span, _>(FILE, t, |c| { c.set(Base(1000)); c.set(Base(100)); })));
        self.put(0, 0, "scripted", || outcome(knuffel::parse_with_context::<Vec<Scripted>, Span, _>(FILE, t, |c| c.set(Base(3)))));
        self.put(0, 0, "unset", || outcome(knuffel::parse::<Vec<Scripted>>(FILE, t)));
        self.put(0, 0, "parts", || outcome(knuffel::parse::<Vec<Parts>>(FILE, t)));
        self.put(0, 0, "flags", || outcome(knuffel::parse::<Vec<Flag>>(FILE, t)));
        self.put(0, 0, "words", || {
            let mut o = String::new();
            for w in t.split_whitespace().take(30).chain(["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "f32", "f64", "base64", "U8", "b64", "Base64", ""]) {
                let n = TypeName::from_str(w).unwrap();
                write!(o, "{:?} {:?} {} {:?} {} {} {};", BuiltinType::from_str(w), n, n, n.as_builtin(), ExpectedType::optional(n.clone()), ExpectedType::required(n.clone()), n.as_builtin().map_or("", |b| b.as_str())).unwrap();
            }
            for b in [BuiltinType::Base64, BuiltinType::U8, BuiltinType::Usize] { write!(o, "{:?} {:?} ", b.clone().as_type(), ExpectedType::required(b)).unwrap() }
            for k in [Kind::Int, Kind::Decimal, Kind::String, Kind::Bool, Kind::Null] { write!(o, "{} {:?} {} ", k, k, k.as_str()).unwrap() }
            o + &ExpectedType::no_type().to_string()
        });
        self.put(0, 0, "spans", || {
            let mut o = String::new();
            for (i, c) in t.char_indices().take(40) {
                let a = Span(i, i + c.len_utf8());
                let l = LineSpan(LinePos { offset: i, line: 1, column: i }, LinePos { offset: t.len(), line: 2, column: 0 });
                let (x, y): (miette::SourceSpan, miette::SourceSpan) = (a.clone().into(), l.clone().into());
                write!(o, "{} {} {:?} {:?} {} {:?};", a, a.length(), x, y, Span::from(i..t.len()) == a, l).unwrap();
            }
            o
        });
        self.lines(t);
        self.derived(t);
    }

    fn tree<S: ErrorSpan>(&mut self, pre: &str, needs: u8, d: &Document<S>) {
        self.put(needs, 0, &format!("{pre}plain"), || { let mut o = String::new(); for n in &d.nodes { plain(n, &mut o) } o });
        self.put(needs, 0, &format!("{pre}compare"), || { let mut o = String::new(); for n in &d.nodes { compare(n, &mut o) } o });
        let mut k = 0;
        for n in d.nodes.iter().take(40) {
            let mut l = vec![];
            values(n, &mut l);
            for i in 0..l.len() {
                if k == VALUES { return; }
                WHICH.with(|w| w.set(i));
                self.put(needs, B, &format!("{pre}bytes:{k}"), || one(decode::node::<Bytes, S>(n)));
                self.put(needs, 0, &format!("{pre}scalars:{k}"), || scalars(n));
                k += 1;
            }
        }
    }

    #[cfg(feature = "lines")]
    fn lines(&mut self, t: &str) {
        self.put(L, 0, "l.ast", || outcome(knuffel::parse_ast::<LineSpan>(FILE, t)));
        let doc = catch_unwind(AssertUnwindSafe(|| knuffel::parse_ast::<LineSpan>(FILE, t).ok())).ok().flatten();
        if let Some(d) = &doc { self.tree("l.", L, d); }
        self.put(L, 0, "l.nodes", || outcome(knuffel::parse_with_context::<Vec<SpannedNode<Span>>, LineSpan, _>(FILE, t, |_| {})));
        self.put(L, 0, "l.own", || outcome(knuffel::parse_with_context::<Vec<SpannedNode<Pos>>, LineSpan, _>(FILE, t, |_| {})));
        self.put(L, 0, "l.scripted", || outcome(knuffel::parse_with_context::<Vec<Scripted>, LineSpan, _>(FILE, t, |c| c.set(Base(3)))));
    }
    #[cfg(not(feature = "lines"))]
    fn lines(&mut self, _: &str) {}

    #[cfg(feature = "cbor")]
    fn snapshot(&mut self, b: &[u8]) {
        fn go<S: Debug + for<'a> minicbor::Decode<'a, ()> + minicbor::Encode<()>>(b: &[u8]) -> String {
            let mut d = minicbor::Decoder::new(b);
            match d.decode::<Document<S>>() {
                Ok(x) => format!("Ok {:?} stops at {} again {:02x?}", x, d.position(), minicbor::to_vec(&x).unwrap()),
                Err(e) => format!("Err {}", e),
            }
        }
        self.put(M, 0, "s.span", || go::<Span>(b));
        self.put(M, 0, "s.lines", || go::<LineSpan>(b));
        if let Ok(d) = minicbor::decode::<Document<Span>>(b) { self.tree("s.", M, &d); }
    }
    #[cfg(not(feature = "cbor"))]
    fn snapshot(&mut self, _: &[u8]) {}

    #[cfg(not(feature = "derive"))]
    fn derived(&mut self, t: &str) { self.saved(t); }
    #[cfg(feature = "derive")]
    fn derived(&mut self, t: &str) {
        use derived::*;
        self.saved(t);
        self.put(D, 0, "d.any", || outcome(knuffel::parse::<Vec<Any>>(FILE, t)));
        self.put(D, 0, "d.tree", || outcome(knuffel::parse::<Vec<Tree>>(FILE, t)));
        self.put(D, 0, "d.pick", || outcome(knuffel::parse::<Vec<Pick>>(FILE, t)));
        self.put(D, 0, "d.conf", || outcome(knuffel::parse::<Conf>(FILE, t)));
        self.put(D, B, "d.blobs", || outcome(knuffel::parse::<Vec<Blobs>>(FILE, t)));
        self.put(D, B, "d.blob", || outcome(knuffel::parse::<Vec<Blob>>(FILE, t)));
        #[cfg(feature = "lines")] {
            self.put(D | L, 0, "dl.any", || outcome(knuffel::parse_with_context::<Vec<LAny>, LineSpan, _>(FILE, t, |_| {})));
            self.put(D | L, B, "dl.blobs", || outcome(knuffel::parse_with_context::<Vec<Blobs>, LineSpan, _>(FILE, t, |_| {})));
            self.put(D | L, 0, "dl.conf", || outcome(knuffel::parse_with_context::<Conf, LineSpan, _>(FILE, t, |_| {})));
        }
    }

    #[cfg(not(feature = "cbor"))]
    fn saved(&mut self, _: &str) {}
    #[cfg(feature = "cbor")]
    fn saved(&mut self, t: &str) {
        if let Ok(d) = knuffel::parse_ast::<Span>(FILE, t) { self.put(M, 0, "saved", || format!("{:02x?}", minicbor::to_vec(&d).unwrap())); }
        #[cfg(feature = "lines")]
        if let Ok(d) = knuffel::parse_ast::<LineSpan>(FILE, t) { self.put(M | L, 0, "l.saved", || format!("{:02x?}", minicbor::to_vec(&d).unwrap())); }
    }
}

#[allow(dead_code)]
fn _kept(i: &Integer) -> Result<u8, std::num::ParseIntError> { i.try_into() }

#[cfg(feature = "derive")]
mod derived {
    use super::*;
    use std::collections::BTreeMap;

    #[derive(knuffel::Decode, Debug)]
    #[knuffel(span_type = Span)]
    pub struct Any {
        #[knuffel(span)] pub span: Span,
        #[knuffel(type_name)] pub ty: Option<TypeName>,
        #[knuffel(node_name)] pub name: String,
        #[knuffel(arguments)] pub args: Vec<Value<Span>>,
        #[knuffel(properties)] pub props: BTreeMap<String, Value<Span>>,
        #[knuffel(children)] pub kids: Vec<Any>,
    }
    #[cfg(feature = "lines")]
    #[derive(knuffel::Decode, Debug)]
    #[knuffel(span_type = LineSpan)]
    pub struct LAny {
        #[knuffel(span)] pub span: LineSpan,
        #[knuffel(node_name)] pub name: String,
        #[knuffel(arguments)] pub args: Vec<Spanned<Played, LineSpan>>,
        #[knuffel(properties)] pub props: BTreeMap<String, Played>,
        #[knuffel(children)] pub kids: Vec<LAny>,
    }
    #[derive(knuffel::Decode, Debug)]
    pub struct Tree {
        #[knuffel(node_name)] pub name: String,
        #[knuffel(argument, default)] pub one: Option<i32>,
        #[knuffel(arguments)] pub rest: Vec<String>,
        #[knuffel(property, default = 3)] pub k: u8,
        #[knuffel(property(name = "key"))] pub key: Option<f64>,
        #[knuffel(child)] pub a: bool,
        #[knuffel(child, unwrap(argument))] pub name2: Option<Word>,
        #[knuffel(children(name = "b"))] pub b: Vec<Tree>,
        #[knuffel(children)] pub kids: Vec<Tree>,
    }
    #[derive(knuffel::DecodeScalar, Debug)]
    pub enum Word { A, B, HelloWorld }
    #[derive(knuffel::Decode, Debug)]
    pub enum Pick { A(Tree), Node(Leaf), B, #[knuffel(skip)] #[allow(dead_code)] Hidden }
    #[derive(knuffel::Decode, Debug, Default)]
    pub struct Leaf {
        #[knuffel(argument, str)] pub n: Option<u16>,
        #[knuffel(property)] pub flag: Option<bool>,
    }
    #[derive(knuffel::Decode, Debug, Default)]
    pub struct Common {
        #[knuffel(child, unwrap(argument))] pub a: Option<i64>,
        #[knuffel(child)] pub b: Option<Leaf>,
        #[knuffel(property)] pub p: Option<String>,
    }
    #[derive(knuffel::Decode, Debug)]
    pub struct Conf {
        #[knuffel(flatten(child))] pub common: Common,
        #[knuffel(child, unwrap(arguments))] pub node: Option<Vec<String>>,
        #[knuffel(children(name = "key"))] pub keys: Vec<Tree>,
    }
    #[derive(knuffel::Decode, Debug)]
    pub struct Blobs {
        #[knuffel(node_name)] pub name: String,
        #[knuffel(arguments, bytes)] pub args: Vec<Vec<u8>>,
        #[knuffel(properties, bytes)] pub props: BTreeMap<String, Vec<u8>>,
        #[knuffel(children)] pub kids: Vec<Blobs>,
    }
    #[derive(knuffel::Decode, Debug)]
    pub struct Blob {
        #[knuffel(argument, bytes)] pub one: Vec<u8>,
        #[knuffel(argument, bytes, default)] pub two: Option<Box<[u8]>>,
        #[knuffel(property, bytes, default)] pub k: Vec<u8>,
        #[knuffel(property, bytes)] pub key: Option<Vec<u8>>,
        #[knuffel(child, unwrap(argument, bytes))] pub a: Option<Vec<u8>>,
        #[knuffel(children)] pub kids: Vec<Blob>,
    }
}
