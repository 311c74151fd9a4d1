//! C12: copies of a document (clones, decoded copies, restored snapshots,
//! boxed and shared ones) stand for the document itself.
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

use knuffel::ast::{Document, Literal, Node, SpannedNode, TypeName, Value};
use knuffel::decode::Context;
use knuffel::errors::DecodeError;
use knuffel::span::{LineSpan, Span, Spanned};
use knuffel::traits::{Decode, DecodeChildren, DecodeSpan};

use super::snap::{self, Snap};
use super::text::{diags, Diag, Editor, file_of, MAX_OPENERS};
use super::typed::{load, same_diag, show_d, to_diag, App, How};
use crate::cmp::View;
use crate::disk::{Disk, Outcome};
use crate::refkdl;
use crate::run::{clip, vio, Run, V};
use crate::typed::catalog::{self, Mode};
use crate::typed::probe::{self, Naming, Script, SlotA, P};
use crate::typed::val::Val;

/// A decoder without opinions, for whatever document comes along.
#[derive(knuffel::Decode, Debug)]
pub struct Loose {
    #[knuffel(node_name)] pub name: String,
    #[knuffel(type_name)] pub ty: Option<TypeName>,
    #[knuffel(arguments)] pub args: Vec<Option<i64>>,
    #[knuffel(properties)] pub props: BTreeMap<String, f64>,
    #[knuffel(children)] pub kids: Vec<Loose>,
}

/// Position with a file in it, made from the context.
#[derive(Clone, Debug, PartialEq)]
pub struct Tag { file: Option<u64>, s: usize, e: usize, line: Option<usize> }
fn tag_of<S: View>(s: &S, file: Option<u64>) -> Tag { Tag { file, s: s.sp().s, e: s.sp().e, line: s.lc().map(|x| x.0.line) } }
impl DecodeSpan<Span> for Tag { fn decode_span(s: &Span, c: &mut Context<Span>) -> Tag { tag_of(s, c.get::<SlotA>().map(|x| x.0)) } }
impl DecodeSpan<LineSpan> for Tag { fn decode_span(s: &LineSpan, c: &mut Context<LineSpan>) -> Tag { tag_of(s, c.get::<SlotA>().map(|x| x.0)) } }

// ------------------------------------------------------------------ dumps ---

type F<'a, S> = &'a dyn Fn(&S) -> String;
fn at<S: std::fmt::Debug>(s: &S) -> String { format!("{:?}", s) }
fn d_ty<S>(t: &Option<Spanned<TypeName, S>>, f: F<S>) -> String { t.as_ref().map(|t| format!("({}/{:?}@{})", t.as_str(), t.as_builtin(), f(t.span()))).unwrap_or_default() }
fn d_val<S>(v: &Value<S>, f: F<S>) -> String { format!("{}{:?}@{}", d_ty(&v.type_name, f), *v.literal, f(v.literal.span())) }
fn d_node<S>(n: &Node<S>, f: F<S>, o: &mut Vec<String>) {
    o.push(format!("{}{:?}@{}", d_ty(&n.type_name, f), &**n.node_name, f(n.node_name.span())));
    for a in &n.arguments { o.push(d_val(a, f)) }
    for (k, v) in &n.properties { o.push(format!("{:?}@{}={}", &**k, f(k.span()), d_val(v, f))) }
    if let Some(c) = &n.children { o.push(format!("{{@{}", f(c.span()))); d_list(c, f, o); o.push("}".into()) }
}
fn d_list<S>(v: &[SpannedNode<S>], f: F<S>, o: &mut Vec<String>) { for n in v { o.push(format!("node@{}", f(n.span()))); d_node(n, f, o) } }
fn dump<S>(v: &[SpannedNode<S>], f: F<S>) -> Vec<String> { let mut o = vec![]; d_list(v, f, &mut o); o }
fn differ(a: &[String], b: &[String]) -> Option<String> {
    if a == b { return None; }
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    Some(format!("item {}: {:?} instead of {:?}", i, a.get(i), b.get(i)))
}

// ------------------------------------------------------ values in wrappers ---

trait Show { fn show(&self) -> String; }
impl<S: std::fmt::Debug> Show for Value<S> { fn show(&self) -> String { d_val(self, &|s| at(s)) } }
impl Show for Literal { fn show(&self) -> String { format!("{:?}", self) } }
impl Show for P { fn show(&self) -> String { format!("{:?}", self) } }
impl Show for u8 { fn show(&self) -> String { self.to_string() } }
impl Show for bool { fn show(&self) -> String { self.to_string() } }
impl Show for f64 { fn show(&self) -> String { self.to_bits().to_string() } }
impl Show for String { fn show(&self) -> String { format!("{:?}", self) } }
impl Show for Mode { fn show(&self) -> String { format!("{:?}", crate::typed::val::ToVal::to_val(self)) } }
impl<T: Show> Show for Option<T> { fn show(&self) -> String { self.as_ref().map(|x| x.show()).unwrap_or("none".into()) } }
impl<T: Show> Show for Box<T> { fn show(&self) -> String { (**self).show() } }
impl<T: Show> Show for Rc<T> { fn show(&self) -> String { (**self).show() } }
impl<T: Show> Show for Arc<T> { fn show(&self) -> String { (**self).show() } }
impl<T: Show, S: std::fmt::Debug> Show for Spanned<T, S> { fn show(&self) -> String { format!("{}@{:?}", (**self).show(), self.span()) } }

trait Held { fn held(&self, o: &mut Vec<String>); }
impl<T: Held> Held for Vec<T> { fn held(&self, o: &mut Vec<String>) { for x in self { x.held(o) } } }
impl<T: Held> Held for Box<T> { fn held(&self, o: &mut Vec<String>) { (**self).held(o) } }
impl<T: Held> Held for Rc<T> { fn held(&self, o: &mut Vec<String>) { (**self).held(o) } }
impl<T: Held> Held for Arc<T> { fn held(&self, o: &mut Vec<String>) { (**self).held(o) } }

macro_rules! holder { ($($m:ident: $t:ty, $s:ty;)*) => { $(
    mod $m {
        use super::*;
        #[derive(knuffel::Decode)]
        #[knuffel(span_type = $s)]
        pub struct H {
            #[knuffel(node_name)] pub name: String,
            #[knuffel(type_name)] pub ty: Option<TypeName>,
            #[knuffel(arguments)] pub args: Vec<$t>,
            #[knuffel(properties)] pub props: BTreeMap<String, $t>,
            #[knuffel(children)] pub kids: Vec<H>,
        }
        impl Held for H {
            fn held(&self, o: &mut Vec<String>) {
                o.push(self.name.clone());
                o.push(self.ty.as_ref().map(|x| x.to_string()).unwrap_or_default());
                for a in &self.args { o.push(a.show()) }
                for (k, v) in &self.props { o.push(k.clone()); o.push(v.show()) }
                self.kids.held(o)
            }
        }
    }
)* } }
holder! {
    value: Value<Span>, Span; value_l: Value<LineSpan>, LineSpan; value_x: Value<Span>, LineSpan;
    value_tag: Value<Tag>, Span; value_tag_l: Value<Tag>, LineSpan;
    b_value: Box<Value<Span>>, Span; rc_value: Rc<Value<Span>>, Span; arc_value: Arc<Value<Span>>, Span;
    o_value: Option<Value<Span>>, Span; ob_value: Option<Box<Value<Span>>>, Span; bo_value: Box<Option<Value<Span>>>, Span;
    sp_value: Spanned<Value<Span>, Span>, Span; osp_value: Option<Spanned<Value<Span>, Span>>, Span; sp_value_l: Spanned<Value<LineSpan>, Tag>, LineSpan;
    spo_value: Spanned<Option<Value<Span>>, Span>, Span; oo_value: Option<Option<Value<Span>>>, Span; rab_value: Rc<Arc<Box<Value<Span>>>>, Span;
    lit: Literal, Span; lit_l: Literal, LineSpan; o_lit: Option<Literal>, Span; b_lit: Box<Literal>, Span; sp_lit: Spanned<Literal, Span>, Span;
    osp_lit: Option<Spanned<Literal, Span>>, Span; spo_lit: Spanned<Option<Literal>, Tag>, Span; bo_lit: Box<Option<Literal>>, Span; asp_lit: Arc<Spanned<Literal, Tag>>, Span;
    p: P, Span; p_b: Box<P>, Span; p_r: Rc<P>, Span; p_a: Arc<P>, Span; p_s: Spanned<P, Span>, Span; p_o: Option<P>, Span; p_os: Option<Spanned<Box<P>, Span>>, Span;
    u: u8, Span; u_b: Box<u8>, Span; u_r: Rc<u8>, Span; u_a: Arc<u8>, Span; u_s: Spanned<u8, Span>, Span; u_o: Option<u8>, Span; u_os: Option<Spanned<Box<u8>, Span>>, Span;
    st: String, Span; st_b: Box<String>, Span; st_r: Rc<String>, Span; st_a: Arc<String>, Span; st_s: Spanned<String, Span>, Span; st_o: Option<String>, Span; st_os: Option<Spanned<Box<String>, Span>>, Span;
    m: Mode, Span; m_b: Box<Mode>, Span; m_r: Rc<Mode>, Span; m_a: Arc<Mode>, Span; m_s: Spanned<Mode, Span>, Span; m_o: Option<Mode>, Span; m_os: Option<Spanned<Box<Mode>, Span>>, Span;
    f: f64, Span; f_b: Box<f64>, Span; f_r: Rc<f64>, Span; f_a: Arc<f64>, Span; f_s: Spanned<f64, Span>, Span; f_o: Option<f64>, Span; f_os: Option<Spanned<Box<f64>, Span>>, Span;
    b: bool, Span; b_b: Box<bool>, Span; b_r: Rc<bool>, Span; b_a: Arc<bool>, Span; b_s: Spanned<bool, Span>, Span; b_o: Option<bool>, Span; b_os: Option<Spanned<Box<bool>, Span>>, Span;
}

type Held_ = Result<Vec<String>, Vec<Diag>>;
fn out<T: Held, S: knuffel::traits::ErrorSpan>(r: Result<T, Vec<DecodeError<S>>>) -> Held_ {
    r.map(|h| { let mut o = vec![]; h.held(&mut o); o }).map_err(|v| v.iter().map(|e| to_diag(e)).collect())
}
fn one<T: Held + Decode<S>, S: knuffel::traits::ErrorSpan>(n: &SpannedNode<S>, sc: &Rc<Script>) -> Held_ {
    probe::with(sc, None, || out(knuffel::decode::node::<T, S>(n))).0
}
fn want<S>(n: &Node<S>, f: &dyn Fn(&Value<S>) -> String, o: &mut Vec<String>) {
    o.push(n.node_name.to_string());
    o.push(n.type_name.as_ref().map(|x| x.to_string()).unwrap_or_default());
    for a in &n.arguments { o.push(f(a)) }
    for (k, v) in &n.properties { o.push(k.to_string()); o.push(f(v)) }
    for c in n.children() { want(c, f, o) }
}
fn values<S, X>(n: &Node<S>, f: &dyn Fn(&Value<S>) -> X, o: &mut Vec<X>) {
    for a in &n.arguments { o.push(f(a)) }
    for v in n.properties.values() { o.push(f(v)) }
    for c in n.children() { values(c, f, o) }
}
fn null<S>(v: &Value<S>) -> bool { matches!(*v.literal, Literal::Null) }
fn nul(v: &Value<Span>, x: String) -> String { if null(v) { "none".into() } else { x } }
fn tg<S: View>(s: &S) -> String { at(&tag_of(s, None)) }

fn judge(name: &str, got: Held_, w: Vec<String>) -> V {
    match got {
        Ok(g) => match differ(&g, &w) { None => Ok(()), Some(m) => vio("copied value differs", format!("{}: {}", name, m)) },
        Err(d) => vio("value could not be copied", format!("{}: {}", name, show_d(&d))),
    }
}
fn wrapped(run: &mut Run, n: &SpannedNode<Span>, l: &SpannedNode<LineSpan>, sc: &Rc<Script>) -> V {
    macro_rules! t { ($m:ident, $n:expr, $f:expr) => {{
        let mut w = vec![];
        want($n, &$f, &mut w);
        judge(stringify!($m), one::<$m::H, _>($n, sc), w)?;
    }} }
    let v = |v: &Value<Span>| v.show();
    run.st.hit("wrapper_checks");
    match run.s.below(13) {
        0 => { t!(value, n, v); t!(b_value, n, v); t!(rc_value, n, v); t!(arc_value, n, v); t!(rab_value, n, v) }
        1 => { t!(value_l, l, |v: &Value<LineSpan>| v.show()); t!(value_x, l, |v: &Value<LineSpan>| d_val(v, &|s| at(&Span(s.0.offset, s.1.offset)))) }
        2 => { t!(value_tag, n, |v: &Value<Span>| d_val(v, &|s| tg(s))); t!(value_tag_l, l, |v: &Value<LineSpan>| d_val(v, &|s| tg(s))) }
        3 => { t!(o_value, n, |x: &Value<Span>| nul(x, x.show())); t!(ob_value, n, |x: &Value<Span>| nul(x, x.show())); t!(bo_value, n, |x: &Value<Span>| nul(x, x.show())); t!(oo_value, n, |x: &Value<Span>| nul(x, x.show())) }
        4 => { t!(sp_value, n, |x: &Value<Span>| format!("{}@{:?}", x.show(), x.literal.span())); t!(osp_value, n, |x: &Value<Span>| nul(x, format!("{}@{:?}", x.show(), x.literal.span()))) }
        5 => { t!(spo_value, n, |x: &Value<Span>| format!("{}@{:?}", nul(x, x.show()), x.literal.span())); t!(sp_value_l, l, |x: &Value<LineSpan>| format!("{}@{}", x.show(), tg(x.literal.span()))) }
        6 => {
            t!(lit, n, |x: &Value<Span>| x.literal.show_lit()); t!(lit_l, l, |x: &Value<LineSpan>| x.literal.show_lit()); t!(b_lit, n, |x: &Value<Span>| x.literal.show_lit());
            t!(o_lit, n, |x: &Value<Span>| nul(x, x.literal.show_lit())); t!(bo_lit, n, |x: &Value<Span>| nul(x, x.literal.show_lit()));
            t!(sp_lit, n, |x: &Value<Span>| format!("{}@{:?}", x.literal.show_lit(), x.literal.span()));
            t!(osp_lit, n, |x: &Value<Span>| nul(x, format!("{}@{:?}", x.literal.show_lit(), x.literal.span())));
            t!(spo_lit, n, |x: &Value<Span>| format!("{}@{}", nul(x, x.literal.show_lit()), tg(x.literal.span())));
            t!(asp_lit, n, |x: &Value<Span>| format!("{}@{}", x.literal.show_lit(), tg(x.literal.span())));
        }
        k => {
            macro_rules! parity { ($p:ident, $b:ident, $r:ident, $a:ident, $s:ident, $o:ident, $os:ident) => {{
                let plain = one::<$p::H, _>(n, sc);
                run.st.hit(if plain.is_ok() { "parity_values" } else { "parity_errors" });
                for (name, w) in [("Box", one::<$b::H, _>(n, sc)), ("Rc", one::<$r::H, _>(n, sc)), ("Arc", one::<$a::H, _>(n, sc))] { alike(name, stringify!($p), &plain, &w)?; }
                // with the position of every value added
                let spots: Held_ = match &plain {
                    Err(d) => Err(d.clone()),
                    Ok(p) => {
                        let (mut w, mut other) = (vec![], vec![]);
                        want(n, &|x: &Value<Span>| format!("@{:?}", x.literal.span()), &mut w);
                        want(n, &|_: &Value<Span>| String::new(), &mut other);
                        Ok(p.iter().enumerate().map(|(i, b)| if w.get(i) != other.get(i) { format!("{}{}", b, w[i]) } else { b.clone() }).collect())
                    }
                };
                alike("Spanned", stringify!($p), &spots, &one::<$s::H, _>(n, sc))?;
                let mut v = vec![];
                values(n, &|x: &Value<Span>| null(x), &mut v);
                if !v.contains(&true) {
                    alike("Option", stringify!($p), &plain, &one::<$o::H, _>(n, sc))?;
                    alike("Option<Spanned<Box>>", stringify!($p), &spots, &one::<$os::H, _>(n, sc))?;
                }
            }} }
            match k {
                7 => parity!(p, p_b, p_r, p_a, p_s, p_o, p_os),
                8 => parity!(u, u_b, u_r, u_a, u_s, u_o, u_os),
                9 => parity!(st, st_b, st_r, st_a, st_s, st_o, st_os),
                10 => parity!(m, m_b, m_r, m_a, m_s, m_o, m_os),
                11 => parity!(f, f_b, f_r, f_a, f_s, f_o, f_os),
                _ => parity!(b, b_b, b_r, b_a, b_s, b_o, b_os),
            }
        }
    }
    Ok(())
}
trait ShowLit { fn show_lit(&self) -> String; }
impl<S> ShowLit for Spanned<Literal, S> { fn show_lit(&self) -> String { (**self).show() } }

fn alike(name: &str, ty: &str, plain: &Held_, got: &Held_) -> V {
    match (plain, got) {
        (Ok(a), Ok(b)) => if let Some(m) = differ(b, a) { return vio("wrapped value differs from the plain one", format!("{} of {}: {}", name, ty, m)); },
        (Err(a), Err(b)) => if a.len() != b.len() || !a.iter().zip(b).all(|(x, y)| same_diag(x, y)) { return vio("wrapped value reports other errors than the plain one", format!("{} of {}: [{}] instead of [{}]", name, ty, show_d(b), show_d(a))); },
        (a, b) => {
            let s = |x: &Held_| match x { Ok(_) => "success".to_string(), Err(d) => show_d(d) };
            return vio("wrapped value accepted or rejected unlike the plain one", format!("{} of {}: {} instead of {}", name, ty, s(b), s(a)));
        }
    }
    Ok(())
}

/// A whole document in wrappers of lists.
fn lists(run: &mut Run, text: &str, sc: &Rc<Script>) -> V {
    fn go<T: Held + DecodeChildren<Span>>(text: &str, sc: &Rc<Script>) -> Held_ {
        probe::with(sc, None, || match knuffel::parse::<T>(file_of(text), text) { Ok(h) => { let mut o = vec![]; h.held(&mut o); Ok(o) } Err(e) => Err(diags(&e)) }).0
    }
    run.st.hit("list_checks");
    macro_rules! l { ($m:ident) => {{
        let plain = go::<Vec<$m::H>>(text, sc);
        for (name, w) in [("Box<Vec>", go::<Box<Vec<$m::H>>>(text, sc)), ("Rc<Vec>", go::<Rc<Vec<$m::H>>>(text, sc)), ("Arc<Vec>", go::<Arc<Vec<$m::H>>>(text, sc)),
            ("Vec<Box>", go::<Vec<Box<$m::H>>>(text, sc)), ("Vec<Rc>", go::<Vec<Rc<$m::H>>>(text, sc)), ("Vec<Arc>", go::<Vec<Arc<$m::H>>>(text, sc)), ("Arc<Box<Vec<Rc>>>", go::<Arc<Box<Vec<Rc<$m::H>>>>>(text, sc))] {
            alike(name, stringify!($m), &plain, &w)?;
        }
    }} }
    match run.s.below(3) { 0 => l!(lit), 1 => l!(p), _ => l!(u) }
    Ok(())
}

// ----------------------------------------------------------------- chains ---

trait Chain: Snap + DecodeSpan<Self> {}
impl Chain for Span {}
impl Chain for LineSpan {}

fn errs<S: knuffel::traits::ErrorSpan>(v: Vec<DecodeError<S>>) -> String { v.iter().map(|e| e.to_string()).collect::<Vec<_>>().join("; ") }

fn step<S: Chain>(run: &mut Run, text: &str, cur: &[SpannedNode<S>]) -> Result<(String, Vec<SpannedNode<S>>), crate::run::Violation> {
    fn each<T: Decode<S>, S: Chain>(cur: &[SpannedNode<S>]) -> Result<Vec<T>, String> { cur.iter().map(|n| knuffel::decode::node::<T, S>(n).map_err(errs)).collect() }
    fn whole<T: DecodeChildren<S>, S: Chain>(text: &str) -> Result<T, String> { knuffel::parse_with_context::<T, S, _>(file_of(text), text, |_| {}).map_err(|e| show_d(&diags(&e))) }
    let k = run.s.below(11);
    let (name, r): (&str, Result<Vec<SpannedNode<S>>, String>) = match k {
        0 => ("clone", Ok(cur.to_vec())),
        1 => ("decoded copy", each::<SpannedNode<S>, S>(cur)),
        2 => ("boxed copy", each::<Box<SpannedNode<S>>, S>(cur).map(|v| v.into_iter().map(|x| *x).collect())),
        3 => ("shared copy", each::<Rc<SpannedNode<S>>, S>(cur).map(|v| v.into_iter().map(|x| Rc::try_unwrap(x).unwrap()).collect())),
        4 => ("atomically shared copy", each::<Arc<SpannedNode<S>>, S>(cur).map(|v| v.into_iter().map(|x| (*x).clone()).collect())),
        5 => ("copy without outer position", each::<Node<S>, S>(cur).map(|v| v.into_iter().zip(cur).map(|(x, o)| o.clone().map(|_| x)).collect())),
        6 => {
            run.st.hit("fault.restart");
            let d = Document { nodes: cur.to_vec() };
            ("restored snapshot", snap::read::<S>(&snap::write(&d)).map(|d| d.nodes).map_err(|e| e.to_string()))
        }
        7 => ("decoded from the text", whole::<Vec<SpannedNode<S>>, S>(text)),
        8 => ("decoded from the text in a box", whole::<Box<Vec<Box<SpannedNode<S>>>>, S>(text).map(|v| v.into_iter().map(|x| *x).collect())),
        9 => ("mapped", Ok(cur.iter().map(|n| n.clone().map(|x| x).map_span(|s| s)).collect())),
        _ => {
            run.st.hit("fault.restart");
            ("restored nodes", cur.iter().map(|n| minicbor::decode::<SpannedNode<S>>(&minicbor::to_vec(n).unwrap()).map_err(|e| e.to_string())).collect())
        }
    };
    run.st.hit("copies");
    match r { Ok(v) => Ok((name.into(), v)), Err(e) => vio("document could not be copied", format!("{} of {}: {}", name, clip(text, 400), e)) }
}
fn chain<S: Chain>(run: &mut Run, text: &str, orig: &[SpannedNode<S>]) -> Result<Vec<SpannedNode<S>>, crate::run::Violation> {
    let want = dump(orig, &|s| at(s));
    let mut cur = orig.to_vec();
    let mut names = vec![];
    for _ in 0..run.s.range(1, 5) {
        let (name, next) = step(run, text, &cur)?;
        run.note(|| format!("{}: {} nodes", name, next.len()));
        names.push(name);
        if let Some(m) = differ(&dump(&next, &|s| at(s)), &want) {
            return vio("copy differs from the document", format!("{} mode, {} of {}: {}", S::MODE, names.join(", "), clip(text, 400), m));
        }
        cur = next;
    }
    Ok(cur)
}

pub fn c12(run: &mut Run) -> V {
    let mut app = App::draw(&mut run.s);
    app.how = How::List;
    app.fill(&mut run.s);
    let typed = run.s.chance(1, 2);
    let mut ed = Editor::new(run);
    let mut disk = Disk::new(&mut run.s);
    for _ in 0..run.s.range(1, 2) {
        let sc = Rc::new(Script::draw(&mut run.s, Naming::Key));
        let t = if typed { if run.s.chance(1, 2) { app.edit(&mut run.s); } app.text(&mut run.s) } else { ed.edit(run); ed.text() };
        let fault = run.s.chance(1, 3);
        let a = disk.save(&mut run.s, &mut run.st, t.as_bytes(), fault);
        let (text, b) = if fault { disk.read(&mut run.s, &mut run.st, false) } else { (t, Outcome::Clean) };
        run.note(|| format!("saved {:?}, read {:?}: {}", a, b, clip(&text, 600)));
        if refkdl::nesting_bound(&text) > MAX_OPENERS { continue; }
        let d = match super::text::load::<Span>(&text) { Ok(d) => d, Err(_) => { run.st.hit("unparsable"); continue } };
        let l = match super::text::load::<LineSpan>(&text) { Ok(d) => d, Err(_) => { run.st.hit("unparsable"); continue } };
        run.observe(format!("{:?}", d).as_bytes());
        let head = |m: String| format!("text {}: {}", clip(&text, 400), m);
        // copies of copies, in one mode or the other, or from one into the other
        let mut copy = match run.s.below(3) {
            0 => chain::<Span>(run, &text, &d.nodes)?,
            k => {
                let c = chain::<LineSpan>(run, &text, &l.nodes)?;
                let mut v = vec![];
                for n in &c {
                    match knuffel::decode::node::<SpannedNode<Span>, LineSpan>(n) { Ok(n) => v.push(n), Err(e) => return vio("document could not be copied", head(errs(e))) }
                }
                if let Some(m) = differ(&dump(&v, &|s| at(s)), &dump(&d.nodes, &|s| at(s))) { return vio("copy without lines differs from the document", head(m)); }
                run.st.hit("copies_without_lines");
                if k == 1 { chain::<Span>(run, &text, &v)? } else { v }
            }
        };
        // with positions of the user's own
        if run.s.chance(1, 2) {
            let file = run.s.draw(1 << 20);
            let r = knuffel::parse_with_context::<Vec<SpannedNode<Tag>>, Span, _>(file_of(&text), &text, |c| c.set(SlotA(file)));
            let r2 = knuffel::parse_with_context::<Vec<SpannedNode<Tag>>, LineSpan, _>(file_of(&text), &text, |c| c.set(SlotA(file)));
            match (r, r2) {
                (Ok(v), Ok(w)) => {
                    if let Some(m) = differ(&dump(&v, &|s| at(s)), &dump(&d.nodes, &|s| at(&tag_of(s, Some(file))))) { return vio("copy with converted positions differs", head(m)); }
                    if let Some(m) = differ(&dump(&w, &|s| at(s)), &dump(&l.nodes, &|s| at(&tag_of(s, Some(file))))) { return vio("copy with converted positions differs", head(m)); }
                }
                (Err(e), _) | (_, Err(e)) => return vio("document could not be copied", head(show_d(&diags(&e)))),
            }
            run.st.hit("copies_with_own_positions");
        }
        if !d.nodes.is_empty() && d.nodes.len() == l.nodes.len() && run.s.chance(1, 2) {
            let i = run.s.below(copy.len());
            wrapped(run, &copy[i], &l.nodes[i], &sc).map_err(|mut v| { v.msg = head(v.msg); v })?;
        }
        if run.s.chance(1, 6) { lists(run, &text, &sc).map_err(|mut v| { v.msg = head(v.msg); v })?; }
        // typed values from the copy, from the original and from the text
        if typed {
            let e = app.entry();
            if run.s.chance(1, 2) { copy = copy.iter().map(|n| n.clone()).collect(); }
            let got = load(How::List, app.id, &text, &sc, None, &mut |_| {})?;
            run.st.add("decoder_calls", got.st.calls.len() as u64);
            run.st.add("fault.decoder_error", got.st.raised.len() as u64);
            let (mut vals, mut ds, mut calls) = (vec![], vec![], vec![]);
            for (n, o) in copy.iter().zip(&d.nodes) {
                let (r, st) = probe::with(&sc, None, || catalog::node(app.id, n));
                let (r0, st0) = probe::with(&sc, None, || catalog::node(app.id, o));
                let v = |r: Result<Val, Vec<DecodeError<Span>>>| r.map_err(|v| v.iter().map(|e| to_diag(e)).collect::<Vec<_>>());
                let (r, r0) = (v(r), v(r0));
                let same = match (&r, &r0) { (Ok(a), Ok(b)) => a == b, (Err(a), Err(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_diag(x, y)), _ => false };
                if !same { return vio("copy decodes unlike the original", format!("type {} from {}: {:?} instead of {:?}", e.name, clip(&text, 400), r, r0)); }
                if st.calls != st0.calls { return vio("copy calls other decoders than the original", format!("type {} from {}", e.name, clip(&text, 400))); }
                calls.extend(st.calls.into_iter().map(|c| (c.kind, c.key)));
                match r { Ok(v) => vals.push(v), Err(x) => ds.extend(x) }
            }
            match &got.res {
                Ok(v) => if !ds.is_empty() || *v != Val::List(vals) { return vio("copy decodes unlike the text", format!("type {} from {}", e.name, clip(&text, 400))); },
                Err(x) => if x.len() != ds.len() || !x.iter().zip(&ds).all(|(p, q)| same_diag(p, q)) { return vio("copy reports other errors than the text", format!("type {} from {}: [{}] instead of [{}]", e.name, clip(&text, 400), show_d(&ds), show_d(x))); },
            }
            if calls != got.st.calls.iter().map(|c| (c.kind, c.key)).collect::<Vec<_>>() { return vio("copy calls other decoders than the text", format!("type {} from {}", e.name, clip(&text, 400))); }
            run.st.hit("typed_decodes_of_copies");
        }
        if !d.nodes.is_empty() { run.st.sig(text.as_bytes()); }
        if run.st.samples.is_empty() && d.nodes.len() > 1 { run.st.samples.push(clip(&text, 200)); }
    }
    Ok(())
}
