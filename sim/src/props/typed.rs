//! C05..C08: annotated types loaded from a file with a history, with user
//! decoders whose failures the simulator scripts.
use std::cell::RefCell;
use std::rc::Rc;

use knuffel::decode::Context;
use knuffel::span::{LineSpan, Span};
use miette::Diagnostic;

use super::text::{diags, source_attached, Diag, Label, file_of, MAX_OPENERS};
use crate::choice::{mix, Src};
use crate::disk::{Disk, Outcome};
use crate::gen::Knobs;
use crate::refkdl::{self, RNode};
use crate::run::{clip, vio, Run, V};
use crate::stats::fnv;
use crate::typed::catalog::{self, CATALOG};
use crate::typed::docgen::{self, DocGen};
use crate::typed::probe::{self, Ctx, Hook, Naming, RErr, Script, State, FORMS, SLOTS};
use crate::typed::shape::{Entry, Ref, Shape};
use crate::typed::val::Val;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How { List, Lines, Doc }

pub fn plain_knobs(s: &mut Src) -> Knobs {
    let mut k = Knobs::draw(s);
    k.slashdash = 0;
    k
}

/// The application's data file for one type: nodes, rewritten as text at will.
pub struct App { pub id: usize, pub how: How, pub nodes: Vec<RNode>, pub knobs: Knobs, pub noise: u64, pub typed: u64, pub bulk: bool, huge: bool }

impl App {
    pub fn entry(&self) -> &'static Entry { &CATALOG[self.id] }
    pub fn draw(s: &mut Src) -> App {
        let id = s.below(CATALOG.len());
        App::with(s, id)
    }
    pub fn with(s: &mut Src, id: usize) -> App {
        let e = &CATALOG[id];
        let mut how = How::List;
        if e.doc && s.chance(2, 3) { how = How::Doc } else if e.lines && s.chance(1, 4) { how = How::Lines }
        let knobs = plain_knobs(s);
        let noise = [0, 2, 6, 14][s.weighted(&[3, 3, 2, 1])];
        let typed = [0, 1, 3][s.below(3)];
        let bulk = s.chance(1, 25);
        let mut a = App { id, how, nodes: vec![], knobs, noise, typed, bulk, huge: false };
        a.fill(s);
        a
    }
    pub fn fill(&mut self, s: &mut Src) {
        self.huge = self.bulk && s.chance(1, 8);
        let mut g = DocGen { s, noise: self.noise, typed: self.typed, bulk: self.bulk, huge: self.huge, left: 1500 };
        self.nodes = match (self.how, CATALOG[self.id].shape) {
            (How::Doc, Shape::Struct(_, f)) => g.kids(f, 3),
            (_, sh) => g.list(sh, 5),
        };
    }
    pub fn edit(&mut self, s: &mut Src) {
        let mut other = vec![];
        std::mem::swap(&mut other, &mut self.nodes);
        self.fill(s);
        // mix old and new nodes
        for n in other { if s.chance(1, 2) { let i = s.below(self.nodes.len() + 1); self.nodes.insert(i, n); } }
        let most = if self.huge { 400 } else if self.bulk { 100 } else { 8 };
        if self.nodes.len() > most { self.nodes.truncate(most); }
        if self.how == How::Doc && self.noise == 0 { self.fill(s); }
    }
    pub fn text(&self, s: &mut Src) -> String { docgen::print(s, &self.knobs, &self.nodes) }
}

/// What came out of one load.
pub struct Got { pub res: Result<Val, Vec<Diag>>, pub st: State }

pub fn to_diag(d: &dyn Diagnostic) -> Diag {
    Diag {
        msg: d.to_string(),
        labels: d.labels().map(|l| l.map(|x| Label {
            s: x.offset(), e: x.offset() + x.len(), text: x.label().unwrap_or("").to_string(),
        }).collect()).unwrap_or_default(),
    }
}

pub fn call(how: How, id: usize, text: &str, set: &mut dyn FnMut(&mut dyn Ctx)) -> Result<Val, knuffel::Error> {
    match how {
        How::List => catalog::list(id, file_of(text), text, &mut |c: &mut Context<Span>| set(c)),
        How::Doc => catalog::doc(id, file_of(text), text, &mut |c: &mut Context<Span>| set(c)),
        How::Lines => catalog::list_lines(id, file_of(text), text, &mut |c: &mut Context<LineSpan>| set(c)),
    }
}
pub fn load(how: How, id: usize, text: &str, script: &Rc<Script>, hook: Option<Hook>, set: &mut dyn FnMut(&mut dyn Ctx)) -> Result<Got, crate::run::Violation> {
    let (r, st) = probe::with(script, hook, || call(how, id, text, set));
    let res = match r {
        Ok(v) => Ok(v),
        Err(e) => {
            if let Err(m) = source_attached(&e, text) { return vio("report without its source", m); }
            Err(diags(&e))
        }
    };
    Ok(Got { res, st })
}

/// What the annotations mean for the parsed nodes.
pub struct Want { pub val: Option<Val>, pub errs: Vec<RErr>, pub calls: Vec<probe::Call>, pub own: usize }
pub fn meaning(how: How, sh: &Shape, nodes: &[RNode], script: &Script, before: Vec<RErr>) -> Want {
    let mut r = Ref::new(script);
    r.errs = before;
    let val = match how { How::Doc => r.doc(sh, nodes), _ => Some(r.list(sh, nodes)) };
    Want { val, errs: r.errs, calls: r.calls, own: r.own }
}

pub fn err_matches(d: &Diag, e: &RErr) -> bool {
    if let Some(m) = &e.msg { if d.msg != *m { return false; } } else if d.msg.is_empty() { return false; }
    if e.label == "?" { return true; }
    if e.at.is_empty() { return d.labels.is_empty(); }
    d.labels.len() == 1 && d.labels[0].text == e.label && e.at.iter().any(|s| s.s == d.labels[0].s && s.e == d.labels[0].e)
}
pub fn show_d(v: &[Diag]) -> String {
    v.iter().map(|d| format!("{:?}{}", d.msg, d.labels.iter().map(|l| format!(" @{}..{} {:?}", l.s, l.e, l.text)).collect::<String>())).collect::<Vec<_>>().join("; ")
}
pub fn show_e(v: &[RErr]) -> String {
    v.iter().map(|e| format!("{:?}{}", e.msg.as_deref().unwrap_or("*"), e.at.iter().map(|s| format!(" @{}..{}", s.s, s.e)).collect::<String>() + &if e.at.is_empty() { String::new() } else { format!(" {:?}", e.label) })).collect::<Vec<_>>().join("; ")
}
pub fn errs_match(d: &[Diag], e: &[RErr]) -> bool { d.len() == e.len() && d.iter().zip(e).all(|(a, b)| err_matches(a, b)) }

fn shorten(v: &Val) -> String { let t = format!("{:?}", v); if t.len() > 600 { let mut i = 600; while !t.is_char_boundary(i) { i -= 1; } format!("{}...", &t[..i]) } else { t } }

/// First difference of two values, with its path.
pub fn diff(a: &Val, b: &Val) -> String {
    match (a, b) {
        (Val::Some(x), Val::Some(y)) => diff(x, y),
        (Val::List(x), Val::List(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find(|(_, (p, q))| p != q).map(|(i, (p, q))| format!("[{}]{}", i, diff(p, q))).unwrap_or_default(),
        (Val::St(m, x), Val::St(n, y)) if m == n && x.len() == y.len() => x.iter().zip(y).enumerate().find(|(_, (p, q))| p != q).map(|(i, (p, q))| format!(".{}:{}{}", m, i, diff(p, q))).unwrap_or_default(),
        _ => format!(" {} instead of {}", shorten(a), shorten(b)),
    }
}

pub fn judge(e: &Entry, text: &str, got: &Got, want: &Want) -> V {
    let head = || format!("type {} from {}", e.name, clip(text, 500));
    match &got.res {
        Ok(v) => {
            if !want.errs.is_empty() { return vio("mismatch accepted", format!("{}: no error, expected {}", head(), show_e(&want.errs))); }
            let w = want.val.as_ref().expect("value without errors");
            if v != w { return vio("value differs from what the annotations declare", format!("{}:{}", head(), diff(v, w))); }
        }
        Err(d) => {
            if want.errs.is_empty() { return vio("matching document rejected", format!("{}: {}", head(), show_d(d))); }
            if !errs_match(d, &want.errs) {
                return vio("errors differ from what the document calls for", format!("{}: reported [{}], expected [{}]", head(), show_d(d), show_e(&want.errs)));
            }
        }
    }
    Ok(())
}

/// One more step of the file's history: (text, parsed by the reference).
pub fn history(run: &mut Run, app: &mut App, disk: &mut Disk) -> Option<(String, Result<Vec<RNode>, ()>)> {
    if run.s.chance(1, 2) { app.edit(&mut run.s); }
    let t = app.text(&mut run.s);
    let fault = run.s.chance(1, 3);
    let a = disk.save(&mut run.s, &mut run.st, t.as_bytes(), fault);
    let (text, b) = if fault { let f = run.s.chance(1, 6); disk.read(&mut run.s, &mut run.st, f) } else { (t, Outcome::Clean) };
    run.note(|| format!("{} as {:?}, saved {:?}, read {:?}: {}", app.entry().name, app.how, a, b, clip(&text, 600)));
    if refkdl::nesting_bound(&text) > MAX_OPENERS { run.st.hit("skipped_nesting"); return None; }
    let parsed = refkdl::parse(&text).map(|p| p.nodes).map_err(|_| ());
    if a == Outcome::Clean && b == Outcome::Clean && parsed.is_err() { panic!("generator made bad text {:?}", text); }
    Some((text, parsed))
}

/// Text that is no KDL: an error, and no decoder ran.
fn judge_garbage(e: &Entry, text: &str, got: &Got) -> V {
    if got.res.is_ok() { return vio("garbage decoded", format!("type {} from {}", e.name, clip(text, 400))); }
    if !got.st.calls.is_empty() { return vio("decoder ran on text that is no KDL", clip(text, 400)); }
    Ok(())
}

fn sig(run: &mut Run, app: &App, text: &str, script: &Script) {
    let h = mix(&[app.id as u64, app.how as u64, fnv(text.as_bytes()), fnv(&script.table), script.salt]);
    run.st.sig_u64(h);
    if run.st.samples.is_empty() && text.len() > 30 { run.st.samples.push(format!("{} as {:?} from {}, {}", app.entry().name, app.how, clip(text, 200), if script.is_quiet() { "no injected failures".to_string() } else { format!("failure table {:?} salt {}", script.table, script.salt) })); }
}
fn tally(run: &mut Run, got: &Got, script: &Script) {
    run.st.add("decoder_calls", got.st.calls.len() as u64);
    run.st.add("fault.decoder_error", got.st.raised.len() as u64);
    run.st.hit(if got.res.is_ok() { "decoded" } else if script.is_quiet() { "rejected" } else { "rejected_or_failed" });
    let o = match &got.res { Ok(v) => format!("{:?}", v), Err(d) => show_d(d) };
    run.observe(o.as_bytes());
}

// ------------------------------------------------------------------- C05 ---

/// Loads started by decoders: at most so many, of files of at most so many bytes.
pub const NESTED: u64 = 60;
pub const INNER: usize = 4000;

/// A decoder that, now and then, loads another file before going on.
fn nesting_hook(seed: u64, inner: Rc<Vec<(usize, How, String)>>, script: Rc<Script>, bad: Rc<RefCell<Option<String>>>, count: Rc<RefCell<u64>>) -> Hook {
    Rc::new(move |_, key, _| {
        if inner.is_empty() || probe::depth() > depth_limit(seed) || mix(&[seed, key]) % 5 != 0 || *count.borrow() >= NESTED { return; }
        *count.borrow_mut() += 1;
        let (id, how, text) = &inner[(mix(&[seed, key, 1]) % inner.len() as u64) as usize];
        let again = nesting_hook(seed, inner.clone(), script.clone(), bad.clone(), count.clone());
        let got = match load(*how, *id, text, &script, Some(again), &mut |_| {}) { Ok(g) => g, Err(v) => { *bad.borrow_mut() = Some(v.msg); return; } };
        if let Err(v) = ledger(text, &got, &[]) { *bad.borrow_mut() = Some(format!("nested: {}: {}", v.class, v.msg)); }
    })
}

/// Everything injected is reported once, in order, as it was raised.
fn ledger(text: &str, got: &Got, before: &[RErr]) -> V {
    let mut want: Vec<RErr> = before.to_vec();
    want.extend(got.st.raised.iter().cloned());
    match &got.res {
        Ok(_) => if !want.is_empty() {
            return vio("error lost: decoding succeeded", format!("raised [{}] in {}", show_e(&want), clip(text, 400)));
        },
        Err(d) => {
            if d.is_empty() { return vio("failure without any error", clip(text, 400)); }
            let mine: Vec<&Diag> = d.iter().filter(|x| probe::injected(&x.msg)).collect();
            if mine.len() != want.len() || !mine.iter().zip(&want).all(|(a, b)| err_matches(a, b)) {
                return vio("raised errors not reported exactly once in order", format!("raised [{}], reported [{}] for {}", show_e(&want), show_d(d), clip(text, 400)));
            }
        }
    }
    Ok(())
}

pub fn c05(run: &mut Run) -> V {
    let mut app = App::draw(&mut run.s);
    let mut disk = Disk::new(&mut run.s);
    let rounds = run.s.range(1, 3);
    for _ in 0..rounds {
        let script = Rc::new(Script::draw(&mut run.s, Naming::Counter));
        let (text, parsed) = match history(run, &mut app, &mut disk) { Some(x) => x, None => continue };
        let e = app.entry();
        let n_before = if run.s.chance(1, 8) { run.s.range(1, 2) } else { 0 };
        let before: Vec<RErr> = (0..n_before).map(|i| RErr::bare(format!("ctx-{}", i))).collect();
        let bad = Rc::new(RefCell::new(None));
        let count = Rc::new(RefCell::new(0));
        let hook = if run.s.chance(1, 4) {
            let mut v = vec![];
            for _ in 0..run.s.range(1, 2) { let a = App::draw(&mut run.s); let t = a.text(&mut run.s); if t.len() <= INNER { v.push((a.id, a.how, t)); } }
            let seed = run.s.draw(1 << 20);
            Some(nesting_hook(seed, Rc::new(v), script.clone(), bad.clone(), count.clone()))
        } else { None };
        let got = load(app.how, app.id, &text, &script, hook, &mut |c| for i in 0..n_before { c.emit(format!("ctx-{}", i)) })?;
        run.st.add("nested_loads", *count.borrow());
        if let Some(m) = bad.borrow_mut().take() { return vio("nested load broken", m); }
        tally(run, &got, &script);
        run.note(|| format!("raised [{}]; {}", show_e(&got.st.raised), match &got.res { Ok(_) => "decoded".to_string(), Err(d) => show_d(d) }));
        match parsed {
            Err(()) => judge_garbage(e, &text, &got)?,
            Ok(nodes) => {
                ledger(&text, &got, &before)?;
                // success if and only if nothing at all was raised
                let want = meaning(app.how, e.shape, &nodes, &script, before.clone());
                if got.res.is_ok() != want.errs.is_empty() {
                    return vio("success does not match the errors raised", format!("type {} from {}: expected [{}]", e.name, clip(&text, 400), show_e(&want.errs)));
                }
                if let Err(d) = &got.res {
                    // whatever else is reported was raised by the library for this document
                    let own = d.iter().filter(|x| !probe::injected(&x.msg)).count();
                    let w = want.errs.iter().filter(|x| !x.msg.as_deref().map_or(false, |m| probe::injected(m))).count();
                    if own != w { return vio("library errors lost or repeated", format!("type {} from {}: [{}], expected [{}]", e.name, clip(&text, 400), show_d(d), show_e(&want.errs))); }
                }
                // one node alone
                if !nodes.is_empty() && run.s.chance(1, 3) { single(run, &app, &text, &nodes, &script, false)?; }
            }
        }
        if !text.is_empty() && !got.st.raised.is_empty() { sig(run, &app, &text, &script); }
    }
    Ok(())
}

/// `decode::node` on one node of the text.
fn single(run: &mut Run, app: &App, text: &str, nodes: &[RNode], script: &Rc<Script>, exact: bool) -> V {
    let ast = match super::text::load::<Span>(text) { Ok(d) => d, Err(_) => return vio("KDL text rejected", clip(text, 400)) };
    let i = run.s.below(nodes.len());
    if ast.nodes.len() != nodes.len() { return vio("nodes lost", clip(text, 400)); }
    let (r, st) = probe::with(script, None, || catalog::node(app.id, &ast.nodes[i]));
    let got = Got { res: r.map_err(|v| v.iter().map(|e| to_diag(e)).collect()), st };
    run.st.hit("single_node_decodes");
    if !exact { return ledger(text, &got, &[]); }
    let mut rf = Ref::new(script);
    let val = match rf.node(app.entry().shape, &nodes[i]) { Ok(v) => Some(v), Err(e) => { rf.errs.push(e); None } };
    let want = Want { val, errs: rf.errs, calls: rf.calls, own: rf.own };
    judge(app.entry(), text, &got, &want)
}

// ------------------------------------------------------------------- C06 ---

pub fn c06(run: &mut Run) -> V {
    let mut app = App::draw(&mut run.s);
    let mut disk = Disk::new(&mut run.s);
    let rounds = run.s.range(1, 3);
    for _ in 0..rounds {
        let script = Rc::new(if run.s.chance(1, 3) { Script::draw(&mut run.s, Naming::Counter) } else { Script::quiet() });
        let (text, parsed) = match history(run, &mut app, &mut disk) { Some(x) => x, None => continue };
        let e = app.entry();
        let got = load(app.how, app.id, &text, &script, None, &mut |_| {})?;
        tally(run, &got, &script);
        match parsed {
            Err(()) => judge_garbage(e, &text, &got)?,
            Ok(nodes) => {
                let want = meaning(app.how, e.shape, &nodes, &script, vec![]);
                run.note(|| format!("expected {}", if want.errs.is_empty() { format!("{:?}", want.val) } else { show_e(&want.errs) }));
                run.st.add("library_errors", want.own as u64);
                judge(e, &text, &got, &want)?;
                if !nodes.is_empty() && run.s.chance(1, 4) { single(run, &app, &text, &nodes, &script, true)?; }
            }
        }
        if !text.is_empty() { sig(run, &app, &text, &script); }
    }
    Ok(())
}

// ------------------------------------------------------------------- C07 ---

pub fn c07(run: &mut Run) -> V {
    let mut app = App::draw(&mut run.s);
    if app.how == How::Doc { app.how = How::List; app.fill(&mut run.s); }
    let mut disk = Disk::new(&mut run.s);
    let rounds = run.s.range(1, 3);
    for _ in 0..rounds {
        let script = Rc::new(Script::draw(&mut run.s, Naming::Key));
        // several siblings
        let extra = run.s.below(if app.bulk { 60 } else { 4 });
        for _ in 0..extra {
            let sh = app.entry().shape;
            let n = DocGen { s: &mut run.s, noise: app.noise, typed: app.typed, bulk: false, huge: false, left: 1500 }.shape(sh, None, 2);
            app.nodes.push(n);
        }
        let (text, parsed) = match history(run, &mut app, &mut disk) { Some(x) => x, None => continue };
        if parsed.is_err() { run.st.hit("unparsable"); continue; }
        let e = app.entry();
        // the application may have complained before the first node
        let n_before = if run.s.chance(1, 8) { run.s.range(1, 2) } else { 0 };
        let got = load(app.how, app.id, &text, &script, None, &mut |c| for i in 0..n_before { c.emit(format!("ctx-{}", i)) })?;
        tally(run, &got, &script);
        let ast = match super::text::load::<Span>(&text) { Ok(d) => d, Err(_) => return vio("KDL text rejected", clip(&text, 400)) };
        let (mut vals, mut calls) = (vec![], vec![]);
        let mut errs: Vec<Diag> = (0..n_before).map(|i| Diag { msg: format!("ctx-{}", i), labels: vec![] }).collect();
        let mut failed = n_before as u64;
        for n in &ast.nodes {
            let (r, st) = probe::with(&script, None, || catalog::node(app.id, n));
            calls.extend(st.calls.into_iter().map(|c| (c.kind, c.key)));
            match r {
                Ok(v) => vals.push(v),
                Err(v) => { failed += 1; if v.is_empty() { return vio("node failed without an error", clip(&text, 400)); } errs.extend(v.iter().map(|e| to_diag(e))) }
            }
        }
        run.note(|| format!("{} nodes, {} fail alone: {}", ast.nodes.len(), failed, show_d(&errs)));
        run.st.add("nodes", ast.nodes.len() as u64);
        run.st.add("failing_nodes", failed);
        let head = || format!("type {} from {}", e.name, clip(&text, 500));
        match &got.res {
            Ok(v) => {
                if failed > 0 { return vio("failing node hidden", format!("{}: [{}]", head(), show_d(&errs))); }
                let w = Val::List(vals);
                if *v != w { return vio("list differs from the nodes decoded alone", format!("{}:{}", head(), diff(v, &w))); }
            }
            Err(d) => {
                let same = d.len() == errs.len() && d.iter().zip(&errs).all(|(a, b)| same_diag(a, b));
                if !same { return vio("errors of siblings lost, repeated or reordered", format!("{}: list [{}], alone [{}]", head(), show_d(d), show_d(&errs))); }
            }
        }
        let mine: Vec<_> = got.st.calls.iter().map(|c| (c.kind, c.key)).collect();
        if mine != calls { return vio("nodes not attempted exactly once in order", format!("{}: {} decoder calls in the list, {} alone", head(), mine.len(), calls.len())); }
        if ast.nodes.len() > 1 { sig(run, &app, &text, &script); }
    }
    Ok(())
}
pub fn same_diag(a: &Diag, b: &Diag) -> bool {
    a.msg == b.msg && a.labels.len() == b.labels.len() && a.labels.iter().zip(&b.labels).all(|(x, y)| x.s == y.s && x.e == y.e && x.text == y.text)
}

// ------------------------------------------------------------------- C08 ---

/// Model of every live context, innermost last.
pub struct Model { pub stack: Vec<[Option<u64>; SLOTS]>, pub bad: Option<String>, pub ops: u64, pub nested: u64, pub clock: u64, /** how many types are in use */ pub width: usize }
impl Model {
    pub fn new(seed: u64) -> Model { Model { stack: vec![[None; SLOTS]], bad: None, ops: 0, nested: 0, clock: 0, width: if mix(&[seed, 77]) % 12 == 0 { SLOTS } else { FORMS } } }
}
/// How deep loads started by decoders of loads started by decoders may go.
pub fn depth_limit(seed: u64) -> usize { if mix(&[seed, 78]) % 6 == 0 { 12 } else { 4 } }

fn check_ctx(m: &mut Model, c: &dyn Ctx, place: &str) {
    let top = *m.stack.last().unwrap();
    for (i, want) in top.iter().enumerate().take(m.width) {
        let got = c.get_slot(i);
        if got != *want && m.bad.is_none() { m.bad = Some(format!("{}: slot {} reads {:?} instead of {:?} (decode depth {})", place, i, got, want, m.stack.len())); }
    }
}
pub fn seed_ctx(m: &mut Model, seed: u64, c: &mut dyn Ctx) {
    let fresh = [None; SLOTS];
    *m.stack.last_mut().unwrap() = fresh;
    check_ctx(m, c, "fresh context");
    let n = mix(&[seed, 7]) % if m.width > FORMS { 60 } else { 5 };
    for i in 0..n {
        let slot = (mix(&[seed, 8, i]) % m.width as u64) as usize;
        m.clock += 1;
        let v = m.clock;
        c.set_slot(slot, v);
        m.stack.last_mut().unwrap()[slot] = Some(v);
    }
    check_ctx(m, c, "after preparing");
}
pub fn ctx_hook(seed: u64, limit: usize, m: Rc<RefCell<Model>>, inner: Rc<Vec<(usize, How, String)>>, script: Rc<Script>) -> Hook {
    Rc::new(move |kind, key, ctx| {
        let ctx = match ctx { Some(c) => c, None => return };
        let n;
        {
            let mut m = m.borrow_mut();
            check_ctx(&mut m, ctx, "decoder entry");
            m.ops += 1;
            n = m.ops;
            let h = mix(&[seed, n, kind as u64, key]);
            for i in 0..h % 3 {
                let slot = (mix(&[h, i]) % m.width as u64) as usize;
                m.clock += 1;
                let v = m.clock;
                ctx.set_slot(slot, v);
                m.stack.last_mut().unwrap()[slot] = Some(v);
                check_ctx(&mut m, ctx, "after setting");
            }
        }
        let h = mix(&[seed, n, 99]);
        if !inner.is_empty() && probe::depth() < limit && h % 4 == 0 && m.borrow().nested < NESTED {
            let (id, how, text) = &inner[(mix(&[h, 1]) % inner.len() as u64) as usize];
            { let mut m = m.borrow_mut(); m.stack.push([None; SLOTS]); m.nested += 1; }
            let hook = ctx_hook(mix(&[h, 2]), limit, m.clone(), inner.clone(), script.clone());
            let errors = ctx.errors();
            if h % 8 == 0 {
                let _ = load(*how, *id, text, &script, Some(hook), &mut |c| seed_ctx(&mut m.borrow_mut(), h, c));
            } else if let Ok(ast) = super::text::load::<Span>(text) {
                // a context of its own for every node
                for x in &ast.nodes {
                    *m.borrow_mut().stack.last_mut().unwrap() = [None; SLOTS];
                    let _ = probe::with(&script, Some(hook.clone()), || catalog::node(*id, x));
                }
            }
            let mut m = m.borrow_mut();
            m.stack.pop();
            check_ctx(&mut m, ctx, "after a nested decode");
            if ctx.errors() != errors && m.bad.is_none() { m.bad = Some("nested decode changed whether errors are seen".into()); }
        }
    })
}

pub fn c08(run: &mut Run) -> V {
    // prefer types with decoders in them
    let mut app = App::draw(&mut run.s);
    for _ in 0..2 { if app.entry().pure { app = App::draw(&mut run.s); } }
    let mut disk = Disk::new(&mut run.s);
    let rounds = run.s.range(1, 3);
    let m = Rc::new(RefCell::new(Model::new(run.s.draw(1 << 20))));
    for _ in 0..rounds {
        let script = Rc::new(Script::draw(&mut run.s, Naming::Counter));
        let (text, parsed) = match history(run, &mut app, &mut disk) { Some(x) => x, None => continue };
        let mut inner = vec![];
        for _ in 0..run.s.below(3) { let a = App::draw(&mut run.s); let t = a.text(&mut run.s); if t.len() <= INNER { inner.push((a.id, a.how, t)); } }
        let seed = run.s.draw(1 << 20);
        let n_before = if run.s.chance(1, 6) { 1 } else { 0 };
        let before: Vec<RErr> = (0..n_before).map(|i| RErr::bare(format!("ctx-{}", i))).collect();
        let hook = ctx_hook(seed, depth_limit(seed), m.clone(), Rc::new(inner), script.clone());
        let (ops0, nested0) = { let m = m.borrow(); (m.ops, m.nested) };
        let mut wrong = None;
        let got = load(app.how, app.id, &text, &script, Some(hook), &mut |c| {
            if c.errors() { wrong = Some("fresh context shows errors"); }
            for i in 0..n_before { c.emit(format!("ctx-{}", i)); }
            if c.errors() != (n_before > 0) { wrong = Some("context does not show the errors emitted"); }
            seed_ctx(&mut m.borrow_mut(), seed, c)
        })?;
        tally(run, &got, &script);
        if let Some(w) = wrong { return vio("context state wrong before decoding", w.into()); }
        { let mm = m.borrow(); run.st.add("context_checks", mm.ops - ops0); run.st.add("nested_decodes", mm.nested - nested0); }
        if let Some(b) = m.borrow_mut().bad.take() { return vio("context read does not give the last value set in this decode", format!("type {} from {}: {}", app.entry().name, clip(&text, 400), b)); }
        if let Ok(nodes) = &parsed {
            let want = meaning(app.how, app.entry().shape, nodes, &script, before);
            for (i, (a, b)) in got.st.calls.iter().zip(&want.calls).enumerate() {
                if a.kind != b.kind || a.key != b.key { break; } // another property's business
                if a.has_errors != b.has_errors {
                    return vio("visible errors do not match the errors emitted", format!("type {} from {}: at decoder call {} has_errors() is {:?} instead of {:?}", app.entry().name, clip(&text, 400), i, a.has_errors, b.has_errors));
                }
            }
            if !got.st.calls.is_empty() { sig(run, &app, &text, &script); }
        }
    }
    Ok(())
}
