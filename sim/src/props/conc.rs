//! C09: several threads of loads under a seeded scheduler, with nested loads
//! and decoders that unwind.
use std::cell::RefCell;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

use knuffel::ast::Document;
use knuffel::span::{LineSpan, Span};

use super::snap;
use super::text::{diags, Editor};
use super::typed::{call, ctx_hook, depth_limit, judge, load, meaning, seed_ctx, show_d, App, Got, How, Model, INNER, NESTED};
use super::Injected;
use crate::choice::mix;
use crate::cmp;
use crate::disk::{Disk, Outcome};
use crate::refkdl::{self, Lines};
use crate::run::{clip, vio, Run, V};
use crate::sched;
use crate::typed::catalog::{self, CATALOG};
use crate::typed::probe::{self, Hook, Naming, Script};

const STACK: usize = 128 << 20;
const MAX_OPEN: usize = 120;

/// Another load, started by a decoder.
#[derive(Clone, Debug)]
struct Inner { id: usize, how: How, text: String, script: Script }
#[derive(Clone, Debug)]
enum Hooks {
    None,
    /// loads other files inside decoders; some of the inner ones unwind and are caught there
    Nest { seed: u64, inner: Vec<Inner>, unwind: bool },
    /// unwinds at decoder calls picked by the seed
    Panic { seed: u64, rate: u64 },
    /// writes and reads the context
    Store { seed: u64, inner: Vec<(usize, How, String)> },
}
#[derive(Clone, Debug)]
enum Job {
    Text(String),
    Lines(String),
    Typed { id: usize, how: How, text: String, script: Script, hooks: Hooks },
    /// nodes of a document shared by all threads
    Shared { id: usize, script: Script, panic: u64 },
    Snapshot(String),
    Report(String),
}

fn unwinding(seed: u64, rate: u64) -> Hook {
    Rc::new(move |kind, key, _| if mix(&[seed, kind as u64, key]) % rate == 0 { panic_any(Injected) })
}
fn nesting(seed: u64, limit: usize, inner: Rc<Vec<Inner>>, unwind: bool, bad: Rc<RefCell<Option<String>>>, left: Rc<std::cell::Cell<u64>>) -> Hook {
    Rc::new(move |kind, key, _| {
        let h = mix(&[seed, kind as u64, key]);
        if inner.is_empty() || probe::depth() > limit || h % 3 != 0 || left.get() == 0 { return; }
        left.set(left.get() - 1);
        let x = &inner[(mix(&[h, 1]) % inner.len() as u64) as usize];
        let sc = Rc::new(x.script.clone());
        if unwind && h % 2 == 0 {
            let d = probe::depth();
            let r = catch_unwind(AssertUnwindSafe(|| load(x.how, x.id, &x.text, &sc, Some(unwinding(h, 2)), &mut |_| {}).is_ok()));
            if r.is_err() { while probe::depth() > d { probe::end(); } }
            return;
        }
        let again = nesting(mix(&[seed, 5]), limit, inner.clone(), unwind, bad.clone(), left.clone());
        match typed_alone(x, &sc, Some(again)) { Ok(_) => {} Err(m) => { bad.borrow_mut().get_or_insert(m); } }
    })
}
/// A typed load judged against the reference; its result as text.
fn typed_alone(x: &Inner, sc: &Rc<Script>, hook: Option<Hook>) -> Result<String, String> {
    // the caller's preparation of the context may load files too
    let first = hook.clone();
    let got = load(x.how, x.id, &x.text, sc, hook, &mut |_| if let Some(h) = &first { h(probe::Kind::Node, u64::MAX, None) }).map_err(|v| format!("{}: {}", v.class, v.msg))?;
    check_typed(x.id, x.how, &x.text, sc, &got)?;
    Ok(shown(&got))
}
fn check_typed(id: usize, how: How, text: &str, sc: &Rc<Script>, got: &Got) -> Result<(), String> {
    match refkdl::parse(text) {
        Ok(p) => {
            let want = meaning(how, CATALOG[id].shape, &p.nodes, sc, vec![]);
            judge(&CATALOG[id], text, got, &want).map_err(|v| format!("{}: {}", v.class, v.msg))
        }
        Err(_) => if got.res.is_ok() { Err("garbage decoded".into()) } else { Ok(()) },
    }
}
fn shown(got: &Got) -> String {
    format!("{} | {} calls {:?}", match &got.res { Ok(v) => format!("{:?}", v), Err(d) => show_d(d) }, got.st.calls.len(), got.st.calls.iter().map(|c| (c.key, c.has_errors)).collect::<Vec<_>>())
}
fn text_job<S: snap::Snap>(text: &str) -> Result<String, String> {
    match super::text::load::<S>(text) {
        Ok(d) => {
            if let Ok(p) = refkdl::parse(text) {
                cmp::document(&d, &p.nodes)?;
                cmp::nodes_pos(&d.nodes, &p.nodes, &Lines::new(text))?;
            } else { return Err("text accepted that is no KDL".into()); }
            Ok(format!("{:?}", d))
        }
        Err(e) => {
            if refkdl::parse(text).is_ok() { return Err(format!("KDL rejected: {}", show_d(&diags(&e)))); }
            Ok(show_d(&diags(&e)))
        }
    }
}

/// What the job gives, and what is wrong with that by itself.
fn perform(j: &Job, shared: &Arc<Document<Span>>) -> (String, Option<String>) {
    let flat = |r: Result<String, String>| match r { Ok(s) => (s, None), Err(m) => (String::new(), Some(m)) };
    match j {
        Job::Text(t) => flat(text_job::<Span>(t)),
        Job::Lines(t) => flat(text_job::<LineSpan>(t)),
        Job::Snapshot(t) => flat((|| {
            let d = match super::text::load::<LineSpan>(t) { Ok(d) => d, Err(_) => return Ok("rejected".into()) };
            let b = snap::write(&d);
            let e = snap::read::<LineSpan>(&b).map_err(|e| e.to_string())?;
            if format!("{:?}", d) != format!("{:?}", e) { return Err("restored document differs".into()); }
            Ok(snap::hex(&b))
        })()),
        Job::Report(t) => match super::text::load::<Span>(t) {
            Ok(d) => (format!("{} nodes", d.nodes.len()), None),
            Err(e) => {
                let mut o = String::new();
                let _ = miette::JSONReportHandler::new().render_report(&mut o, &e);
                (format!("{} {:?} {}", e, diags(&e), o), None)
            }
        },
        Job::Typed { id, how, text, script, hooks } => {
            let sc = Rc::new(script.clone());
            let x = Inner { id: *id, how: *how, text: text.clone(), script: script.clone() };
            match hooks {
                Hooks::None => flat(typed_alone(&x, &sc, None)),
                Hooks::Nest { seed, inner, unwind } => {
                    let bad = Rc::new(RefCell::new(None));
                    let r = typed_alone(&x, &sc, Some(nesting(*seed, depth_limit(*seed), Rc::new(inner.clone()), *unwind, bad.clone(), Rc::new(std::cell::Cell::new(NESTED)))));
                    if let Some(m) = bad.borrow_mut().take() { return (String::new(), Some(format!("nested load: {}", m))); }
                    flat(r)
                }
                Hooks::Panic { seed, rate } => {
                    probe::begin(sc, Some(unwinding(*seed, *rate)));
                    let r = catch_unwind(AssertUnwindSafe(|| call(*how, *id, text, &mut |_| if seed % 7 == 0 { panic_any(Injected) })));
                    let st = probe::end();
                    match r {
                        Ok(r) => (format!("{:?} | {:?}", r.map_err(|e| show_d(&diags(&e))), st.calls.iter().map(|c| (c.key, c.has_errors)).collect::<Vec<_>>()), None),
                        Err(p) if p.is::<Injected>() => (format!("unwound | {:?}", st.calls.iter().map(|c| (c.key, c.has_errors)).collect::<Vec<_>>()), None),
                        Err(p) => std::panic::resume_unwind(p),
                    }
                }
                Hooks::Store { seed, inner } => {
                    let m = Rc::new(RefCell::new(Model::new(*seed)));
                    let h = ctx_hook(*seed, depth_limit(*seed), m.clone(), Rc::new(inner.clone()), sc.clone());
                    let r = load(*how, *id, text, &sc, Some(h), &mut |c| seed_ctx(&mut m.borrow_mut(), *seed, c));
                    if let Some(b) = m.borrow_mut().bad.take() { return (String::new(), Some(format!("context: {}", b))); }
                    match r { Ok(g) => (shown(&g), check_typed(*id, *how, text, &sc, &g).err()), Err(v) => (String::new(), Some(v.msg)) }
                }
            }
        }
        Job::Shared { id, script, panic } => {
            let sc = Rc::new(script.clone());
            let mut o = String::new();
            for n in &shared.nodes {
                probe::begin(sc.clone(), if *panic > 0 { Some(unwinding(*panic, 3)) } else { None });
                let r = catch_unwind(AssertUnwindSafe(|| catalog::node(*id, n)));
                probe::end();
                o.push_str(&match r {
                    Ok(Ok(v)) => format!("{:?};", v),
                    Ok(Err(v)) => v.iter().map(|e| format!("{};", e)).collect(),
                    Err(p) if p.is::<Injected>() => "unwound;".into(),
                    Err(p) => std::panic::resume_unwind(p),
                });
            }
            (o, None)
        }
    }
}
/// One after the other; a panic that nobody injected ends the list.
fn perform_all(jobs: &[Job], shared: &Arc<Document<Span>>) -> Vec<(String, Option<String>)> {
    let mut v = vec![];
    for j in jobs {
        match catch_unwind(AssertUnwindSafe(|| perform(j, shared))) {
            Ok(r) => v.push(r),
            Err(_) => { probe::reset(); v.push((String::new(), Some("panic".into()))); break; }
        }
    }
    v
}

fn small(text: &str) -> bool { refkdl::nesting_bound(text) <= MAX_OPEN }

fn draw_typed(run: &mut Run, disk: &mut Disk, rough: bool) -> Option<(usize, How, String, Script)> {
    let mut app = App::draw(&mut run.s);
    if rough && run.s.chance(1, 2) { app.noise = 14; app.bulk = true; app.fill(&mut run.s); }
    let t = app.text(&mut run.s);
    let text = if run.s.chance(1, 5) { disk.save(&mut run.s, &mut run.st, t.as_bytes(), true); disk.read(&mut run.s, &mut run.st, false).0 } else { t };
    let script = Script::draw(&mut run.s, Naming::Key);
    if !small(&text) { return None; }
    Some((app.id, app.how, text, script))
}
fn draw_job(run: &mut Run, ed: &mut Editor, disk: &mut Disk, rough: bool) -> Option<Job> {
    let k = run.s.weighted(&[2, 2, 6, 2, 1, 1]);
    if k == 2 {
        let (id, how, text, script) = draw_typed(run, disk, rough)?;
        let hooks = match run.s.below(4) {
            0 => Hooks::None,
            1 => {
                let mut inner = vec![];
                for _ in 0..run.s.range(1, 2) { let (id, how, text, script) = draw_typed(run, disk, rough)?; if text.len() <= INNER { inner.push(Inner { id, how, text, script }); } }
                Hooks::Nest { seed: run.s.draw(1 << 20), inner, unwind: run.s.chance(1, 2) }
            }
            2 => Hooks::Panic { seed: run.s.draw(1 << 20), rate: [1, 2, 4][run.s.below(3)] },
            _ => {
                let mut inner = vec![];
                for _ in 0..run.s.below(2) { let (id, how, text, _) = draw_typed(run, disk, rough)?; if text.len() <= INNER { inner.push((id, how, text)); } }
                Hooks::Store { seed: run.s.draw(1 << 20), inner }
            }
        };
        return Some(Job::Typed { id, how, text, script, hooks });
    }
    if k == 3 { return Some(Job::Shared { id: run.s.below(CATALOG.len()), script: Script::draw(&mut run.s, Naming::Key), panic: if run.s.chance(1, 3) { 1 + run.s.draw(1 << 20) } else { 0 } }); }
    ed.edit(run);
    let t = ed.text();
    let fault = k == 5 || run.s.chance(1, 3);
    let a = disk.save(&mut run.s, &mut run.st, t.as_bytes(), fault);
    let (text, b) = if fault { { let f = run.s.chance(1, 4); disk.read(&mut run.s, &mut run.st, f) } } else { (t, Outcome::Clean) };
    let _ = (a, b);
    if !small(&text) { return None; }
    Some(match k { 0 => Job::Text(text), 1 => Job::Lines(text), 4 => Job::Snapshot(text), _ => Job::Report(text) })
}

fn warm_up() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let d = Arc::new(super::text::load::<Span>("a 1 b=2 { c; }").unwrap());
        for j in [Job::Text("a \"".into()), Job::Lines("a 1 /*".into()), Job::Snapshot("a 1".into()), Job::Report("a {".into()), Job::Shared { id: 0, script: Script::quiet(), panic: 1 }] { perform(&j, &d); }
        let _ = catch_unwind(|| panic_any(Injected));
    });
}

pub fn c09(run: &mut Run) -> V {
    warm_up();
    let mut ed = Editor::new(run);
    let mut disk = Disk::new(&mut run.s);
    // the document all threads share
    let app = App::draw(&mut run.s);
    let stext = app.text(&mut run.s);
    let shared = match super::text::load::<Span>(&stext) { Ok(d) => Arc::new(d), Err(_) => { run.st.hit("load_off"); return Ok(()) } };
    let most = if run.s.chance(1, 6) { sched::MAX } else { 4 };
    let n = run.s.range(1, most);
    // documents with many errors
    let rough = run.s.chance(1, 8);
    let mut lists: Vec<Vec<Job>> = vec![];
    for _ in 0..n {
        let mut v = vec![];
        for _ in 0..run.s.range(1, 4) { if let Some(j) = draw_job(run, &mut ed, &mut disk, rough) { v.push(match j { Job::Shared { script, panic, id } => Job::Shared { id: if id % 2 == 0 { app.id } else { id }, script, panic }, j => j }); } }
        lists.push(v);
    }
    for (i, l) in lists.iter().enumerate() { for j in l { run.note(|| format!("thread {}: {}", i, clip(&format!("{:?}", j), 900))); } }
    let bodies: Vec<Box<dyn FnOnce() -> Vec<(String, Option<String>)> + Send>> = lists.iter().map(|l| {
        let (l, s) = (l.clone(), shared.clone());
        Box::new(move || perform_all(&l, &s)) as Box<_>
    }).collect();
    let o = sched::run(&mut run.s, STACK, bodies);
    for e in o.events.iter().take(60) {
        run.note(|| format!("thread {} {} at its step {}; thread {} goes on", e.1, ["stopped in the allocator", "stalled in a decoder", "done"][e.0 as usize], e.3, e.2));
    }
    run.st.add("switches", o.switches as u64);
    run.st.add("fault.stalled_decoder", o.events.iter().filter(|e| e.0 == 1).count() as u64);
    if o.waited { run.st.hit("lock_waits"); }
    // alone, each on a thread of its own
    let mut digest = vec![];
    for (i, l) in lists.iter().enumerate() {
        run.st.add("loads", l.len() as u64);
        for (k, j) in l.iter().enumerate() {
            let got = match o.results[i].get(k) { Some(g) => g, None => break };
            if got.0.matches(" @").count() > 20 { run.st.hit("loads_with_over_20_errors"); }
            if got.0.starts_with("unwound") { run.st.hit("fault.decoder_unwound"); }
            if let Some(m) = &got.1 {
                let before: Vec<String> = l[..k].iter().map(|x| clip(&format!("{:?}", x), 200)).collect();
                return vio(if m == "panic" { "load panics among other loads" } else { "load gives a wrong result among other loads" },
                    format!("thread {} of {}, job {} {}: {}{}", i, n, k, clip(&format!("{:?}", j), 600), m, if before.is_empty() { String::new() } else { format!("; earlier on this thread: {}", before.join(", ")) }));
            }
            let alone = std::thread::scope(|sc| match std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, || perform_all(std::slice::from_ref(j), &shared)) { Ok(h) => h.join().unwrap(), Err(_) => std::process::exit(3) });
            if alone[0].0 != got.0 {
                return vio("load gives another result among other loads than alone", format!("thread {} of {}, job {} {}: {} instead of {}", i, n, k, clip(&format!("{:?}", j), 600), clip(&got.0, 500), clip(&alone[0].0, 500)));
            }
            digest.push(mix(&[i as u64, crate::stats::fnv(got.0.as_bytes())]));
        }
    }
    for e in &o.events { digest.push(mix(&[e.0 as u64, e.1 as u64, e.2 as u64, e.3])); }
    let h = mix(&digest);
    run.observe(&h.to_le_bytes());
    if o.switches > n { run.st.sig_u64(h); }
    if run.st.samples.is_empty() && n > 1 && o.switches > 3 { run.st.samples.push(format!("{} threads, {} loads, {} switches: {}", n, lists.iter().map(|l| l.len()).sum::<usize>(), o.switches, o.events.iter().take(12).map(|e| format!("{}@{}>{}", e.1, e.3, e.2)).collect::<Vec<_>>().join(" "))); }
    Ok(())
}
