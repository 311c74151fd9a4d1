//! C01..C04: one KDL file, an editor, a faulty disk and a loader.
use knuffel::ast::Document;
use knuffel::span::{LineSpan, Span};
use miette::Diagnostic;

use crate::alloc;
use crate::cmp::{self, View};
use crate::disk::{Disk, Outcome};
use crate::gen::{self, Gen, Knobs};
use crate::refkdl::{self, Fail, Lines, OpenKind, RLit, RNode, RValue};
use crate::run::{clip, vio, Run, V};

/// Names under which files are loaded; which one depends on the text and the salt.
const NAMES: &[&str] = &["config.kdl", "/etc/app/config.kdl", "./a b/\u{43a}\u{43e}\u{43d}.kdl", "", "C:\\x\\y.kdl", "<stdin>", "a.kdl:3:7", " x\ty\n.KDL ", "https://h/p/q.kdl?v=1#f", "a/very/long/path/a/very/long/path/a/very/long/path/a/very/long/path/a/very/long/path/a/very/long/path/a/very/long/path/a/very/long/path/a/very/long/path/a/very/long/path/a/very/long/path/a/very/long/path/a/very/long/path/c.kdl"];
thread_local! { static SALT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
pub fn salt_names(x: u64) { SALT.with(|s| s.set(x)) }
pub fn file_of(text: &str) -> &'static str {
    NAMES[(crate::choice::mix(&[crate::stats::fnv(text.as_bytes()), SALT.with(|s| s.get())]) % NAMES.len() as u64) as usize]
}
pub const MAX_NEST: usize = 47;
/// texts with more openers than this (nested or not) are not loaded: the stack
/// of the simulated process is sized for it
pub const MAX_OPENERS: usize = 1000;

/// The editor's copy of the file: top-level items in order.
pub struct Editor { pub items: Vec<(String, Option<RNode>)>, pub knobs: Knobs, pub pad: String, mass: bool }

/// What a file is padded with so that positions leave 16 bits.
const PADS: &[(&str, &str, &str)] = &[("", "\n", ""), ("", " ", ""), ("", "\t", ""), ("", "\r\n", ""), ("", "//\n", ""), ("/*", "x", "*/"), ("", "\u{3000}", ""), ("", "\u{2028}", ""),
    ("//", "x", "\n"), ("/*", " * \t\u{e9}\n", "*/")];

impl Editor {
    pub fn new(run: &mut Run) -> Editor {
        let knobs = Knobs::draw(&mut run.s);
        let pad = if run.s.chance(1, 700) {
            run.st.hit("padded_beyond_16_bits");
            let (a, u, z) = PADS[run.s.below(PADS.len())];
            format!("{}{}{}", a, u.repeat(run.s.range(65_000, 71_000) / if u == "\t" { 8 } else { u.len() }), z)
        } else { String::new() };
        let mut e = Editor { items: vec![], knobs, pad, mass: false };
        let n = run.s.below(if e.knobs.bulk == 2 { 60 } else { 4 });
        for _ in 0..n { e.append(run); }
        if run.s.chance(1, 1500) {
            // thousands of nodes
            run.st.hit("thousands_of_nodes");
            let n = run.s.range(300, 2500);
            let forms = run.s.range(1, 3);
            let small: Vec<_> = (0..forms).map(|_| (gen::bare(&mut run.s), run.s.below(3))).collect();
            for i in 0..n {
                let (name, k) = &small[i % forms];
                let text = match k { 0 => format!("{name}\n"), 1 => format!("{name};"), _ => format!("{name} {i}\n") };
                let args = if *k == 2 { vec![RValue { ty: None, lit: RLit::Int(10, i.to_string()), sp: gen::sp() }] } else { vec![] };
                e.items.push((text, Some(RNode { sp: gen::sp(), ty: None, name: gen::nm(name), args, props: vec![], children: None })));
            }
            e.append(run);
            e.mass = true;
        }
        e
    }
    fn fresh(&self, run: &mut Run) -> (String, Option<RNode>) {
        let mut g = Gen { s: &mut run.s, k: &self.knobs, out: String::new() };
        g.filler();
        let dead = self.knobs.slashdash > 0 && g.s.chance(self.knobs.slashdash, 14);
        if dead { g.out.push_str("/-"); if g.s.chance(1, 3) { g.nsp(); } }
        let n = g.node(0);
        g.filler();
        let out = g.out;
        (out, if dead { None } else { Some(n) })
    }
    fn append(&mut self, run: &mut Run) { let i = self.fresh(run); self.items.push(i); }
    pub fn edit(&mut self, run: &mut Run) {
        let n = self.items.len();
        match run.s.weighted(&[4, 2, 1, 1, 1]) {
            0 => self.append(run),
            1 if n > 0 => { let i = run.s.below(n); let x = self.fresh(run); self.items[i] = x; }
            2 if n > 0 => { let i = run.s.below(n); self.items.remove(i); }
            3 if n > 1 => { let (i, j) = (run.s.below(n), run.s.below(n)); self.items.swap(i, j); }
            4 => { let i = run.s.below(n + 1); let x = self.fresh(run); self.items.insert(i, x); }
            _ => self.append(run),
        }
        let most = if self.mass { 3000 } else if self.knobs.bulk == 2 { 80 } else { 8 };
        if self.items.len() > most { self.items.truncate(most); }
    }
    pub fn text(&self) -> String {
        let mut t = self.pad.clone();
        t.extend(self.items.iter().map(|x| &x.0[..]));
        t
    }
    pub fn model(&self) -> Vec<RNode> { self.items.iter().filter_map(|x| x.1.clone()).collect() }
}

pub fn load<S: knuffel::traits::Span>(text: &str) -> Result<Document<S>, knuffel::Error> {
    knuffel::parse_ast::<S>(file_of(text), text)
}

/// Texts that stress the reader: long runs of openers, deep nests, soup.
fn hostile(run: &mut Run) -> String {
    let s = &mut run.s;
    match s.below(6) {
        5 => { // one escape by code in an otherwise fine string
            let c = gen::code(s);
            let (p, q) = (["a \"", "\"", "a \"x\"=\"", "(\"", "a {\n b k=\""][s.below(5)], ["\"", "\"\n", "z\" 1\n", "\"}"][s.below(4)]);
            let t = ["", "x", "\\n", "é"][s.below(4)];
            format!("{}{}{}{}{}", p, t, c, t, q)
        }
        0 => { let n = if s.chance(1, 4) { 400 } else { 40 }; gen::soup(s, n) }
        1 => { // a run of one or two fragments
            let frag = ["/*", "/* ", "{", "a {", "a{\n", "(", "(a", "\"", "\\", "\\\n", "/-", "/- ", "/-{", "a /-{", "r#", "r#\"", "\"#", "-", "+", "//", "/*/", "*/", "/**/", "\\u{", "\"\\u{", "1_", "0x", ".", "e", "=", "a=", "a=\"", "a ", "a;", "}", "}\n", "\r", "\r\n", "\\ ", "true", "a \\\n", "/*a*/", "a /-b=", "a (b)", "a 1 ", "a{}", "a{};", "\"\\\"", "\"\\", "é", "\u{2028}", "/-a;", "/-a{", "a /-1", "a \"x\"=", "a (t)\"", "a /*", "a /-/*", "/-/*"];
            let a = frag[s.below(frag.len())];
            let b = if s.chance(1, 2) { frag[s.below(frag.len())] } else { "" };
            // keep nesting within the stated bound
            let deep = a.matches('{').count().max(a.matches("/*").count()) + b.matches('{').count().max(b.matches("/*").count());
            // `/*/` style fragments may join into extra openers: stay well below
            let cap = if deep > 0 { (MAX_NEST / 2) / deep } else { 300 };
            let n = s.range(1, cap.max(1));
            let mut t = String::new();
            for _ in 0..n { t.push_str(a); t.push_str(b); }
            if s.chance(1, 3) { let m = s.below(6); t.push_str(&gen::soup(s, m + 1)); }
            t
        }
        2 => { // deep but closed nest
            let n = s.range(1, MAX_NEST - 5);
            let comment = s.chance(1, 2);
            let mut t = String::new();
            if comment {
                t.push_str("a ");
                for _ in 0..n { t.push_str("/* "); }
                for _ in 0..n { t.push_str(" */"); }
            } else {
                for _ in 0..n { t.push_str(["a {", "a 1 {\n", "(t)a k=1{", "/-a {"][s.below(4)]); }
                for _ in 0..n { t.push_str(["};", "}\n", "} // c\n"][s.below(3)]); }
            }
            t
        }
        3 => { // one long token
            let n = s.range(1, 1500);
            let unit = ["a", "1", "_", "é", "\\n", " ", "\n", "#", "\"", "-", "0", "*", "/ "][s.below(13)];
            let pre = ["", "a \"", "a 1", "a ", "r", "a r#\"", "a /*", "//", "a k=", "a 0x", "a 1.", "a 1e"][s.below(12)];
            let post = ["", "\"", "*/", "\n", "\"#", "{"][s.below(6)];
            format!("{}{}{}", pre, unit.repeat(n), post)
        }
        _ => { // escapes in the wrong place
            let n = s.range(1, 12);
            let mut t = String::from("a \"");
            for _ in 0..n {
                t.push_str(["\\u{", "}", "\\", "\"", "D800", "110000", "FFFFFF", "0", "{", "\\x", "\\u", " ", "\\n", "zz", "\n", "}\"", "1234567", "\\u{0}", "é"][s.below(19)]);
            }
            t
        }
    }
}

/// The text a loader sees after one more step of the file's history.
pub struct Seen { pub text: String, pub clean: bool }

fn step(run: &mut Run, ed: &mut Editor, disk: &mut Disk) -> Seen {
    let fault_save = run.s.chance(2, 3);
    let fault_read = run.s.chance(1, 4);
    let edits = run.s.range(0, 2);
    for _ in 0..edits { ed.edit(run); }
    let t = ed.text();
    let a = disk.save(&mut run.s, &mut run.st, t.as_bytes(), fault_save);
    run.note(|| format!("edit x{}; save {} bytes: {:?}", edits, t.len(), a));
    let (text, b) = disk.read(&mut run.s, &mut run.st, fault_read);
    run.note(|| format!("read {:?}: {}", b, clip(&text, 400)));
    Seen { text, clean: a == Outcome::Clean && b == Outcome::Clean }
}

/// Cut at an arbitrary character, the classic crash during an append.
fn cut(run: &mut Run, t: &str) -> String {
    let n = t.chars().count();
    let k = run.s.below(n + 1);
    run.st.hit("fault.cut");
    t.chars().take(k).collect()
}

/// One character put into the text by another program, or in place of another.
fn stray(run: &mut Run, t: &str) -> String {
    let k = run.s.below(t.chars().count() + 1);
    let at = t.char_indices().nth(k).map_or(t.len(), |x| x.0);
    let c = if run.s.chance(1, 4) { gen::code(&mut run.s) } else { gen::edge(&mut run.s).to_string() };
    let drop = if run.s.chance(1, 3) { t[at..].chars().next().map_or(0, char::len_utf8) } else { 0 };
    run.st.hit("fault.stray_character");
    format!("{}{}{}", &t[..at], c, &t[at + drop..])
}

pub fn any_text(run: &mut Run, ed: &mut Editor, disk: &mut Disk) -> Seen {
    match run.s.weighted(&[10, 4, 6, 3]) {
        3 => {
            let whole = ed.text();
            let t = stray(run, &whole);
            run.note(|| format!("stray character: {}", clip(&t, 400)));
            ed.edit(run);
            Seen { text: t, clean: false }
        }
        0 => step(run, ed, disk),
        1 => {
            let t = hostile(run);
            run.st.hit("fault.garbage_file");
            run.note(|| format!("file replaced by garbage: {}", clip(&t, 400)));
            Seen { text: t, clean: false }
        }
        _ => {
            let whole = ed.text();
            let t = cut(run, &whole);
            run.note(|| format!("file cut: {}", clip(&t, 400)));
            ed.edit(run);
            Seen { text: t, clean: false }
        }
    }
}

// ------------------------------------------------------------------- C01 ---

/// Work bound: generous multiple of what the released parser needs.
pub fn step_budget(len: usize) -> u64 { 10_000 + 800 * len as u64 }
pub fn mem_budget(len: usize) -> u64 { (1 << 20) + 10_000 * len as u64 }

pub fn c01(run: &mut Run) -> V {
    let mut ed = Editor::new(run);
    let mut disk = Disk::new(&mut run.s);
    let rounds = run.s.range(1, 4);
    for _ in 0..rounds {
        let mut seen = any_text(run, &mut ed, &mut disk);
        if !seen.text.is_empty() && run.s.chance(1, 40) {
            // a big file: the same content over and over, as after a runaway append
            let n = (run.s.range(1, 24_000) / seen.text.len()).max(1);
            seen.text = seen.text.repeat(n);
            seen.clean = false;
            run.st.hit("fault.runaway_append");
            run.note(|| format!("repeated {} times", n));
        }
        let t = &seen.text;
        if refkdl::nesting_bound(t) > MAX_OPENERS { run.st.hit("skipped_nesting"); continue; }
        let len = t.len();
        let (a, sa, ma) = alloc::bounded(step_budget(len), mem_budget(len), || load::<Span>(t).is_ok());
        let (b, sb, mb) = alloc::bounded(step_budget(len), mem_budget(len), || load::<LineSpan>(t).is_ok());
        run.st.max("max.steps_per_budget_permille", sa.max(sb) * 1000 / step_budget(len));
        run.st.max("max.bytes_per_budget_permille", ma.max(mb) * 1000 / mem_budget(len));
        run.st.hit(if a { "accepted" } else { "rejected" });
        run.observe(format!("{}{}{}{}", a, b, sa, sb).as_bytes());
        if !t.is_empty() && (!a || !seen.clean) { run.st.sig(t.as_bytes()); }
    }
    // the process is still good for intact files
    let good = ed.text();
    if refkdl::nesting_bound(&good) <= MAX_OPENERS {
        let r = load::<Span>(&good);
        if r.is_err() && refkdl::parse(&good).is_ok() {
            return vio("intact text refused after damaged ones", clip(&good, 300));
        }
        run.note(|| format!("intact: {}", clip(&good, 200)));
    }
    if run.st.evals == 0 && run.s.log.len() % 4096 == 7 { run.st.samples.push(good); }
    Ok(())
}

// ------------------------------------------------------------------- C02 ---

fn judge_meaning<S>(run: &mut Run, t: &str) -> V
    where S: knuffel::traits::Span + View
{
    let got = load::<S>(t);
    let want = refkdl::parse(t);
    match (got, want) {
        (Ok(d), Ok(r)) => {
            run.st.hit("load.accepted");
            run.st.max("max.depth", r.depth as u64);
            run.observe(format!("ok{}", d.nodes.len()).as_bytes());
            if let Err(e) = cmp::document(&d, &r.nodes) {
                return vio("loaded document differs from what the text denotes", format!("{} in {}", e, clip(t, 400)));
            }
            Ok(())
        }
        (Err(_), Err(_)) => { run.st.hit("load.rejected"); run.observe(b"err"); Ok(()) }
        (Ok(d), Err(f)) => vio("text that is not KDL accepted",
            format!("{} at byte {}: {} loaded as {} nodes", f.why, f.at, clip(t, 400), d.nodes.len())),
        (Err(e), Ok(_)) => vio("KDL text rejected", format!("{}: {:?}", clip(t, 400), first_message(&e))),
    }
}

pub fn first_message(e: &knuffel::Error) -> Vec<String> {
    e.related().map(|r| r.map(|d| d.to_string()).collect()).unwrap_or_default()
}

pub fn c02(run: &mut Run) -> V {
    let mut ed = Editor::new(run);
    let mut disk = Disk::new(&mut run.s);
    let rounds = run.s.range(1, 5);
    for _ in 0..rounds {
        let seen = any_text(run, &mut ed, &mut disk);
        let t = &seen.text;
        if refkdl::nesting_bound(t) > MAX_OPENERS { run.st.hit("skipped_nesting"); continue; }
        judge_meaning::<Span>(run, t)?;
        if run.s.chance(1, 4) { judge_meaning::<LineSpan>(run, t)?; }
        if seen.clean {
            // what was saved is what comes back
            run.st.hit("clean_round_trip");
            let model = ed.model();
            let d = load::<Span>(t);
            let back = match &d { Ok(d) => d, Err(e) => return vio("clean save rejected", format!("{} {:?}", clip(t, 400), first_message(e))) };
            if let Err(e) = cmp::document(back, &model) {
                return vio("clean save does not load back", format!("{} in {}", e, clip(t, 400)));
            }
        }
        if !t.is_empty() { run.st.sig(t.as_bytes()); }
    }
    // faults stop: one clean save and load must restore the editor's document
    let t = ed.text();
    if refkdl::nesting_bound(&t) <= MAX_OPENERS {
        disk.save(&mut run.s, &mut run.st, t.as_bytes(), false);
        let d = load::<Span>(&t);
        match d {
            Err(e) => return vio("recovery save rejected", format!("{} {:?}", clip(&t, 400), first_message(&e))),
            Ok(d) => if let Err(e) = cmp::document(&d, &ed.model()) {
                return vio("recovery save does not load back", format!("{} in {}", e, clip(&t, 400)));
            }
        }
        run.st.hit("recovered");
    }
    Ok(())
}

// ------------------------------------------------------------------- C03 ---

pub fn c03(run: &mut Run) -> V {
    let mut ed = Editor::new(run);
    // positions need variety more than damage
    if run.s.chance(1, 2) { ed.knobs.exotic_nl = true; ed.knobs.unicode = true; ed.knobs.exotic_ws = true; }
    let mut disk = Disk::new(&mut run.s);
    let rounds = run.s.range(1, 4);
    for _ in 0..rounds {
        let seen = any_text(run, &mut ed, &mut disk);
        let t = &seen.text;
        if refkdl::nesting_bound(t) > MAX_OPENERS { run.st.hit("skipped_nesting"); continue; }
        positions(run, t, true)?;
    }
    Ok(())
}

fn positions(run: &mut Run, t: &str, recurse: bool) -> V {
    let a = load::<Span>(t);
    let b = load::<LineSpan>(t);
    if a.is_ok() != b.is_ok() {
        return vio("position modes disagree on acceptance", format!("Span {} LineSpan {}: {}", a.is_ok(), b.is_ok(), clip(t, 400)));
    }
    let r = refkdl::parse(t);
    match (a, b) {
        (Ok(a), Ok(b)) => {
            // judge positions only where the structure is as the text says
            if let Err(e) = agree(&a.nodes, &b.nodes) {
                return vio("position modes disagree", format!("{} in {}", e, clip(t, 400)));
            }
            if let Ok(r) = &r {
                if cmp::document(&a, &r.nodes).is_ok() {
                    let l = Lines::new(t);
                    let e = cmp::nodes_pos(&a.nodes, &r.nodes, &l).and_then(|_| cmp::nodes_pos(&b.nodes, &r.nodes, &l));
                    if let Err(e) = e { return vio("wrong position", format!("{} in {}", e, clip(t, 400))); }
                    run.st.hit("positions_checked");
                    if !t.is_empty() { run.st.sig(t.as_bytes()); }
                    run.observe(format!("{}", a.nodes.len()).as_bytes());
                }
            }
        }
        (Err(_), Err(_)) if recurse => {
            // the part in front of the damaged item keeps values and positions
            if let Err(f) = &r {
                let head = &t[..f.item_start];
                let (a, b) = (load::<Span>(head), load::<LineSpan>(head));
                if let (Ok(a), Ok(b)) = (a, b) {
                    let l = Lines::new(t);
                    let e = cmp::nodes(&a.nodes, &f.good)
                        .and_then(|_| cmp::nodes_pos(&a.nodes, &f.good, &l))
                        .and_then(|_| cmp::nodes_pos(&b.nodes, &f.good, &l));
                    if let Err(e) = e { return vio("intact part in front of a tear changed", format!("{} in {}", e, clip(head, 400))); }
                    run.st.hit("intact_head_checked");
                } else if refkdl::parse(head).is_ok() {
                    return vio("intact part in front of a tear refused", clip(head, 400));
                }
            }
        }
        _ => {}
    }
    Ok(())
}

/// Both modes: same structure, same byte ranges.
fn agree(a: &[knuffel::ast::SpannedNode<Span>], b: &[knuffel::ast::SpannedNode<LineSpan>]) -> Result<(), String> {
    let same = |x: &Span, y: &LineSpan, w: &str| if x.sp() == y.sp() { Ok(()) } else { Err(format!("{}: {:?} against {:?}", w, x, y)) };
    if a.len() != b.len() { return Err(format!("{} nodes against {}", a.len(), b.len())); }
    for (x, y) in a.iter().zip(b) {
        same(x.span(), y.span(), "node")?;
        same(x.node_name.span(), y.node_name.span(), "name")?;
        if **x.node_name != **y.node_name { return Err("names differ".into()); }
        let ty = |p: &Option<knuffel::span::Spanned<knuffel::ast::TypeName, Span>>, q: &Option<knuffel::span::Spanned<knuffel::ast::TypeName, LineSpan>>| match (p, q) {
            (None, None) => Ok(()),
            (Some(p), Some(q)) => { if **p != **q { return Err("type names differ".to_string()); } same(p.span(), q.span(), "type name") }
            _ => Err("type names differ".to_string()),
        };
        ty(&x.type_name, &y.type_name)?;
        if x.arguments.len() != y.arguments.len() || x.properties.len() != y.properties.len() { return Err("entry counts differ".into()); }
        let val = |p: &knuffel::ast::Value<Span>, q: &knuffel::ast::Value<LineSpan>| {
            ty(&p.type_name, &q.type_name)?;
            if *p.literal != *q.literal { return Err("values differ".to_string()); }
            same(p.literal.span(), q.literal.span(), "value")
        };
        for (p, q) in x.arguments.iter().zip(&y.arguments) { val(p, q)?; }
        for ((k, p), (l, q)) in x.properties.iter().zip(&y.properties) {
            if **k != **l { return Err("property names differ".into()); }
            same(k.span(), l.span(), "property name")?;
            val(p, q)?;
        }
        match (&x.children, &y.children) {
            (None, None) => {}
            (Some(p), Some(q)) => { same(p.span(), q.span(), "children")?; agree(p, q)?; }
            _ => return Err("children differ".into()),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- C04 ---

#[derive(Clone, Debug, PartialEq)]
pub struct Label { pub s: usize, pub e: usize, pub text: String }
#[derive(Clone, Debug, PartialEq)]
pub struct Diag { pub msg: String, pub labels: Vec<Label> }

pub fn diags(e: &knuffel::Error) -> Vec<Diag> {
    e.related().map(|it| it.map(|d| Diag {
        msg: d.to_string(),
        labels: d.labels().map(|l| l.map(|x| Label {
            s: x.offset(), e: x.offset() + x.len(), text: x.label().unwrap_or("").to_string(),
        }).collect()).unwrap_or_default(),
    }).collect()).unwrap_or_default()
}

/// The whole text and the file name are attached to the report.
pub fn source_attached(e: &knuffel::Error, text: &str) -> Result<(), String> {
    let sc = e.source_code().ok_or("no source attached")?;
    let span = miette::SourceSpan::from((0, text.len()));
    let c = sc.read_span(&span, 0, 0).map_err(|x| format!("source unreadable: {}", x))?;
    if c.data() != text.as_bytes() { return Err(format!("source differs: {}", clip(&String::from_utf8_lossy(c.data()), 200))); }
    if sc.read_span(&miette::SourceSpan::from((0, text.len() + 2)), 0, 0).is_ok() { return Err("attached source is longer than the text".into()); }
    if c.name() != Some(file_of(text)) { return Err(format!("source named {:?}", c.name())); }
    Ok(())
}

fn report<S: knuffel::traits::Span + View>(run: &mut Run, t: &str, f: &Fail) -> V {
    let e = match load::<S>(t) { Ok(_) => return Ok(()), Err(e) => e };
    let ds = diags(&e);
    if ds.is_empty() { return vio("rejected without any error", clip(t, 400)); }
    if let Err(x) = source_attached(&e, t) { return vio("report without its source", format!("{}: {}", x, clip(t, 400))); }
    run.st.add("errors_reported", ds.len() as u64);
    let show = || format!("{} <- {:?} [{}] (stops being KDL at byte {}: {}; item starts at {})", clip(t, 400),
        ds.iter().map(|d| format!("{} {:?}", d.msg, d.labels.iter().map(|l| format!("{}..{} {}", l.s, l.e, l.text)).collect::<Vec<_>>())).collect::<Vec<_>>(), S::MODE, f.at, f.why, f.item_start);
    let mut reach = false;
    for d in &ds {
        if d.msg.is_empty() { return vio("error without a message", show()); }
        if d.labels.is_empty() { return vio("error without a position", show()); }
        for l in &d.labels {
            if l.e > t.len() || l.s > l.e || !t.is_char_boundary(l.s) || !t.is_char_boundary(l.e) {
                return vio("label outside the text or inside a character", show());
            }
            if l.s < f.item_start { return vio("error points at intact text in front of the damage", show()); }
            if l.e >= f.at { reach = true; }
        }
    }
    for d in &ds {
        if let Some(rest) = d.msg.strip_prefix("found ").filter(|r| r.starts_with('`') || r.starts_with("end of input")) {
            let at = &d.labels[0];
            let want = match t[at.s..].chars().next() {
                None => "end of input".to_string(),
                Some(c @ ('"' | '\'' | '\\')) => format!("`{}`", c),
                Some(c) => format!("`{}`", c.escape_default()),
            };
            let word = format!("`{}`", t[at.s..at.e].escape_default());
            if !(rest == want || rest.strip_prefix(&word[..]).map_or(false, |x| x.is_empty() || x.starts_with(", expected ")) || rest.strip_prefix(&want[..]).map_or(false, |x| x.starts_with(", expected "))) {
                return vio("error names another character than the one it points at", format!("expected {}: {}", want, show()));
            }
            if !rest.starts_with(&word[..]) && t[at.s..at.e].chars().count() != (at.s < t.len()) as usize { return vio("label does not cover what the error names", show()); }
        }
    }
    if !reach { return vio("no error reaches the damage", show()); }
    if let Some((kind, op)) = &f.open {
        let word = match kind { OpenKind::Str => "string", OpenKind::Raw => "raw string", OpenKind::Comment => "comment", OpenKind::Braces => "curly braces" };
        let ok = ds.iter().any(|d| d.msg.contains("unclosed") && d.msg.contains(word)
            && d.labels.iter().any(|l| l.s == op.s && l.e == op.e));
        if !ok { return vio("unclosed construct not reported at its opener", format!("{:?} {:?}: {}", kind, op, show())); }
        run.st.hit(match kind { OpenKind::Str => "unclosed.string", OpenKind::Raw => "unclosed.raw", OpenKind::Comment => "unclosed.comment", OpenKind::Braces => "unclosed.braces" });
    }
    run.observe(format!("{}", ds.len()).as_bytes());
    Ok(())
}

pub fn c04(run: &mut Run) -> V {
    let mut ed = Editor::new(run);
    let mut disk = Disk::new(&mut run.s);
    let rounds = run.s.range(1, 5);
    for _ in 0..rounds {
        let seen = any_text(run, &mut ed, &mut disk);
        let t = &seen.text;
        if refkdl::nesting_bound(t) > MAX_OPENERS { run.st.hit("skipped_nesting"); continue; }
        salt_names(run.s.draw(16));
        if let Err(f) = refkdl::parse(t) {
            run.st.sig(t.as_bytes());
            report::<Span>(run, t, &f)?;
            report::<LineSpan>(run, t, &f)?;
        }
    }
    Ok(())
}
