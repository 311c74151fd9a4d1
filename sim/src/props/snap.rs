//! C10, C11: documents kept as binary snapshots on a simulated disk.
use knuffel::ast::{Document, SpannedNode, Value};
use knuffel::span::{LineSpan, Span};
use minicbor::{Decoder, Encoder};

use super::text::{load, Editor, MAX_OPENERS};
use crate::alloc;
use crate::cmp::{self, View};
use crate::disk::{Disk, Outcome};
use crate::refcbor::{self, Bad, TNode, W};
use crate::refkdl::{self, RNode};
use crate::run::{clip, vio, Run, V};

pub trait Snap: View + knuffel::traits::Span + minicbor::Encode<()> + for<'b> minicbor::Decode<'b, ()> { const LINES: bool; }
impl Snap for Span { const LINES: bool = false; }
impl Snap for LineSpan { const LINES: bool = true; }

pub fn write<S: Snap>(d: &Document<S>) -> Vec<u8> { minicbor::to_vec(d).expect("vector never fails") }
pub fn read<S: Snap>(b: &[u8]) -> Result<Document<S>, minicbor::decode::Error> { minicbor::decode(b) }
pub fn hex(b: &[u8]) -> String { b.iter().take(400).map(|x| format!("{:02x}", x)).collect() }

/// A loaded document, its reference tree, or nothing when the load itself is
/// off (which other properties judge).
fn loaded<S: Snap>(text: &str, nodes: &[RNode]) -> Option<(Document<S>, Vec<TNode>)> {
    let d = load::<S>(text).ok()?;
    if cmp::document(&d, nodes).is_err() { return None; }
    let t = refcbor::of(&d, nodes);
    Some((d, t))
}
/// Everything in the document equals the tree.
fn same<S: Snap>(d: &Document<S>, nodes: &[RNode], t: &[TNode]) -> Result<(), String> {
    cmp::document(d, nodes)?;
    if refcbor::of(d, nodes) != t { return Err("positions or type names differ".into()); }
    Ok(())
}

fn next_text(run: &mut Run, ed: &mut Editor, disk: &mut Disk) -> Option<(String, Vec<RNode>)> {
    for _ in 0..run.s.range(0, 2) { ed.edit(run); }
    let t = ed.text();
    let fault = run.s.chance(1, 3);
    let a = disk.save(&mut run.s, &mut run.st, t.as_bytes(), fault);
    let (text, b) = if fault { disk.read(&mut run.s, &mut run.st, false) } else { (t, Outcome::Clean) };
    run.note(|| format!("text saved {:?}, read {:?}: {}", a, b, clip(&text, 500)));
    if refkdl::nesting_bound(&text) > MAX_OPENERS { return None; }
    match refkdl::parse(&text) { Ok(p) => Some((text, p.nodes)), Err(_) => { run.st.hit("unparsable"); None } }
}

pub fn c10(run: &mut Run) -> V {
    let lines = run.s.chance(1, 2);
    if lines { c10_mode::<LineSpan>(run) } else { c10_mode::<Span>(run) }
}
fn c10_mode<S: Snap>(run: &mut Run) -> V {
    let mut ed = Editor::new(run);
    let mut disk = Disk::new(&mut run.s);
    // the snapshot store: versions written so far, replaced atomically
    let mut store: Option<(Vec<u8>, Vec<RNode>, Vec<TNode>)> = None;
    let mut journal: Vec<u8> = vec![];
    let mut entries: Vec<(Vec<RNode>, Vec<TNode>)> = vec![];
    for _ in 0..run.s.range(1, 3) {
        let (text, nodes) = match next_text(run, &mut ed, &mut disk) { Some(x) => x, None => continue };
        let (mut doc, tree) = match loaded::<S>(&text, &nodes) { Some(x) => x, None => { run.st.hit("load_off"); continue } };
        let want = refcbor::encode(&tree);
        let head = |m: String| format!("{} mode, text {}: {}", S::MODE, clip(&text, 400), m);
        let hops = run.s.range(1, 4);
        for hop in 0..hops {
            let bytes = write(&doc);
            run.observe(&bytes);
            run.st.hit("snapshots");
            if bytes != want {
                let i = bytes.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(bytes.len().min(want.len()));
                return vio("snapshot bytes differ from the released format", head(format!("hop {}: at byte {} of {} ({} expected): {} instead of {}", hop, i, bytes.len(), want.len(), hex(&bytes[i.saturating_sub(4)..]), hex(&want[i.saturating_sub(4)..]))));
            }
            // a crash while replacing the file leaves the previous snapshot
            let crash = run.s.chance(1, 5);
            if crash { run.st.hit("fault.crash_before_rename"); } else { store = Some((bytes.clone(), nodes.clone(), tree.clone())); }
            run.note(|| format!("hop {}: snapshot of {} bytes{}", hop, bytes.len(), if crash { ", crash before rename" } else { "" }));
            if run.s.chance(1, 4) { journal.extend_from_slice(&bytes); entries.push((nodes.clone(), tree.clone())); }
            if let Some((b, n, t)) = &store {
                // who reads it: this build, after a restart
                run.st.hit("fault.restart");
                let d = match read::<S>(b) { Ok(d) => d, Err(e) => return vio("stored snapshot not readable", head(format!("{}: {}", e, hex(b)))) };
                if let Err(m) = same(&d, n, t) { return vio("restored document differs", head(m)); }
                if !crash { doc = d; }
            }
        }
        // written by another release
        if run.s.chance(1, 2) {
            let (b, extras) = { let mut w = W::other(&mut run.s); w.doc(&tree); (w.out, w.extras) };
            run.st.hit("foreign_snapshots");
            run.st.add("unknown_fields", extras);
            run.note(|| format!("snapshot of another release, {} unknown fields: {}", extras, hex(&b)));
            let mut dec = Decoder::new(&b);
            let d: Document<S> = match dec.decode() { Ok(d) => d, Err(e) => return vio("snapshot of another release not readable", head(format!("{}: {}", e, hex(&b)))) };
            if let Err(m) = same(&d, &nodes, &tree) { return vio("snapshot of another release read differently", head(format!("{}: {}", m, hex(&b)))); }
            if dec.position() != b.len() { return vio("reader stops inside the snapshot", head(format!("at {} of {}", dec.position(), b.len()))); }
        }
        // parts on their own
        if !doc.nodes.is_empty() && run.s.chance(1, 2) {
            let i = run.s.below(doc.nodes.len());
            parts(&doc.nodes[i], &tree[i]).map_err(|mut v| { v.msg = head(v.msg); v })?;
        }
        if !text.is_empty() { run.st.sig(&want); }
        if run.st.samples.is_empty() && nodes.len() > 1 { run.st.samples.push(format!("{} as {} bytes of CBOR over {} restarts", clip(&text, 160), want.len(), hops)); }
    }
    // a journal of snapshots one after the other
    let mut dec = Decoder::new(&journal);
    for (i, (n, t)) in entries.iter().enumerate() {
        let d: Document<S> = match dec.decode() { Ok(d) => d, Err(e) => return vio("journal entry not readable", format!("entry {} of {}: {}", i, entries.len(), e)) };
        if let Err(m) = same(&d, n, t) { return vio("journal entry differs", format!("entry {}: {}", i, m)); }
        run.st.hit("journal_entries");
    }
    if dec.position() != journal.len() { return vio("reader stops inside the journal", format!("{} of {}", dec.position(), journal.len())); }
    Ok(())
}
fn parts<S: Snap>(n: &SpannedNode<S>, t: &TNode) -> V {
    let mut w = W::exact();
    w.node(t);
    if minicbor::to_vec(n).unwrap() != w.out { return vio("snapshot bytes of one node differ from the released format", hex(&w.out)); }
    match minicbor::decode::<SpannedNode<S>>(&w.out) {
        Ok(m) => if minicbor::to_vec(&m).unwrap() != w.out { return vio("restored node differs", hex(&w.out)); },
        Err(e) => return vio("snapshot of one node not readable", e.to_string()),
    }
    for (a, b) in n.arguments.iter().zip(&t.args) {
        let mut w = W::exact();
        w.value(b);
        if minicbor::to_vec(a).unwrap() != w.out { return vio("snapshot bytes of one value differ from the released format", hex(&w.out)); }
        match minicbor::decode::<Value<S>>(&w.out) {
            Ok(m) => if minicbor::to_vec(&m).unwrap() != w.out || m.literal != a.literal { return vio("restored value differs", hex(&w.out)); },
            Err(e) => return vio("snapshot of one value not readable", e.to_string()),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- C11 ---

#[derive(Debug, PartialEq, Clone, Copy)]
pub struct SinkFail(pub u32);
impl std::fmt::Display for SinkFail { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "sink failure {}", self.0) } }
impl std::error::Error for SinkFail {}

/// A sink that fails once at some byte or call, takes part of the write or
/// nothing of it, and works again afterwards.
pub struct Sink { pub got: Vec<u8>, at_byte: Option<usize>, at_call: Option<usize>, short: bool, calls: usize, pub failed: bool, after: usize, sticky: bool, tag: u32 }
impl minicbor::encode::Write for Sink {
    type Error = SinkFail;
    fn write_all(&mut self, b: &[u8]) -> Result<(), SinkFail> {
        self.calls += 1;
        if self.failed {
            self.after += 1;
            if self.sticky { return Err(SinkFail(self.tag)); }
        }
        let hit = !self.failed && (self.at_byte.map_or(false, |n| self.got.len() + b.len() > n) || self.at_call == Some(self.calls));
        if hit {
            self.failed = true;
            if self.short { let room = self.at_byte.map(|n| n - self.got.len()).unwrap_or(b.len() / 2); self.got.extend_from_slice(&b[..room.min(b.len())]); }
            return Err(SinkFail(self.tag));
        }
        self.got.extend_from_slice(b);
        Ok(())
    }
}

pub fn c11(run: &mut Run) -> V {
    let lines = run.s.chance(1, 2);
    if lines { c11_mode::<LineSpan>(run) } else { c11_mode::<Span>(run) }
}
fn decode_in_budget<S: Snap>(run: &mut Run, b: &[u8]) -> Result<Document<S>, ()> {
    let n = b.len() as u64;
    let (r, steps, mem) = alloc::bounded(400 + 12 * n, 16_384 + 400 * n, || read::<S>(b));
    run.st.max("max.steps_per_100_bytes", steps * 100 / (n + 10));
    run.st.max("max.bytes_per_byte", mem / (n + 64));
    r.map_err(|e| { let _ = e.to_string(); })
}

fn c11_mode<S: Snap>(run: &mut Run) -> V {
    let mut ed = Editor::new(run);
    let mut disk = Disk::new(&mut run.s);
    let mut old: Vec<u8> = vec![];
    for _ in 0..run.s.range(1, 2) {
        let (text, nodes) = match next_text(run, &mut ed, &mut disk) { Some(x) => x, None => continue };
        let (doc, tree) = match loaded::<S>(&text, &nodes) { Some(x) => x, None => { run.st.hit("load_off"); continue } };
        let full = write(&doc);
        let head = |m: String| format!("{} mode, text {}: {}", S::MODE, clip(&text, 400), m);
        // failing sinks
        for _ in 0..run.s.range(1, 4) {
            let by_byte = run.s.chance(2, 3);
            let n = run.s.below(full.len() + 2);
            let (short, sticky) = (run.s.chance(1, 2), run.s.chance(1, 3));
            let tag = run.s.draw(1000) as u32;
            let mut sink = Sink { got: vec![], at_byte: if by_byte { Some(n) } else { None }, at_call: if by_byte { None } else { Some(n + 1) }, short, calls: 0, failed: false, after: 0, sticky, tag };
            let r = Encoder::new(&mut sink).encode(&doc).map(|_| ());
            run.note(|| format!("sink fails at {} {}{}: {:?}, {} bytes arrived", if by_byte { "byte" } else { "call" }, n, if short { " (short write)" } else { "" }, r, sink.got.len()));
            run.st.hit(if !sink.failed { "sink_ok" } else if short { "fault.sink_short_write" } else { "fault.sink_error" });
            match (&r, sink.failed) {
                (Ok(()), true) => return vio("sink failure swallowed", head(format!("the sink failed at {} {}, encoding reports success", if by_byte { "byte" } else { "call" }, n))),
                (Err(e), false) => return vio("failure reported for a working sink", head(e.to_string())),
                (Err(e), true) => if !e.is_write() { return vio("sink failure reported as something else", head(e.to_string())) },
                _ => {}
            }
            if sink.after > 0 { return vio("writing went on after the failure", head(format!("{} writes after the failure", sink.after))); }
            if !full.starts_with(&sink.got) { return vio("what reached the sink is no prefix of the snapshot", head(format!("{} of {}", hex(&sink.got), hex(&full)))); }
            if !sink.failed && sink.got != full { return vio("snapshots of one document differ", head(hex(&sink.got))); }
        }
        if write(&doc) != full { return vio("snapshot changed by earlier failures", head(String::new())); }
        // cuts
        for _ in 0..run.s.range(1, 4) {
            let n = run.s.below(full.len());
            run.st.hit("fault.cut");
            run.note(|| format!("snapshot cut to {} of {} bytes", n, full.len()));
            if decode_in_budget::<S>(run, &full[..n]).is_ok() { return vio("cut snapshot decoded", head(format!("{} of {} bytes: {}", n, full.len(), hex(&full[..n])))); }
        }
        // damage
        for _ in 0..run.s.range(1, 4) {
            let mut b = full.clone();
            let kind = run.s.below(8);
            match kind {
                0 => { for _ in 0..run.s.range(1, 3) { let i = run.s.below(b.len()); let k = run.s.below(8); b[i] ^= 1 << k; } run.st.hit("fault.bit_flip"); }
                1 => { let i = run.s.below(b.len()); let v = [0x9f, 0xbf, 0x7f, 0xff, 0xf6, 0x00, 0x9b, 0x82, 0x80, 0x1b, 0x5b, 0xbb, 0x7b, 0xc0, 0x60, 0x85, 0x84][run.s.below(17)]; b[i] = v; run.st.hit("fault.stray_byte"); }
                2 => { let i = run.s.below(b.len()); let j = (i + run.s.range(1, 8)).min(b.len()); b.drain(i..j); run.st.hit("fault.lost_range"); }
                3 => { let i = run.s.below(b.len()); let j = (i + run.s.range(1, 16)).min(b.len()); let t = b[i..j].to_vec(); let at = run.s.below(b.len() + 1); for (k, x) in t.into_iter().enumerate() { b.insert(at + k, x); } run.st.hit("fault.duplicated_range"); }
                4 => { let sec = [8, 16, 64][run.s.below(3)]; let k = run.s.below(b.len() / sec + 1); for (i, x) in b.iter_mut().enumerate().skip(k * sec).take(sec) { *x = old.get(i).copied().unwrap_or(0); } run.st.hit("fault.stale_sector"); }
                5 => { let i = run.s.below(b.len() + 1); b.truncate(i); let tail: Vec<u8> = old.iter().skip(i).copied().collect(); b.extend(tail); run.st.hit("fault.torn_write"); }
                6 => { // a length that promises far more than there is
                    let i = run.s.below(b.len());
                    let m = [0x80u8, 0xa0, 0x60, 0x40][run.s.below(4)];
                    let w = run.s.below(3);
                    let mut h = vec![m | [25, 26, 27][w]];
                    h.extend(vec![[0xff, 0x7f, 0x00][run.s.below(3)]; [2, 4, 8][w]]);
                    if h.len() > 1 && h[1] == 0 { let l = h.len() - 1; h[l] = 0xff; }
                    b.splice(i..(i + 1).min(b.len()), h);
                    run.st.hit("fault.huge_length");
                }
                _ => { let n = run.s.range(1, 40); let at = run.s.below(b.len()); for i in 0..n { if at + i < b.len() { b[at + i] = run.s.draw(256) as u8; } } run.st.hit("fault.garbage_range"); }
            }
            if b == full { continue; }
            run.note(|| format!("damaged snapshot ({}): {}", kind, hex(&b)));
            let want = refcbor::Rd::new(&b, S::LINES).doc();
            let got = decode_in_budget::<S>(run, &b);
            run.observe(&[got.is_ok() as u8]);
            run.st.hit(match (&got, &want) { (Ok(_), Err(Bad::Unsure)) | (Err(_), Err(Bad::Unsure)) => "reference_unsure", (Ok(_), _) => "damaged_accepted", _ => "damaged_rejected" });
            match (&got, &want) {
                (Ok(_), Err(Bad::No)) => return vio("bytes that are no snapshot decoded", head(hex(&b))),
                (Err(()), Ok(_)) => return vio("well-formed snapshot rejected", head(hex(&b))),
                (Ok(d), Ok(t)) => {
                    let (x, y) = (write(d), refcbor::encode(t));
                    if x != y { return vio("snapshot decoded to another document than it holds", head(format!("{} holds {}, decoded {}", hex(&b), hex(&y), hex(&x)))); }
                }
                _ => {}
            }
            if let Ok(d) = &got {
                // whatever was decoded is a document like any other
                let x = write(d);
                match read::<S>(&x) {
                    Ok(e) => if write(&e) != x || format!("{:?}", e) != format!("{:?}", d) { return vio("document from a damaged snapshot does not survive a restart", head(hex(&b))); },
                    Err(e) => return vio("document from a damaged snapshot not readable again", head(format!("{}: {}", e, hex(&b)))),
                }
                use_it(d);
            }
            run.st.sig(&b);
        }
        // earlier failures leave no trace
        match read::<S>(&full) {
            Ok(d) => if let Err(m) = same(&d, &nodes, &tree) { return vio("intact snapshot read differently after failures", head(m)); },
            Err(e) => return vio("intact snapshot not readable after failures", head(e.to_string())),
        }
        if run.st.samples.is_empty() && nodes.len() > 1 { run.st.samples.push(format!("{} as {} bytes of CBOR, damaged", clip(&text, 160), full.len())); }
        old = full;
    }
    Ok(())
}
/// Reads everything a user can read; must not panic.
fn use_it<S: Snap>(d: &Document<S>) {
    use knuffel::ast::Literal;
    fn val<S: Snap>(v: &Value<S>) {
        let _: miette::SourceSpan = v.literal.span().clone().into();
        if let Some(t) = &v.type_name { let _ = (t.as_builtin().is_some(), t.to_string()); }
        match &*v.literal {
            Literal::Int(i) => { let _ = (u8::try_from(i).is_ok(), i64::try_from(i).is_ok(), u64::try_from(i).is_ok(), isize::try_from(i).is_ok()); }
            Literal::Decimal(x) => { let _ = (f32::try_from(x).is_ok(), f64::try_from(x).is_ok()); }
            _ => {}
        }
    }
    fn node<S: Snap>(n: &SpannedNode<S>) {
        let _: miette::SourceSpan = n.span().clone().into();
        for a in &n.arguments { val(a) }
        for (k, v) in &n.properties { let _ = n.properties.get(k); val(v) }
        for c in n.children() { node(c) }
    }
    for n in &d.nodes { node(n) }
    // typed decoding of whatever came back
    for n in &d.nodes {
        let _ = knuffel::decode::node::<super::copy::Loose, S>(n).is_ok();
    }
}
