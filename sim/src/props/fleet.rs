//! C15: a fleet of programs, each linked with knuffel built with another set of
//! optional features, shares files and snapshots.  Every member is real code in
//! a shared object of its own; the simulator decides who reads what when.
use std::collections::{BTreeMap, HashMap};
use std::ffi::CString;
use std::sync::OnceLock;

use knuffel::ast::{Literal, Node, Value};
use knuffel::span::Span;

use super::text::{Editor, MAX_OPENERS};
use crate::alloc;
use crate::disk::{Disk, Outcome};
use crate::refkdl;
use crate::run::{clip, vio, Run, V};
use crate::typed::shape;

const NAMES: [&str; 4] = ["derive", "base64", "line-numbers", "minicbor"];
const B: u8 = 2;
const M: u8 = 8;
const FULL: usize = 15;

extern "C" {
    fn dlopen(name: *const std::ffi::c_char, flags: i32) -> *mut u8;
    fn dlsym(lib: *mut u8, name: *const std::ffi::c_char) -> *mut u8;
}
type Tell = extern "C" fn(*mut u8, *const u8, usize);
type Eval = extern "C" fn(u32, u64, *const u8, usize, Tell, *mut u8);
extern "C" fn tell(to: *mut u8, p: *const u8, n: usize) { unsafe { (*(to as *mut Vec<u8>)).extend_from_slice(std::slice::from_raw_parts(p, n)) } }

pub fn dir() -> std::path::PathBuf { std::env::current_exe().unwrap().parent().unwrap().parent().unwrap().join("fleet") }
pub fn there() -> bool { (0..16).all(|m| dir().join(format!("{}.so", m)).exists()) }

fn members() -> &'static [Eval] {
    static ALL: OnceLock<Vec<Eval>> = OnceLock::new();
    ALL.get_or_init(|| (0..16u32).map(|m| unsafe {
        let p = CString::new(dir().join(format!("{}.so", m)).to_str().unwrap()).unwrap();
        let lib = dlopen(p.as_ptr(), 2); // RTLD_NOW, local
        if lib.is_null() { eprintln!("cannot load member {}", m); std::process::exit(3); }
        let init: extern "C" fn(extern "C" fn(isize)) -> u32 = std::mem::transmute(dlsym(lib, c"fleet_init".as_ptr()));
        let eval: Eval = std::mem::transmute(dlsym(lib, c"fleet_eval".as_ptr()));
        if init(alloc::tick) != m { eprintln!("member {} has other features", m); std::process::exit(3); }
        eval
    }).collect())
}

pub fn features(m: usize) -> String {
    let l: Vec<_> = (0..4).filter(|i| m >> i & 1 == 1).map(|i| NAMES[i]).collect();
    if l.is_empty() { "no features".into() } else { l.join("+") }
}

/// key -> (features needed, features it may differ with, payload)
type Seen = BTreeMap<String, (u8, u8, String)>;
fn eval(m: usize, op: u32, script: u64, b: &[u8]) -> Seen {
    let mut out: Vec<u8> = vec![];
    members()[m](op, script, b.as_ptr(), b.len(), tell, &mut out as *mut Vec<u8> as *mut u8);
    let t = String::from_utf8(out).unwrap();
    let hex = |x: &str| u8::from_str_radix(x, 16).unwrap();
    t.lines().map(|l| { let mut p = l.splitn(4, ' '); let (n, v, k, t) = (p.next().unwrap(), p.next().unwrap(), p.next().unwrap(), p.next().unwrap()); (k.to_string(), (hex(n), hex(v), t.to_string())) }).collect()
}

/// Where two renderings part.
fn part(a: &str, b: &str) -> String {
    let (x, y): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let i = x.iter().zip(&y).take_while(|(p, q)| p == q).count();
    let cut = |v: &[char]| v[i.saturating_sub(40).min(v.len())..(i + 120).min(v.len())].iter().collect::<String>();
    format!("...{} instead of ...{}", cut(&x), cut(&y))
}

/// Everybody sees the same, except for what their features add.
fn agree(run: &mut Run, who: &[usize], op: u32, script: u64, b: &[u8]) -> Result<Vec<(usize, Seen)>, crate::run::Violation> {
    let all: Vec<(usize, Seen)> = who.iter().map(|m| (*m, eval(*m, op, script, b))).collect();
    let what = if op == 0 { clip(&String::from_utf8_lossy(b), 400) } else { super::snap::hex(b) };
    let mut seen: HashMap<(&str, u8), (usize, &str)> = HashMap::new();
    for (m, o) in &all {
        for (k, (needs, varies, t)) in o {
            let f = seen.entry((k, varies & *m as u8)).or_insert((*m, t));
            run.st.hit("observations_compared");
            if f.1 != t { return vio("builds with other features behave differently", format!("{}: {} against {}: {}: {}", what, features(*m), features(f.0), k, part(t, f.1))); }
            let _ = needs;
        }
        // what the other members can see and this one's features allow
        for (w, p) in &all {
            for (k, (needs, _, _)) in p {
                if *needs as usize & m == *needs as usize && !o.contains_key(k) { return vio("builds with other features behave differently", format!("{}: {} says nothing of {}, {} does", what, features(*m), k, features(*w))); }
            }
        }
        run.observe(o.values().map(|x| &x.2[..]).collect::<String>().as_bytes());
    }
    Ok(all)
}

fn walk<'a>(n: &'a Node<Span>, o: &mut Vec<&'a Value<Span>>) {
    o.extend(&n.arguments);
    o.extend(n.properties.values());
    for c in n.children() { walk(c, o) }
}
/// What `decode::bytes` gives for a value, as a member prints it.
fn bytes(v: &Value<Span>, on: bool) -> String {
    let sp = |s: &Span| format!("@{}+{}", s.0, s.1 - s.0);
    let lit = v.literal.span();
    let found = match &*v.literal { Literal::Int(_) => "integer", Literal::Decimal(_) => "decimal", Literal::String(_) => "string", Literal::Bool(_) => "boolean", Literal::Null => "null" };
    let kind = || format!("Err {{expected string scalar, found {} {} unexpected {}}}", found, sp(lit), found);
    let ok = |b: &[u8]| format!("Ok Bytes({:?})", format!("{:?}", b));
    match (&v.type_name, &*v.literal) {
        (None, Literal::String(s)) => ok(s.as_bytes()),
        (None, _) => kind(),
        (Some(t), _) if t.as_str() == "base64" && !on => format!("Err {{base64 support is not compiled in {} unsupported value}}", sp(lit)),
        (Some(t), Literal::String(s)) if t.as_str() == "base64" => match shape::base64(s) { Some(b) => ok(&b), None => format!("invalid {}", sp(lit)) },
        (Some(t), _) if t.as_str() == "base64" => kind(),
        (Some(t), _) => format!("Err {{base64 or no type for bytes, found {} {} unexpected type name}}", t.as_str(), sp(t.span())),
    }
}
fn binary(run: &mut Run, text: &str, all: &[(usize, Seen)]) -> V {
    let Ok(d) = super::text::load::<Span>(text) else { return Ok(()) };
    let mut k = 0;
    for n in d.nodes.iter().take(40) {
        let mut l = vec![];
        walk(n, &mut l);
        for v in l {
            for (m, o) in all {
                let on = *m as u8 & B != 0;
                let Some((_, _, got)) = o.get(&format!("bytes:{}", k)) else { continue };
                let want = bytes(v, on);
                let b64 = v.type_name.as_ref().map_or(false, |t| t.as_str() == "base64");
                run.st.hit(match (b64, on) { (true, true) => "base64_values_with_the_feature", (true, false) => "base64_values_without_the_feature", _ => "other_byte_values" });
                let fine = match want.strip_prefix("invalid ") {
                    // the message is the decoder's own
                    Some(at) => got.starts_with("\"Err {") && got.ends_with(&format!(" {} invalid value}}\"", at)) && got.matches(" @").count() == 1,
                    None => *got == format!("{:?}", want),
                };
                if !fine { return vio(if b64 && !on { "base64 value not reported as unsupported" } else { "byte value read wrongly" }, format!("{}: {}: value {:?}: {} instead of {}", clip(text, 400), features(*m), v, got, want)); }
            }
            k += 1;
        }
    }
    // all of a file's base64 values are reported, and no other value is
    let mut l = vec![];
    for n in &d.nodes { walk(n, &mut l) }
    let typed = l.iter().filter(|v| v.type_name.as_ref().map_or(false, |t| t.as_str() == "base64")).count();
    for (m, o) in all {
        if let Some((_, _, got)) = o.get("d.blobs") {
            let n = got.matches("[base64 support is not compiled in code").count();
            let want = if *m as u8 & B != 0 { 0 } else { typed };
            if n != want { return vio("base64 value not reported as unsupported", format!("{}: {}: {} values reported of {}", clip(text, 400), features(*m), n, want)); }
        }
    }
    Ok(())
}

/// A file of binary values.
fn blobs(run: &mut Run) -> String {
    let s = &mut run.s;
    let mut t = String::new();
    fn value(s: &mut crate::choice::Src) -> String {
        const GOOD: &[&str] = &["", "YQ==", "aGVsbG8=", "AAAA", "/+/+", "////", "aGk=", "Zm9vYmFy"];
        const BAD: &[&str] = &["YQ=", "YQ", "A", "aGVsbG8", "a b=", "aGk=\\n", "!!!!", "Y===", "YR==", "_-_-", "é", "====", "AAAA="];
        match s.below(12) {
            0..=3 => format!("(base64)\"{}\"", GOOD[s.below(GOOD.len())]),
            4 | 5 => format!("(base64)\"{}\"", BAD[s.below(BAD.len())]),
            6 => format!("(base64){}", ["1", "null", "true", "2.5", "0x1", "r\"YQ==\"", "r#\"aGk=\"#"][s.below(7)]),
            7 => format!("(\"base64\")\"{}\"", GOOD[s.below(GOOD.len())]),
            8 => format!("({})\"YQ==\"", ["u8", "Base64", "base-64", "f32", "base64 ", "b"].map(|x| if x.ends_with(' ') { "\"base64 \"" } else { x })[s.below(6)]),
            9 => ["1", "null", "true", "0.5"][s.below(4)].into(),
            _ => format!("\"{}\"", GOOD[s.below(GOOD.len())]),
        }
    }
    fn node(s: &mut crate::choice::Src, depth: usize, t: &mut String) {
        t.push_str(["a", "key", "b", "(base64)c", "é"][s.below(5)]);
        for _ in 0..s.below(4) { t.push(' '); if s.chance(1, 3) { t.push_str(["k=", "key=", "z="][s.below(3)]); } let v = value(s); t.push_str(&v); }
        if depth < 2 && s.chance(1, 3) { t.push('{'); for _ in 0..s.range(1, 2) { node(s, depth + 1, t); } t.push('}'); }
        t.push_str(["\n", ";", "\r\n", "// c\n"][s.below(4)]);
    }
    for _ in 0..s.range(1, 3) { node(s, 0, &mut t); }
    t
}

pub fn c15(run: &mut Run) -> V {
    let mut ed = Editor::new(run);
    let mut disk = Disk::new(&mut run.s);
    // who is in the fleet: the full build and a few others
    let mut who = vec![FULL];
    for _ in 0..run.s.range(2, 5) { let m = run.s.below(16); if !who.contains(&m) { who.push(m); } }
    run.note(|| format!("fleet: {}", who.iter().map(|m| features(*m)).collect::<Vec<_>>().join(", ")));
    for m in &who { run.st.hit(["member_00", "member_01", "member_02", "member_03", "member_04", "member_05", "member_06", "member_07", "member_08", "member_09", "member_10", "member_11", "member_12", "member_13", "member_14", "member_15"][*m]); }
    for _ in 0..run.s.range(1, 3) {
        let t = if run.s.chance(1, 2) { blobs(run) } else { ed.edit(run); ed.text() };
        let fault = run.s.chance(1, 3);
        let a = disk.save(&mut run.s, &mut run.st, t.as_bytes(), fault);
        let (text, b) = if fault { disk.read(&mut run.s, &mut run.st, false) } else { (t, Outcome::Clean) };
        if text.len() > 20_000 || refkdl::nesting_bound(&text) > MAX_OPENERS { continue; }
        let script = if run.s.chance(1, 2) { 0 } else { run.s.draw(1 << 32) };
        run.note(|| format!("file saved {:?}, read {:?} by all: {}", a, b, clip(&text, 400)));
        let all = agree(run, &who, 0, script, text.as_bytes())?;
        binary(run, &text, &all)?;
        run.st.hit("files_read");
        if !text.is_empty() { run.st.sig(text.as_bytes()); }
        if run.st.samples.is_empty() && text.len() > 20 { run.st.samples.push(format!("{} read by {}", clip(&text, 160), who.iter().map(|m| features(*m)).collect::<Vec<_>>().join(", "))); }
        // a member that can writes a snapshot, the others read it
        let can: Vec<usize> = who.iter().copied().filter(|m| *m as u8 & M != 0).collect();
        if !run.s.chance(1, 2) { continue; }
        let i = run.s.below(can.len());
        let from = &all.iter().find(|(m, _)| *m == can[i]).unwrap().1;
        let keys: Vec<&str> = ["saved", "l.saved"].into_iter().filter(|k| from.contains_key(*k)).collect();
        if keys.is_empty() { continue; }
        let key = keys[run.s.below(keys.len())];
        let mut snap: Vec<u8> = from[key].2.split(|c: char| !c.is_ascii_hexdigit()).filter(|x| x.len() == 2).map(|x| u8::from_str_radix(x, 16).unwrap()).collect();
        run.st.hit("snapshots_exchanged");
        match run.s.below(4) {
            0 => { let n = run.s.below(snap.len()); snap.truncate(n); run.st.hit("fault.cut"); }
            1 => { let i = run.s.below(snap.len()); let k = run.s.below(8); snap[i] ^= 1 << k; run.st.hit("fault.bit_flip"); }
            2 => { let i = run.s.below(snap.len()); let j = (i + run.s.range(1, 8)).min(snap.len()); snap.drain(i..j); run.st.hit("fault.lost_range"); }
            _ => {}
        }
        run.note(|| format!("snapshot ({}) of {} read by all who can: {}", key, features(can[i]), super::snap::hex(&snap)));
        agree(run, &can, 1, script, &snap)?;
    }
    Ok(())
}
