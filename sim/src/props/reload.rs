//! C16: a program that reloads a file compares, sorts and collects what the
//! loads returned; positions must not take part.
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

use knuffel::ast::{Document, Literal, SpannedName, SpannedNode, TypeName, Value};
use knuffel::decode::Context;
use knuffel::errors::DecodeError;
use knuffel::span::{LineSpan, Span, Spanned};
use knuffel::traits::{DecodeScalar, ErrorSpan};

use super::text::{Editor, file_of, MAX_OPENERS};
use crate::disk::{Disk, Outcome};
use crate::refkdl;
use crate::run::{clip, vio, Run, V};

/// Any literal, as a value that can be compared in every way.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Any(String);
impl<S: ErrorSpan> DecodeScalar<S> for Any {
    fn type_check(_: &Option<Spanned<TypeName, S>>, _: &mut Context<S>) {}
    fn raw_decode(v: &Spanned<Literal, S>, _: &mut Context<S>) -> Result<Any, DecodeError<S>> { Ok(Any(format!("{:?}", **v))) }
}
macro_rules! cfg { ($m:ident, $s:ty, $v:ty) => { mod $m {
    use super::*;
    #[derive(knuffel::Decode, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    #[knuffel(span_type = $s)]
    pub struct Conf {
        #[knuffel(node_name)] pub name: String,
        #[knuffel(arguments)] pub args: Vec<$v>,
        #[knuffel(properties)] pub props: BTreeMap<String, $v>,
        #[knuffel(children)] pub kids: Vec<Conf>,
    }
} } }
cfg!(plain, Span, Any);
cfg!(bytes, Span, Spanned<Any, Span>);
cfg!(lines, LineSpan, Spanned<Any, LineSpan>);

fn h<T: Hash + ?Sized>(x: &T) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }

struct Items<S> { names: Vec<SpannedName<S>>, types: Vec<Spanned<TypeName, S>>, lits: Vec<Spanned<Literal, S>> }
fn values<S: Clone>(v: &Value<S>, o: &mut Items<S>) {
    if let Some(t) = &v.type_name { o.types.push(t.clone()) }
    o.lits.push(v.literal.clone());
}
fn collect<S: Clone>(n: &SpannedNode<S>, o: &mut Items<S>) {
    o.names.push(n.node_name.clone());
    if let Some(t) = &n.type_name { o.types.push(t.clone()) }
    for a in &n.arguments { values(a, o) }
    for (k, v) in &n.properties { o.names.push(k.clone()); values(v, o) }
    for c in n.children() { collect(c, o) }
}

/// `same`: whether the two were written alike
fn pair<T: PartialEq + Debug, S: Debug>(what: &str, a: &Spanned<T, S>, b: &Spanned<T, S>, same: bool) -> V {
    let want = **a == **b;
    if want != same { return vio("values compare wrongly", format!("{}: {:?} and {:?}: equal {}", what, a, b, want)); }
    if (a == b) != want || (a != b) == want { return vio("positions take part in equality", format!("{}: {:?} and {:?}: equal {}, unequal {}; their values: equal {}", what, a, b, a == b, a != b, want)); }
    Ok(())
}
fn ordered<T: Ord + Hash + Debug + AsRef<str>, S: Debug>(what: &str, a: &Spanned<T, S>, b: &Spanned<T, S>) -> V {
    let (x, y): (&str, &str) = (a.as_ref(), b.as_ref());
    pair(what, a, b, x == y)?;
    let want = (**a).cmp(&**b);
    if a.cmp(b) != want || a.partial_cmp(b) != Some(want) || (a < b) != (want == Ordering::Less) || (a >= b) == (want == Ordering::Less) {
        return vio("positions take part in ordering", format!("{}: {:?} and {:?}: {:?}, {:?}; their values: {:?}", what, a, b, a.cmp(b), a.partial_cmp(b), want));
    }
    if h(a) != h(&**a) { return vio("hash differs from that of the value", format!("{}: {:?}", what, a)); }
    Ok(())
}

fn names<S: Clone + Debug>(run: &mut Run, all: &[SpannedName<S>]) -> V {
    let plain: BTreeSet<&str> = all.iter().map(|x| &***x).collect();
    let set: HashSet<SpannedName<S>> = all.iter().cloned().collect();
    if set.len() != plain.len() { return vio("set of names merges wrongly", format!("{} names in a hash set, {} distinct: {:?}", set.len(), plain.len(), set)); }
    let tree: BTreeSet<SpannedName<S>> = all.iter().cloned().collect();
    if !tree.iter().map(|x| &***x).eq(plain.iter().copied()) { return vio("sorted set of names is wrong", format!("{:?} instead of {:?}", tree, plain)); }
    let mut sorted = all.to_vec();
    sorted.sort();
    if !sorted.windows(2).all(|w| **w[0] <= **w[1]) { return vio("names sort wrongly", format!("{:?}", sorted)); }
    let map: HashMap<SpannedName<S>, usize> = all.iter().cloned().enumerate().map(|(i, x)| (x, i)).collect();
    for (i, n) in all.iter().enumerate() {
        let s: &str = n;
        let last = all.iter().rposition(|x| **x == **n);
        if !set.contains(s) || !tree.contains(s) || map.get(s).copied() != last { return vio("name not found by its text", format!("{:?}, number {}", n, i)); }
    }
    for s in ["", "no such name", "a\u{0}"] {
        if set.contains(s) != plain.contains(s) || tree.contains(s) != plain.contains(s) { return vio("name found that is not there", format!("{:?}", s)); }
    }
    run.st.add("names_looked_up", all.len() as u64);
    Ok(())
}
fn lookups<S: Clone + Debug>(n: &SpannedNode<S>) -> V {
    for (k, v) in &n.properties {
        let s: &str = k;
        match n.properties.get(s) {
            Some(x) if std::ptr::eq(x, v) => {}
            x => return vio("property not found by its name", format!("{:?} gives {:?}", k, x)),
        }
    }
    for c in n.children() { lookups(c)? }
    Ok(())
}

fn mixed<S: Clone + Debug>(run: &mut Run, loads: &[Document<S>]) -> V {
    let mut it = Items { names: vec![], types: vec![], lits: vec![] };
    for d in loads { for n in &d.nodes { collect(n, &mut it); lookups(n)?; } }
    let n = run.s.range(1, 30);
    for _ in 0..n {
        if it.names.len() > 1 {
            let i = run.s.below(it.names.len());
            // a partner that carries the same text, when there is one
            let j = if run.s.chance(1, 2) { (0..it.names.len()).rev().find(|j| it.names[*j] == it.names[i]).unwrap_or(i) } else { run.s.below(it.names.len()) };
            ordered("names", &it.names[i], &it.names[j])?;
            let (p, q) = (it.names[i].clone().map(|x| String::from(x)), it.names[j].clone().map(|x| String::from(x)));
            ordered("strings", &p, &q)?;
            let b: &String = std::borrow::Borrow::borrow(&p);
            if *b != *p { return vio("borrowed value is another one", format!("{:?}", p)); }
            // a program may translate what a spanned value carries, or where it is from
            let n = &it.names[i];
            let (p, mut m) = (n.clone().map(|x| x.len()), n.clone().map_span(|x| (7u8, x)).map(String::from));
            if *p != n.len() || format!("{:?}", p.span()) != format!("{:?}", n.span()) || **m != ***n || m.span().0 != 7 || format!("{:?}", m.span().1) != format!("{:?}", n.span()) {
                return vio("translated value is another one", format!("{:?} gives {:?} and {:?}", n, p, m));
            }
            m.push('!');
            let t: &mut str = m.as_mut();
            t.make_ascii_uppercase();
            let same: &str = m.as_ref();
            if same != format!("{}!", &***n).to_ascii_uppercase() || *m != *same || m.span().0 != 7 { return vio("translated value is another one", format!("{:?} gives {:?}", n, m)); }
        }
        if it.types.len() > 1 { let (i, j) = (run.s.below(it.types.len()), run.s.below(it.types.len())); let (a, b) = (&it.types[i], &it.types[j]); pair("type names", a, b, a.as_str() == b.as_str())?; }
        if it.lits.len() > 1 { let (i, j) = (run.s.below(it.lits.len()), run.s.below(it.lits.len())); let (a, b) = (&it.lits[i], &it.lits[j]); pair("literals", a, b, format!("{:?}", **a) == format!("{:?}", **b))?; }
        run.st.hit("pairs");
    }
    names(run, &it.names)
}

fn judge<T: Ord + Hash + Debug>(mode: &str, a: &T, b: &T, want: Ordering, ha: u64, texts: (&str, &str)) -> V {
    let head = |m: String| format!("{} mode: {} then {}: {}", mode, clip(texts.0, 200), clip(texts.1, 200), m);
    if (a == b) != (want == Ordering::Equal) || (a != b) == (want == Ordering::Equal) {
        return vio("reload compares wrongly", head(format!("equal: {}; values equal: {}", a == b, want == Ordering::Equal)));
    }
    if a.cmp(b) != want || a.partial_cmp(b) != Some(want) { return vio("reloads order wrongly", head(format!("{:?} instead of {:?}", a.cmp(b), want))); }
    if h(a) != ha { return vio("reload hashes unlike its values", head(String::new())); }
    Ok(())
}

/// Values, type names and names written nearly alike.
fn near(run: &mut Run) -> String {
    let s = &mut run.s;
    let mut t = String::new();
    let base = match s.below(5) {
        0 => format!("{}e{}", s.draw(30), s.draw(12)),
        1 => format!("{}.{}", s.draw(30), s.draw(300)),
        2 => format!("0x{:x}", s.draw(0x1_0000)),
        3 => format!("{}", s.draw(1 << 20)),
        _ => format!("{}.{}e{}", s.draw(30), s.draw(30), s.draw(12)),
    };
    let n = s.range(1, 12);
    let word: String = (0..n).map(|_| ['a', 'A', 'b', 'u', '8', 'é'][s.below(6)]).collect();
    let n = s.range(2, 6);
    for i in 0..n {
        let mut w = base.clone();
        match s.below(9) {
            0 => w = w.replace('e', "E"),
            1 => w.insert(0, '-'),
            2 => w.insert(0, '+'),
            3 => if !w.starts_with("0x") { w.insert(0, '0') } else { w.insert(2, '0') },
            4 => if !w.starts_with("0x") && !w.contains('e') { w.push('0') },
            5 => w = w.replace('a', "A").replace('f', "F"),
            6 => w.push('_'),
            7 => w = format!("\"{}\"", w),
            _ => {}
        }
        let mut v = word.clone();
        match s.below(6) {
            0 => v = v.to_uppercase(),
            1 => v.push(['a', 'A', '8', ' ', '\u{301}'][s.below(5)]),
            2 => { v.pop(); }
            3 => v = v.chars().rev().collect(),
            _ => {}
        }
        t.push_str(&format!("\"{}\" (\"{}\"){} p{}=\"{}\"\n", v, v, w, i % 2, v));
    }
    t
}

pub fn c16(run: &mut Run) -> V {
    let mut ed = Editor::new(run);
    let mut disk = Disk::new(&mut run.s);
    let (mut db, mut dl, mut confs) = (vec![], vec![], vec![]);
    let mut last: Option<String> = None;
    for _ in 0..run.s.range(2, 4) {
        let moved = match &last { Some(t) if run.s.chance(1, 2) => {
            // the same nodes elsewhere in the file
            run.st.hit("fault.moved");
            Some(format!("{}{}", ["\n", "  ", "// moved\n", "/* é\u{3000} */", "\t;\n", "\r\n\r\n", "/-gone 1\n"][run.s.below(7)], t))
        } _ => None };
        let t = match moved { Some(t) => t, None => { ed.edit(run); ed.text() } };
        let fault = run.s.chance(1, 4);
        disk.save(&mut run.s, &mut run.st, t.as_bytes(), fault);
        let (text, b) = if fault { disk.read(&mut run.s, &mut run.st, false) } else { (t, Outcome::Clean) };
        run.note(|| format!("read {:?}: {}", b, clip(&text, 400)));
        if refkdl::nesting_bound(&text) > MAX_OPENERS { continue; }
        if let (Ok(d), Ok(l)) = (super::text::load::<Span>(&text), super::text::load::<LineSpan>(&text)) {
            run.observe(format!("{:?}", d).as_bytes());
            db.push(d);
            dl.push(l);
            run.st.hit("loads");
        } else { run.st.hit("unparsable"); continue; }
        if let (Ok(p), Ok(b), Ok(l)) = (knuffel::parse::<Vec<plain::Conf>>(file_of(&text), &text), knuffel::parse::<Vec<bytes::Conf>>(file_of(&text), &text), knuffel::parse_with_context::<Vec<lines::Conf>, LineSpan, _>(file_of(&text), &text, |_| {})) {
            confs.push((p, b, l, text.clone()));
        }
        if !text.is_empty() { run.st.sig(text.as_bytes()); }
        if run.st.samples.is_empty() && text.len() > 20 { run.st.samples.push(clip(&text, 200)); }
        last = Some(text);
    }
    mixed(run, &db)?;
    mixed(run, &dl)?;
    if run.s.chance(1, 2) {
        let t = near(run);
        run.note(|| format!("written nearly alike: {}", clip(&t, 400)));
        if let (Ok(d), Ok(l)) = (super::text::load::<Span>(&t), super::text::load::<LineSpan>(&t)) {
            run.st.hit("near_misses");
            mixed(run, &[d])?;
            mixed(run, &[l])?;
        }
    }
    for (i, a) in confs.iter().enumerate() {
        for b in &confs[i..] {
            let want = a.0.cmp(&b.0);
            judge("byte", &a.1, &b.1, want, h(&a.0), (&a.3, &b.3))?;
            judge("line", &a.2, &b.2, want, h(&a.0), (&a.3, &b.3))?;
            run.st.hit(if want == Ordering::Equal { "unchanged_reloads" } else { "changed_reloads" });
        }
    }
    Ok(())
}
