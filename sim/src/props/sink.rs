//! C13: reports written into sinks that fail as the seed decides.
use std::fmt::{self, Display, Write};

use knuffel::ast::TypeName;
use knuffel::decode::Kind;
use knuffel::errors::{DecodeError, ExpectedKind, ExpectedType};
use knuffel::span::{LinePos, LineSpan, Span};
use miette::Diagnostic;

use super::text::{self, diags, Editor, MAX_OPENERS};
use super::typed::{call, App};
use crate::choice::Src;
use crate::disk::Disk;
use crate::refkdl;
use crate::run::{clip, vio, Run, V};
use crate::typed::catalog;
use crate::typed::probe::{self, Naming, Script};

/// A sink with a budget of bytes and of writes.
struct Failing { out: String, bytes: usize, calls: usize, short: bool, once: bool, failed: u64, after: u64 }
impl Failing {
    fn draw(s: &mut Src, len: usize) -> Failing {
        let (bytes, calls) = match s.weighted(&[4, 2, 1]) {
            0 => (s.below(len + 2), usize::MAX),
            1 => (usize::MAX, s.below(12)),
            _ => (usize::MAX, usize::MAX),
        };
        Failing { out: String::new(), bytes, calls, short: s.chance(1, 2), once: s.chance(1, 3), failed: 0, after: 0 }
    }
}
impl Write for Failing {
    fn write_str(&mut self, x: &str) -> fmt::Result {
        if self.failed > 0 {
            self.after += 1;
            // a transient failure: the sink would take more
            if self.once { self.out.push_str(x); return Ok(()); }
            return Err(fmt::Error);
        }
        if self.calls == 0 { self.failed += 1; return Err(fmt::Error); }
        self.calls -= 1;
        if self.out.len() + x.len() > self.bytes {
            self.failed += 1;
            if self.short {
                let mut n = self.bytes - self.out.len();
                while !x.is_char_boundary(n) { n -= 1; }
                self.out.push_str(&x[..n]);
            }
            return Err(fmt::Error);
        }
        self.out.push_str(x);
        Ok(())
    }
}

/// One displayable thing, written a few times into failing sinks.
fn exercise(run: &mut Run, what: &str, d: &dyn Display) -> V {
    let full = d.to_string();
    for _ in 0..run.s.range(1, 3) {
        let mut k = Failing::draw(&mut run.s, full.len());
        let r = write!(k, "{}", d);
        run.st.hit("displays");
        if k.failed > 0 { run.st.hit(if k.once { "fault.sink_failed_once" } else if k.short { "fault.sink_short_write" } else { "fault.sink_full" }); }
        if r.is_err() != (k.failed > 0) {
            return vio(if r.is_ok() { "sink failure not passed on" } else { "display fails on a sink that works" },
                format!("{} {}: sink failed {} times after {}, result {:?}", what, clip(&full, 200), k.failed, clip(&k.out, 200), r));
        }
        if r.is_ok() && k.out != full { return vio("display differs from the display before", format!("{} {}: {}", what, clip(&full, 200), clip(&k.out, 200))); }
        if !full.starts_with(&k.out[..]) {
            return vio("text written to a failing sink is no prefix of the message", format!("{} {}: {}", what, clip(&full, 200), clip(&k.out, 200)));
        }
        run.observe(k.out.as_bytes());
        if k.failed > 0 { run.st.sig(format!("{}|{}|{}", full, k.out, k.once).as_bytes()); }
        if k.failed > 0 && run.st.samples.is_empty() { run.st.samples.push(format!("{} {}: the sink took {:?}", what, clip(&full, 120), clip(&k.out, 120))); }
        let again = d.to_string();
        if again != full { return vio("message changed after a failed display", format!("{}: {} then {}", what, clip(&full, 200), clip(&again, 200))); }
    }
    Ok(())
}

fn exact(run: &mut Run, what: &str, d: &dyn Display, want: &str) -> V {
    let got = d.to_string();
    if got != want { return vio("wrong text displayed", format!("{}: {:?} instead of {:?}", what, got, want)); }
    exercise(run, what, d)
}

/// Everything an error report shows, then whole reports.
fn report(run: &mut Run, e: &knuffel::Error, text: &str) -> V {
    exercise(run, "error", e)?;
    let before = diags(e);
    if let Some(rel) = e.related() {
        let rel: Vec<&dyn Diagnostic> = rel.collect();
        run.st.add("reports", rel.len() as u64);
        for d in rel.iter().take(6) {
            struct D<'a>(&'a dyn Diagnostic);
            impl Display for D<'_> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { Display::fmt(self.0, f) } }
            exercise(run, "related error", &D(*d))?;
            if let Some(h) = d.help() { exercise(run, "help", &h)?; }
        }
    }
    whole(run, e, before.len(), text)?;
    if diags(e) != before { return vio("report changed after failed renderings", clip(text, 300)); }
    Ok(())
}

fn whole(run: &mut Run, e: &knuffel::Error, n: usize, text: &str) -> V {
    type Render = fn(&(usize, usize), &mut dyn Write, &dyn Diagnostic) -> fmt::Result;
    struct W<'a>(&'a mut dyn Write);
    impl Write for W<'_> { fn write_str(&mut self, s: &str) -> fmt::Result { self.0.write_str(s) } }
    // handlers take `impl Write`
    let graphical: Render = |p, w, d| miette::GraphicalReportHandler::new_themed(if p.0 % 2 == 0 { miette::GraphicalTheme::unicode_nocolor() } else { miette::GraphicalTheme::ascii() })
        .with_width(20 + p.0).with_context_lines(p.1).render_report(&mut W(w), d);
    let narrated: Render = |p, w, d| miette::NarratableReportHandler::new().with_context_lines(p.1).render_report(&mut W(w), d);
    let json: Render = |_, w, d| miette::JSONReportHandler::new().render_report(&mut W(w), d);
    let (name, f) = [("graphical", graphical), ("narrated", narrated), ("json", json)][run.s.below(3)];
    let p = (run.s.below(120), run.s.below(4));
    let mut full = String::new();
    if f(&p, &mut full, e).is_err() { return vio("report cannot be rendered into a growing string", format!("{}: {}", name, clip(text, 400))); }
    run.st.hit("rendered");
    if name == "json" {
        let c = full.matches("\"message\": ").count();
        // texts may contain the pattern only in escaped form
        if c != n + 1 { return vio("report does not show every error", format!("{} of {} errors in {}", c.saturating_sub(1), n, clip(&full, 600))); }
    }
    let mut k = Failing::draw(&mut run.s, full.len());
    let r = f(&p, &mut k, e);
    if k.failed > 0 { run.st.hit("fault.sink_failed_in_report"); }
    // what a handler does with a failing sink is its own business, as long as nothing breaks here
    if k.failed == 0 && (r.is_err() || k.out != full) { return vio("report differs from the report before", format!("{}: {}", name, clip(text, 300))); }
    let mut again = String::new();
    let _ = f(&p, &mut again, e);
    if again != full { return vio("report changed after a failed rendering", format!("{}: {}", name, clip(text, 300))); }
    run.observe(full.as_bytes());
    Ok(())
}

fn word(s: &mut Src) -> String {
    let n = if s.chance(1, 8) { let m = [60, 300, 3000][s.below(3)]; s.range(0, m) } else { s.range(0, 8) };
    (0..n).map(|_| *s.pick(&['a', 'Z', '_', '0', ' ', '"', '\\', '\n', 'é', '日', '\u{1F600}', '{', '}', '%'])).collect()
}

#[derive(Debug)]
struct Why(String);
impl Display for Why { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("why ")?; f.write_str(&self.0) } }
impl std::error::Error for Why {}

/// Errors and names a user's decoder builds itself.
fn handmade<S: knuffel::traits::ErrorSpan>(run: &mut Run, span: S) -> V {
    let (a, b) = (word(&mut run.s), word(&mut run.s));
    let builtin = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "f32", "f64", "base64"];
    let name = if run.s.chance(1, 3) { run.s.pick(&builtin).to_string() } else { a.clone() };
    let ty = || name.parse::<TypeName>().unwrap();
    let kinds = [(Kind::Int, "integer"), (Kind::Decimal, "decimal"), (Kind::String, "string"), (Kind::Bool, "boolean"), (Kind::Null, "null")];
    let (k, kw) = kinds[run.s.below(5)];
    let (k2, kw2) = kinds[run.s.below(5)];
    match run.s.below(12) {
        0 => exact(run, "type name", &ty(), &name),
        1 => exact(run, "kind", &k, kw),
        2 => exact(run, "expected kind", &ExpectedKind::from(k), kw),
        3 => match run.s.below(3) {
            0 => exact(run, "expected type", &ExpectedType::no_type(), "no type"),
            1 => exact(run, "expected type", &ExpectedType::required(ty()), &name),
            _ => exact(run, "expected type", &ExpectedType::optional(ty()), &format!("{} or no type", name)),
        },
        4 => exact(run, "error", &DecodeError::Missing { span, message: b.clone() }, &b),
        5 => exact(run, "error", &DecodeError::<S>::MissingNode { message: b.clone() }, &b),
        6 => exact(run, "error", &DecodeError::Unexpected { span, kind: "thing", message: b.clone() }, &b),
        7 => exact(run, "error", &DecodeError::Conversion { span, source: Box::new(Why(b.clone())) }, &format!("why {}", b)),
        8 => exact(run, "error", &DecodeError::Unsupported { span, message: b.clone().into() }, &b),
        9 => exact(run, "error", &DecodeError::<S>::Custom(Box::new(Why(b.clone()))), &format!("why {}", b)),
        10 => exact(run, "error", &DecodeError::ScalarKind { span, expected: k.into(), found: k2 }, &format!("expected {} scalar, found {}", kw, kw2)),
        _ => {
            let found = if run.s.chance(1, 3) { None } else { Some(b.parse::<TypeName>().unwrap()) };
            let tail = found.as_ref().map_or("no type name".to_string(), |_| b.clone());
            exact(run, "error", &DecodeError::TypeName { span, found, expected: ExpectedType::required(ty()), rust_type: "Some<Type>" }, &format!("{} for Some<Type>, found {}", name, tail))
        }
    }
}

pub fn c13(run: &mut Run) -> V {
    let mut ed = Editor::new(run);
    let mut disk = Disk::new(&mut run.s);
    for _ in 0..run.s.range(1, 3) {
        match run.s.weighted(&[4, 4, 1, 2, 1]) {
            0 => {
                let t = text::any_text(run, &mut ed, &mut disk).text;
                if t.len() > 4000 || refkdl::nesting_bound(&t) > MAX_OPENERS { run.st.hit("skipped_nesting"); continue; }
                let r = if run.s.chance(1, 2) { text::load::<Span>(&t).err() } else { text::load::<LineSpan>(&t).err() };
                if let Some(e) = r { report(run, &e, &t)?; }
            }
            1 => {
                let app = App::draw(&mut run.s);
                let t = app.text(&mut run.s);
                let t = if run.s.chance(1, 3) { disk.save(&mut run.s, &mut run.st, t.as_bytes(), true); disk.read(&mut run.s, &mut run.st, false).0 } else { t };
                if refkdl::nesting_bound(&t) > MAX_OPENERS { continue; }
                let sc = std::rc::Rc::new(Script::draw(&mut run.s, Naming::Key));
                run.note(|| format!("typed load of {}", clip(&t, 400)));
                let (r, _) = probe::with(&sc, None, || call(app.how, app.id, &t, &mut |_| {}));
                if let Err(e) = r { report(run, &e, &t)?; }
            }
            2 => {
                let app = App::draw(&mut run.s);
                let t = app.text(&mut run.s);
                let sc = std::rc::Rc::new(Script::draw(&mut run.s, Naming::Key));
                if let Ok(d) = text::load::<Span>(&t) {
                    for n in &d.nodes {
                        if let (Err(v), _) = probe::with(&sc, None, || catalog::node(app.id, n)) { for e in v.iter().take(4) { exercise(run, "decode error", e)?; } }
                        exact(run, "position", n.span(), &format!("{}..{}", n.span().0, n.span().1))?;
                        if let Some(t) = &n.type_name { exact(run, "type name", &**t, t.as_str())?; }
                    }
                }
            }
            3 => {
                let (a, b) = (run.s.below(3000), run.s.below(3000));
                let sp = Span(a.min(b), a.max(b));
                if run.s.chance(1, 2) { handmade(run, sp)? } else {
                    let p = |o: usize| LinePos { offset: o, line: o / 7, column: o % 7 };
                    handmade(run, LineSpan(p(sp.0), p(sp.1)))?
                }
            }
            _ => {
                let sp = Span(run.s.below(100_000), run.s.draw(u64::MAX) as usize);
                exact(run, "position", &sp, &format!("{}..{}", sp.0, sp.1))?;
            }
        }
    }
    Ok(())
}
