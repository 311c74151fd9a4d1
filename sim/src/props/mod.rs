use crate::run::Scenario;

pub mod conc;
pub mod copy;
pub mod fleet;
pub mod reload;
pub mod sink;
pub mod snap;
pub mod text;
pub mod typed;

/// Payload of panics the simulator injects into user decoders.
pub struct Injected;

/// What is set up once per process happens before the first run, so that the
/// step counts of a run do not depend on what ran before it.
pub fn warm() {
    use knuffel::span::{LineSpan, Span};
    for t in ["a \"b\" 1 k=(u8)0x1 { c; }", "a {", "a \"", "a 1.5.5", "\u{1}", "a /*", "a r#\""] {
        // a panic here comes again in a run, where it is judged
        let _ = std::panic::catch_unwind(|| { let _ = text::load::<Span>(t); let _ = text::load::<LineSpan>(t); });
    }
}

pub struct Info {
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assume: &'static [&'static str],
    pub run: Scenario,
}

const REAL_TEXT: &[&str] = &["knuffel parser, span trackers and error types", "chumsky", "miette diagnostics", "allocator (system, instrumented)"];
const STUB_TEXT: &[&str] = &["disk and file system (simulated sectors, write-back cache, crashes)", "editor process (generator with in-memory model)"];
const ASSUME_TEXT: &[&str] = &[
    "the reference reader of KDL 1.0 in sim/src/refkdl.rs states the intended meaning",
    "display widths come from the unicode-width crate on both sides",
    "nesting of braces and block comments below 48",
];

const REAL_TYPED: &[&str] = &["knuffel parser, decode traits, Context, error types", "code generated by knuffel-derive for 140 annotated types", "miette diagnostics"];
const STUB_TYPED: &[&str] = &["disk and file system (simulated)", "application that edits and saves the file", "user decoders (scripted probes)"];
const ASSUME_TYPED: &[&str] = &[
    "the reference interpreter in sim/src/typed/shape.rs states what the annotations mean",
    "user decoders are deterministic functions of what they are called for",
    "types are those of sim/src/typed/catalog.rs (90 hand-written, 50 generated from a fixed seed)",
];

const REAL_SNAP: &[&str] = &["knuffel parser and AST", "CBOR codecs derived for the AST", "minicbor"];
const STUB_SNAP: &[&str] = &["disk, rename and crash (simulated)", "output sink (fails as the seed decides)", "releases of other versions (reference codec)"];
const ASSUME_SNAP: &[&str] = &[
    "the reference codec in sim/src/refcbor.rs states the released snapshot format",
    "bytes that are CBOR in forms the library never writes (tags, indefinite lengths, unknown literal kinds) are left open",
];
const REAL_COPY: &[&str] = &["knuffel parser, AST, conversions between documents, containers", "code generated by knuffel-derive for the catalogue and 72 wrapper types", "CBOR codecs, minicbor"];

pub fn info(pid: &str) -> Option<Info> {
    Some(match pid {
        "C01" => Info {
            quick: 80_000, thorough: 1600_000, run: text::c01,
            rule: "one run = one history of edits, saves with injected storage faults, cuts and hostile texts, each loaded in both position modes under a step and memory budget, then intact texts loaded; distinct = distinct loaded texts that are non-empty and damaged or rejected",
            real: REAL_TEXT, stub: STUB_TEXT, assume: ASSUME_TEXT,
        },
        "C02" => Info {
            quick: 220_000, thorough: 4000_000, run: text::c02,
            rule: "one run = one history of edits, saves, crashes and reloads of one file; every load is compared with the reference reader over the surviving text and every clean save with the editor's model; distinct = distinct non-empty loaded texts",
            real: REAL_TEXT, stub: STUB_TEXT, assume: ASSUME_TEXT,
        },
        "C03" => Info {
            quick: 170_000, thorough: 3300_000, run: text::c03,
            rule: "one run = one history of edits, saves and crashes; every element position of every accepted load is compared with the reference in both modes, and the intact part in front of a tear is reloaded and compared; distinct = distinct accepted non-empty texts",
            real: REAL_TEXT, stub: STUB_TEXT, assume: ASSUME_TEXT,
        },
        "C04" => Info {
            quick: 450_000, thorough: 8000_000, run: text::c04,
            rule: "one run = one document damaged or cut by the simulated disk several times; every report is checked for source, bounds, locality and unclosed delimiters; distinct = distinct rejected texts",
            real: REAL_TEXT, stub: STUB_TEXT, assume: ASSUME_TEXT,
        },
        "C05" => Info {
            quick: 200_000, thorough: 3800_000, run: typed::c05,
            rule: "one run = one annotated type and one file with a history of edits, saves and faults, loaded with user decoders that emit or return errors as the seed decides, some of them loading other files in between; distinct = distinct (type, text, failure script) with at least one error raised",
            real: REAL_TYPED, stub: STUB_TYPED, assume: ASSUME_TYPED,
        },
        "C06" => Info {
            quick: 260_000, thorough: 4500_000, run: typed::c06,
            rule: "one run = one annotated type and one file with a history of edits, saves and faults; every load is compared with the reference interpreter of the annotations, values and errors exactly; distinct = distinct (type, non-empty text, failure script)",
            real: REAL_TYPED, stub: STUB_TYPED, assume: ASSUME_TYPED,
        },
        "C07" => Info {
            quick: 100_000, thorough: 2000_000, run: typed::c07,
            rule: "one run = one list of nodes, some of which fail as the seed and the faults decide, decoded as a list and node by node; distinct = distinct (type, text with two or more nodes, failure script)",
            real: REAL_TYPED, stub: STUB_TYPED, assume: ASSUME_TYPED,
        },
        "C08" => Info {
            quick: 150_000, thorough: 2800_000, run: typed::c08,
            rule: "one run = one load whose decoders read and write the context and start nested decodes as the seed decides, checked at every step against a model of the store; distinct = distinct (type, text, failure script) with at least one decoder call",
            real: REAL_TYPED, stub: STUB_TYPED, assume: ASSUME_TYPED,
        },
        "C09" => Info {
            quick: 36_000, thorough: 650_000, run: conc::c09,
            rule: "one run = one to four threads, each a list of loads (text in both modes, typed, nested, unwinding, of a shared document, snapshots, reports), interleaved by a seeded scheduler at allocator calls and decoder calls, then every load alone on a fresh thread; distinct = distinct interleavings (switch points with per-thread step counts, and results) with more switches than threads",
            real: REAL_TYPED, stub: &["thread scheduler (one thread at a time, seeded hand-over)", "disk and file system (simulated)", "user decoders (scripted probes that fail, unwind, nest)"],
            assume: &["hand-over happens at allocator calls and decoder calls only; data races between them are not reached (the library has no unsafe code)", "user decoders are deterministic functions of what they are called for"],
        },
        "C10" => Info {
            quick: 450_000, thorough: 8000_000, run: snap::c10,
            rule: "one run = one history of edits, each version saved as a snapshot and restored over several restarts, with crashes before the rename, snapshots of other releases and a journal of snapshots; every byte written is compared with the reference codec and every element restored with the original; distinct = distinct non-empty snapshots",
            real: REAL_SNAP, stub: STUB_SNAP, assume: ASSUME_SNAP,
        },
        "C11" => Info {
            quick: 600_000, thorough: 12000_000, run: snap::c11,
            rule: "one run = one or two documents written to failing sinks and read back cut or damaged, under step and memory budgets; distinct = distinct damaged snapshots",
            real: REAL_SNAP, stub: STUB_SNAP, assume: ASSUME_SNAP,
        },
        "C12" => Info {
            quick: 80_000, thorough: 1600_000, run: copy::c12,
            rule: "one run = one file with a history, copied by a chain of clones, decoded copies, restored snapshots and position conversions drawn by the seed, each compared with the original element by element, then used as source of typed decodes with scripted decoder failures; distinct = distinct non-empty texts copied",
            real: REAL_COPY, stub: STUB_TYPED, assume: ASSUME_TYPED,
        },
        "C13" => Info {
            quick: 500_000, thorough: 12000_000, run: sink::c13,
            rule: "one run = a few errors from damaged texts, typed loads with scripted decoder failures and hand-made errors, each displayed and rendered into sinks that fail at a drawn byte or write, fully, short or once, then displayed again; distinct = distinct (message, text taken by the failing sink, kind of failure)",
            real: &["knuffel parser, decode traits, error and position types", "code generated by knuffel-derive", "miette report handlers"],
            stub: &["output sink (fails as the seed decides)", "disk and file system (simulated)", "user decoders (scripted probes)"],
            assume: &["what miette's own handlers do after a sink failure is not judged, only that nothing panics and the error stays as it was"],
        },
        "C15" => Info {
            quick: 20_000, thorough: 600_000, run: fleet::c15,
            rule: "one run = a fleet of three to six programs, each linked with knuffel built with another of the sixteen sets of features, reading the same files and snapshots over a history of edits and faults, with decoders that fail as the seed decides; everything they see is compared; distinct = distinct non-empty texts read",
            real: &["knuffel built with each of the sixteen sets of optional features", "code generated by knuffel-derive", "miette report handlers", "minicbor, base64, unicode-width"],
            stub: STUB_TEXT,
            assume: &["the members' program in fleet/src/lib.rs uses what of the API each build has", "standard base64 with padding as in sim/src/typed/shape.rs"],
        },
        "C16" => Info {
            quick: 80_000, thorough: 1600_000, run: reload::c16,
            rule: "one run = one file edited, moved about or damaged between two to four loads; names, type names, values and typed configurations of all loads are compared, sorted, hashed, collected and looked up, against the same done with the values alone; distinct = distinct non-empty loaded texts",
            real: &["knuffel parser, AST, Spanned", "code generated by knuffel-derive"], stub: STUB_TEXT,
            assume: &["values of the plain types (strings, literals, type names) compare and hash correctly"],
        },
        _ => return None,
    })
}

pub fn scenario(pid: &str) -> Option<Scenario> { info(pid).map(|i| i.run) }
