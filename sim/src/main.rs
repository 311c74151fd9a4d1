mod alloc;
mod choice;
mod cmp;
mod disk;
mod gen;
mod props;
mod refcbor;
mod refkdl;
mod run;
mod sched;
mod stats;
mod typed;

use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use choice::{mix, Src};
use run::{Run, Violation};
use stats::Stats;

#[global_allocator]
static ALLOC: alloc::SimAlloc = alloc::SimAlloc;

/// Where the last panic came from: (location, message).
static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

const RUN_STEP_CAP: u64 = 400_000_000;
const RUN_MEM_CAP: u64 = 2 << 30;
const STACK: usize = 512 << 20;
const HANG_SECS: u64 = 90;

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<props::Injected>() { return; }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "injected".into() };
        if let Ok(mut g) = LAST_PANIC.lock() { *g = Some((loc, msg)); }
    }));
}

/// One complete run.  Panics inside the library are violations; panics inside
/// the harness are harness errors.
fn execute(pid: &str, s: Src, tracing: bool) -> (Run, Option<Violation>, Option<String>) {
    let scenario = props::scenario(pid).expect("unknown property");
    let mut run = Run::new(s, tracing);
    *LAST_PANIC.lock().unwrap() = None;
    let (r, steps, _) = alloc::bounded(RUN_STEP_CAP, RUN_MEM_CAP, || {
        catch_unwind(AssertUnwindSafe(|| scenario(&mut run)))
    });
    run.st.steps += steps;
    run.st.max("max.run_steps_permille_of_cap", steps * 1000 / RUN_STEP_CAP);
    let (v, h) = match r {
        Ok(Ok(())) => (None, None),
        Ok(Err(v)) => (Some(v), None),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.lock().unwrap().take().unwrap_or_default();
            if (loc.starts_with("src/") || loc.contains("/verif/sim/")) && !loc.contains("typed/catalog.rs") {
                // nothing the unchanged library returns makes the harness panic
                (Some(Violation { class: "result the harness cannot make sense of".into(), msg: format!("panic at {}: {}", loc, msg) }), None)
            } else {
                let file = loc.split(':').next().unwrap_or("").to_string();
                (Some(Violation { class: format!("panic in {}", file), msg: format!("panic at {}: {}", loc, msg) }), None)
            }
        }
    };
    let o = run.obs;
    run.st.digest = run.st.digest.wrapping_add(mix(&[o]));
    run.st.evals += 1;
    let n = run.st.cases.max(1);
    run.st.add("cases", n);
    (run, v, h)
}

fn run_seed(seed: u64, pid: &str, idx: u64) -> u64 {
    mix(&[seed, stats::fnv(pid.as_bytes()), idx])
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------- worker ---

fn in_big_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(move || { props::warm(); f() }).unwrap().join().unwrap()
}

/// worker PID SEED START STRIDE COUNT OUT
fn worker(a: &[String]) -> i32 {
    let pid = a[0].clone();
    let seed: u64 = a[1].parse().unwrap();
    let start: u64 = a[2].parse().unwrap();
    let stride: u64 = a[3].parse().unwrap();
    let count: u64 = a[4].parse().unwrap();
    let out = a[5].clone();
    in_big_thread(move || {
        use std::os::unix::fs::FileExt;
        let progress = std::fs::File::create(format!("{}.idx", out)).unwrap();
        let mut total = Stats::default();
        let mut verdict = String::from("ok");
        let mut idx = start;
        while idx < count {
            progress.write_at(&idx.to_le_bytes(), 0).unwrap();
            let (run, v, h) = execute(&pid, Src::seeded(run_seed(seed, &pid, idx)), false);
            if std::env::var_os("SIM_OBS").is_some() { eprintln!("{} {:x}", idx, run.obs); }
            if let Some(h) = h { verdict = format!("harness {} {}", idx, h.replace('\n', " ")); break; }
            if let Some(v) = v {
                let ch: Vec<String> = run.s.log.iter().map(|x| x.to_string()).collect();
                verdict = format!("violation {}\n{}\n{}\n{}", idx, v.class, v.msg.replace('\n', "\\n"), ch.join(" "));
                total.merge(run.st);
                break;
            }
            total.merge(run.st);
            idx += stride;
        }
        let mut f = std::io::BufWriter::new(std::fs::File::create(&out).unwrap());
        writeln!(f, "{}", total.evals).unwrap();
        writeln!(f, "{}", total.steps).unwrap();
        writeln!(f, "{}", total.digest).unwrap();
        writeln!(f, "{}", total.counters.len()).unwrap();
        for (k, v) in &total.counters { writeln!(f, "{} {}", k, v).unwrap(); }
        writeln!(f, "{}", total.samples.len()).unwrap();
        for s in &total.samples { writeln!(f, "{}", esc(s)).unwrap(); }
        let mut sigs: Vec<_> = total.sigs.iter().collect();
        sigs.sort();
        writeln!(f, "{}", sigs.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(" ")).unwrap();
        writeln!(f, "{}", verdict).unwrap();
        f.flush().unwrap();
    });
    0
}

struct Found { idx: u64, class: String, msg: String, choices: Vec<u64> }

enum WorkerEnd { Ok, Found(Found), Died { idx: u64, class: String }, Harness(String) }

fn read_worker(out: &str, status: Option<std::process::ExitStatus>, hang: bool) -> (Stats, Vec<String>, WorkerEnd) {
    let mut st = Stats::default();
    let mut samples = vec![];
    let idx = std::fs::read(format!("{}.idx", out)).ok().and_then(|b| b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap()))).unwrap_or(0);
    let text = match std::fs::read_to_string(out) {
        Ok(t) if !hang && status.map_or(false, |s| s.success()) => t,
        _ => {
            use std::os::unix::process::ExitStatusExt;
            let class = if hang { "hang (no simulated step for a long time)".to_string() }
                else {
                    match status.and_then(|s| s.code()) {
                        Some(alloc::EXIT_STEPS) => "step budget exceeded (stall)".into(),
                        Some(alloc::EXIT_MEM) => "memory budget exceeded".into(),
                        Some(sched::EXIT_WAIT) => sched::WAITS.into(),
                        Some(c) => return (st, samples, WorkerEnd::Harness(format!("worker exit code {} at run {}", c, idx))),
                        None => format!("process killed by signal {}", status.and_then(|s| s.signal()).unwrap_or(0)),
                    }
                };
            return (st, samples, WorkerEnd::Died { idx, class });
        }
    };
    let mut l = text.lines();
    let mut num = || l.next().unwrap().parse::<u64>().unwrap();
    st.evals = num();
    st.steps = num();
    st.digest = num();
    let n = num();
    for _ in 0..n {
        let line = l.next().unwrap();
        let (k, v) = line.rsplit_once(' ').unwrap();
        st.counters.insert(k.to_string(), v.parse().unwrap());
    }
    let n: u64 = l.next().unwrap().parse().unwrap();
    for _ in 0..n { samples.push(l.next().unwrap().to_string()); }
    for x in l.next().unwrap().split_whitespace() { st.sigs.insert(u64::from_str_radix(x, 16).unwrap()); }
    let v = l.next().unwrap().to_string();
    let end = if v == "ok" { WorkerEnd::Ok }
        else if let Some(h) = v.strip_prefix("harness ") { WorkerEnd::Harness(h.to_string()) }
        else {
            WorkerEnd::Found(Found {
                idx: v.strip_prefix("violation ").unwrap().parse().unwrap(),
                class: l.next().unwrap().to_string(),
                msg: l.next().unwrap().to_string(),
                choices: l.next().unwrap_or("").split_whitespace().map(|x| x.parse().unwrap()).collect(),
            })
        };
    (st, samples, end)
}

/// CPU seconds a process has used
fn cpu_secs(pid: u32) -> f64 {
    let t = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let f: Vec<&str> = t.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    (11..13).filter_map(|i| f.get(i)?.parse::<f64>().ok()).sum::<f64>() / 100.0
}

struct Batch { st: Stats, samples: Vec<String>, found: Option<Found>, harness: Option<String>, wall: f64 }

fn batch(exe: &str, dir: &str, pid: &str, seed: u64, count: u64, workers: u64) -> Batch {
    let t0 = Instant::now();
    let mut kids = vec![];
    for w in 0..workers {
        let out = format!("{}/w{}", dir, w);
        let _ = std::fs::remove_file(&out);
        let _ = std::fs::remove_file(format!("{}.idx", out));
        let c = Command::new(exe).args(["worker", pid, &seed.to_string(), &w.to_string(), &workers.to_string(), &count.to_string(), &out])
            .stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("spawn worker");
        kids.push((c, out, Instant::now(), Vec::<u8>::new(), None::<std::process::ExitStatus>, false, 0.0));
    }
    loop {
        let mut live = false;
        for k in kids.iter_mut() {
            if k.4.is_some() || k.5 { continue; }
            if let Ok(Some(s)) = k.0.try_wait() { k.4 = Some(s); continue; }
            let now = std::fs::read(format!("{}.idx", k.1)).unwrap_or_default();
            if now != k.3 { k.3 = now; k.2 = Instant::now(); k.6 = cpu_secs(k.0.id()); }
            // a starved worker is not a hanging one
            if k.2.elapsed() > Duration::from_secs(4 * HANG_SECS) || k.2.elapsed() > Duration::from_secs(HANG_SECS) && cpu_secs(k.0.id()) - k.6 > HANG_SECS as f64 / 2.0 {
                let _ = k.0.kill();
                let _ = k.0.wait();
                k.5 = true;
                continue;
            }
            live = true;
        }
        if !live { break; }
        std::thread::sleep(Duration::from_millis(5));
    }
    let mut b = Batch { st: Stats::default(), samples: vec![], found: None, harness: None, wall: 0.0 };
    for k in kids {
        let (st, samples, end) = read_worker(&k.1, k.4, k.5);
        b.st.merge(st);
        b.samples.extend(samples);
        let f = match end {
            WorkerEnd::Ok => None,
            WorkerEnd::Harness(h) => { b.harness.get_or_insert(h); None }
            WorkerEnd::Found(f) => Some(f),
            WorkerEnd::Died { idx, class } => Some(Found { idx, msg: class.clone(), class, choices: vec![] }),
        };
        if let Some(f) = f {
            if b.found.as_ref().map_or(true, |g| f.idx < g.idx) { b.found = Some(f); }
        }
    }
    b.wall = t0.elapsed().as_secs_f64();
    b
}

// ------------------------------------------------------------ replay file ---

/// `before`: seeds of runs to execute first in the same process, for violations
/// that need what earlier runs left behind in it.
struct Replay { pid: String, class: String, msg: String, before: Vec<u64>, choices: Vec<u64>, extra: Vec<String> }

fn nums(v: &[u64]) -> String { v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ") }
fn parse_nums(t: &str) -> Vec<u64> { t.split_whitespace().filter_map(|x| x.parse().ok()).collect() }

fn write_replay(path: &str, r: &Replay) {
    let mut t = String::new();
    t.push_str(&format!("property: {}\nclass: {}\nmessage: {}\n", r.pid, r.class, r.msg.replace('\n', "\\n")));
    if !r.before.is_empty() { t.push_str(&format!("runs before: {}\n", nums(&r.before))); }
    t.push_str(&format!("choices: {}\n", nums(&r.choices)));
    for l in &r.extra { t.push_str(&format!("# {}\n", l.replace('\n', "\\n"))); }
    std::fs::write(path, t).unwrap();
}

fn read_replay(path: &str) -> Replay {
    let t = std::fs::read_to_string(path).expect("replay file");
    let mut m: HashMap<String, String> = HashMap::new();
    for l in t.lines() {
        if let Some((k, v)) = l.split_once(": ") { m.entry(k.to_string()).or_insert(v.to_string()); }
    }
    Replay {
        pid: m.get("property").cloned().unwrap_or_default(),
        class: m.get("class").cloned().unwrap_or_default(),
        msg: m.get("message").cloned().unwrap_or_default(),
        before: m.get("runs before").map(|c| parse_nums(c)).unwrap_or_default(),
        choices: m.get("choices").map(|c| parse_nums(c)).unwrap_or_default(),
        extra: vec![],
    }
}

/// once PID CHOICEFILE [LOGFILE]: run one choice sequence, print class/message.
fn once(a: &[String]) -> i32 {
    let pid = a[0].clone();
    let mut before = vec![];
    let src = if let Some(x) = a[1].strip_prefix("seed:") { Src::seeded(x.parse().unwrap()) } else {
        let t = std::fs::read_to_string(&a[1]).unwrap();
        let (b, c) = t.split_once('\n').unwrap();
        before = parse_nums(b);
        Src::replay(parse_nums(c))
    };
    let log = a.get(2).cloned();
    in_big_thread(move || {
        for b in before { let _ = execute(&pid, Src::seeded(b), false); }
        let mut src = src;
        if let Some(l) = log { src.log_to(&l); }
        let (run, v, h) = execute(&pid, src, true);
        if let Some(h) = h { println!("harness\n{}", h); return 2; }
        let code = if let Some(v) = &v { println!("violation\n{}\n{}", v.class, v.msg.replace('\n', "\\n")); 1 } else { println!("ok\n\n"); 0 };
        println!("{}", run.s.log.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        println!("digest {}", run.obs);
        for l in run.trace.unwrap_or_default() { println!("{}", l.replace('\n', "\\n")); }
        code
    })
}

struct Once { class: Option<String>, msg: String, used: Vec<u64>, trace: Vec<String> }

fn try_once(exe: &str, dir: &str, pid: &str, before: &[u64], choices: &[u64], limit: Duration) -> Once {
    let f = format!("{}/cand", dir);
    std::fs::write(&f, format!("{}\n{}", nums(before), nums(choices))).unwrap();
    let outp = format!("{}/cand.out", dir);
    let out = std::fs::File::create(&outp).unwrap();
    let mut c = Command::new(exe).args(["once", pid, &f]).stdout(out).stderr(Stdio::null()).spawn().unwrap();
    let t0 = Instant::now();
    let status = loop {
        if let Ok(Some(s)) = c.try_wait() { break Some(s); }
        if t0.elapsed() > limit { let _ = c.kill(); let _ = c.wait(); break None; }
        std::thread::sleep(Duration::from_micros(500));
    };
    use std::os::unix::process::ExitStatusExt;
    let dead = |class: String| Once { msg: class.clone(), class: Some(class), used: choices.to_vec(), trace: vec![] };
    match status {
        None => dead("hang (no simulated step for a long time)".into()),
        Some(s) => match s.code() {
            Some(alloc::EXIT_STEPS) => dead("step budget exceeded (stall)".into()),
            Some(alloc::EXIT_MEM) => dead("memory budget exceeded".into()),
            Some(sched::EXIT_WAIT) => dead(sched::WAITS.into()),
            None => dead(format!("process killed by signal {}", s.signal().unwrap_or(0))),
            Some(_) => {
                let t = std::fs::read_to_string(&outp).unwrap_or_default();
                let mut l = t.lines();
                let kind = l.next().unwrap_or("");
                let class = l.next().unwrap_or("").to_string();
                let msg = l.next().unwrap_or("").to_string();
                let used = l.next().unwrap_or("").split_whitespace().filter_map(|x| x.parse().ok()).collect();
                Once { class: if kind == "violation" { Some(class) } else { None }, msg, used, trace: l.map(|x| x.to_string()).collect() }
            }
        }
    }
}

/// Runs of the same process that have to come first, as few as found in the time.
/// Time for one execution with what has to come before it.
fn allow(limit: Duration, before: usize) -> Duration { limit + Duration::from_millis((5 * before as u64).min(200_000)) }

fn needed_before(exe: &str, dir: &str, pid: &str, f: &Found, choices: &[u64], seed: u64, workers: u64, limit: Duration) -> Vec<u64> {
    let hit = |b: &[u64]| try_once(exe, dir, pid, b, choices, allow(limit, b.len())).class.as_deref() == Some(&f.class[..]);
    if hit(&[]) { return vec![]; }
    let all: Vec<u64> = (0..f.idx / workers).map(|k| run_seed(seed, pid, f.idx % workers + k * workers)).collect();
    let t0 = Instant::now();
    let wall = Duration::from_secs(90);
    let mut n = 1;
    let mut best = loop {
        let b = all[all.len().saturating_sub(n)..].to_vec();
        if hit(&b) { break b; }
        if n >= all.len() || t0.elapsed() > wall { return all; }
        n *= 4;
    };
    let mut size = (best.len() / 2).max(1);
    loop {
        let mut i = 0;
        while i < best.len() && t0.elapsed() < wall {
            let mut c = best.clone();
            c.drain(i..(i + size).min(c.len()));
            if hit(&c) { best = c; } else { i += size; }
        }
        if size == 1 { break; }
        size /= 2;
    }
    best
}

fn minimise(exe: &str, dir: &str, pid: &str, f: Found, seed: u64, workers: u64) -> Replay {
    let limit = if f.class.starts_with("hang") { Duration::from_secs(12) } else { Duration::from_secs(30) };
    let mut choices = f.choices.clone();
    if choices.is_empty() {
        // the run killed the process: replay it once with the choices written out as drawn
        let log = format!("{}/choices", dir);
        let mut c = Command::new(exe).args(["once", pid, &format!("seed:{}", run_seed(seed, pid, f.idx)), &log])
            .stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
        let t0 = Instant::now();
        while let Ok(None) = c.try_wait() {
            if t0.elapsed() > limit { let _ = c.kill(); let _ = c.wait(); break; }
            std::thread::sleep(Duration::from_millis(1));
        }
        choices = std::fs::read_to_string(&log).unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect();
    }
    let orig_len = choices.len();
    let before = needed_before(exe, dir, pid, &f, &choices, seed, workers, limit);
    let limit = allow(limit, before.len());
    let t0 = Instant::now();
    let wall = Duration::from_secs(40);
    let mut tried = 0u64;
    let mut best = choices;
    let class = f.class.clone();
    let mut test = |c: &[u64], best: &mut Vec<u64>| -> bool {
        tried += 1;
        let r = try_once(exe, dir, pid, &before, c, limit);
        if r.class.as_deref() == Some(&class[..]) {
            let mut u = r.used;
            while u.last() == Some(&0) { u.pop(); }
            if u.len() < best.len() || (u.len() == best.len() && u < *best) { *best = u; return true; }
        }
        false
    };
    let mut progress = true;
    while progress && t0.elapsed() < wall {
        progress = false;
        // drop chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() && t0.elapsed() < wall {
                let mut c = best.clone();
                c.drain(i..i + size);
                if test(&c, &mut best) { progress = true; } else { i += size; }
            }
            if size == 1 { break; }
            size /= 2;
        }
        // zero chunks, then lower single values
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() && t0.elapsed() < wall {
                if best[i..i + size].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..i + size] { *x = 0; }
                    if test(&c, &mut best) { progress = true; }
                }
                i += size;
            }
            if size == 1 { break; }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() && t0.elapsed() < wall {
            let mut lo = 0;
            while i < best.len() && lo < best[i] && t0.elapsed() < wall {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if test(&c, &mut best) { progress = true; } else { lo = mid + 1; }
            }
            i += 1;
        }
    }
    let fin = try_once(exe, dir, pid, &before, &best, limit);
    let (class, msg) = match fin.class { Some(c) if c == f.class => (c, fin.msg), _ => (f.class, f.msg) };
    let mut extra = vec![
        format!("found at run {} of VERIF_SEED={}; {} choices reduced to {} in {} executions", f.idx, seed, orig_len, best.len(), tried),
        "history (faults and steps in order):".to_string(),
    ];
    if !before.is_empty() { extra.insert(1, format!("needs {} earlier runs in the same process", before.len())); }
    extra.extend(fin.trace);
    Replay { pid: pid.into(), class, msg, before, choices: best, extra }
}

/// replay FILE: exit 1 and a VIOLATION line when the recorded violation reappears.
fn replay(a: &[String]) -> i32 {
    let r = read_replay(&a[0]);
    let exe = std::env::current_exe().unwrap().to_string_lossy().into_owned();
    let dir = scratch("replay");
    let o = try_once(&exe, &dir, &r.pid, &r.before, &r.choices, allow(Duration::from_secs(60), r.before.len()));
    let _ = std::fs::remove_dir_all(&dir);
    for l in &o.trace { println!("{}", l); }
    match o.class {
        Some(c) => {
            println!("{}: {}", c, o.msg);
            println!("recorded: {}: {}", r.class, r.msg);
            println!("reproduced {}", if c == r.class && o.msg == r.msg { "exactly" } else if c == r.class { "same class" } else { "a different violation" });
            println!("VIOLATION property={} replay={}", r.pid, a[0]);
            1
        }
        None => { println!("no violation on this tree"); 0 }
    }
}

fn scratch(tag: &str) -> String {
    let d = std::env::temp_dir().join(format!("knuffel-sim-{}-{}", tag, std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d.to_string_lossy().into_owned()
}

// ------------------------------------------------------------------ check ---

/// check PID VERIFDIR: the registered command.
fn check(a: &[String]) -> i32 {
    let pid = &a[0];
    let verif = &a[1];
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.trim().parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() { Ok("thorough") => "thorough", _ => "quick" };
    let workers: u64 = std::env::var("SIM_WORKERS").ok().and_then(|x| x.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(16));
    let info = match props::info(pid) { Some(i) => i, None => { eprintln!("unknown property {}", pid); return 2; } };
    if pid == "C15" && !props::fleet::there() { eprintln!("the fleet is not built"); return 3; }
    let count = std::env::var("SIM_RUNS").ok().and_then(|x| x.parse().ok())
        .unwrap_or(if tier == "thorough" { info.thorough } else { info.quick });
    let exe = std::env::current_exe().unwrap().to_string_lossy().into_owned();
    let dir = scratch(pid);
    eprintln!("{}: VERIF_SEED={} tier={} runs={} workers={}", pid, seed, tier, count, workers);
    let b = batch(&exe, &dir, pid, seed, count, workers);
    if b.found.is_none() {
        if let Some(h) = b.harness {
            eprintln!("harness error: {}", h);
            let _ = std::fs::remove_dir_all(&dir);
            return 3;
        }
    }
    let mut violations = 0;
    let mut replay_path = String::new();
    let mut determinism = String::from("not run: a violation was found");
    if let Some(f) = b.found {
        violations = 1;
        let r = minimise(&exe, &dir, pid, f, seed, workers);
        let rd = format!("{}/replays", verif);
        std::fs::create_dir_all(&rd).unwrap();
        replay_path = format!("{}/{}-seed{}.replay", rd, pid, seed);
        write_replay(&replay_path, &r);
        println!("{}: {}", r.class, r.msg);
        for l in &r.extra { println!("  {}", run::clip(l, 600)); }
    } else {
        // determinism: the same seeds again, other processes, other worker count
        let sample = (count / 20).clamp(1, if tier == "thorough" { 20000 } else { 2000 });
        let x = batch(&exe, &dir, pid, seed, sample, 3);
        let y = batch(&exe, &dir, pid, seed, sample, workers);
        determinism = if x.st.digest == y.st.digest && x.found.is_none() && y.found.is_none() {
            format!("{} runs executed twice in fresh processes with 3 and {} workers: identical observation digests", sample, workers)
        } else { format!("MISMATCH over {} runs executed twice", sample) };
        if determinism.starts_with("MISMATCH") { eprintln!("warning: {}", determinism); }
    }
    let _ = std::fs::remove_dir_all(&dir);
    // evidence
    let mut faults: BTreeMap<&str, u64> = BTreeMap::new();
    let mut probes: BTreeMap<&str, u64> = BTreeMap::new();
    for (k, v) in &b.st.counters {
        if let Some(n) = k.strip_prefix("fault.") { faults.insert(n, *v); } else if k != "cases" { probes.insert(k, *v); }
    }
    let obj = |m: &BTreeMap<&str, u64>| m.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ");
    let list = |v: &[&str]| v.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", ");
    let samples = b.samples.iter().take(6).cloned().collect::<Vec<_>>().join(",\n   ");
    let per_hour = b.st.evals as f64 / b.wall.max(0.001) * 3600.0;
    let ev = format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"simulated_runs\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [\n   {}\n  ],\n  \"simulated_runs_per_hour\": {:.0},\n  \"simulated_steps\": {},\n  \"simulated_time_unit\": \"one allocator call of the simulated process (the library has no clock)\",\n  \"faults_injected\": {{{}}},\n  \"probes\": {{{}}},\n  \"components_real\": [{}],\n  \"components_stub\": [{}],\n  \"determinism\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        esc(pid), esc(tier), seed, b.st.counters.get("cases").copied().unwrap_or(0), b.st.evals, b.st.sigs.len(), esc(info.rule), samples, per_hour, b.st.steps,
        obj(&faults), obj(&probes), list(info.real), list(info.stub), esc(&determinism), list(info.assume), t0.elapsed().as_secs_f64(), violations);
    let evd = format!("{}/evidence", verif);
    std::fs::create_dir_all(&evd).unwrap();
    std::fs::write(format!("{}/{}.json", evd, pid), ev).unwrap();
    if violations > 0 {
        println!("VIOLATION property={} replay={}", pid, replay_path);
        return 1;
    }
    println!("{}: held on {} simulated runs ({} distinct situations), {:.1} s", pid, b.st.evals, b.st.sigs.len(), t0.elapsed().as_secs_f64());
    0
}

fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|x| &x[..]) {
        Some("worker") => worker(&a[1..]),
        Some("once") => once(&a[1..]),
        Some("replay") => replay(&a[1..]),
        Some("check") => check(&a[1..]),
        _ => { eprintln!("usage: sim check PID VERIFDIR | replay FILE"); 2 }
    };
    std::process::exit(code);
}
