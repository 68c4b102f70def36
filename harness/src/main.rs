//! `mc`: explicit-state model checking of the EASTL-rs containers, on the real code.
//!
//! `mc check PID` explores every spec of a property in a worker process and reports;
//! `mc replay FILE` runs one recorded history again.
#![cfg_attr(feature = "nightly", allow(incomplete_features))]
#![cfg_attr(feature = "nightly", feature(generic_const_exprs))]

mod alloc;
#[macro_use]
mod rt;
mod explore;
mod plan;
#[cfg_attr(feature = "nightly", allow(dead_code, unused_imports))]
mod sys;
mod tok;

use explore::*;
use rt::Kind;
use std::fmt::Write as _;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitCode, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

const THREADS: usize = 8;
/// no progress for this long means that an operation does not terminate
const HANG: Duration = Duration::from_secs(60);

fn map_slots(path: &Path, create: bool) -> *mut u8 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(false).open(path).expect("slot file");
    f.set_len((THREADS * SLOT_BYTES) as u64).expect("slot file size");
    let p = unsafe { mmap(std::ptr::null_mut(), THREADS * SLOT_BYTES, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap of the slot file failed");
    p
}

const UNCONFIRMED: &str = ", and no history does so on its own";

/// The JSON string that `s` starts with, quotes included
fn first_string(s: &str) -> Option<&str> {
    let mut escaped = false;
    for (i, b) in s.bytes().enumerate() {
        match b {
            b'"' if i == 0 => {}
            _ if i == 0 => return None,
            _ if escaped => escaped = false,
            b'\\' => escaped = true,
            b'"' => return Some(&s[..=i]),
            _ => {}
        }
    }
    None
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn tier() -> String {
    std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into())
}
fn thorough(t: &str) -> bool {
    t == "thorough"
}

fn budget(t: &str) -> Duration {
    let s = std::env::var("MC_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough(t) { 5400 } else { 420 });
    Duration::from_secs(s)
}

fn hist_text(h: &[Op]) -> String {
    h.iter().map(|o| format!("{}:{}:{}", o.c, o.a, o.b)).collect::<Vec<_>>().join(" ")
}
fn parse_hist(s: &str) -> Vec<Op> {
    s.split_whitespace()
        .map(|t| {
            let v: Vec<u32> = t.split(':').map(|x| x.parse().unwrap_or(0)).collect();
            op(v[0], v[1], v[2])
        })
        .collect()
}

/// Explores the specs of a property; one line per finished spec goes to `out`.
fn worker(pid: &str, t: &str, slots: &Path, out: &Path) -> ExitCode {
    let p = plan::plan(pid, thorough(t));
    let slots = map_slots(slots, true);
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(out).unwrap();
    let start = Instant::now();
    let only = std::env::var("MC_ONLY").ok();
    for i in 0..p.specs.len() {
        if only.as_ref().is_some_and(|o| !p.specs[i].name.contains(o.as_str())) {
            continue;
        }
        // each spec may use at most what is left of the whole budget
        let e = Explorer { specs: &p.specs, kinds: &p.kinds, threads: THREADS, slots, deadline: start + budget(t) };
        let (r, found) = e.run_spec(i);
        let per_op = r.per_op.iter().map(|(c, n)| format!("\"{c}\":{n}")).collect::<Vec<_>>().join(",");
        let line = format!(
            "spec\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n",
            r.states, r.transitions, r.executions, r.ops_executed, r.max_depth, r.complete as u32, r.wall_ms,
            esc(&r.name),
            format!("{{\"samples\":[{}],\"operations\":{{{}}}}}", r.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","), per_op)
        );
        f.write_all(line.as_bytes()).unwrap();
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!(
                "{:<70} states {:>9} transitions {:>10} ops {:>12} depth {:>4} {}{} ms",
                r.name, r.states, r.transitions, r.ops_executed, r.max_depth, if r.complete { "" } else { "INCOMPLETE " }, r.wall_ms
            );
        }
        if let Some(x) = found {
            let mut s = String::new();
            let _ = writeln!(s, "found\t{i}\t{}\t{}", esc(&x.spec), hist_text(&x.hist));
            for v in x.violations.iter().take(16) {
                let _ = writeln!(s, "why\t{:?}\t{}", v.kind, esc(&v.msg));
            }
            for v in &x.shown {
                let _ = writeln!(s, "step\t{}", esc(v));
            }
            f.write_all(s.as_bytes()).unwrap();
            return ExitCode::from(3);
        }
    }
    f.write_all(b"end\n").unwrap();
    ExitCode::SUCCESS
}

/// Runs one history and prints what is wrong with it: exit 3 if anything this property owns is.
fn one(pid: &str, t: &str, spec: usize, hist: &[Op], out: &Path) -> ExitCode {
    let p = plan::plan(pid, thorough(t));
    let Some(s) = p.specs.get(spec) else {
        eprintln!("no such spec");
        return ExitCode::from(2);
    };
    let violations = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(s.stack)
            .spawn_scoped(sc, || match &s.body {
                Body::Sys { make, reuse, lvl, .. } => exec(make, hist, *reuse, *lvl, true, true, true).violations,
                Body::Cases { f, .. } => {
                    let lo = hist[0].a as u64 | (hist[0].b as u64) << 32;
                    let hi = hist[1].a as u64 | (hist[1].b as u64) << 32;
                    run_case(f, lo, hi).1
                }
            })
            .unwrap()
            .join()
            .unwrap()
    });
    let kinds = s.kinds.as_deref().unwrap_or(&p.kinds);
    let mut text = String::new();
    let mut own = false;
    for v in violations.iter().take(16) {
        own |= kinds.contains(&v.kind) || matches!(v.kind, Kind::Panic | Kind::Crash | Kind::Hang);
        let _ = writeln!(text, "why\t{:?}\t{}", v.kind, esc(&v.msg));
    }
    if let Body::Sys { make, .. } = &s.body {
        for l in show_hist(make, hist) {
            let _ = writeln!(text, "step\t{}", esc(&l));
        }
    }
    let _ = std::fs::write(out, text);
    if own {
        ExitCode::from(3)
    } else {
        ExitCode::SUCCESS
    }
}

enum End {
    Code(i32),
    Died(String),
    Hung,
}

fn wait(child: &mut Child, slots: Option<*mut u8>, limit: Option<Duration>) -> End {
    let start = Instant::now();
    let mut seen = 0u64;
    let mut since = Instant::now();
    loop {
        if let Ok(Some(st)) = child.try_wait() {
            use std::os::unix::process::ExitStatusExt;
            return match (st.code(), st.signal()) {
                (Some(c), _) => End::Code(c),
                (_, s) => End::Died(format!("signal {}", s.unwrap_or(0))),
            };
        }
        if let Some(s) = slots {
            let mut sum = 0u64;
            let mut busy = false;
            for i in 0..THREADS {
                let (h, _) = Slot::at(s, i).read_head();
                sum = sum.wrapping_add(h.seq);
                busy |= h.busy != 0;
            }
            if sum != seen || !busy {
                seen = sum;
                since = Instant::now();
            }
            if since.elapsed() > HANG {
                let _ = child.kill();
                let _ = child.wait();
                return End::Hung;
            }
        }
        if limit.is_some_and(|l| start.elapsed() > l) {
            let _ = child.kill();
            let _ = child.wait();
            return End::Hung;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

struct Total {
    states: u64,
    transitions: u64,
    executions: u64,
    ops: u64,
    complete: bool,
    specs: Vec<String>,
    samples: Vec<String>,
}

fn unq(s: &str) -> String {
    s.trim_matches('"').replace("\\\"", "\"").replace("\\n", "\n").replace("\\\\", "\\")
}

struct Bad {
    bin: PathBuf,
    spec: usize,
    name: String,
    hist: Vec<Op>,
    text: Vec<String>,
    confirmed: bool,
}

fn run_bin(bin: &Path, variant: &str, pid: &str, t: &str, dir: &Path, tot: &mut Total) -> Result<Option<Bad>, String> {
    let slots_path = dir.join(format!("slots-{variant}"));
    let out = dir.join(format!("out-{variant}"));
    let _ = (std::fs::remove_file(&slots_path), std::fs::remove_file(&out));
    let slots = map_slots(&slots_path, true);
    let mut c = Command::new(bin)
        .args(["worker", pid, t])
        .arg(&slots_path)
        .arg(&out)
        .stdin(Stdio::null())
        .spawn()
        .map_err(|e| format!("cannot start the worker: {e}"))?;
    let end = wait(&mut c, Some(slots), None);
    let text = std::fs::read_to_string(&out).unwrap_or_default();
    let mut bad: Option<Bad> = None;
    for l in text.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "spec" => {
                let n = |i: usize| f[i].parse::<u64>().unwrap_or(0);
                tot.states += n(1);
                tot.transitions += n(2);
                tot.executions += n(3);
                tot.ops += n(4);
                tot.complete &= f[6] == "1";
                tot.specs.push(format!(
                    "{{\"space\":{},\"build\":{},\"states\":{},\"transitions\":{},\"executions\":{},\"operations_run\":{},\"depth\":{},\"complete\":{},\"wall_ms\":{},\"detail\":{}}}",
                    f[8], esc(variant), n(1), n(2), n(3), n(4), n(5), f[6] == "1", n(7), f[9]
                ));
                if tot.samples.len() < 24 {
                    if let Some(a) = f[9].strip_prefix("{\"samples\":[") {
                        // the first sample of each space
                        if let Some(h) = first_string(a) {
                            tot.samples.push(format!("{{\"space\":{},\"history\":{h}}}", f[8]));
                        }
                    }
                }
            }
            "found" => {
                bad = Some(Bad { bin: bin.into(), spec: f[1].parse().unwrap_or(0), name: unq(f[2]), hist: parse_hist(f[3]), text: vec![], confirmed: true })
            }
            "why" => {
                if let Some(b) = &mut bad {
                    b.text.push(format!("{}: {}", f[1], unq(f[2])));
                }
            }
            "step" => {
                if let Some(b) = &mut bad {
                    b.text.push(format!("  step: {}", unq(f[1])));
                }
            }
            _ => {}
        }
    }
    match end {
        End::Code(0) if text.ends_with("end\n") => Ok(None),
        End::Code(3) if bad.is_some() => Ok(bad),
        End::Code(c) if c == 101 || c < 3 => Err(format!("the explorer failed with exit code {c}")),
        e => {
            // the worker died or hung: find the history that does it
            let how = match &e {
                End::Hung => "does not terminate".to_string(),
                End::Died(s) => format!("kills the process ({s})"),
                End::Code(c) => format!("ends the process (exit code {c})"),
            };
            let mut cands = Vec::new();
            for i in 0..THREADS {
                let (h, mut ops) = Slot::at(slots, i).read();
                if h.busy == 0 {
                    continue;
                }
                if h.kind == 1 {
                    ops = vec![op(u32::MAX, h.lo as u32, (h.lo >> 32) as u32), op(u32::MAX, h.hi as u32, (h.hi >> 32) as u32)];
                }
                cands.push((h.spec as usize, ops));
            }
            let mut kids = Vec::new();
            for (k, (spec, ops)) in cands.iter().enumerate() {
                let hp = dir.join(format!("hist-{variant}-{k}"));
                let op_ = dir.join(format!("one-{variant}-{k}"));
                std::fs::write(&hp, hist_text(ops)).map_err(|e| e.to_string())?;
                let c = Command::new(bin)
                    .args(["one", pid, t, &spec.to_string()])
                    .arg(&hp)
                    .arg(&op_)
                    .stdin(Stdio::null())
                    .stderr(Stdio::null())
                    .spawn()
                    .map_err(|e| e.to_string())?;
                kids.push((c, op_));
            }
            let mut confirmed = None;
            for (k, (mut c, _)) in kids.into_iter().enumerate() {
                let r = wait(&mut c, None, Some(HANG));
                let h = match r {
                    End::Hung => Some("does not terminate".to_string()),
                    End::Died(s) => Some(format!("kills the process ({s})")),
                    End::Code(c) if c != 0 => Some(format!("ends the process (exit code {c})")),
                    _ => None,
                };
                if let Some(h) = h {
                    // the shortest history is the best witness
                    if confirmed.as_ref().is_none_or(|(j, _): &(usize, String)| cands[k].1.len() < cands[*j].1.len()) {
                        confirmed = Some((k, h));
                    }
                }
            }
            let p = |spec: usize, hist: Vec<Op>, text: Vec<String>| {
                let pl = plan::plan(pid, thorough(t));
                let (name, steps) = match pl.specs.get(spec) {
                    Some(s) => (
                        s.name.clone(),
                        match &s.body {
                            Body::Sys { make, .. } => show_hist(make, &hist),
                            _ => vec![],
                        },
                    ),
                    None => ("?".into(), vec![]),
                };
                let mut text = text;
                text.extend(steps.into_iter().map(|s| format!("  step: {s}")));
                Bad { bin: bin.into(), spec, name, hist, text, confirmed: true }
            };
            // specs differ between the two builds, so describe histories only of our own
            let own = std::env::current_exe().is_ok_and(|x| x == bin);
            let mk = |spec: usize, hist: Vec<Op>, text: Vec<String>| {
                if own {
                    p(spec, hist, text)
                } else {
                    Bad { bin: bin.into(), spec, name: format!("spec {spec} of the {variant} build"), hist, text, confirmed: true }
                }
            };
            match confirmed {
                Some((k, h)) => {
                    let (spec, hist) = cands.swap_remove(k);
                    Ok(Some(mk(spec, hist, vec![format!("Crash: this history {h}")])))
                }
                None => {
                    if matches!(&e, End::Died(s) if s == "signal 9") || cands.is_empty() {
                        return Err(format!("the explorer {how}{UNCONFIRMED}"));
                    }
                    let (spec, hist) = cands.swap_remove(0);
                    let b = mk(spec, hist, vec![format!("Crash: exploring {how}; this history was running, and does not do so on its own")]);
                    Ok(Some(Bad { confirmed: !matches!(e, End::Died(_)), ..b }))
                }
            }
        }
    }
}

fn check(pid: &str) -> ExitCode {
    let t = tier();
    let t0 = Instant::now();
    let root = PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()));
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let dir = std::env::temp_dir().join(format!("mc-{pid}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let mut tot = Total { states: 0, transitions: 0, executions: 0, ops: 0, complete: true, specs: vec![], samples: vec![] };
    let me = std::env::current_exe().expect("own path");
    let mut res = run_bin(&me, "stable", pid, &t, &dir, &mut tot);
    if matches!(&res, Ok(Some(b)) if !b.confirmed) || matches!(&res, Err(e) if e.ends_with(UNCONFIRMED)) {
        // the explorer died, but none of the histories under way does so by itself: what the
        // second attempt says counts
        eprintln!("the explorer died and no single history explains it; exploring again");
        tot = Total { states: 0, transitions: 0, executions: 0, ops: 0, complete: true, specs: vec![], samples: vec![] };
        res = run_bin(&me, "stable", pid, &t, &dir, &mut tot);
    }
    let mut notes = vec![];
    if plan::wants_nightly(pid) && matches!(res, Ok(None)) {
        match std::env::var("MC_NIGHTLY_BIN") {
            Ok(b) if Path::new(&b).exists() => res = run_bin(Path::new(&b), "nightly", pid, &t, &dir, &mut tot),
            _ => {
                tot.complete = false;
                notes.push("the nightly-feature build is missing, so the conformant FixedList was not explored".to_string());
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let p = plan::plan(pid, thorough(&t));
    let (code, violations) = match &res {
        Ok(None) => (0, 0),
        Ok(Some(b)) => {
            let rdir = root.join("replays");
            let _ = std::fs::create_dir_all(&rdir);
            let path = rdir.join(format!("{pid}-{t}.replay"));
            let mut s = String::new();
            let _ = writeln!(s, "property {pid}\ntier {t}\nbinary {}\nspec {}\nspace {}\nhistory {}", b.bin.display(), b.spec, b.name, hist_text(&b.hist));
            let _ = writeln!(s, "# run again with: {} replay {}", b.bin.display(), path.display());
            for l in &b.text {
                let _ = writeln!(s, "# {l}");
            }
            let _ = std::fs::write(&path, s);
            for l in b.text.iter().filter(|l| !l.starts_with("  step")).take(6) {
                println!("{}: {l}", b.name);
            }
            let steps: Vec<&str> = b.text.iter().filter_map(|l| l.strip_prefix("  step: ")).collect();
            if steps.len() <= 40 {
                println!("history: {}", steps.join("; "));
            } else {
                println!("history: {} operations, ending in {}", steps.len(), steps[steps.len() - 8..].join("; "));
            }
            println!("VIOLATION property={pid} replay={}", path.display());
            (1, 1)
        }
        Err(e) => {
            eprintln!("{e}");
            (2, 0)
        }
    };
    let mut asm: Vec<String> = p.assumptions.iter().map(|s| s.to_string()).collect();
    asm.extend(notes);
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"operations_executed\": {},\n  \"exhaustive\": {},\n  \"samples\": [{}],\n  \"spaces\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {violations}\n}}\n",
        esc(pid), esc(&t), tot.states, tot.transitions, tot.executions, tot.ops,
        tot.complete && code == 0,
        tot.samples.join(", "),
        tot.specs.join(",\n   "),
        asm.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64()
    );
    let edir = root.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    std::fs::write(edir.join(format!("{pid}.json")), ev).expect("evidence file");
    println!(
        "{pid} {t}: {} spaces, {} states, {} transitions, {} executions of the real code, {} operations, {}, {:.1} s",
        tot.specs.len(), tot.states, tot.transitions, tot.executions, tot.ops,
        if tot.complete { "complete" } else { "not complete" },
        t0.elapsed().as_secs_f64()
    );
    ExitCode::from(code)
}

fn replay(path: &str) -> ExitCode {
    let text = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{k} "))).unwrap_or("").to_string();
    let (pid, t, spec, hist) = (get("property"), get("tier"), get("spec").parse().unwrap_or(0), parse_hist(&get("history")));
    let out = std::env::temp_dir().join(format!("mc-replay-{}", std::process::id()));
    let r = one(&pid, &t, spec, &hist, &out);
    print!("{}", std::fs::read_to_string(&out).unwrap_or_default());
    let _ = std::fs::remove_file(&out);
    r
}

fn main() -> ExitCode {
    let a: Vec<String> = std::env::args().collect();
    let s: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    // panics are part of many histories
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("MC_PANICS").is_some() {
            eprintln!("{i}");
        } else if std::thread::current().name() == Some("main") {
            eprintln!("{i}");
        }
    }));
    // no core files
    unsafe { setrlimit(4, &[0, 0]) };
    match &s[1..] {
        ["check", pid] => check(pid),
        ["worker", pid, t, slots, out] => worker(pid, t, Path::new(slots), Path::new(out)),
        ["one", pid, t, spec, hist, out] => {
            let h = parse_hist(&std::fs::read_to_string(hist).expect("history"));
            one(pid, t, spec.parse().expect("spec"), &h, Path::new(out))
        }
        ["oom", h, k] => sys::oom::child(h.parse().expect("history"), k.parse().expect("request")),
        ["replay", f] => replay(f),
        ["list"] => {
            for p in plan::ALL {
                for s in &plan::plan(p, false).specs {
                    println!("{p} {}", s.name);
                }
            }
            ExitCode::SUCCESS
        }
        _ => {
            eprintln!("mc check PID | mc replay FILE | mc list");
            ExitCode::from(2)
        }
    }
}
