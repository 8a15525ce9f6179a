//! scarlet-pbt run <property> | replay <file> | list
//!
//! `run` supervises a `worker` process: a case in which the library crashes the
//! process (stack overflow, abort) or does not return is found by the slots that
//! both processes share, confirmed alone in a `one` process, shrunk with more of
//! them and reported like any other violation.
mod engine;
mod gen;
mod laws;
mod quad;

use engine::*;
use std::path::{Path, PathBuf};
use std::io::Write as _;
use std::process::{exit, Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

fn home() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_HOME").unwrap_or_else(|_| "/verif".into()))
}

fn fail(msg: &str) -> ! {
    eprintln!("ERROR: {msg}");
    exit(2)
}

fn find(id: &str) -> Property {
    laws::all()
        .into_iter()
        .map(|f| f())
        .find(|p| p.id == id)
        .unwrap_or_else(|| fail(&format!("unknown property {id}")))
}

/// ids of the findings listed for the property
fn listed(id: &str) -> Vec<String> {
    let t = std::fs::read_to_string(home().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let tag = format!("property={id} ");
    t.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| l.strip_prefix(&tag))
        .filter_map(|l| l.split_whitespace().next())
        .map(|s| s.to_string())
        .collect()
}

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for f in laws::all() {
                let p = f();
                println!("{}: {}", p.id, p.laws.iter().map(|l| l.name).collect::<Vec<_>>().join(", "));
            }
        }
        Some("run") => supervise(&args),
        Some("worker") => run_cmd(&args),
        Some("one") => one_cmd(&args),
        Some("replay") => replay_cmd(Path::new(args.get(2).map(|s| s.as_str()).unwrap_or_else(|| fail("no file")))),
        _ => fail("usage: scarlet-pbt run <property> [law] | replay <file> | list"),
    }
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i128>().ok()).unwrap_or(1) as u64
}

/// How one case ended in a process of its own.
enum End {
    Held,
    Failed(String),
    Harness(String),
}
struct One {
    end: End,
    choices: Vec<u64>,
    notes: Vec<String>,
}

/// `what`: law number, `case`: index or choices.
fn one(id: &str, what: u64, case: Result<u64, &[u64]>, limit: Duration) -> One {
    let stream = home().join("out").join(format!("{id}.{}.stream", std::process::id()));
    let input = home().join("out").join(format!("{id}.{}.choices", std::process::id()));
    let mut c = Command::new(std::env::current_exe().unwrap_or_else(|e| fail(&e.to_string())));
    c.arg("one").arg(id).arg(what.to_string());
    match case {
        Ok(i) => c.arg(i.to_string()),
        Err(ch) => {
            let t: Vec<String> = ch.iter().map(|x| x.to_string()).collect();
            let _ = std::fs::write(&input, t.join(","));
            c.arg("-").arg(&input)
        }
    };
    let _ = std::fs::write(&stream, "");
    c.env("VERIF_STREAM", &stream).stdout(Stdio::null()).stderr(Stdio::null());
    let t0 = Instant::now();
    let mut child = c.spawn().unwrap_or_else(|e| fail(&e.to_string()));
    let status = loop {
        match child.try_wait() {
            Ok(Some(st)) => break Some(st),
            Ok(None) if t0.elapsed() > limit => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 50 { 1 } else { 20 })),
            Err(e) => fail(&e.to_string()),
        }
    };
    let text = std::fs::read_to_string(&stream).unwrap_or_default();
    let _ = std::fs::remove_file(&stream);
    let _ = std::fs::remove_file(&input);
    let pick = |k: &str| text.lines().filter_map(|l| l.strip_prefix(k)).map(|l| l.to_string()).collect::<Vec<_>>();
    let msg = pick("m ").join("; ");
    let end = match status.map(|s| s.code()) {
        None => End::Failed(format!("the library does not return within {} s", limit.as_secs())),
        Some(None) => End::Failed(format!("the library crashed the process ({})", status.unwrap())),
        Some(Some(0)) => End::Held,
        Some(Some(1)) => End::Failed(msg),
        Some(Some(k)) => End::Harness(format!("exit {k}: {msg}")),
    };
    One { end, choices: pick("c ").iter().filter_map(|x| x.parse().ok()).collect(), notes: pick("n ") }
}

fn one_cmd(args: &[String]) {
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let p = find(arg(2));
    let what: u64 = arg(3).parse().unwrap_or(0);
    let mut out = std::env::var("VERIF_STREAM").ok().and_then(|f| std::fs::File::options().append(true).open(f).ok());
    let mut say = |m: &str| {
        if let Some(f) = &mut out {
            let _ = writeln!(f, "m {}", m.replace('\n', " "));
        }
    };
    let stream = std::env::var("VERIF_STREAM").ok().and_then(|f| std::fs::File::options().append(true).open(f).ok());
    if what >= SWEEP {
        let sw = &p.sweeps[(what - SWEEP) as usize];
        let a: u64 = arg(4).parse().unwrap_or(0);
        let r = std::panic::catch_unwind(|| (sw.f)(a, (a + (sw.total / 4096).max(1)).min(sw.total)));
        match r {
            Ok(Ok(_)) => exit(0),
            Ok(Err(m)) => say(&m),
            Err(_) => say("the library panicked"),
        }
        exit(1);
    }
    let law = &p.laws[what as usize];
    let given: Vec<u64>;
    let mut s = if arg(4) == "-" {
        given = std::fs::read_to_string(arg(5)).unwrap_or_default().split(',').filter_map(|x| x.trim().parse().ok()).collect();
        Src::replay(&given)
    } else {
        Src::random(case_state(seed(), p.id, law.name, arg(4).parse().unwrap_or(0)))
    }
    .recording();
    s.describe = true;
    s.stream = stream;
    let r = run_law(law.f, &mut s);
    if let Some(e) = harness_error() {
        say(&e);
        exit(2);
    }
    match r {
        Ok(_) => exit(0),
        Err(m) => {
            say(&m);
            exit(1)
        }
    }
}

const STALL: Duration = Duration::from_secs(20);

fn supervise(args: &[String]) {
    let id = args.get(2).map(|s| s.as_str()).unwrap_or_else(|| fail("no property"));
    let p = find(id);
    let _ = std::fs::create_dir_all(home().join("out"));
    let path = home().join("out").join(format!("{id}.{}.progress", std::process::id()));
    map_progress(&path).unwrap_or_else(|e| fail(&e));
    let mut c = Command::new(std::env::current_exe().unwrap_or_else(|e| fail(&e.to_string())));
    c.arg("worker").args(&args[2..]).env("VERIF_PROGRESS", &path);
    let mut child = c.spawn().unwrap_or_else(|e| fail(&e.to_string()));
    let busy = || -> Vec<(u64, u64, u64)> {
        (0..SLOTS)
            .map(progress)
            .map(|s| (s.what.load(Relaxed), s.case.load(Relaxed), s.ticks.load(Relaxed)))
            .filter(|s| s.0 != 0)
            .collect()
    };
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); SLOTS];
    let suspects: Vec<(u64, u64, u64)> = loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                if let Some(code) = st.code() {
                    let _ = std::fs::remove_file(&path);
                    exit(code);
                }
                break busy();
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(10)),
            Err(e) => fail(&e.to_string()),
        }
        let mut stalled = Vec::new();
        for i in 0..SLOTS {
            let s = progress(i);
            let t = s.ticks.load(Relaxed);
            if t != last[i].0 || s.what.load(Relaxed) == 0 {
                last[i] = (t, Instant::now());
            } else if last[i].1.elapsed() > STALL {
                stalled.push((s.what.load(Relaxed), s.case.load(Relaxed), t));
                last[i].1 = Instant::now();
            }
        }
        // a busy machine can stall a thread: only a case that stalls alone counts
        if stalled.iter().any(|&(w, k, _)| !matches!(one(id, w - 1, Ok(k), STALL).end, End::Held)) {
            let _ = child.kill();
            let _ = child.wait();
            break stalled;
        }
    };
    let _ = std::fs::remove_file(&path);
    for (w, k, _) in suspects {
        let what = w - 1;
        let o = one(id, what, Ok(k), STALL);
        let msg = match &o.end {
            End::Held => continue,
            End::Harness(m) => fail(m),
            End::Failed(m) => m.clone(),
        };
        let t0 = Instant::now();
        let name = if what >= SWEEP { p.sweeps[(what - SWEEP) as usize].name } else { p.laws[what as usize].name };
        let (choices, msg, evals) = if what >= SWEEP {
            (Vec::new(), msg, 0)
        } else {
            shrink(
                &mut |c| {
                    if t0.elapsed() > Duration::from_secs(60) {
                        return None;
                    }
                    let o = one(id, what, Err(c), Duration::from_secs(2));
                    match o.end {
                        End::Failed(m) => Some((o.choices, m)),
                        _ => None,
                    }
                },
                o.choices.clone(),
                msg,
                4_000,
            )
        };
        let last = if what >= SWEEP { o } else { one(id, what, Err(&choices), STALL) };
        let (notes, msg) = match last.end {
            End::Failed(m) => (last.notes, m),
            _ => (last.notes, msg),
        };
        let path = write_replay(&p, name, seed(), k, &choices, &notes, &msg);
        eprintln!("law: {name}\ninput: {}\n{msg}\n(shrunk with {evals} evaluations)", notes.join("; "));
        println!("VIOLATION property={} replay={}", p.id, path.display());
        exit(1);
    }
    fail("the worker died and no case reproduces it");
}

fn run_cmd(args: &[String]) {
    let id = args.get(2).map(|s| s.as_str()).unwrap_or_else(|| fail("no property"));
    let only = args.get(3).map(|s| s.as_str());
    let p = find(id);
    if let Ok(f) = std::env::var("VERIF_PROGRESS") {
        open_progress(Path::new(&f)).unwrap_or_else(|e| fail(&e));
    }
    let seed = seed();
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let scale: f64 = std::env::var("VERIF_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 250.0 } else { 5.0 });
    let threads = std::env::var("VERIF_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get()));
    let known = listed(id);
    for f in &p.findings {
        if (f.witness)() {
            if known.iter().any(|k| k == f.id) {
                println!("KNOWN-FINDING: property={} {}: {}", p.id, f.id, f.what);
            } else {
                let path = write_replay(&p, &format!("finding:{}", f.id), seed, 0, &[], &[f.what.to_string()], f.what);
                println!("VIOLATION property={} replay={}", p.id, path.display());
                exit(1);
            }
        }
    }
    let r = run(&p, seed, thorough, scale, threads, only);
    if let Some(e) = &r.harness_error {
        fail(e);
    }
    let mut failure = r.failure.is_some();
    let mut replay = None;
    if let Some(o) = &r.failure {
        let path = write_replay(&p, o.law, seed, o.index, &o.choices, &o.notes, &o.msg);
        eprintln!("law: {}\ninput: {}\n{}\n(shrunk with {} evaluations)", o.law, o.notes.join("; "), o.msg, o.evals);
        replay = Some(path);
    }
    // a case that matches a finding which is not listed is a violation
    for (law, c) in &r.counts {
        for k in c.known.keys() {
            if !known.iter().any(|x| x == k) && replay.is_none() {
                failure = true;
                replay = Some(write_replay(&p, law, seed, 0, &[], &[format!("unlisted finding {k}")], k));
            }
        }
    }
    for (law, c) in &r.counts {
        eprintln!("{id} {law}: {} cases, {} non-trivial, {} ambiguous, known {:?}", c.evals, c.nontrivial, c.ambiguous, c.known);
        if c.evals >= 10_000 && c.nontrivial * 20 < c.evals && !failure && !law.starts_with("constants") && c.known.is_empty() {
            eprintln!("warning: {law} is mostly trivial");
        }
    }
    for (n, e, t) in &r.sweeps {
        eprintln!("{id} sweep {n}: {e} evaluations, {t} non-trivial");
    }
    let ev = evidence(&p, &r, seed, thorough, r.wall_s);
    let dir = home().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if only.is_none() {
        if let Err(e) = std::fs::write(dir.join(format!("{id}.json")), ev) {
            fail(&format!("cannot write the evidence: {e}"));
        }
    }
    eprintln!("{id}: {:.1} s", r.wall_s);
    if failure {
        println!("VIOLATION property={} replay={}", p.id, replay.unwrap().display());
        exit(1);
    }
    println!("OK property={}", p.id);
}

fn write_replay(p: &Property, law: &str, seed: u64, idx: u64, choices: &[u64], notes: &[String], msg: &str) -> PathBuf {
    let dir = home().join("out");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.replay", p.id));
    let c: Vec<String> = choices.iter().map(|x| x.to_string()).collect();
    let t = format!(
        "property: {}\nlaw: {}\nseed: {}\ncase: {}\nchoices: {}\ninput: {}\nmessage: {}\nreplay with: bash /verif/check.sh replay <this file>\n",
        p.id,
        law,
        seed,
        idx,
        c.join(","),
        notes.join("; "),
        msg.replace('\n', " ")
    );
    if let Err(e) = std::fs::write(&path, t) {
        fail(&format!("cannot write the replay file: {e}"));
    }
    path
}

fn replay_cmd(file: &Path) {
    let t = std::fs::read_to_string(file).unwrap_or_else(|e| fail(&format!("{e}")));
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let p = find(&get("property:"));
    let law = get("law:");
    if let Some(f) = law.strip_prefix("finding:") {
        let f = p.findings.iter().find(|x| x.id == f).unwrap_or_else(|| fail("unknown finding"));
        if (f.witness)() {
            println!("VIOLATION property={} replay={}", p.id, file.display());
            exit(1);
        }
        println!("OK property={}", p.id);
        return;
    }
    if let Some(sw) = p.sweeps.iter().find(|s| s.name == law) {
        let a: u64 = get("case:").parse().unwrap_or(0);
        let chunk = (sw.total / 4096).max(1);
        match (sw.f)(a, (a + chunk).min(sw.total)) {
            Err(m) => {
                eprintln!("{m}");
                println!("VIOLATION property={} replay={}", p.id, file.display());
                exit(1);
            }
            Ok(_) => println!("OK property={}", p.id),
        }
        return;
    }
    let what = p.laws.iter().position(|l| l.name == law).unwrap_or_else(|| fail("unknown law"));
    let choices: Vec<u64> = get("choices:").split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let o = one(p.id, what as u64, Err(&choices), STALL);
    eprintln!("input: {}", o.notes.join("; "));
    match o.end {
        End::Held => println!("OK property={}", p.id),
        End::Harness(m) => fail(&m),
        End::Failed(m) => {
            eprintln!("{m}");
            println!("VIOLATION property={} replay={}", p.id, file.display());
            exit(1);
        }
    }
}
