//! Campaigns: many seeded runs in worker processes, crash and hang detection, minimisation, replay
//! files and evidence.
use crate::choice::{mix, Choices};
use crate::props::{self, Prop};
use crate::sim::{hstr, Sim, Viol};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{Read, Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// payload of the panics that the simulator injects in callbacks
pub struct Injected;

thread_local! {
    static LAST_PANIC: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().downcast_ref::<Injected>().is_some() {
            return;
        }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = (loc, msg));
    }));
}

pub fn last_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// is a panic at this location an error of the harness?
pub fn is_harness(loc: &str) -> bool {
    loc.starts_with("src/")
}

pub enum Outcome {
    Pass,
    Violation(Viol),
    Harness(String),
}

pub fn run_one(p: &Prop, sim: &mut Sim) -> Outcome {
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(sim)));
    match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(v)) => {
            if v.class == "harness" {
                return Outcome::Harness(v.msg);
            }
            Outcome::Violation(v)
        }
        Err(_) => {
            let (loc, msg) = last_panic();
            if is_harness(&loc) {
                Outcome::Harness(format!("harness panicked at {loc}: {msg}"))
            } else {
                let file = loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
                Outcome::Violation(Viol { class: format!("panic@{file}"), msg: format!("panic at {loc}: {msg}") })
            }
        }
    }
}

pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(seed ^ 0x5151_5151).wrapping_add(hstr(prop)) ^ mix(idx.wrapping_mul(0x9e37_79b9_7f4a_7c15)))
}

pub fn big_stack(prop: &str, rest: &[&str], f: fn(&Prop, &[String]) -> i32) -> i32 {
    install_hook();
    let Some(p) = props::all().into_iter().find(|p| p.id == prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let rest: Vec<String> = rest.iter().map(|s| s.to_string()).collect();
    if p.forks {
        // fork and threads do not mix: stay on the main thread
        return f(&p, &rest);
    }
    std::thread::Builder::new().stack_size(p.stack).spawn(move || f(&p, &rest)).unwrap().join().unwrap_or(3)
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn join(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn oneline(s: &str) -> String {
    s.replace(['\n', '\t'], " ")
}

// ---------------------------------------------------------------------------------------------
// worker: worker PROP seed start stride end deadline_ms progress_file determinism_n

pub fn worker(p: &Prop, a: &[String]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, start, stride, end, deadline_ms, det) = (n(0), n(1), n(2), n(3), n(4), n(6));
    let mut prog = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&a[5]).unwrap();
    let t0 = Instant::now();
    let mut runs = 0u64;
    let mut evals = 0u64;
    let mut steps = 0u64;
    let mut time = 0u64;
    let mut faults: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut probes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut shapes: HashSet<u64> = HashSet::new();
    let mut feats: HashSet<u64> = HashSet::new();
    let mut known: BTreeMap<&'static str, String> = BTreeMap::new();
    let mut nontriv = 0u64;
    let mut code = 0;
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::new(stdout.lock());
    let mut idx = start;
    while idx < end {
        if t0.elapsed().as_millis() as u64 > deadline_ms {
            break;
        }
        let _ = prog.seek(std::io::SeekFrom::Start(0));
        let _ = prog.write_all(&(idx + 1).to_le_bytes());
        let sample = idx < 3;
        let mut sim = Sim::new(Choices::seeded(run_seed(seed, p.id, idx)), sample);
        let o = run_one(p, &mut sim);
        runs += 1;
        evals += sim.evals;
        steps += sim.steps;
        time += sim.now;
        for (k, v) in &sim.faults {
            *faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in &sim.probes {
            *probes.entry(k).or_insert(0) += v;
        }
        if sim.nontrivial {
            nontriv += 1;
            if shapes.len() < 1_000_000 {
                shapes.insert(sim.shape);
            }
        }
        if feats.len() < 1_000_000 {
            feats.extend(sim.feats.iter().copied());
        }
        for (k, v) in &sim.known {
            known.entry(k).or_insert_with(|| v.clone());
        }
        if idx < det {
            let _ = writeln!(out, "D {idx} {:x}", sim.hash);
        }
        if sample {
            let l = sim.take_log();
            let _ = writeln!(out, "S {}", oneline(&format!("run {idx}: {}", l.iter().take(14).cloned().collect::<Vec<_>>().join(" | "))));
        }
        match o {
            Outcome::Pass => (),
            Outcome::Violation(v) => {
                let _ = writeln!(out, "V {idx}\t{}\t{}\t{}", v.class, join(&sim.c.rec), oneline(&v.msg));
                code = 1;
                break;
            }
            Outcome::Harness(m) => {
                let _ = writeln!(out, "E {idx}\t{}", oneline(&m));
                code = 2;
                break;
            }
        }
        idx += stride;
    }
    let _ = writeln!(out, "T {runs} {evals} {steps} {time} {nontriv}");
    for (k, v) in faults {
        let _ = writeln!(out, "F {k} {v}");
    }
    for (k, v) in probes {
        let _ = writeln!(out, "P {k} {v}");
    }
    for (k, v) in known {
        let _ = writeln!(out, "K {k}\t{}", oneline(&v));
    }
    for s in shapes {
        let _ = writeln!(out, "H {s:x}");
    }
    for s in feats {
        let _ = writeln!(out, "X {s:x}");
    }
    let _ = writeln!(out, "END");
    let _ = out.flush();
    code
}

// ---------------------------------------------------------------------------------------------
// exec PROP [log]: reads "prelude seed start stride end" and "choices ..." on stdin, runs once

pub fn exec(p: &Prop, a: &[String]) -> i32 {
    let log = a.first().map_or(false, |x| x == "log");
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let mut choices = Vec::new();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("prelude ") {
            let v: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap()).collect();
            let mut i = v[1];
            while i < v[3] {
                let mut sim = Sim::new(Choices::seeded(run_seed(v[0], p.id, i)), i < 3);
                let _ = run_one(p, &mut sim);
                i += v[2];
            }
        } else if let Some(r) = l.strip_prefix("choices ") {
            choices = r.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        }
    }
    let mut sim = Sim::new(Choices::replayed(choices), log);
    let o = run_one(p, &mut sim);
    if log {
        for l in sim.take_log() {
            println!("L {}", oneline(&l));
        }
    }
    println!("H {:x}", sim.hash);
    match o {
        Outcome::Pass => println!("PASS"),
        Outcome::Violation(v) => println!("V {}\t{}\t{}", v.class, join(&sim.c.rec), oneline(&v.msg)),
        Outcome::Harness(m) => println!("E {m}"),
    }
    0
}

struct ExecResult {
    class: Option<String>,
    msg: String,
    rec: Option<Vec<u64>>,
    log: Vec<String>,
    hash: String,
}

#[derive(Clone)]
struct Prelude(u64, u64, u64, u64);

fn spawn_exec(prop: &str, prelude: &Option<Prelude>, choices: &[u64], log: bool, timeout: Duration) -> ExecResult {
    let exe = std::env::current_exe().unwrap();
    let mut cmd = Command::new(exe);
    cmd.arg("exec").arg(prop);
    if log {
        cmd.arg("log");
    }
    let mut ch = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn");
    let mut stdin = ch.stdin.take().unwrap();
    let mut text = String::new();
    if let Some(p) = prelude {
        text += &format!("prelude {} {} {} {}\n", p.0, p.1, p.2, p.3);
    }
    text += &format!("choices {}\n", join(choices));
    let w = std::thread::spawn(move || {
        let _ = stdin.write_all(text.as_bytes());
    });
    let mut stdout = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = stdout.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t0 = Instant::now();
    let mut hung = false;
    let st = loop {
        match ch.try_wait().unwrap() {
            Some(st) => break st,
            None => {
                if t0.elapsed() > timeout {
                    hung = true;
                    let _ = ch.kill();
                    break ch.wait().unwrap();
                }
                std::thread::sleep(Duration::from_micros(500));
            }
        }
    };
    let _ = w.join();
    let s = rd.join().unwrap();
    let mut r = ExecResult { class: None, msg: String::new(), rec: None, log: vec![], hash: String::new() };
    for l in s.lines() {
        if let Some(x) = l.strip_prefix("L ") {
            r.log.push(x.to_string());
        } else if let Some(x) = l.strip_prefix("H ") {
            r.hash = x.to_string();
        } else if let Some(x) = l.strip_prefix("V ") {
            let f: Vec<&str> = x.splitn(3, '\t').collect();
            r.class = Some(f[0].to_string());
            r.rec = Some(f[1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
            r.msg = f.get(2).unwrap_or(&"").to_string();
        }
    }
    if hung {
        r.class = Some("hang".into());
        r.msg = format!("the operation did not return within {timeout:?}");
    } else if r.class.is_none() && !s.contains("PASS") && !s.contains("\nE ") {
        use std::os::unix::process::ExitStatusExt;
        if let Some(sig) = st.signal() {
            r.class = Some(format!("killed-by-signal-{sig}"));
            r.msg = format!("the process was killed by signal {sig} (abort, stack overflow or out-of-memory)");
        }
    }
    r
}

fn same_class(a: &str, b: &str) -> bool {
    let sig = |s: &str| s.starts_with("killed-by-signal");
    a == b || (sig(a) && sig(b))
}

/// minimise the choice list while the same class of violation persists
fn shrink(prop: &str, prelude: &Option<Prelude>, class: &str, start: Vec<u64>, budget: Duration, timeout: Duration) -> (Vec<u64>, u64) {
    let t0 = Instant::now();
    let mut best = start;
    let mut tries = 0u64;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>| -> bool {
        if t0.elapsed() > budget || cand == *best {
            return false;
        }
        tries += 1;
        let r = spawn_exec(prop, prelude, &cand, false, timeout);
        match r.class {
            Some(c) if same_class(&c, class) => {
                // what the run really consumed (never longer than the candidate)
                let rec = r.rec.unwrap_or(cand.clone());
                *best = if rec.len() <= cand.len() { rec } else { cand };
                while best.last() == Some(&0) {
                    best.pop();
                }
                true
            }
            _ => false,
        }
    };
    // cut the tail
    let mut n = best.len() / 2;
    while n > 0 {
        if best.len() > n && attempt(best[..best.len() - n].to_vec(), &mut best) {
            continue;
        }
        n /= 2;
    }
    let mut progress = true;
    while progress && t0.elapsed() < budget {
        progress = false;
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..e);
                if attempt(c, &mut best) {
                    progress = true;
                    continue;
                }
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    if attempt(c, &mut best) {
                        progress = true;
                    }
                }
                i += size;
                if t0.elapsed() > budget {
                    return (best, tries);
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            while i < best.len() && best[i] > 1 {
                let v = best[i];
                let mut c = best.clone();
                c[i] = v / 2;
                if !attempt(c, &mut best) {
                    let mut c = best.clone();
                    c[i] = v - 1;
                    if v > 40 || !attempt(c, &mut best) {
                        break;
                    }
                }
                progress = true;
                if t0.elapsed() > budget {
                    break;
                }
            }
        }
    }
    (best, tries)
}

// ---------------------------------------------------------------------------------------------

struct Found {
    idx: u64,
    class: String,
    msg: String,
    choices: Option<Vec<u64>>,
    prelude: Prelude,
}

fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").map(|s| s.into()).unwrap_or_else(|_| "/verif".into())
}

pub fn check(prop: &str, rest: &[&str]) -> i32 {
    let Some(p) = props::all().into_iter().find(|p| p.id == prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut runs_arg = None;
    let mut i = 0;
    while i + 1 < rest.len() {
        match rest[i] {
            "--tier" => tier = rest[i + 1].into(),
            "--seed" => seed = rest[i + 1].parse().unwrap_or(1),
            "--runs" => runs_arg = rest[i + 1].parse::<u64>().ok(),
            _ => (),
        }
        i += 2;
    }
    let thorough = tier == "thorough";
    println!("dersim: property={prop} tier={tier} seed={seed}");
    let t0 = Instant::now();
    let total = runs_arg.unwrap_or(if thorough { p.thorough } else { p.quick });
    let wall_cap = if thorough { 3000_000 } else { 150_000u64 };
    let nworkers = 8u64.min(total.max(1));
    let evid = verif_dir().join("evidence");
    let work = evid.join(format!(".work-{prop}-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&work);
    let det_n = total.min(160);
    let main_r = campaign(&p, seed, nworkers, total, wall_cap, &work, det_n);
    // determinism: the first runs again, in other processes, with another worker count
    let det_r = if main_r.found.is_none() && main_r.harness.is_none() {
        Some(campaign(&p, seed, 3, det_n, wall_cap, &work, det_n))
    } else {
        None
    };
    let _ = std::fs::remove_dir_all(&work);
    if let Some(h) = &main_r.harness {
        eprintln!("HARNESS ERROR: {h}");
        return 2;
    }
    let mut det_mismatch = 0;
    let mut det_same = 0;
    let mut found = main_r.found;
    if let Some(d) = det_r {
        for (k, v) in &d.det {
            match main_r.det.get(k) {
                Some(w) if w == v => det_same += 1,
                Some(_) => det_mismatch += 1,
                None => (),
            }
        }
        if d.found.is_some() {
            found = d.found;
        }
    }
    for (k, v) in &main_r.known {
        println!("KNOWN-FINDING: property={prop} {k}: {v}");
    }
    let mut violations = 0;
    let mut code = 0;
    if let Some(f) = found {
        if report(&p, seed, &tier, f, &evid) {
            violations = 1;
            code = 1;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(&p, &tier, seed, &main_r.stats, det_same, det_mismatch, wall, violations, &evid, &main_r.known);
    if code == 0 {
        println!(
            "property={prop} held on {} simulated runs ({} evaluations, {} distinct non-trivial runs, {} abstract states, {:.0} s of simulated time) in {wall:.1} s",
            main_r.stats.runs,
            main_r.stats.evals,
            main_r.stats.shapes.len(),
            main_r.stats.feats.len(),
            main_r.stats.time as f64 / 1e6
        );
        if det_mismatch > 0 {
            println!("note: {det_mismatch} of {} re-executed runs gave another trace", det_same + det_mismatch);
        }
    }
    code
}

#[derive(Default)]
struct Stats {
    runs: u64,
    evals: u64,
    steps: u64,
    time: u64,
    nontriv: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    shapes: HashSet<u64>,
    feats: HashSet<u64>,
    samples: Vec<String>,
}

struct Campaign {
    stats: Stats,
    found: Option<Found>,
    harness: Option<String>,
    det: BTreeMap<u64, String>,
    known: BTreeMap<String, String>,
}

fn campaign(p: &Prop, seed: u64, nw: u64, total: u64, wall_cap: u64, work: &std::path::Path, det: u64) -> Campaign {
    let exe = std::env::current_exe().unwrap();
    let t0 = Instant::now();
    struct W {
        ch: std::process::Child,
        rd: Option<std::thread::JoinHandle<String>>,
        prog: std::path::PathBuf,
        last: (u64, Instant),
        done: bool,
        start: u64,
    }
    let mut ws = Vec::new();
    for w in 0..nw {
        let prog = work.join(format!("p{nw}-{w}"));
        let mut ch = Command::new(&exe)
            .args(["worker", p.id])
            .args([seed, w, nw, total, wall_cap].map(|x| x.to_string()))
            .arg(&prog)
            .arg(det.to_string())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn worker");
        let mut so = ch.stdout.take().unwrap();
        let rd = std::thread::spawn(move || {
            let mut s = Vec::new();
            let _ = so.read_to_end(&mut s);
            String::from_utf8_lossy(&s).into_owned()
        });
        ws.push(W { ch, rd: Some(rd), prog, last: (0, Instant::now()), done: false, start: w });
    }
    let mut c = Campaign { stats: Stats::default(), found: None, harness: None, det: BTreeMap::new(), known: BTreeMap::new() };
    let mut stop_at: Option<Instant> = None;
    loop {
        let mut alive = 0;
        for w in ws.iter_mut().filter(|w| !w.done) {
            let read_prog = |w: &W| -> u64 {
                std::fs::read(&w.prog).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(0)
            };
            let mut hang = false;
            let st = match w.ch.try_wait().unwrap() {
                Some(st) => Some(st),
                None => {
                    let cur = read_prog(w);
                    if cur != w.last.0 {
                        w.last = (cur, Instant::now());
                    }
                    if w.last.1.elapsed() > Duration::from_secs(p.hang_s) && cur > 0 {
                        hang = true;
                        let _ = w.ch.kill();
                        Some(w.ch.wait().unwrap())
                    } else if stop_at.map_or(false, |s| Instant::now() > s) {
                        let _ = w.ch.kill();
                        let _ = w.ch.wait();
                        w.done = true;
                        let _ = w.rd.take().unwrap().join();
                        continue;
                    } else {
                        None
                    }
                }
            };
            let Some(st) = st else {
                alive += 1;
                continue;
            };
            w.done = true;
            let s = w.rd.take().unwrap().join().unwrap();
            let complete = s.ends_with("END\n");
            let v = absorb(&mut c, &s);
            let mut f: Option<Found> = v.map(|(idx, class, choices, msg)| Found {
                idx,
                class,
                msg,
                choices: Some(choices),
                prelude: Prelude(seed, w.start, nw, idx),
            });
            if f.is_none() && !complete && c.harness.is_none() {
                use std::os::unix::process::ExitStatusExt;
                let cur = read_prog(w);
                if cur == 0 {
                    c.harness = Some(format!("worker ended without running anything: {st:?}"));
                } else {
                    let idx = cur - 1;
                    let (class, msg) = if hang {
                        ("hang".to_string(), format!("no return within {} s", p.hang_s))
                    } else if let Some(sig) = st.signal() {
                        (format!("killed-by-signal-{sig}"), format!("the process was killed by signal {sig} (abort, stack overflow or out-of-memory)"))
                    } else {
                        ("exit".to_string(), format!("worker ended with {st:?}"))
                    };
                    if class == "exit" {
                        c.harness = Some(msg);
                    } else {
                        f = Some(Found { idx, class, msg, choices: None, prelude: Prelude(seed, w.start, nw, idx) });
                    }
                }
            }
            if let Some(f) = f {
                if c.found.as_ref().map_or(true, |g| f.idx < g.idx) {
                    c.found = Some(f);
                }
                if stop_at.is_none() {
                    stop_at = Some(Instant::now() + Duration::from_millis(1500));
                }
            }
        }
        if alive == 0 {
            break;
        }
        if t0.elapsed().as_millis() as u64 > wall_cap + 120_000 {
            c.harness = Some("campaign does not end".into());
            for w in ws.iter_mut() {
                let _ = w.ch.kill();
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    c
}

fn absorb(c: &mut Campaign, s: &str) -> Option<(u64, String, Vec<u64>, String)> {
    let mut v = None;
    for l in s.lines() {
        let (k, r) = match l.split_once(' ') {
            Some(x) => x,
            None => continue,
        };
        match k {
            "T" => {
                let n: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap()).collect();
                c.stats.runs += n[0];
                c.stats.evals += n[1];
                c.stats.steps += n[2];
                c.stats.time += n[3];
                c.stats.nontriv += n[4];
            }
            "F" | "P" => {
                if let Some((a, b)) = r.rsplit_once(' ') {
                    let m = if k == "F" { &mut c.stats.faults } else { &mut c.stats.probes };
                    *m.entry(a.to_string()).or_insert(0) += b.parse::<u64>().unwrap();
                }
            }
            "H" => {
                c.stats.shapes.insert(u64::from_str_radix(r, 16).unwrap());
            }
            "X" => {
                c.stats.feats.insert(u64::from_str_radix(r, 16).unwrap());
            }
            "S" => c.stats.samples.push(r.to_string()),
            "D" => {
                if let Some((a, b)) = r.split_once(' ') {
                    c.det.insert(a.parse().unwrap(), b.to_string());
                }
            }
            "K" => {
                if let Some((a, b)) = r.split_once('\t') {
                    c.known.entry(a.to_string()).or_insert_with(|| b.to_string());
                }
            }
            "E" => c.harness = Some(r.to_string()),
            "V" => {
                let f: Vec<&str> = r.splitn(4, '\t').collect();
                v = Some((
                    f[0].parse().unwrap(),
                    f[1].to_string(),
                    f[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
                    f[3].to_string(),
                ));
            }
            _ => (),
        }
    }
    v
}

/// choices of a run whose process died: rerun the generator side as far as possible
/// false: the run was cut short by the machine (a stall, or a kill from outside), which neither a fresh
/// process nor one with the same history repeats: nothing the code under test did
fn report(p: &Prop, seed: u64, tier: &str, f: Found, evid: &std::path::Path) -> bool {
    let full = Duration::from_secs(p.hang_s);
    // a process that died left no recorded choices: the seed itself is replayed through a prelude of
    // zero runs, by asking for the seeded run
    let mut choices = f.choices.clone();
    if choices.is_none() {
        choices = recover_choices(p, seed, f.idx);
    }
    let mut prelude = None;
    let mut class = f.class.clone();
    let mut msg = f.msg.clone();
    let mut reproduced = false;
    let mut ch = choices.unwrap_or_default();
    let r = spawn_exec(p.id, &None, &ch, false, full);
    if let Some(c) = r.class {
        reproduced = true;
        class = c;
        msg = r.msg;
    } else {
        // depends on what ran before in the same process: replay with its history
        let pre = Prelude(f.prelude.0, f.prelude.1, f.prelude.2, f.prelude.3);
        let long = Duration::from_secs(if class == "hang" { p.hang_s + 60 } else { 200 });
        let r = spawn_exec(p.id, &Some(pre.clone()), &ch, false, long);
        prelude = Some(pre);
        if let Some(c) = r.class {
            reproduced = true;
            class = c;
            msg = format!("{} (only after the earlier runs of the same process)", r.msg);
            // shorten the history
            let t0 = Instant::now();
            while let Some(Prelude(s, a, st, e)) = prelude.clone() {
                let n = (e - a) / st;
                if n <= 1 || class == "hang" || t0.elapsed() > Duration::from_secs(60) {
                    break;
                }
                let cand = Prelude(s, a + (n / 2).max(1) * st, st, e);
                if spawn_exec(p.id, &Some(cand.clone()), &ch, false, long).class.as_deref() == Some(&class) {
                    prelude = Some(cand);
                } else {
                    break;
                }
            }
        }
    }
    if !reproduced && (class == "hang" || class == "killed-by-signal-9") {
        println!("note: run {} ended with {class} once and not again in two replays: the machine stalled or killed it; no verdict from it", f.idx);
        return false;
    }
    let mut tries = 0;
    if reproduced && prelude.is_none() {
        let to = if class == "hang" { Duration::from_secs(4) } else { full };
        let budget = Duration::from_secs(if class == "hang" { 60 } else { 45 });
        let (b, t) = shrink(p.id, &None, &class, ch.clone(), budget, to);
        tries = t;
        let r = spawn_exec(p.id, &None, &b, false, full);
        if r.class.as_deref().map_or(false, |c| same_class(c, &class)) {
            ch = b;
            msg = r.msg;
        }
    }
    let to = match (class == "hang", prelude.is_some()) {
        (true, false) => full,
        (true, true) => full + Duration::from_secs(60),
        _ => Duration::from_secs(200),
    };
    let r1 = spawn_exec(p.id, &prelude, &ch, true, to);
    let r2 = spawn_exec(p.id, &prelude, &ch, true, to);
    let exact = r1.class == r2.class && r1.hash == r2.hash && r1.log == r2.log;
    let dir = evid.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.json", p.id, seed, f.idx));
    let mut o = String::from("{\n");
    o += &format!(" \"property\": \"{}\",\n \"seed\": {},\n \"run\": {},\n \"tier\": \"{}\",\n", p.id, seed, f.idx, tier);
    o += &format!(" \"class\": \"{}\",\n \"message\": \"{}\",\n", esc(&class), esc(&msg));
    o += &format!(" \"reproduced_in_fresh_process\": {},\n \"two_replays_identical\": {},\n \"minimisation_attempts\": {},\n", reproduced, exact, tries);
    match &prelude {
        Some(x) => o += &format!(" \"prelude\": [{},{},{},{}],\n", x.0, x.1, x.2, x.3),
        None => o += " \"prelude\": null,\n",
    }
    o += &format!(" \"choices\": [{}],\n \"trace\": [\n", join(&ch));
    let log: BTreeSet<usize> = (0..r1.log.len()).collect();
    for i in log {
        o += &format!("  \"{}\"{}\n", esc(&r1.log[i]), if i + 1 < r1.log.len() { "," } else { "" });
    }
    o += " ],\n";
    o += &format!(" \"replay_cmd\": \"bash /verif/check.sh replay {}\"\n}}\n", path.display());
    let _ = std::fs::write(&path, o);
    println!("violation class: {class}");
    println!("violation: {msg}");
    println!("VIOLATION property={} replay={}", p.id, path.display());
    true
}

/// record the choices of a run whose process dies, by running it with the recorder mirrored to a file
fn recover_choices(p: &Prop, seed: u64, idx: u64) -> Option<Vec<u64>> {
    // the choices are a function of the seed: draw them in a process that writes them out as it goes
    let exe = std::env::current_exe().unwrap();
    let out = Command::new(exe)
        .args(["worker", p.id])
        .args([seed, idx, 1, idx + 1, 60_000].map(|x| x.to_string()))
        .arg("/dev/null")
        .arg("0")
        .env("DERSIM_MIRROR", "1")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .ok()?;
    let pid = out.id();
    let hang = p.hang_s;
    let killer = std::thread::spawn(move || {
        let t0 = Instant::now();
        while t0.elapsed() < Duration::from_secs(hang + 5) {
            if !std::path::Path::new(&format!("/proc/{pid}/stat")).exists() {
                return;
            }
            if let Ok(s) = std::fs::read_to_string(format!("/proc/{pid}/stat")) {
                if s.contains(") Z ") {
                    return;
                }
            }
            std::thread::sleep(Duration::from_millis(50));
        }
        let _ = Command::new("kill").args(["-9", &pid.to_string()]).status();
    });
    let o = out.wait_with_output().ok()?;
    let _ = killer.join();
    let s = String::from_utf8_lossy(&o.stderr).into_owned();
    Some(s.split_whitespace().filter_map(|x| x.parse().ok()).collect())
}

pub fn replay(file: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let field = |k: &str| -> Option<String> {
        let a = s.find(&format!("\"{k}\": "))? + k.len() + 4;
        let l = &s[a..];
        let e = l.find('\n')?;
        Some(l[..e].trim_end_matches(',').trim().to_string())
    };
    let nums = |t: String| -> Vec<u64> {
        t.trim_matches(|c| c == '[' || c == ']').split(',').filter_map(|x| x.trim().parse().ok()).collect()
    };
    let prop = field("property").unwrap_or_default().trim_matches('"').to_string();
    let choices = nums(field("choices").unwrap_or_default());
    let pre = field("prelude").map(nums).unwrap_or_default();
    let prelude = if pre.len() == 4 { Some(Prelude(pre[0], pre[1], pre[2], pre[3])) } else { None };
    let r = spawn_exec(&prop, &prelude, &choices, true, Duration::from_secs(200));
    for l in &r.log {
        println!("{l}");
    }
    println!("trace hash {}", r.hash);
    match r.class {
        Some(c) => {
            println!("violation class: {c}\nviolation: {}", r.msg);
            println!("VIOLATION property={prop} replay={file}");
            1
        }
        None => {
            println!("the replay did not violate the property");
            0
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    p: &Prop,
    tier: &str,
    seed: u64,
    st: &Stats,
    det_same: u64,
    det_mismatch: u64,
    wall: f64,
    violations: u64,
    evid: &std::path::Path,
    known: &BTreeMap<String, String>,
) {
    let map = |m: &BTreeMap<String, u64>| -> String {
        m.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect::<Vec<_>>().join(", ")
    };
    let list = |v: &[&str]| v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", ");
    let samples: Vec<String> = st.samples.iter().map(|s| format!("\"{}\"", esc(&s.chars().take(1500).collect::<String>()))).collect();
    let mut o = String::from("{\n");
    o += &format!(" \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n", p.id, tier, seed);
    o += " \"coverage\": {\n";
    o += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", st.evals, st.shapes.len());
    o += &format!("  \"rule\": \"{}\",\n", esc(p.rule));
    o += &format!("  \"samples\": [{}],\n", samples.join(",\n   "));
    o += &format!("  \"simulated_runs\": {},\n  \"runs_with_faults_or_suspensions\": {},\n", st.runs, st.nontriv);
    o += &format!("  \"seeds_per_hour\": {},\n", (st.runs as f64 / wall.max(0.001) * 3600.0) as u64);
    o += &format!("  \"simulated_events\": {},\n  \"simulated_time_s\": {:.3},\n", st.steps, st.time as f64 / 1e6);
    o += &format!("  \"distinct_abstract_states\": {},\n  \"state_measure\": \"{}\",\n", st.feats.len(), esc(p.measure));
    o += &format!("  \"faults_injected\": {{{}}},\n", map(&st.faults));
    o += &format!("  \"rare_conditions_reached\": {{{}}},\n", map(&st.probes));
    o += &format!("  \"determinism\": {{\"runs_executed_again_in_other_processes_with_3_workers\": {}, \"identical_traces\": {}, \"different_traces\": {}}},\n", det_same + det_mismatch, det_same, det_mismatch);
    o += &format!("  \"known_findings\": {{{}}},\n", known.iter().map(|(k, v)| format!("\"{}\": \"{}\"", esc(k), esc(v))).collect::<Vec<_>>().join(", "));
    o += &format!("  \"components_real\": [{}],\n  \"components_stub\": [{}]\n }},\n", list(p.real), list(p.stub));
    o += &format!(" \"assumptions\": [{}],\n", list(p.assumptions));
    o += &format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, violations);
    let _ = std::fs::create_dir_all(evid);
    let _ = std::fs::write(evid.join(format!("{}.json", p.id)), o);
}
