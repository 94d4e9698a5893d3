//! Results do not depend on history or on other users of the library.
//!
//! The worker process never calls the library itself. For every run it forks
//!  - one process per distinct operation, which performs that operation and nothing else, and
//!  - one process in which several tasks perform all of them on several threads. Only one thread runs
//!    at a time; it hands over at caller-supplied parsers, visitors, sinks and allocations, as a drawn
//!    list of decisions says.
//! Every operation must give the same answer in both.
use super::common::*;
use super::r03::{any_kind, script};
use super::r10::{built, uni};
use super::*;
use crate::alloc;
use crate::comb::{self, Cb, Ctx, K};
use crate::gen;
use crate::model::{self, Node};
use crate::ops::{self, Dig};
use crate::readers::*;
use crate::runner::Injected;
use crate::sim::*;
use crate::snap::*;
use crate::vis::{Rec, RecMut};
use crate::{bail, ev};
use cookie_factory::gen_simple;
use der_parser::ber::*;
use der_parser::der::*;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub const PROP: Prop = Prop {
    id: "R13",
    run,
    quick: 40_000,
    thorough: 2_500_000,
    forks: true,
    hang_s: 60,
    rule: "one run = 1-4 tasks performing 2-14 operations (readers, number readers, combinators with scripted or library parsers, accessors, iteration, printing, encoding, visits, use of an object decoded earlier by another thread; \
similar inputs at the same buffer addresses; failing, panicking and repeated ones) on 1-4 threads, of which one runs at a time and hands over inside callbacks, visitors, sinks and allocations at drawn points, or starts another operation \
there; every answer is compared with the answer of the same operation alone in a fresh process; evaluation = one execution of an operation judged; distinct = hash of (operations, hand-over points reached)",
    measure: "(operation kind, operation kind it was suspended for or nested in, where)",
    stub: &["thread scheduler (one thread runs at a time, drawn hand-overs)", "caller's parsers, visitors and sinks", "peer"],
    assumptions: &[
        "sampled, not exhaustive: a clean campaign is evidence, not proof",
        "hand-over points are callbacks, visitors, sink writes, memory allocations and the ends of operations; between two of them an operation runs without interruption",
        "failure of memory allocation is not injected: the language aborts the process",
    ],
    ..BASE
};

#[derive(Clone, Debug)]
enum Kind {
    Read(Rd, u32),
    Num(u8),
    Comb(K, bool, Vec<Cb>),
    Real(K, bool, u32),
    /// encoder, byte at which the sink (or, last, the encoder's scratch buffers) fail, panics
    Encode(u8, usize, bool, bool),
    /// mutable, callback that panics
    Visit(bool, usize),
    Print(bool, bool, usize, bool),
    /// decode and keep for a later operation of the task
    Keep(Rd),
    /// use what Keep (operation of this number) kept
    Use(usize, u32),
}

impl Kind {
    fn code(&self) -> u64 {
        match self {
            Kind::Read(r, _) => 1000 + r.code(),
            Kind::Num(k) => 2000 + *k as u64,
            Kind::Comb(k, d, _) => 3000 + 2 * k.code() + *d as u64,
            Kind::Real(k, d, _) => 4000 + 2 * k.code() + *d as u64,
            Kind::Encode(e, ..) => 5000 + *e as u64,
            Kind::Visit(m, _) => 6000 + *m as u64,
            Kind::Print(..) => 7000,
            Kind::Keep(_) => 8000,
            Kind::Use(_, g) => 9000 + *g as u64,
        }
    }
}

#[derive(Clone)]
struct Op {
    kind: Kind,
    input: Vec<u8>,
    node: Node,
    task: usize,
    repeat: usize,
}

impl Op {
    fn name(&self) -> String {
        let s = match &self.kind {
            Kind::Read(r, _) => format!("{} and follow-up operations", r.name()),
            Kind::Num(k) => format!("number reader {k}"),
            Kind::Comb(k, d, s) => format!("{} with script {s:?}", k.name(*d)),
            Kind::Real(k, d, i) => format!("{} around the library's readers (content as {i})", k.name(*d)),
            k => format!("{k:?}"),
        };
        match &self.kind {
            Kind::Encode(..) | Kind::Visit(..) | Kind::Print(..) => format!("{s} of {}", show_node(&self.node)),
            _ => format!("{s} on {}", hex(&self.input)),
        }
    }
}

// -----------------------------------------------------------------------------------------------
// operations

struct Kept(Option<BerObject<'static>>, String);
unsafe impl Send for Kept {}

#[derive(Default)]
struct Slots(BTreeMap<usize, Kept>);

struct YSink {
    d: Vec<u8>,
    fail: usize,
    panic: bool,
}
thread_local! {
    /// where the scratch buffers of the operation that runs on this thread fail, and whether by a panic
    static SCRATCH: Cell<(usize, bool)> = const { Cell::new((usize::MAX, false)) };
}

/// what another operation that was started inside this one changed is set back when that one ends
struct SetScratch((usize, bool));
impl SetScratch {
    fn new(v: (usize, bool)) -> SetScratch {
        SetScratch(SCRATCH.replace(v))
    }
}
impl Drop for SetScratch {
    fn drop(&mut self) {
        SCRATCH.set(self.0);
    }
}

impl Default for YSink {
    fn default() -> Self {
        let (fail, panic) = SCRATCH.get();
        YSink { d: Vec::new(), fail, panic }
    }
}
impl AsRef<[u8]> for YSink {
    fn as_ref(&self) -> &[u8] {
        &self.d
    }
}
impl std::io::Write for YSink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        comb::yield_point();
        if self.d.len().saturating_add(b.len()) > self.fail {
            if self.panic {
                std::panic::panic_any(Injected);
            }
            return Err(std::io::Error::from(std::io::ErrorKind::Other));
        }
        self.d.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct TSink(String, usize, bool);
impl std::fmt::Write for TSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        comb::yield_point();
        if self.0.len() + s.len() > self.1 {
            if self.2 {
                std::panic::panic_any(Injected);
            }
            return Err(std::fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}

fn short(s: String) -> String {
    if s.len() <= 240 {
        return s;
    }
    let cut = (0..=240).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0);
    format!("{}...#{:x}", &s[..cut], hstr(&s))
}

/// perform the operation; `buf` is the task's receive buffer
fn perform(op: &Op, id: usize, buf: &mut Vec<u8>, slots: &Mutex<Slots>) -> String {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| perform_inner(op, id, buf, slots)));
    match r {
        Ok(s) => short(s),
        Err(e) => {
            if e.downcast_ref::<Injected>().is_some() {
                "unwound by the injected panic".into()
            } else {
                let (loc, msg) = crate::runner::last_panic();
                if crate::runner::is_harness(&loc) {
                    eprintln!("harness panic at {loc}: {msg}");
                    std::process::exit(3);
                }
                format!("panic at {loc}: {msg}")
            }
        }
    }
}

fn digest(o: &BerObject, groups: u32) -> String {
    let mut d = Dig::new();
    let mut budget = 40;
    ops::all(o, groups, &mut d, &mut budget);
    format!("{:x}", d.0)
}

fn perform_inner(op: &Op, id: usize, buf: &mut Vec<u8>, slots: &Mutex<Slots>) -> String {
    buf.clear();
    buf.extend_from_slice(&op.input);
    let b: &[u8] = buf;
    match &op.kind {
        Kind::Read(rd, groups) => {
            let r = rd.call(b);
            let dig = match &r {
                Ok((_, o)) => digest(o, *groups),
                _ => String::new(),
            };
            format!("{:?} {dig}", out(b, r, |o| snap(&o)))
        }
        Kind::Num(k) => match k {
            0 => format!("{:?}", out(b, parse_ber_i32(b), |x| x as i128)),
            1 => format!("{:?}", out(b, parse_ber_i64(b), |x| x as i128)),
            2 => format!("{:?}", out(b, parse_ber_u32(b), |x| x as i128)),
            3 => format!("{:?}", out(b, parse_ber_u64(b), |x| x as i128)),
            4 => format!("{:?}", out(b, parse_der_i32(b), |x| x as i128)),
            5 => format!("{:?}", out(b, parse_der_i64(b), |x| x as i128)),
            6 => format!("{:?}", out(b, parse_der_u32(b), |x| x as i128)),
            _ => format!("{:?}", out(b, parse_der_u64(b), |x| x as i128)),
        },
        Kind::Comb(k, der, script) => {
            let c = Ctx::default();
            let mut f = comb::make(*k, *der, &c);
            comb::yield_point();
            let r = comb::invoke(&mut f, &c, *k, b, script);
            let r2 = comb::invoke(&mut f, &c, *k, b, &script[..script.len() / 2]);
            let calls = format!("{:?}", c.calls.borrow());
            format!("{r:?} {r2:?} {calls}")
        }
        Kind::Real(k, der, inner) => {
            let mut d = String::new();
            let r = comb::real(*k, *der, *inner, b, &mut |o| d = digest(o, ops::ACC | ops::ENCODE | ops::PRINT));
            format!("{r:?} {d}")
        }
        Kind::Encode(e, fail, panic, inner) => {
            let o = build(&op.node);
            let (dest, scratch) = if *inner { (usize::MAX, *fail) } else { (*fail, usize::MAX) };
            let _set = SetScratch::new((scratch, *panic));
            let s = YSink { d: Vec::new(), fail: dest, panic: *panic };
            let r = match e {
                0 => gen_simple(ber_encode_object(&o), s),
                1 => gen_simple(ber_encode_object_raw(&o.header, &o.content), s),
                2 => gen_simple(ber_encode_tagged_explicit(Tag(5), Class::Application, &o), s),
                3 => gen_simple(ber_encode_tagged_implicit(Tag(300), Class::Private, &o), s),
                _ => gen_simple(ber_encode_header(&o.header), s),
            };
            let v = o.to_vec().map(|v| hex(&v)).map_err(|e| e.to_string());
            format!("{:?} {v:?}", r.map(|s| hex(&s.d)).map_err(|e| e.to_string()))
        }
        Kind::Visit(mutable, stop) => {
            let mut tick = |c: usize| {
                comb::yield_point();
                if c == *stop {
                    std::panic::panic_any(Injected);
                }
            };
            if *mutable {
                let arena = crate::vis::Arena::default();
                let st = arena.keep(op.node.clone());
                let mut r = RecMut { evts: vec![], tick: &mut tick, edit_ber: &mut |_, _| None, edit_ty: &mut |_, _| None };
                let o = crate::vis::run_mut(&mut r, build(st), Some(2));
                let s = format!("{:?} {}", r.evts, o.is_ok());
                drop(o);
                s
            } else {
                let o = build(&op.node);
                let mut r = Rec { evts: vec![], tick: &mut tick };
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Visit::run(&mut r, &o)));
                if let Err(e) = &res {
                    if e.downcast_ref::<Injected>().is_none() {
                        std::panic::resume_unwind(res.unwrap_err());
                    }
                }
                format!("{:?} {}", r.evts, res.is_ok())
            }
        }
        Kind::Print(rec, hdrs, fail, panic) => {
            let o = build(&op.node);
            let (indent, inc) = [(0, 2), (1, 3), (0, 0), (2, 1)][op.input.len() % 4];
            let mut p = o.as_pretty(indent, inc);
            if !rec {
                p.unset_flag(PrettyPrinterFlag::Recursive);
            }
            if *hdrs {
                p.set_flag(PrettyPrinterFlag::ShowHeader);
            }
            comb::yield_point();
            let mut t = TSink(String::new(), *fail, *panic);
            let r = write!(t, "{p:?}");
            format!("{r:?} {} {o:?}", t.0)
        }
        Kind::Keep(rd) => {
            // stays in memory: the process is short-lived
            let own: &'static [u8] = Box::leak(op.input.clone().into_boxed_slice());
            let r = rd.call(own);
            let s = format!("{:?}", out_ref(own, &r));
            let k = r.ok().map(|x| x.1);
            let h = alloc::get_hook();
            alloc::set_hook(None);
            slots.lock().unwrap().0.insert(id, Kept(k, s.clone()));
            alloc::set_hook(h);
            s
        }
        Kind::Use(from, groups) => {
            let h = alloc::get_hook();
            alloc::set_hook(None);
            let k = slots.lock().unwrap().0.remove(from);
            alloc::set_hook(h);
            let Some(k) = k else { return "nothing kept".into() };
            let d = k.0.as_ref().map(|o| digest(o, *groups));
            let d2 = k.0.as_ref().map(|o| format!("{:?}", snap(o)));
            let s = format!("{d:?} {d2:?} {}", k.1);
            alloc::set_hook(None);
            slots.lock().unwrap().0.insert(*from, k);
            alloc::set_hook(h);
            s
        }
    }
}

fn out_ref(b: &[u8], r: &der_parser::error::BerResult) -> String {
    match r {
        Ok((rem, o)) => format!("Ok({:?}, {})", snap(o), b.len() - rem.len()),
        Err(e) => format!("{e:?}"),
    }
}

// -----------------------------------------------------------------------------------------------
// processes

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, p: *mut u8, n: usize) -> isize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
}

/// run f in a forked process; its output, or the signal that ended it
fn forked(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, i32> {
    unsafe {
        let mut fds = [0i32; 2];
        assert!(pipe(fds.as_mut_ptr()) == 0, "pipe");
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            close(fds[0]);
            alarm(30);
            let v = f();
            let mut p = 0;
            while p < v.len() {
                let n = write(fds[1], v.as_ptr().add(p), v.len() - p);
                if n <= 0 {
                    _exit(4);
                }
                p += n as usize;
            }
            _exit(0);
        }
        close(fds[1]);
        let mut v = Vec::new();
        let mut b = [0u8; 65536];
        loop {
            let n = read(fds[0], b.as_mut_ptr(), b.len());
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&b[..n as usize]);
        }
        close(fds[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        let sig = st & 0x7f;
        if sig != 0 {
            return Err(sig);
        }
        let code = (st >> 8) & 0xff;
        assert!(code == 0, "forked process ended with {code}");
        Ok(v)
    }
}

// -----------------------------------------------------------------------------------------------
// scheduler

#[derive(Clone, Copy, Debug)]
struct Dec {
    /// hand-over points to pass before this decision takes effect
    gap: u32,
    /// thread to run, or operation to start here
    pick: u32,
    nest: bool,
}

struct St {
    current: usize,
    dec: Vec<Dec>,
    at: usize,
    gap: u32,
    /// progress of the running thread
    beat: u64,
    inside: Vec<Option<usize>>,
    done: Vec<bool>,
    /// next operation of each task, and whether one of its operations is running
    next: Vec<usize>,
    busy: Vec<bool>,
    log: Vec<(u32, String)>,
    trace: Vec<u64>,
    forced: u64,
    switches: u64,
    nested: u64,
}

struct Run {
    ops: Vec<Op>,
    tasks: Vec<Vec<usize>>,
    st: Mutex<St>,
    cv: Condvar,
    slots: Mutex<Slots>,
}

static RUN: std::sync::OnceLock<Run> = std::sync::OnceLock::new();

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    static NEST: Cell<u32> = const { Cell::new(0) };
}

fn point_alloc() {
    point(false)
}
fn point_cb() {
    point(true)
}

/// a hand-over point
fn point(callback: bool) {
    let me = TID.with(|t| t.get());
    if me == usize::MAX {
        return;
    }
    let hook = alloc::get_hook();
    alloc::set_hook(None);
    comb::set_yield(None);
    let run = RUN.get().unwrap();
    let mut st = run.st.lock().unwrap();
    // a thread that was blocked on a lock of the library while another one was let through
    st = wait_turn(run, st, me);
    st.beat += 1;
    let mut nest = None;
    if st.gap > 0 {
        st.gap -= 1;
    } else if st.at < st.dec.len() {
        let d = st.dec[st.at];
        st.at += 1;
        st.gap = st.dec.get(st.at).map_or(0, |d| d.gap);
        if d.nest && callback && NEST.with(|n| n.get()) < 2 {
            nest = Some(d.pick as usize % run.ops.len());
        } else {
            let alive: Vec<usize> = (0..st.done.len()).filter(|t| !st.done[*t]).collect();
            let to = alive[d.pick as usize % alive.len()];
            if to != me {
                let from = st.inside[me].unwrap_or(999) as u64;
                st.trace.push(from << 8 | callback as u64);
                st.switches += 1;
                st.current = to;
                run.cv.notify_all();
                st = wait_turn(run, st, me);
            }
        }
    }
    if let Some(k) = nest {
        let outer = st.inside[me].unwrap_or(999) as u64;
        st.trace.push(outer << 8 | 2);
        st.nested += 1;
        drop(st);
        NEST.with(|n| n.set(n.get() + 1));
        alloc::set_hook(Some(point_alloc));
        comb::set_yield(Some(point_cb));
        let op = &run.ops[k];
        // a use of a kept object is judged only as an operation of its own task
        let r = if let Kind::Use(..) | Kind::Keep(_) = op.kind {
            None
        } else {
            let mut buf = Vec::new();
            Some(perform(op, k, &mut buf, &run.slots))
        };
        alloc::set_hook(None);
        comb::set_yield(None);
        NEST.with(|n| n.set(n.get() - 1));
        if let Some(r) = r {
            run.st.lock().unwrap().log.push((k as u32, r));
        }
    } else {
        drop(st);
    }
    comb::set_yield(Some(point_cb));
    alloc::set_hook(hook);
}

fn wait_turn<'a>(run: &'a Run, mut st: std::sync::MutexGuard<'a, St>, me: usize) -> std::sync::MutexGuard<'a, St> {
    let mut seen = (st.beat, Instant::now());
    while st.current != me {
        let (s, _) = run.cv.wait_timeout(st, Duration::from_millis(100)).unwrap();
        st = s;
        if st.current == me {
            break;
        }
        if st.beat != seen.0 {
            seen = (st.beat, Instant::now());
        } else if seen.1.elapsed() > Duration::from_millis(400) && st.inside[me].is_some() {
            // the running thread waits for something this thread holds
            st.current = me;
            st.forced += 1;
            st.beat += 1;
            run.cv.notify_all();
        }
    }
    st
}

fn thread_main(me: usize) {
    let run = RUN.get().unwrap();
    let mut st = run.st.lock().unwrap();
    loop {
        st = wait_turn(run, st, me);
        st.beat += 1;
        let free: Vec<usize> = (0..run.tasks.len()).filter(|t| !st.busy[*t] && st.next[*t] < run.tasks[*t].len()).collect();
        if free.is_empty() {
            let inside: Vec<usize> = (0..st.done.len()).filter(|t| st.inside[*t].is_some()).collect();
            if let Some(t) = inside.first() {
                st.current = *t;
                run.cv.notify_all();
                continue;
            }
            st.done[me] = true;
            if let Some(t) = (0..st.done.len()).find(|t| !st.done[*t]) {
                st.current = t;
            }
            run.cv.notify_all();
            return;
        }
        let k = if st.at < st.dec.len() { st.dec[st.at].pick as usize } else { 0 };
        let task = free[k % free.len()];
        let i = run.tasks[task][st.next[task]];
        st.busy[task] = true;
        st.inside[me] = Some(i);
        drop(st);
        TID.with(|t| t.set(me));
        let mut buf = TASK_BUF.lock().unwrap().remove(&task).unwrap_or_else(|| Vec::with_capacity(1 << 17));
        let mut res = Vec::new();
        for _ in 0..run.ops[i].repeat {
            comb::set_yield(Some(point_cb));
            alloc::set_hook(Some(point_alloc));
            let r = perform(&run.ops[i], i, &mut buf, &run.slots);
            alloc::set_hook(None);
            comb::set_yield(None);
            if res.last() != Some(&r) {
                res.push(r);
            }
        }
        TID.with(|t| t.set(usize::MAX));
        st = run.st.lock().unwrap();
        st = wait_turn(run, st, me);
        TASK_BUF.lock().unwrap().insert(task, buf);
        for r in res {
            st.log.push((i as u32, r));
        }
        st.busy[task] = false;
        st.next[task] += 1;
        st.inside[me] = None;
        // the end of an operation is a hand-over point too
        if st.gap > 0 {
            st.gap -= 1;
        } else if st.at < st.dec.len() {
            let d = st.dec[st.at];
            st.at += 1;
            st.gap = st.dec.get(st.at).map_or(0, |d| d.gap);
            let alive: Vec<usize> = (0..st.done.len()).filter(|t| !st.done[*t]).collect();
            let to = alive[d.pick as usize % alive.len()];
            if to != me {
                st.switches += 1;
                st.current = to;
                run.cv.notify_all();
            }
        }
    }
}

static TASK_BUF: Mutex<BTreeMap<usize, Vec<u8>>> = Mutex::new(BTreeMap::new());

fn put(v: &mut Vec<u8>, x: u64) {
    v.extend_from_slice(&x.to_le_bytes());
}

/// the process in which everything runs together
fn together(ops: Vec<Op>, tasks: Vec<Vec<usize>>, threads: usize, dec: Vec<Dec>) -> Vec<u8> {
    let gap = dec.first().map_or(0, |d| d.gap);
    let nt = tasks.len();
    let run = Run {
        ops,
        tasks,
        st: Mutex::new(St {
            current: 0,
            dec,
            at: 0,
            gap,
            beat: 0,
            inside: vec![None; threads],
            done: vec![false; threads],
            next: vec![0; nt],
            busy: vec![false; nt],
            log: Vec::new(),
            trace: Vec::new(),
            forced: 0,
            switches: 0,
            nested: 0,
        }),
        cv: Condvar::new(),
        slots: Mutex::new(Slots::default()),
    };
    if RUN.set(run).is_err() {
        unsafe { _exit(5) }
    }
    let hs: Vec<_> = (0..threads)
        .map(|t| std::thread::Builder::new().stack_size(4 << 20).spawn(move || thread_main(t)).unwrap())
        .collect();
    for h in hs {
        if h.join().is_err() {
            unsafe { _exit(6) }
        }
    }
    let st = RUN.get().unwrap().st.lock().unwrap();
    let mut v = Vec::new();
    put(&mut v, st.forced);
    put(&mut v, st.switches);
    put(&mut v, st.nested);
    put(&mut v, st.beat);
    put(&mut v, st.trace.len() as u64);
    for t in &st.trace {
        put(&mut v, *t);
    }
    put(&mut v, st.log.len() as u64);
    for (i, s) in &st.log {
        put(&mut v, *i as u64);
        put(&mut v, s.len() as u64);
        v.extend_from_slice(s.as_bytes());
    }
    v
}

/// the operation alone
fn alone(ops: &[Op], i: usize) -> Vec<u8> {
    let slots = Mutex::new(Slots::default());
    let mut buf = Vec::new();
    if let Kind::Use(k, _) = &ops[i].kind {
        perform(&ops[*k], *k, &mut buf, &slots);
    }
    perform(&ops[i], i, &mut buf, &slots).into_bytes()
}

// -----------------------------------------------------------------------------------------------

fn draw_kind(sim: &mut Sim, b: &[u8], keeps: &[usize]) -> Kind {
    let der = sim.c.chance(1, 2);
    match sim.c.weighted(&[8, 1, 6, 3, 3, 2, 2, 2, 2]) {
        0 => {
            let rd = pick_reader(sim, b, der);
            let g = *sim.c.pick(&[ops::ACC, ops::ALL, ops::ITER | ops::CLONE, ops::PRINT | ops::ENCODE]);
            Kind::Read(rd, g)
        }
        1 => Kind::Num(sim.c.usize(8) as u8),
        2 => {
            let k = any_kind(sim, peek_tag(b));
            Kind::Comb(k, der, script(sim, true))
        }
        3 => {
            let k = any_kind(sim, peek_tag(b));
            let inner = *sim.c.pick(&gen::LEAF_TAGS);
            Kind::Real(k, der, inner)
        }
        4 => Kind::Encode(sim.c.usize(5) as u8, if sim.c.chance(1, 2) { usize::MAX } else { sim.c.small(60) }, sim.c.chance(1, 3), sim.c.chance(1, 3)),
        5 => Kind::Visit(sim.c.chance(1, 2), if sim.c.chance(1, 2) { usize::MAX } else { 1 + sim.c.small(20) }),
        6 => Kind::Print(sim.c.chance(1, 2), sim.c.chance(1, 2), if sim.c.chance(1, 2) { usize::MAX } else { sim.c.small(200) }, sim.c.chance(1, 3)),
        7 => Kind::Keep(pick_reader(sim, b, der)),
        _ => match keeps.last() {
            Some(k) => Kind::Use(*k, *sim.c.pick(&[ops::ACC, ops::ALL, ops::PRINT, ops::ENCODE])),
            None => Kind::Read(Rd::Gen(der), ops::ACC),
        },
    }
}

/// a reader with a limit of its own (or the default one)
fn limited_reader(sim: &mut Sim, b: &[u8], der: bool) -> Rd {
    let l = *sim.c.pick(&[0usize, 1, 2, 3, 5, 10, 49, 50, 51, 60, 200]);
    match sim.c.usize(8) {
        0 => Rd::Rec(der, l),
        1 => Rd::AnyR(l),
        2 => Rd::AnyTagR(peek_tag(b), l),
        3 => Rd::HdrContent(der, l),
        4 => Rd::ContentFn(der, l),
        5 => Rd::ContentFn2(der, l),
        6 => Rd::AnyTry,
        _ => Rd::Gen(der),
    }
}

fn base_input(sim: &mut Sim, limits: bool) -> Vec<u8> {
    match sim.c.weighted(if limits { &[2, 7, 0] } else { &[6, 2, 1] }) {
        0 => {
            let mut cfg = cfg_any(sim);
            cfg.big = sim.c.chance(1, 10);
            let mut g = gen::element(sim, &cfg, 0);
            if sim.c.chance(1, 5) {
                gen::byzantine(sim, &mut g);
            }
            g.bytes()
        }
        1 => {
            // nesting around the default limit
            let n = *sim.c.pick(&[10usize, 40, 48, 49, 50, 51, 60, 2, 20, 30]);
            let indef = sim.c.chance(1, 3);
            let mut v = vec![2, 1, 7];
            for _ in 0..n {
                let mut w = vec![0x30];
                if indef {
                    w.push(0x80);
                } else {
                    model::enc_len(&mut w, v.len());
                }
                w.extend_from_slice(&v);
                if indef {
                    w.extend_from_slice(&[0, 0]);
                }
                v = w;
            }
            v
        }
        _ => gen::hostile(sim, 400),
    }
}

fn run(sim: &mut Sim) -> R {
    let nb = 1 + sim.c.usize(3);
    // callers that use different limits on deep input, one after the other
    let limits = sim.c.chance(1, 6);
    if limits {
        sim.fault("mixed-limits");
    }
    let mut pool: Vec<Vec<u8>> = (0..nb).map(|_| base_input(sim, limits)).collect();
    let ntasks = 1 + sim.c.usize(4);
    let threads = 1 + sim.c.usize(4);
    let nops = 2 + sim.c.usize(13);
    let mut all: Vec<Op> = Vec::new();
    let mut tasks: Vec<Vec<usize>> = vec![vec![]; ntasks];
    let mut keeps: Vec<Vec<usize>> = vec![vec![]; ntasks];
    for i in 0..nops {
        let p = sim.c.usize(pool.len());
        let mut b = pool[p].clone();
        if sim.c.chance(1, 3) && !b.is_empty() {
            if sim.c.chance(1, 2) {
                // same length, other content
                let at = sim.c.usize(b.len());
                b[at] = sim.c.byte();
                sim.fault("similar-input");
            } else {
                corrupt(sim, &mut b, 1);
            }
            if pool.len() < 6 {
                pool.push(b.clone());
            }
        }
        let task = sim.c.usize(ntasks);
        let mut kind = if i > 0 && sim.c.chance(1, 6) {
            // the same operation as before, on another input
            let j = sim.c.usize(all.len());
            match &all[j].kind {
                Kind::Use(..) | Kind::Keep(_) => Kind::Read(Rd::Gen(false), ops::ACC),
                k => k.clone(),
            }
        } else {
            match draw_kind(sim, &b, &keeps[task]) {
                Kind::Read(rd, g) if limits => Kind::Read(limited_reader(sim, &b, rd.der()), g),
                Kind::Num(_) | Kind::Encode(..) if limits => {
                    let der = sim.c.chance(1, 2);
                    Kind::Read(limited_reader(sim, &b, der), 0)
                }
                k => k,
            }
        };
        if let Kind::Keep(_) = kind {
            keeps[task].push(i);
        }
        let node = match kind {
            Kind::Encode(..) | Kind::Visit(..) | Kind::Print(..) => {
                let n = built(sim, &[]);
                let mut n = if model::count(&n) > 60 { Node { hdr: n.hdr, val: model::Val::Null } } else { n };
                if sim.c.chance(1, 8) {
                    // deep: users of the library nested in each other add up
                    for _ in 0..*sim.c.pick(&[10usize, 30, 45, 60]) {
                        n = Node { hdr: uni(model::tags::SEQ, true), val: model::Val::Seq(vec![n]) };
                    }
                }
                n
            }
            _ => Node { hdr: model::Hdr { class: 0, cons: false, tag: 5, len: model::Len::Def(0) }, val: model::Val::Null },
        };
        let repeat = if b.len() < 600 && sim.c.chance(1, 12) {
            sim.fault("repeated-operation");
            match sim.c.weighted(&[300, 60, 1]) {
                1 if b.len() < 100 => 250 + sim.c.usize(1000),
                // more often than 16 bits count
                2 if b.len() < 50 && matches!(kind, Kind::Read(..) | Kind::Num(_) | Kind::Real(..)) => {
                    sim.fault("operation-repeated-65600-times");
                    if let Kind::Read(_, g) = &mut kind {
                        *g = 0;
                    }
                    65_600
                }
                _ => 2 + sim.c.usize(120),
            }
        } else {
            1
        };
        all.push(Op { kind, input: b, node, task, repeat });
        tasks[task].push(i);
    }
    let nd = if threads == 1 && sim.c.chance(1, 2) { 0 } else { sim.c.usize(60) };
    let wide = *sim.c.pick(&[30usize, 4, 300]);
    let dec: Vec<Dec> = (0..nd)
        .map(|_| Dec { gap: sim.c.small(wide) as u32, pick: sim.c.usize(12) as u32, nest: sim.c.chance(1, 4) })
        .collect();
    // alone
    let mut want: Vec<String> = Vec::new();
    for i in 0..all.len() {
        match forked(|| alone(&all, i)) {
            Ok(v) => want.push(String::from_utf8_lossy(&v).into_owned()),
            // dies alone: judged by R04
            Err(_) => return Ok(()),
        }
    }
    for (i, o) in all.iter().enumerate() {
        ev!(sim, "operation {i} (task {}, {} times): {} -> {}", o.task, o.repeat, o.name(), want[i]);
    }
    ev!(sim, "{threads} threads, decisions {dec:?}");
    let got = forked(|| together(all.clone(), tasks.clone(), threads, dec.clone()));
    let v = match got {
        Ok(v) => v,
        Err(14) => bail!("deadlock", "the tasks do not finish: operations {}", list(&all)),
        Err(s) => bail!("killed", "the process with all tasks was killed by signal {s}: operations {}", list(&all)),
    };
    let mut p = 0;
    let mut num = || {
        let x = u64::from_le_bytes(v[p..p + 8].try_into().unwrap());
        p += 8;
        x
    };
    let (forced, switches, nested, beat) = (num(), num(), num(), num());
    let nt = num();
    let trace: Vec<u64> = (0..nt).map(|_| num()).collect();
    let nl = num() as usize;
    let mut log = Vec::new();
    let mut q = p;
    for _ in 0..nl {
        let i = u64::from_le_bytes(v[q..q + 8].try_into().unwrap()) as usize;
        let n = u64::from_le_bytes(v[q + 8..q + 16].try_into().unwrap()) as usize;
        log.push((i, String::from_utf8_lossy(&v[q + 16..q + 16 + n]).into_owned()));
        q += 16 + n;
    }
    sim.steps += beat;
    sim.now += beat;
    for _ in 0..switches {
        sim.fault("suspended-inside-operation");
    }
    for _ in 0..nested {
        sim.fault("operation-nested-in-callback");
    }
    if forced > 0 {
        sim.probe("library-lock-held-while-suspended");
    } else {
        sim.note(switches);
    }
    for t in &trace {
        let i = (t >> 8) as usize;
        let k = all.get(i).map_or(0, |o| o.kind.code());
        sim.feat(&[1300, k, t & 0xff]);
    }
    for o in &all {
        sim.feat(&[1301, o.kind.code(), (o.repeat > 1) as u64]);
    }
    for (i, r) in &log {
        sim.eval();
        if forced == 0 {
            sim.note(*i as u64);
        }
        sim.note(hstr(r));
        if *r != want[*i] {
            bail!(
                "depends-on-history",
                "operation {i} ({}): alone: {}; among {} operations on {threads} threads: {r}",
                all[*i].name(),
                want[*i],
                all.len()
            );
        }
    }
    for i in 0..all.len() {
        if !log.iter().any(|x| x.0 == i) {
            bail!("lost-operation", "operation {i} ({}) never finished", all[i].name());
        }
    }
    Ok(())
}

fn list(all: &[Op]) -> String {
    let s = all.iter().map(|o| o.name()).collect::<Vec<_>>().join("; ");
    s.chars().take(1500).collect()
}
