//! The simulator: one run = one `Sim`. Virtual clock, event queue, transport with faults, counters.
use crate::choice::{mix, Choices};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}

pub type R<T = ()> = Result<T, Viol>;

pub fn viol<T>(class: &str, msg: String) -> R<T> {
    Err(Viol { class: class.to_string(), msg })
}

#[macro_export]
macro_rules! bail {
    ($class:expr, $($a:tt)*) => { return Err($crate::sim::Viol { class: ($class).to_string(), msg: format!($($a)*) }) };
}

#[macro_export]
macro_rules! ev {
    ($sim:expr, $($a:tt)*) => { if $sim.logging() { let s = format!($($a)*); $sim.push_log(s); } };
}

pub struct Sim {
    pub c: Choices,
    pub now: u64,
    pub steps: u64,
    pub hash: u64,
    /// hash of the run abstracted from concrete payload bytes
    pub shape: u64,
    pub nontrivial: bool,
    pub evals: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub feats: Vec<u64>,
    pub known: BTreeMap<&'static str, String>,
    log: Option<Vec<String>>,
}

impl Sim {
    pub fn new(c: Choices, log: bool) -> Sim {
        Sim {
            c,
            now: 0,
            steps: 0,
            hash: 0xcbf2_9ce4_8422_2325,
            shape: 0,
            nontrivial: false,
            evals: 0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            feats: Vec::new(),
            known: BTreeMap::new(),
            log: if log { Some(Vec::new()) } else { None },
        }
    }
    pub fn logging(&self) -> bool {
        self.log.is_some()
    }
    pub fn push_log(&mut self, s: String) {
        let t = self.now;
        if let Some(l) = &mut self.log {
            if l.len() < 4000 {
                l.push(format!("t={t}us {s}"));
            }
        }
    }
    pub fn take_log(&mut self) -> Vec<String> {
        self.log.take().unwrap_or_default()
    }
    /// event of the trace: goes into the trace hash (determinism check)
    pub fn note(&mut self, v: u64) {
        self.hash = mix(self.hash ^ v);
    }
    pub fn note_bytes(&mut self, b: &[u8]) {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for x in b {
            h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.note(h ^ b.len() as u64);
    }
    pub fn note_str(&mut self, s: &str) {
        self.note_bytes(s.as_bytes())
    }
    /// abstract state reached (distinct ones are counted over the whole check)
    pub fn feat(&mut self, parts: &[u64]) {
        let mut h = 0x1234_5678u64;
        for p in parts {
            h = mix(h ^ *p);
        }
        self.shape = mix(self.shape ^ h);
        self.feats.push(h);
    }
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_insert(0) += 1;
        self.nontrivial = true;
        self.note_str(k);
    }
    /// is this finding listed in the committed known-findings file?
    pub fn listed(&self, prop: &str, id: &str) -> bool {
        static FILE: std::sync::OnceLock<String> = std::sync::OnceLock::new();
        let f = FILE.get_or_init(|| {
            let d = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
            std::fs::read_to_string(std::path::Path::new(&d).join("KNOWN_FINDINGS.txt")).unwrap_or_default()
        });
        let key = format!("known: property={prop} {id}:");
        f.lines().any(|l| l.starts_with(&key))
    }
    pub fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_insert(0) += 1;
    }
    pub fn eval(&mut self) {
        self.evals += 1;
    }
}

pub fn hstr(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in s.bytes() {
        h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// size class used in abstract states
pub fn bucket(n: usize) -> u64 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3..=4 => 3,
        5..=8 => 4,
        9..=16 => 5,
        17..=64 => 6,
        65..=127 => 7,
        128..=255 => 8,
        256..=4095 => 9,
        4096..=65535 => 10,
        _ => 11,
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for (i, x) in b.iter().enumerate() {
        if i == 160 && b.len() > 200 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{x:02x}"));
    }
    s
}

// ---------------------------------------------------------------------------------------------
// transport

pub enum Act {
    /// n bytes of the buffer were taken (n > 0); the handler is called again
    Consumed(usize),
    Wait,
    Close,
}

pub struct Arrival<'a> {
    pub conn: usize,
    /// received and not yet consumed
    pub buf: &'a [u8],
    /// stream offset of buf[0]
    pub off: usize,
    /// number of stream bytes that were available at the previous call
    pub prev: usize,
    /// no more data will ever arrive
    pub eof: bool,
}

enum Ev {
    Seg { conn: usize, epoch: u32, off: usize, len: usize, lost: u32 },
    Crash { conn: usize },
    Spurious { conn: usize, epoch: u32 },
}

struct Conn {
    data: Vec<u8>,
    consumed: usize,
    have: Vec<(usize, usize)>,
    avail: usize,
    buf: Vec<u8>,
    epoch: u32,
    closed: bool,
    prev: usize,
}

pub const F_TINY: u32 = 1;
pub const F_JITTER: u32 = 2;
pub const F_LOSS: u32 = 4;
pub const F_DUP: u32 = 8;
pub const F_CRASH: u32 = 16;
pub const F_STALL: u32 = 32;
pub const F_RESET: u32 = 64;
pub const F_SPUR: u32 = 128;

/// draw the set of transport faults enabled in this run
pub fn swarm(sim: &mut Sim) -> u32 {
    let mut f = 0;
    if sim.c.chance(7, 8) {
        f |= F_TINY;
    }
    for (bit, num) in [(F_JITTER, 3), (F_LOSS, 2), (F_DUP, 2), (F_CRASH, 2), (F_STALL, 2), (F_RESET, 1), (F_SPUR, 2)] {
        if sim.c.chance(num, 8) {
            f |= bit;
        }
    }
    f
}

struct Net {
    q: BinaryHeap<Reverse<(u64, u64)>>,
    evs: BTreeMap<u64, Ev>,
    seq: u64,
}

impl Net {
    fn push(&mut self, at: u64, e: Ev) {
        self.seq += 1;
        self.q.push(Reverse((at, self.seq)));
        self.evs.insert(self.seq, e);
    }
}

fn send_from(sim: &mut Sim, net: &mut Net, ci: usize, c: &Conn, flags: u32, budget: &mut usize) {
    let mut off = c.consumed;
    let mut t = sim.now;
    let mode = if flags & F_TINY != 0 { sim.c.weighted(&[2, 4, 3, 3]) } else { 0 };
    let fixed = 1 + sim.c.usize(12);
    let end = c.data.len();
    while off < end {
        let rest = end - off;
        let mut len = match mode {
            0 => rest,
            1 => 1 + sim.c.small(rest - 1),
            2 => fixed.min(rest),
            _ => {
                if off - c.consumed < 8 || rest < 4 {
                    1
                } else {
                    1 + sim.c.usize(rest.min(64))
                }
            }
        };
        if *budget <= 1 {
            len = rest;
        } else {
            *budget -= 1;
        }
        let len = len.clamp(1, rest);
        t += 1 + if flags & F_STALL != 0 && sim.c.chance(1, 16) {
            sim.fault("stall");
            1_000_000 + sim.c.below(60_000_000)
        } else {
            10
        };
        let jitter = if flags & F_JITTER != 0 { sim.c.below(200) } else { 0 };
        if len < rest || off > c.consumed {
            sim.fault("fragment");
        }
        net.push(t + 50 + jitter, Ev::Seg { conn: ci, epoch: c.epoch, off, len, lost: 0 });
        if flags & F_DUP != 0 && sim.c.chance(1, 8) {
            sim.fault("duplicate");
            let d = sim.c.below(400);
            net.push(t + 50 + d, Ev::Seg { conn: ci, epoch: c.epoch, off, len, lost: 9 });
        }
        off += len;
    }
}

/// Deliver the streams to the handler under a schedule and faults drawn from the run's choices.
/// Returns the number of bytes each stream finally carried (shorter than sent after a reset).
pub fn run_net(
    sim: &mut Sim,
    streams: &[Vec<u8>],
    flags: u32,
    handler: &mut dyn FnMut(&mut Sim, Arrival) -> R<Act>,
) -> R<Vec<usize>> {
    let mut net = Net { q: BinaryHeap::new(), evs: BTreeMap::new(), seq: 0 };
    let mut conns: Vec<Conn> = Vec::new();
    let mut budget = 600usize;
    for s in streams {
        let mut data = s.clone();
        if flags & F_RESET != 0 && !data.is_empty() && sim.c.chance(1, 3) {
            let cut = sim.c.usize(data.len());
            data.truncate(cut);
            sim.fault("reset");
        }
        conns.push(Conn { data, consumed: 0, have: vec![], avail: 0, buf: vec![], epoch: 0, closed: false, prev: 0 });
    }
    for ci in 0..conns.len() {
        send_from(sim, &mut net, ci, &conns[ci], flags, &mut budget);
        if flags & F_CRASH != 0 {
            let n = sim.c.usize(3);
            for _ in 0..n {
                let at = sim.now + 40 + sim.c.below(12 * (2 + conns[ci].data.len() as u64));
                net.push(at, Ev::Crash { conn: ci });
            }
        }
    }
    while let Some(Reverse((t, seq))) = net.q.pop() {
        let e = net.evs.remove(&seq).unwrap();
        sim.now = sim.now.max(t);
        sim.steps += 1;
        match e {
            Ev::Seg { conn, epoch, off, len, lost } => {
                let c = &mut conns[conn];
                if c.closed || c.epoch != epoch {
                    continue;
                }
                if flags & F_LOSS != 0 && lost < 3 && sim.c.chance(1, 10) {
                    sim.fault("loss");
                    net.push(t + 500, Ev::Seg { conn, epoch, off, len, lost: lost + 1 });
                    continue;
                }
                c.have.push((off, off + len));
                // extend the contiguous part
                let before = c.avail;
                loop {
                    let a = c.avail;
                    match c.have.iter().filter(|(s, e)| *s <= a && *e > a).map(|x| x.1).max() {
                        Some(e) => c.avail = e,
                        None => break,
                    }
                }
                if c.avail == before {
                    if off > before {
                        sim.fault("reorder");
                    }
                    continue;
                }
                let new = c.data[before..c.avail].to_vec();
                c.buf.extend_from_slice(&new);
                if sim.c.chance(1, 8) {
                    // the receiver's buffer moves
                    let mut b = Vec::with_capacity(c.buf.len() + 7);
                    b.extend_from_slice(&c.buf);
                    c.buf = b;
                }
                sim.note(0x5e6 + conn as u64);
                sim.note(c.avail as u64);
                ev!(sim, "conn {conn}: bytes {before}..{} arrive", c.avail);
                pump(sim, conn, c, false, handler)?;
                if flags & F_SPUR != 0 && sim.c.chance(1, 8) {
                    let ep = c.epoch;
                    net.push(t + 5, Ev::Spurious { conn, epoch: ep });
                }
            }
            Ev::Spurious { conn, epoch } => {
                let c = &mut conns[conn];
                if c.closed || c.epoch != epoch {
                    continue;
                }
                sim.fault("spurious-wakeup");
                pump(sim, conn, c, false, handler)?;
            }
            Ev::Crash { conn } => {
                let c = &mut conns[conn];
                if c.closed {
                    continue;
                }
                if !c.buf.is_empty() {
                    sim.probe("crash-with-partial-element");
                }
                sim.fault("receiver-crash");
                ev!(sim, "conn {conn}: receiver crashes and restarts at durable offset {}", c.consumed);
                c.buf = Vec::new();
                c.have.clear();
                c.avail = c.consumed;
                c.prev = c.consumed;
                c.epoch += 1;
                let c = &conns[conn];
                send_from(sim, &mut net, conn, c, flags, &mut budget);
            }
        }
    }
    for (ci, c) in conns.iter_mut().enumerate() {
        if !c.closed {
            pump(sim, ci, c, true, handler)?;
        }
    }
    Ok(conns.iter().map(|c| c.data.len()).collect())
}

fn pump(
    sim: &mut Sim,
    conn: usize,
    c: &mut Conn,
    eof: bool,
    handler: &mut dyn FnMut(&mut Sim, Arrival) -> R<Act>,
) -> R {
    loop {
        if c.buf.is_empty() && !eof {
            break;
        }
        let act = handler(sim, Arrival { conn, buf: &c.buf, off: c.consumed, prev: c.prev, eof })?;
        match act {
            Act::Consumed(n) => {
                assert!(n > 0 && n <= c.buf.len());
                c.buf.drain(..n);
                c.consumed += n;
            }
            Act::Wait => break,
            Act::Close => {
                c.closed = true;
                break;
            }
        }
    }
    c.prev = c.avail;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// corruption of bytes in flight

/// apply n corruption faults to a byte string
pub fn corrupt(sim: &mut Sim, data: &mut Vec<u8>, n: usize) {
    for _ in 0..n {
        if data.is_empty() {
            return;
        }
        // half of the faults hit the first bytes, where headers are
        let pos = if sim.c.chance(1, 2) { sim.c.usize(data.len().min(8)) } else { sim.c.usize(data.len()) };
        match sim.c.weighted(&[6, 5, 2, 2, 2, 2, 1]) {
            0 => {
                let bit = sim.c.usize(8);
                data[pos] ^= 1 << bit;
                sim.fault("bit-flip");
            }
            1 => {
                const NASTY: [u8; 24] = [
                    0, 1, 0x80, 0xff, 0x7f, 0x1f, 0x30, 0x31, 0x02, 0x03, 0x05, 0x81, 0x82, 0x84, 0x88, 0x89, 0xfe, 0xa0,
                    0x20, 0x24, 0x0a, 0x17, 0x18, 0x1e,
                ];
                data[pos] = *sim.c.pick(&NASTY);
                sim.fault("byte-overwrite");
            }
            2 => {
                data.remove(pos);
                sim.fault("byte-lost");
            }
            3 => {
                let b = sim.c.byte();
                data.insert(pos, b);
                sim.fault("byte-inserted");
            }
            4 => {
                data.truncate(pos);
                sim.fault("truncation");
            }
            5 => {
                let len = 1 + sim.c.usize((data.len() - pos).min(16));
                let part = data[pos..pos + len].to_vec();
                let at = sim.c.usize(data.len() + 1);
                for (i, b) in part.into_iter().enumerate() {
                    data.insert(at + i, b);
                }
                sim.fault("block-duplicated");
            }
            _ => {
                let len = 1 + sim.c.usize((data.len() - pos).min(32));
                for b in &mut data[pos..pos + len] {
                    *b = 0;
                }
                sim.fault("block-zeroed");
            }
        }
    }
}
