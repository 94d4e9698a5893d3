//! A faulty output sink yields an error and never corrupt or partial success.
use super::common::*;
use super::r10::{built, plain};
use super::*;
use crate::gen;
use crate::model::{self, Hdr, Len, Node, Val};
use crate::readers::*;
use crate::runner::Injected;
use crate::sim::*;
use crate::snap::*;
use crate::{bail, ev};
use cookie_factory::{gen as cf_gen, gen_simple, GenError, SerializeFn};
use der_parser::ber::*;
use std::cell::{Cell, RefCell};
use std::io::{self, ErrorKind, Write};
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "R09",
    run,
    quick: 10_000_000,
    thorough: 600_000_000,
    rule: "one run = a program that encodes 1-6 objects (decoded or built) to a simulated disk whose write calls fail, are interrupted, write short, write nothing, fill up or panic at drawn calls or byte offsets \
(also the scratch buffers the encoder makes), retries after failures, loses what was not synced when the process crashes, and decodes what survived; evaluation = one encoding attempt judged against the reference \
encoding, or one record recovered; distinct = hash of the sequence of (encoder, fault kind, where it struck, outcome)",
    measure: "(encoder, fault kind, size class of the encoding, size class of what was written, outcome)",
    stub: &["destination (disk with volatile cache, faults and crash)", "scratch buffers made through Default", "program that appends, retries and recovers"],
    ..BASE
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// error of a kind
    Err(u8),
    /// accepts only part of the data, then nothing goes wrong any more
    Short,
    /// accepts nothing
    Zero,
    /// accepts what fits in n more bytes, for ever
    Full,
    Panic,
}

#[derive(Debug)]
struct Plan {
    fault: Fault,
    /// strikes at this write call ...
    call: usize,
    /// ... or at this byte
    byte: usize,
    /// which sink: 0 = the destination, n = the n-th scratch buffer
    sink: usize,
    sticky: bool,
}

#[derive(Default)]
struct Disk {
    data: Vec<u8>,
    calls: usize,
    writes: Vec<usize>,
}

thread_local! {
    static PLAN: RefCell<Option<Plan>> = const { RefCell::new(None) };
    static FIRED: Cell<u32> = const { Cell::new(0) };
    static SCRATCH: Cell<usize> = const { Cell::new(0) };
}

struct Sink {
    no: usize,
    disk: Rc<RefCell<Disk>>,
    local: Vec<u8>,
}

impl Default for Sink {
    fn default() -> Sink {
        let no = SCRATCH.with(|s| {
            s.set(s.get() + 1);
            s.get()
        });
        Sink { no, disk: Rc::new(RefCell::new(Disk::default())), local: Vec::new() }
    }
}

impl AsRef<[u8]> for Sink {
    fn as_ref(&self) -> &[u8] {
        &self.local
    }
}

impl Sink {
    fn take(&mut self, d: &[u8]) -> io::Result<usize> {
        self.local.extend_from_slice(d);
        let mut k = self.disk.borrow_mut();
        k.data.extend_from_slice(d);
        k.writes.push(d.len());
        Ok(d.len())
    }
}

const KINDS: [ErrorKind; 6] =
    [ErrorKind::Other, ErrorKind::Interrupted, ErrorKind::WriteZero, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::StorageFull];

impl Write for Sink {
    fn write(&mut self, d: &[u8]) -> io::Result<usize> {
        crate::comb::yield_point();
        let (call, pos) = {
            let mut k = self.disk.borrow_mut();
            k.calls += 1;
            (k.calls - 1, k.data.len())
        };
        let f = PLAN.with(|p| {
            let p = p.borrow();
            match p.as_ref() {
                Some(p) if p.sink == self.no => {
                    let hit = call == p.call || (pos <= p.byte && p.byte < pos + d.len()) || (p.sticky && (call > p.call || pos > p.byte));
                    if hit && (p.sticky || FIRED.with(|f| f.get()) == 0) {
                        Some((p.fault, p.byte))
                    } else {
                        None
                    }
                }
                _ => None,
            }
        });
        let fire = || FIRED.with(|f| f.set(f.get() + 1));
        match f {
            None | Some((Fault::None, _)) => self.take(d),
            Some((Fault::Err(k), _)) => {
                fire();
                Err(io::Error::from(KINDS[k as usize % KINDS.len()]))
            }
            Some((Fault::Panic, _)) => {
                fire();
                std::panic::panic_any(Injected)
            }
            Some((Fault::Zero, _)) => {
                if !d.is_empty() {
                    fire();
                }
                Ok(0)
            }
            Some((Fault::Short, b)) => {
                if d.is_empty() {
                    return Ok(0);
                }
                fire();
                let n = b.saturating_sub(pos).min(d.len() - 1);
                self.take(&d[..n])
            }
            Some((Fault::Full, b)) => {
                let n = b.saturating_sub(pos).min(d.len());
                if n < d.len() {
                    fire();
                }
                self.take(&d[..n])
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn draw_plan(sim: &mut Sim, len: usize, n: &Node) -> Plan {
    let fault = match sim.c.weighted(&[3, 5, 4, 2, 3, 1]) {
        0 => Fault::None,
        1 => Fault::Err(sim.c.usize(KINDS.len()) as u8),
        2 => Fault::Short,
        3 => Fault::Zero,
        4 => Fault::Full,
        _ => Fault::Panic,
    };
    let by_call = sim.c.chance(1, 3);
    Plan {
        fault,
        call: if by_call && fault != Fault::Full { sim.c.small(6) } else { usize::MAX },
        byte: if by_call && fault != Fault::Full { usize::MAX } else { sim.c.usize(len + 2) },
        sink: if sim.c.chance(3, 4) { 0 } else { 1 + sim.c.small(2 * model::count(n) + 2) },
        sticky: fault == Fault::Full || sim.c.chance(1, 3),
    }
}

fn fault_name(p: &Plan) -> &'static str {
    match (p.fault, p.sink) {
        (Fault::None, _) => "none",
        (Fault::Err(1), 0) => "write-interrupted",
        (Fault::Err(4), 0) => "write-would-block",
        (Fault::Err(_), 0) => "write-error",
        (Fault::Short, 0) => "short-write",
        (Fault::Zero, 0) => "zero-write",
        (Fault::Full, 0) => "disk-full",
        (Fault::Panic, 0) => "write-panics",
        (Fault::Err(_), _) => "scratch-write-error",
        (Fault::Short, _) => "scratch-short-write",
        (Fault::Zero, _) => "scratch-zero-write",
        (Fault::Full, _) => "scratch-full",
        (Fault::Panic, _) => "scratch-write-panics",
    }
}

#[derive(Debug, PartialEq)]
enum Att {
    Ok(Option<u64>),
    Err(String),
    Panicked,
}

/// one attempt of a serializer on a destination under a plan
fn attempt<F: SerializeFn<Sink>>(f: &F, plan: Option<Plan>, simple: bool) -> (Att, Rc<RefCell<Disk>>, u32) {
    let disk = Rc::new(RefCell::new(Disk::default()));
    PLAN.with(|p| *p.borrow_mut() = plan);
    FIRED.with(|x| x.set(0));
    SCRATCH.with(|x| x.set(0));
    let d2 = disk.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let s = Sink { no: 0, disk: d2, local: Vec::new() };
        if simple {
            gen_simple(f, s).map(|s| (s, None))
        } else {
            cf_gen(f, s).map(|(s, n)| (s, Some(n)))
        }
    }));
    PLAN.with(|p| *p.borrow_mut() = None);
    let a = match r {
        Ok(Ok((s, n))) => {
            if s.no != 0 || !Rc::ptr_eq(&s.disk, &disk) {
                Att::Err("THE RETURNED WRITER IS NOT THE DESTINATION".into())
            } else {
                Att::Ok(n)
            }
        }
        Ok(Err(e)) => Att::Err(match e {
            GenError::IoError(e) => format!("IoError({:?})", e.kind()),
            e => format!("{e:?}"),
        }),
        Err(e) => {
            if e.downcast_ref::<Injected>().is_none() {
                std::panic::resume_unwind(e)
            }
            Att::Panicked
        }
    };
    (a, disk, FIRED.with(|x| x.get()))
}

fn judge(sim: &mut Sim, what: &str, n: &Node, want: &[u8], plan_txt: &str, a: &Att, disk: &Disk, fired: u32) -> R<bool> {
    sim.eval();
    let show = || {
        format!(
            "{what} of {} under {plan_txt}: {a:?}, the destination holds {} of the expected {} (write sizes {:?})",
            show_node(n),
            hex(&disk.data),
            hex(want),
            disk.writes
        )
    };
    if !want.starts_with(&disk.data) {
        bail!("not-a-prefix", "{}", show());
    }
    match a {
        Att::Ok(p) => {
            if disk.data != want {
                bail!("false-success", "{}", show());
            }
            if let Some(p) = p {
                if *p != want.len() as u64 {
                    bail!("wrong-position", "{}", show());
                }
            }
            Ok(true)
        }
        Att::Err(e) => {
            if fired == 0 || e.starts_with("THE RETURNED") {
                bail!("false-failure", "{}", show());
            }
            Ok(false)
        }
        Att::Panicked => {
            if fired == 0 {
                bail!("false-failure", "{}", show());
            }
            Ok(false)
        }
    }
}

/// attempts on the same serializer: faulty ones, then a healthy one
fn campaign<F: SerializeFn<Sink>>(sim: &mut Sim, code: u64, what: &str, n: &Node, want: &[u8], f: &F) -> R {
    let tries = 1 + sim.c.usize(3);
    for _ in 0..tries {
        let plan = draw_plan(sim, want.len(), n);
        let txt = format!("{plan:?}");
        let name = fault_name(&plan);
        let simple = sim.c.chance(1, 2);
        let (a, d, fired) = attempt(f, Some(plan), simple);
        let d = d.borrow();
        sim.steps += d.calls as u64;
        sim.now += 20 * d.calls as u64;
        if fired > 0 {
            sim.fault(name);
        }
        let k = match a {
            Att::Ok(_) => 0,
            Att::Err(_) => 1,
            Att::Panicked => 2,
        };
        sim.feat(&[900, code, hstr(if fired > 0 { name } else { "" }), bucket(want.len()), bucket(d.data.len()), k]);
        ev!(sim, "{what}: {txt} -> {a:?}, {} of {} bytes written", d.data.len(), want.len());
        judge(sim, what, n, want, &txt, &a, &d, fired)?;
    }
    let (a, d, fired) = attempt(f, None, false);
    judge(sim, what, n, want, "no fault, after failed attempts", &a, &d.borrow(), fired)?;
    Ok(())
}

fn raw_bytes(n: &Node) -> Vec<u8> {
    let mut want = match n.hdr.len {
        Len::Def(l) => model::enc_header(n.hdr.class, n.hdr.cons, n.hdr.tag, l as usize),
        Len::Indef => {
            let mut v = model::enc_header(n.hdr.class, n.hdr.cons, n.hdr.tag, 0);
            v.pop();
            v.push(0x80);
            v
        }
    };
    want.extend(model::enc_content(&n.val));
    want
}

/// an object: built by the program, or decoded from received bytes
fn object(sim: &mut Sim) -> Node {
    if sim.c.chance(1, 2) {
        return built(sim, &[]);
    }
    let cfg = cfg_any(sim);
    let b = gen::element(sim, &cfg, 0).bytes();
    match Rd::Gen(false).run(&b) {
        Out::Ok(n, _) => n,
        _ => Node { hdr: Hdr { class: 0, cons: false, tag: 5, len: Len::Def(0) }, val: Val::Null },
    }
}

fn run(sim: &mut Sim) -> R {
    match sim.c.weighted(&[3, 2]) {
        0 => one(sim),
        _ => log(sim),
    }
}

fn one(sim: &mut Sim) -> R {
    let n = object(sim);
    let o = build(&n);
    ev!(sim, "object {}", show_node(&n));
    match sim.c.usize(5) {
        0 => {
            let f = ber_encode_object(&o);
            campaign(sim, 0, "ber_encode_object", &n, &model::encode(&n), &f)
        }
        1 => {
            let f = ber_encode_object_raw(&o.header, &o.content);
            campaign(sim, 1, "ber_encode_object_raw", &n, &raw_bytes(&n), &f)
        }
        2 => {
            let tag = gen::tag_no(sim);
            let class = sim.c.usize(4) as u8;
            let inner = model::encode(&n);
            let mut want = model::enc_header(class, true, tag, inner.len());
            want.extend(inner);
            let f = ber_encode_tagged_explicit(Tag(tag), class_of(class), &o);
            campaign(sim, 2, "ber_encode_tagged_explicit", &n, &want, &f)
        }
        3 => {
            let tag = gen::tag_no(sim);
            let class = sim.c.usize(4) as u8;
            let c = model::enc_content(&n.val);
            let mut want = model::enc_header(class, n.hdr.cons, tag, c.len());
            want.extend(c);
            let f = ber_encode_tagged_implicit(Tag(tag), class_of(class), &o);
            campaign(sim, 3, "ber_encode_tagged_implicit", &n, &want, &f)
        }
        _ => {
            let m = Node { hdr: n.hdr.clone(), val: Val::Null };
            let f = ber_encode_header(&o.header);
            campaign(sim, 4, "ber_encode_header", &m, &raw_bytes(&m), &f)
        }
    }
}

/// an append-only file of encoded objects on a disk that fails and a process that crashes
fn log(sim: &mut Sim) -> R {
    let n = 1 + sim.c.usize(6);
    let mut file: Vec<u8> = Vec::new();
    let mut synced = 0;
    // end offset and record
    let mut recs: Vec<(usize, Node)> = Vec::new();
    let mut torn = false;
    for i in 0..n {
        let m = object(sim);
        let Some(p) = plain(&m) else { continue };
        let o = build(&m);
        let want = model::encode(&m);
        let f = ber_encode_object(&o);
        let mut done = false;
        for t in 0..3 {
            let mut plan = draw_plan(sim, want.len(), &m);
            if t == 2 && sim.c.chance(1, 2) {
                plan.fault = Fault::None;
            }
            let name = fault_name(&plan);
            let txt = format!("{plan:?}");
            let (a, d, fired) = attempt(&f, Some(plan), true);
            let d = d.borrow();
            sim.steps += 1 + d.calls as u64;
            sim.now += 20 * d.calls as u64;
            if fired > 0 {
                sim.fault(name);
            }
            ev!(sim, "record {i}, attempt {t}: {txt} -> {a:?}, {} of {} bytes", d.data.len(), want.len());
            let ok = judge(sim, "ber_encode_object", &m, &want, &txt, &a, &d, fired)?;
            let start = file.len();
            file.extend_from_slice(&d.data);
            sim.feat(&[901, hstr(if fired > 0 { name } else { "" }), bucket(want.len()), bucket(d.data.len()), ok as u64]);
            if ok {
                recs.push((file.len(), p.clone()));
                done = true;
                break;
            }
            if sim.c.chance(1, 3) {
                // the process dies right here
                if d.data == want {
                    recs.push((file.len(), p.clone()));
                }
                torn = true;
                break;
            }
            file.truncate(start);
            sim.probe("retry-after-failure");
        }
        if torn || !done {
            break;
        }
        if sim.c.chance(1, 3) {
            synced = file.len();
        }
    }
    // crash: what was synced survives, and some prefix of the rest
    let keep = if sim.c.chance(2, 3) {
        sim.fault("crash");
        let k = synced + sim.c.usize(file.len() - synced + 1);
        if k < file.len() {
            sim.fault("lost-tail");
        }
        k
    } else {
        file.len()
    };
    file.truncate(keep);
    ev!(sim, "recovery from {}", hex(&file));
    let want: Vec<&Node> = recs.iter().filter(|(e, _)| *e <= keep).map(|(_, n)| n).collect();
    let whole_end = recs.iter().map(|x| x.0).filter(|e| *e <= keep).max().unwrap_or(0);
    let mut i: &[u8] = &file;
    let mut got = 0;
    loop {
        sim.eval();
        if i.is_empty() {
            break;
        }
        match parse_ber(i) {
            Ok((rem, o)) => {
                let s = snap(&o);
                let Some(w) = want.get(got) else {
                    bail!("record-from-nothing", "after {got} records, {} decodes to {}", hex(i), show_node(&s));
                };
                if s != model::definite(w) {
                    bail!("wrong-record", "record {got}: expected {}, got {}", show_node(w), show_node(&s));
                }
                got += 1;
                i = rem;
            }
            Err(der_parser::nom::Err::Incomplete(_)) => {
                if keep == whole_end {
                    bail!("recovery", "'incomplete' after {got} of {} records of {}", want.len(), hex(&file));
                }
                sim.probe("torn-record-reported-incomplete");
                break;
            }
            Err(e) => bail!("recovery", "after {got} of {} records, {} is answered {e:?}", want.len(), hex(i)),
        }
    }
    if got != want.len() || (i.is_empty() && keep != whole_end) {
        bail!("recovery", "{got} of {} records recovered from {}", want.len(), hex(&file));
    }
    Ok(())
}
