//! Decoding an element depends only on the element's own bytes.
use super::common::*;
use super::*;
use crate::comb::{self, Cb, Ctx, CRes, K};
use crate::gen;
use crate::model;
use crate::readers::Rd;
use crate::sim::*;
use crate::snap::*;
use crate::{bail, ev};
use der_parser::ber::*;
use der_parser::der::*;

pub const PROP: Prop = Prop {
    id: "R03",
    run,
    quick: 6_000_000,
    thorough: 300_000_000,
    rule: "one run = one element (intact, from a faulty encoder or corrupted), decoded alone, with several drawn kinds of following data, and again \
after every arrival of a schedule that delivers element and following data in pieces; evaluation = one answer compared with the answer on the \
element alone, with the position of remaining input and borrowed slices checked by address; non-trivial = a fault or fragmentation; distinct = hash of \
the sequence of (operation, first byte, kind of following data, answer)",
    measure: "(operation, first byte of element, kind of following data, answer)",
    ..BASE
};

/// data that follows an element
fn follow(sim: &mut Sim, elem: &[u8]) -> (u64, Vec<u8>) {
    let k = sim.c.usize(8);
    let d = match k {
        0 => vec![0; 1 + sim.c.usize(12)],
        1 => vec![0xff; 1 + sim.c.usize(12)],
        2 => {
            let n = 1 + sim.c.usize(12);
            gen::fill(sim, n)
        }
        3 => elem.iter().rev().take(300).copied().collect(),
        4 => elem.iter().take(300).copied().collect(),
        5 => {
            let cfg = cfg_any(sim);
            gen::element(sim, &cfg, 2).bytes()
        }
        6 => vec![*sim.c.pick(&[b'Z', 0x30, 0x80, 0x05])],
        _ => {
            // continuation that would make sense inside the element
            let b = *sim.c.pick(&[b'0', b'a', 0x80, 0x02, 0x7f]);
            vec![b; 1 + sim.c.usize(20)]
        }
    };
    (k as u64, d)
}

enum Op {
    Rd(Rd),
    Num(u8),
    Comb(K, bool, Vec<Cb>),
}

impl Op {
    fn name(&self) -> String {
        match self {
            Op::Rd(r) => r.name(),
            Op::Num(k) => format!("number reader {k}"),
            Op::Comb(k, d, s) => format!("{} with script {s:?}", k.name(*d)),
        }
    }
    fn code(&self) -> u64 {
        match self {
            Op::Rd(r) => r.code(),
            Op::Num(k) => 900 + *k as u64,
            Op::Comb(k, d, _) => 1000 + 2 * k.code() + *d as u64,
        }
    }
}

/// answer in comparable form: text without addresses, kind, bytes used
#[derive(PartialEq, Clone)]
struct Ans {
    kind: u64,
    used: usize,
    text: String,
}

fn ask(op: &Op, b: &[u8], elem_len: usize) -> R<Ans> {
    match op {
        Op::Rd(r) => {
            let res = r.call(b);
            if let Ok((rem, o)) = &res {
                let used = b.len() - rem.len().min(b.len());
                let mut v = Vec::new();
                slices(o, &mut v);
                for s in v {
                    if !inside(s, &b[..used]) {
                        bail!("exposes-outside", "{} on {}: the object holds {} which is not inside the {} bytes of the element", op.name(), hex(b), hex(s), used);
                    }
                }
            }
            let o = out(b, res, |o| snap(&o));
            Ok(match o {
                Out::Ok(n, u) => Ans { kind: 0, used: u, text: format!("{n:?}") },
                Out::Inc(_) => Ans { kind: 1, used: 0, text: String::new() },
                Out::Err(e, _, _) if e.starts_with("REMAINING") => {
                    bail!("remaining-input", "{} on {}: the remaining input is not the tail of the input", op.name(), hex(b))
                }
                Out::Err(..) => Ans { kind: 2, used: 0, text: String::new() },
            })
        }
        Op::Num(k) => {
            let o = match k {
                0 => out(b, parse_ber_i32(b), |x| x as i128),
                1 => out(b, parse_ber_i64(b), |x| x as i128),
                2 => out(b, parse_ber_u32(b), |x| x as i128),
                3 => out(b, parse_ber_u64(b), |x| x as i128),
                4 => out(b, parse_der_i32(b), |x| x as i128),
                5 => out(b, parse_der_i64(b), |x| x as i128),
                6 => out(b, parse_der_u32(b), |x| x as i128),
                _ => out(b, parse_der_u64(b), |x| x as i128),
            };
            Ok(match o {
                Out::Ok(n, u) => Ans { kind: 0, used: u, text: format!("{n:?}") },
                Out::Inc(_) => Ans { kind: 1, used: 0, text: String::new() },
                Out::Err(..) => Ans { kind: 2, used: 0, text: String::new() },
            })
        }
        Op::Comb(k, d, script) => {
            let c = Ctx::default();
            let b2: &[u8] = b;
            let mut f = comb::make(*k, *d, &c);
            let r = comb::invoke(&mut f, &c, *k, b2, script);
            let calls = c.calls.borrow().clone();
            for x in &calls {
                if x.len > 0 && (x.off == usize::MAX || x.off + x.len > elem_len) && *k != K::Opt {
                    bail!("callback-outside", "{} on {}: the parser was given bytes {}..+{} outside the element of {} bytes", op.name(), hex(b), x.off, x.len, elem_len);
                }
            }
            Ok(match r {
                CRes::Ok(v, u) => {
                    if u == usize::MAX {
                        bail!("remaining-input", "{} on {}: the remaining input is not the tail of the input", op.name(), hex(b));
                    }
                    Ans { kind: 0, used: u, text: format!("{v:?} {calls:?}") }
                }
                CRes::Inc(_) => Ans { kind: 1, used: 0, text: format!("{calls:?}") },
                CRes::Err(_) | CRes::Fail(_) => Ans { kind: 2, used: 0, text: format!("{calls:?}") },
                CRes::Panicked => Ans { kind: 3, used: 0, text: format!("{calls:?}") },
            })
        }
    }
}

pub fn script(sim: &mut Sim, faults: bool) -> Vec<Cb> {
    let n = sim.c.usize(6);
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(match sim.c.weighted(&[8, 4, 2, if faults { 2 } else { 0 }]) {
            0 => Cb::Elem,
            1 => Cb::Take(sim.c.small(12)),
            2 => Cb::All,
            _ => match sim.c.usize(4) {
                0 => Cb::Err(sim.c.usize(100) as u32),
                1 => Cb::Fail(sim.c.usize(100) as u32),
                2 => Cb::Inc(sim.c.usize(5)),
                _ => Cb::Panic,
            },
        });
    }
    v
}

pub fn any_kind(sim: &mut Sim, tag: u32) -> K {
    let t = if sim.c.chance(7, 8) { tag } else { sim.c.usize(32) as u32 };
    match sim.c.usize(18) {
        0 => K::Cont,
        1 => K::SeqOfV,
        2 => K::SetOfV,
        3 => K::SeqOf,
        4 => K::SetOf,
        5 => K::SeqDef,
        6 => K::SetDef,
        7 => K::SeqDefG,
        8 => K::SetDefG,
        9 => K::Slice(t),
        10 => K::ExplG(t),
        11 => K::Expl(t),
        12 => K::ImplG(t),
        13 => K::Impl(t),
        14 => K::Implicit(t),
        15 => K::ExplOpt(t),
        16 => K::OptExpl(t),
        _ => K::OptImpl(t),
    }
}

fn run(sim: &mut Sim) -> R {
    if is_giant(sim) {
        return giant(sim);
    }
    let cfg = cfg_any(sim);
    let mut g = gen::element(sim, &cfg, 0);
    if sim.c.chance(1, 4) {
        gen::byzantine(sim, &mut g);
    }
    let mut e = g.bytes();
    if sim.c.chance(1, 4) {
        let n = 1 + sim.c.usize(2);
        corrupt(sim, &mut e, n);
    }
    let der = if cfg.der { sim.c.chance(3, 4) } else { sim.c.chance(1, 5) };
    // the element is what its own header delimits
    let len = match model::frame(&e, der, model::MAX_REC) {
        Ok(f) => f.total,
        // what the header announces is missing, or there is none: only prefix stability is checked
        Err(_) => usize::MAX,
    };
    if len < e.len() {
        e.truncate(len);
    }
    if e.is_empty() {
        return Ok(());
    }
    let tag = peek_tag(&e);
    let op = match sim.c.weighted(&[10, 2, 6]) {
        1 if e[0] == 2 => Op::Num(sim.c.usize(4) as u8 + if der { 4 } else { 0 }),
        2 if len != usize::MAX => {
            let k = any_kind(sim, tag);
            Op::Comb(k, der, script(sim, true))
        }
        _ => Op::Rd(pick_reader(sim, &e, der)),
    };
    ev!(sim, "element {} by {}", hex(&e), op.name());
    let alone = ask(&op, &e, len)?;
    sim.note(alone.kind);
    if len != usize::MAX {
        if alone.kind == 0 && alone.used != len && !matches!(&op, Op::Comb(k, _, _) if k.optional() && alone.used == 0) {
            bail!("wrong-end", "{} on the element {} of {} bytes used {}", op.name(), hex(&e), len, alone.used);
        }
        let n = 1 + sim.c.usize(4);
        for _ in 0..n {
            let (fk, t) = follow(sim, &e);
            let mut b = e.clone();
            b.extend_from_slice(&t);
            let a = ask(&op, &b, len)?;
            sim.eval();
            sim.fault("pipelined-data");
            sim.feat(&[op.code(), e[0] as u64, fk, a.kind]);
            ev!(sim, "followed by {}: answer kind {}", hex(&t), a.kind);
            if a != alone {
                bail!(
                    "depends-on-following-data",
                    "{} on the element {}: alone: {}; followed by {}: {}",
                    op.name(),
                    hex(&e),
                    desc(&alone),
                    hex(&t),
                    desc(&a)
                );
            }
        }
    }
    // arrivals: once an element reader has given a final answer, later data never changes it
    if let Op::Rd(_) | Op::Num(_) = op {
        let mut b = e.clone();
        let (_, t) = follow(sim, &e);
        b.extend_from_slice(&t);
        let mut p = 0;
        let mut first: Option<(usize, Ans)> = None;
        let mut rounds = 0;
        while p < b.len() && rounds < 24 {
            rounds += 1;
            sim.steps += 1;
            sim.now += 1 + sim.c.below(50);
            p += 1 + sim.c.small(b.len() - p - 1);
            if p < b.len() {
                sim.fault("fragment");
            }
            let buf = b[..p].to_vec();
            let a = ask(&op, &buf, usize::MAX)?;
            sim.eval();
            sim.note(a.kind);
            match &first {
                None => {
                    if a.kind != 1 {
                        first = Some((p, a));
                    }
                }
                Some((q, f)) => {
                    if a != *f {
                        bail!(
                            "answer-changed",
                            "{}: with {}: {}; with {}: {}",
                            op.name(),
                            hex(&b[..*q]),
                            desc(f),
                            hex(&b[..p]),
                            desc(&a)
                        );
                    }
                    sim.probe("final-answer-confirmed-later");
                }
            }
        }
    }
    Ok(())
}

fn desc(a: &Ans) -> String {
    match a.kind {
        0 => format!("{} using {} bytes", a.text.chars().take(200).collect::<String>(), a.used),
        1 => "incomplete".into(),
        2 => format!("error {}", a.text),
        _ => "panic of the callback".into(),
    }
}
