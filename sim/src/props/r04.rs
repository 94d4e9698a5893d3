//! No input makes the library panic, abort or hang.
use super::common::*;
use super::r03::{any_kind, script};
use super::*;
use crate::comb::{self, CRes, Ctx};
use crate::ops::{self, Dig};
use crate::readers::{Rd, TYPED_BER};
use crate::sim::*;
use crate::snap::*;
use crate::{ev, gen};
use der_parser::asn1_rs::Any;
use der_parser::ber::*;
use der_parser::der::*;
use std::convert::TryFrom;

pub const PROP: Prop = Prop {
    id: "R04",
    run,
    quick: 3_000_000,
    thorough: 280_000_000,
    rule: "one run = one received buffer (elements from a correct or faulty encoder, corrupted in flight, cut, random bytes, or hostile nesting/lengths/counts) \
given to 2-7 drawn operations among all readers (also those of other types), number, slice and header readers, content readers with arguments that do not fit, \
combinators with scripted (also failing and panicking) or real parsers, and conversions; every object obtained is inspected, iterated, visited, printed, compared, \
cloned and re-encoded; a panic of the library, a signal or a hang of the process is a violation; evaluation = one operation on one buffer; \
distinct = hash of the sequence of (operation, first byte, size class, answer)",
    measure: "(operation, first byte of the buffer, size class of the buffer, answer)",
    assumptions: &[
        "sampled, not exhaustive: a clean campaign is evidence, not proof",
        "bounded time is judged by a watchdog of 40 s per run (runs take micro- to milliseconds)",
        "built with overflow checks and debug assertions, threads of the simulator have 2 MB of stack, der-parser itself is compiled without optimisation",
    ],
    stack: 2 << 20,
    ..BASE
};

/// one very long element made of a repeated pattern
fn bulk(sim: &mut Sim) -> Vec<u8> {
    sim.fault("bulk-content");
    let mut b = vec![*sim.c.pick(&[2u8, 2, 2, 10, 3, 4, 6, 12, 30, 28, 0x30, 0x31, 0x84, 0xa4, 13, 22, 24])];
    let n = 20_000 + sim.c.usize(100_000);
    b.push(0x83);
    b.extend_from_slice(&(n as u32).to_be_bytes()[1..]);
    let start = b.len();
    let k = if sim.c.chance(1, 3) { sim.c.usize(4) } else { 0 };
    let head = gen::fill(sim, k);
    b.extend(head);
    let pat: &[u8] = *sim.c.pick(&[&[0u8][..], &[0u8], &[0u8], &[0xff], &[0x80], &[0x41], &[5, 0], &[0x30, 0], &[1, 1, 0xff], &[0, 0x41], &[0x24, 0x80], &[0xd8, 0]]);
    while b.len() < start + n {
        b.extend_from_slice(pat);
    }
    b.truncate(start + n);
    let k = sim.c.usize(4);
    let tail = gen::fill(sim, k);
    let l = b.len();
    b[l - tail.len()..].copy_from_slice(&tail);
    b
}

fn input(sim: &mut Sim) -> Vec<u8> {
    if sim.c.chance(1, 500) {
        return bulk(sim);
    }
    match sim.c.weighted(&[6, 3, 2, 2]) {
        0 => {
            let cfg = cfg_any(sim);
            let mut s = make_stream(sim, &cfg, 3, true).bytes;
            if sim.c.chance(1, 3) && !s.is_empty() {
                let n = sim.c.usize(s.len());
                s.truncate(n);
                sim.fault("truncation");
            }
            s
        }
        1 => {
            let mut b = gen::hostile(sim, 6000);
            if sim.c.chance(1, 3) {
                let n = 1 + sim.c.usize(3);
                corrupt(sim, &mut b, n);
            }
            b
        }
        2 => {
            // header of some type with random content
            sim.fault("random-content");
            let mut b = vec![*sim.c.pick(&[2u8, 3, 1, 4, 5, 6, 7, 10, 12, 13, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 30, 0, 0x30, 0x31, 0xa0, 0x1f])];
            let n = sim.c.small(90);
            b.push(n as u8);
            let c = gen::fill(sim, n);
            b.extend(c);
            b
        }
        _ => {
            sim.fault("random-bytes");
            let n = sim.c.small(60);
            gen::fill(sim, n)
        }
    }
}

fn any_tag(sim: &mut Sim, fit: u32) -> u32 {
    match sim.c.weighted(&[3, 3, 1]) {
        0 => fit,
        1 => sim.c.usize(31) as u32,
        _ => *sim.c.pick(&[31u32, 32, 127, 128, 16384, u32::MAX]),
    }
}

fn lim(sim: &mut Sim) -> usize {
    *sim.c.pick(&[50usize, 0, 1, 2, 3, 10, 49, 51, 60])
}

fn len(sim: &mut Sim, n: usize) -> Length {
    match sim.c.usize(5) {
        0 => Length::Indefinite,
        1 => Length::Definite(n),
        2 => Length::Definite(sim.c.usize(n + 3)),
        3 => Length::Definite(*sim.c.pick(&[0usize, 1, 127, 128, 65536, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX, usize::MAX / 2])),
        _ => Length::Definite(0),
    }
}

struct Run<'s> {
    sim: &'s mut Sim,
    groups: u32,
}

impl Run<'_> {
    fn obj(&mut self, o: &BerObject) {
        let mut d = Dig::new();
        let mut budget = 200;
        ops::all(o, self.groups, &mut d, &mut budget);
        self.sim.note(d.0);
        self.sim.probe("object-inspected");
    }
    fn res(&mut self, r: der_parser::error::BerResult<'_>) -> u64 {
        match r {
            Ok((_, o)) => {
                self.obj(&o);
                0
            }
            Err(der_parser::nom::Err::Incomplete(_)) => 1,
            Err(e) => {
                self.err(&e);
                2
            }
        }
    }
    fn err(&mut self, e: &der_parser::nom::Err<der_parser::error::BerError>) {
        if let der_parser::nom::Err::Error(e) | der_parser::nom::Err::Failure(e) = e {
            // errors can be shown
            self.sim.note_str(&format!("{e} {e:?}"));
        }
    }
    fn content(&mut self, r: der_parser::error::BerResult<'_, BerObjectContent<'_>>) -> u64 {
        self.res(r.map(|(r, c)| (r, BerObject::from_obj(c))))
    }
    fn other<T: std::fmt::Debug>(&mut self, r: der_parser::error::BerResult<'_, T>) -> u64 {
        match r {
            Ok((_, t)) => {
                self.sim.note_str(&format!("{t:?}"));
                0
            }
            Err(der_parser::nom::Err::Incomplete(_)) => 1,
            Err(e) => {
                self.err(&e);
                2
            }
        }
    }
}

fn run(sim: &mut Sim) -> R {
    let b = input(sim);
    let nops = 2 + sim.c.usize(6);
    let groups = match sim.c.usize(3) {
        0 => ops::ALL,
        _ => 1 << sim.c.usize(6),
    };
    ev!(sim, "buffer {}", hex(&b));
    for _ in 0..nops {
        let at = if sim.c.chance(4, 5) { 0 } else { sim.c.usize(b.len() + 1) };
        let b = &b[at..];
        let tag = peek_tag(b);
        sim.eval();
        sim.steps += 1;
        let der = sim.c.chance(1, 2);
        let (code, name, ans) = match sim.c.weighted(&[6, 4, 3, 4, 4, 3, 2, 1]) {
            0 => {
                let rd = pick_reader(sim, b, der);
                ev!(sim, "{}", rd.name());
                let mut r = Run { sim, groups };
                (rd.code(), rd.name(), r.res(rd.call(b)))
            }
            1 => {
                let rd = match sim.c.usize(6) {
                    0 => Rd::Typed(der, sim.c.usize(if der { 26 } else { TYPED_BER.len() })),
                    1 => Rd::WithTag(der, any_tag(sim, tag)),
                    2 => Rd::Rec(der, lim(sim)),
                    3 => Rd::AnyR(lim(sim)),
                    4 => Rd::AnyTagR(any_tag(sim, tag), lim(sim)),
                    _ => {
                        let l = lim(sim);
                        match sim.c.usize(3) {
                            0 => Rd::HdrContent(der, l),
                            1 => Rd::ContentFn(der, l),
                            _ => Rd::ContentFn2(der, l),
                        }
                    }
                };
                ev!(sim, "{}", rd.name());
                let mut r = Run { sim, groups };
                (1000 + rd.code(), rd.name(), r.res(rd.call(b)))
            }
            2 => {
                // content readers with arguments that need not fit
                let t = any_tag(sim, tag);
                let l = len(sim, b.len());
                let cons = sim.c.chance(1, 2);
                let d = lim(sim);
                let class = class_of(sim.c.usize(4) as u8);
                let h = Header::new(class, cons, Tag(t), l);
                let which = sim.c.usize(8);
                ev!(sim, "content reader {which} tag {t} len {l:?} constructed {cons} depth {d}");
                let mut r = Run { sim, groups };
                let a = match which {
                    0 => r.content(ber_read_element_content_as(b, Tag(t), l, cons, d)),
                    1 => r.content(der_read_element_content_as(b, Tag(t), l, cons, d)),
                    2 => r.content(parse_ber_content(Tag(t))(b, &h, d)),
                    3 => r.content(parse_der_content(Tag(t))(b, &h, d)),
                    4 => r.content(parse_ber_content2(Tag(t))(b, h, d)),
                    5 => r.content(parse_der_content2(Tag(t))(b, h, d)),
                    6 => r.res(der_read_element_content(b, h)),
                    _ => {
                        let any = Any::new(h, b);
                        let a1 = match BerObject::try_from(&any) {
                            Ok(o) => {
                                r.obj(&o);
                                0
                            }
                            Err(_) => 2,
                        };
                        if let Ok(o) = BerObject::try_from(any) {
                            r.obj(&o);
                        }
                        a1
                    }
                };
                (2000 + which as u64, "content reader".to_string(), a)
            }
            3 => {
                let k = any_kind(sim, tag);
                let s = script(sim, true);
                ev!(sim, "{} scripted {s:?}", k.name(der));
                let c = Ctx::default();
                let mut f = comb::make(k, der, &c);
                let a = kind(&comb::invoke(&mut f, &c, k, b, &s));
                // and once more with the same combinator
                let s = script(sim, true);
                let r = comb::invoke(&mut f, &c, k, b, &s);
                sim.note_str(&format!("{r:?}"));
                (3000 + k.code(), k.name(der), a)
            }
            4 => {
                let k = any_kind(sim, tag);
                let inner = any_tag(sim, tag);
                ev!(sim, "{} around real parsers, inner tag {inner}", k.name(der));
                let mut r = Run { sim, groups };
                let x = comb::real(k, der, inner, b, &mut |o| r.obj(o));
                (4000 + k.code(), k.name(der), kind(&x))
            }
            5 => {
                let which = sim.c.usize(8);
                ev!(sim, "number reader {which}");
                let mut r = Run { sim, groups };
                let a = match which {
                    0 => r.other(parse_ber_i32(b)),
                    1 => r.other(parse_ber_i64(b)),
                    2 => r.other(parse_ber_u32(b)),
                    3 => r.other(parse_ber_u64(b)),
                    4 => r.other(parse_der_i32(b)),
                    5 => r.other(parse_der_i64(b)),
                    6 => r.other(parse_der_u32(b)),
                    _ => r.other(parse_der_u64(b)),
                };
                (5000 + which as u64, "number reader".into(), a)
            }
            6 => {
                let t = any_tag(sim, tag);
                let which = sim.c.usize(5);
                ev!(sim, "header/slice reader {which} {t}");
                let mut r = Run { sim, groups };
                let a = match which {
                    0 => r.other(ber_read_element_header(b)),
                    1 => r.other(der_read_element_header(b)),
                    2 => r.other(parse_ber_slice(b, Tag(t))),
                    3 => r.other(parse_der_slice(b, Tag(t))),
                    _ => r.other(parse_ber_any(b)),
                };
                (6000 + which as u64, "header/slice reader".into(), a)
            }
            _ => {
                // objects a program builds around received bytes
                let n = crate::props::r10::built(sim, b);
                let o = build(&n);
                ev!(sim, "built {n:?}");
                let mut r = Run { sim, groups };
                r.obj(&o);
                (7000, "built object".into(), 0)
            }
        };
        sim.note(ans);
        sim.feat(&[code, b.first().copied().unwrap_or(0) as u64, bucket(b.len()), ans]);
        ev!(sim, "{name}: answer kind {ans}");
    }
    Ok(())
}

fn kind(r: &CRes) -> u64 {
    match r {
        CRes::Ok(..) => 0,
        CRes::Inc(_) => 1,
        CRes::Err(_) | CRes::Fail(_) => 2,
        CRes::Panicked => 3,
    }
}
