//! Segmentation never changes what a stream of elements decodes to.
use super::common::*;
use super::*;
use crate::readers::{draw, Rd};
use crate::sim::*;
use crate::snap::Out;
use crate::{bail, ev};
use der_parser::ber::*;
use der_parser::der::*;

pub const PROP: Prop = Prop {
    id: "R01",
    run,
    quick: 4_500_000,
    thorough: 180_000_000,
    rule: "one run = up to 3 connections, each carrying a generated stream of elements (intact, from a faulty encoder, or corrupted in flight), \
delivered under a drawn schedule of fragments, loss, duplication, reordering, stalls, resets, spurious wake-ups and receiver crashes; \
evaluation = one answer of a reader compared with the answer on the whole stream; non-trivial = at least one fault or fragmentation fired; \
distinct = hash of the sequence of (reader, element type, position in element, answer)",
    measure: "(reader, first byte of element, answer, where the buffer ends relative to the element)",
    ..BASE
};

#[derive(Clone, Copy)]
enum Reader {
    Obj(Rd),
    /// number readers: 0..4 BER i32 i64 u32 u64, 4..8 DER
    Num(u8),
}

#[derive(Clone, Debug, PartialEq)]
enum V {
    N(crate::model::Node),
    I(i128),
}

fn call(r: Reader, b: &[u8]) -> Out<V> {
    use crate::snap::out;
    match r {
        Reader::Obj(r) => match r.run(b) {
            Out::Ok(n, u) => Out::Ok(V::N(n), u),
            Out::Inc(n) => Out::Inc(n),
            Out::Err(a, b, c) => Out::Err(a, b, c),
        },
        Reader::Num(k) => match k {
            0 => out(b, parse_ber_i32(b), |x| V::I(x as i128)),
            1 => out(b, parse_ber_i64(b), |x| V::I(x as i128)),
            2 => out(b, parse_ber_u32(b), |x| V::I(x as i128)),
            3 => out(b, parse_ber_u64(b), |x| V::I(x as i128)),
            4 => out(b, parse_der_i32(b), |x| V::I(x as i128)),
            5 => out(b, parse_der_i64(b), |x| V::I(x as i128)),
            6 => out(b, parse_der_u32(b), |x| V::I(x as i128)),
            _ => out(b, parse_der_u64(b), |x| V::I(x as i128)),
        },
    }
}

fn name(r: Reader) -> String {
    match r {
        Reader::Obj(r) => r.name(),
        Reader::Num(k) => {
            ["parse_ber_i32", "parse_ber_i64", "parse_ber_u32", "parse_ber_u64", "parse_der_i32", "parse_der_i64", "parse_der_u32", "parse_der_u64"]
                [k as usize]
                .into()
        }
    }
}

fn code(r: Reader) -> u64 {
    match r {
        Reader::Obj(r) => r.code(),
        Reader::Num(k) => 900 + k as u64,
    }
}

struct Plan {
    /// (start, end) of each element as the whole-stream receiver sees it, and its answer
    steps: Vec<(usize, Reader, Out<V>)>,
}

fn run(sim: &mut Sim) -> R {
    if is_giant(sim) {
        return giant(sim);
    }
    let nconn = 1 + sim.c.weighted(&[6, 2, 1]);
    let flags = swarm(sim);
    let mut streams = Vec::new();
    let mut plans: Vec<Plan> = Vec::new();
    for ci in 0..nconn {
        let cfg = cfg_any(sim);
        let s = make_stream(sim, &cfg, 4, true);
        let der = if cfg.der { sim.c.chance(3, 4) } else { sim.c.chance(1, 5) };
        // the receiver that has the whole stream at once
        let mut pos = 0;
        let mut steps = Vec::new();
        while pos < s.bytes.len() {
            let b = &s.bytes[pos..];
            let rd = if b[0] == 2 && sim.c.chance(1, 3) {
                // only on the short form of the tag: the number readers are those of asn1-rs
                Reader::Num(sim.c.usize(4) as u8 + if der { 4 } else { 0 })
            } else {
                Reader::Obj(draw(sim, peek_tag(b), Some(der)))
            };
            let o = call(rd, b);
            sim.note(o.kind());
            ev!(sim, "conn {ci}: whole stream, offset {pos}: {} -> {}", name(rd), show(&o));
            let adv = match &o {
                Out::Ok(_, 0) => bail!("no-progress", "{} returned an object without using a byte of {}", name(rd), hex(b)),
                Out::Ok(_, u) => Some(*u),
                _ => None,
            };
            steps.push((pos, rd, o));
            match adv {
                Some(u) => pos += u,
                None => break,
            }
        }
        ev!(sim, "conn {ci}: stream {}", hex(&s.bytes));
        streams.push(s.bytes);
        plans.push(Plan { steps });
    }
    let lens: Vec<usize> = streams.iter().map(|s| s.len()).collect();
    let mut done: Vec<usize> = vec![0; nconn];
    let mut closed = vec![false; nconn];
    let streams2 = streams.clone();
    let finals = {
        let (done, closed) = (&mut done, &mut closed);
        let plans = &plans;
        run_net(sim, &streams, flags, &mut |sim: &mut Sim, a: Arrival| {
            let k = done[a.conn];
            if a.buf.is_empty() {
                return Ok(Act::Wait);
            }
            let Some((pos, rd, want)) = plans[a.conn].steps.get(k) else {
                bail!("harness", "no step {k}");
            };
            if *pos != a.off {
                bail!("harness", "offset {} is not {}", a.off, pos);
            }
            let got = call(*rd, a.buf);
            sim.eval();
            let rel = match want {
                Out::Ok(_, u) => (a.buf.len() as i64 - *u as i64).signum() + 1,
                _ => 3,
            };
            sim.feat(&[code(*rd), a.buf[0] as u64, got.kind(), rel as u64, if rel == 0 { bucket(a.buf.len()) } else { 99 }]);
            sim.note(got.kind());
            ev!(sim, "conn {}: offset {} with {} bytes buffered: {} -> {}", a.conn, a.off, a.buf.len(), name(*rd), show(&got));
            let ctx = |sim: &Sim| {
                let _ = sim;
                format!(
                    "{} at offset {} of stream {}: with the {} bytes {} received so far: {}; on the whole stream: {}",
                    name(*rd),
                    a.off,
                    hex(&streams2[a.conn]),
                    a.buf.len(),
                    hex(a.buf),
                    show(&got),
                    show(want)
                )
            };
            match (&got, want) {
                (Out::Ok(g, u), Out::Ok(w, v)) => {
                    if g != w || u != v {
                        bail!("different-object", "{}", ctx(sim));
                    }
                    if a.buf.len() < *v {
                        bail!("early-object", "{}", ctx(sim));
                    }
                    if a.off + v <= a.prev {
                        bail!("late-object", "delivered after the fragment that completed it: {}", ctx(sim));
                    }
                    done[a.conn] += 1;
                    Ok(Act::Consumed(*u))
                }
                (Out::Inc(_), Out::Ok(_, v)) => {
                    if a.buf.len() >= *v {
                        bail!("late-object", "still incomplete when all bytes are there: {}", ctx(sim));
                    }
                    sim.probe("incomplete-then-object");
                    Ok(Act::Wait)
                }
                (Out::Inc(_), Out::Inc(_)) => Ok(Act::Wait),
                (Out::Inc(_), Out::Err(..)) => {
                    if a.off + a.buf.len() == lens[a.conn] {
                        bail!("different-rejection", "{}", ctx(sim));
                    }
                    Ok(Act::Wait)
                }
                (Out::Err(..), Out::Err(..)) => {
                    sim.probe("rejected");
                    closed[a.conn] = true;
                    Ok(Act::Close)
                }
                (Out::Err(..), _) => bail!("fragment-rejected", "{}", ctx(sim)),
                (Out::Ok(..), _) => bail!("fragment-accepted", "{}", ctx(sim)),
            }
        })?
    };
    // progress: without a reset, every stream was decoded up to where the whole-stream receiver got
    for ci in 0..nconn {
        if closed[ci] || finals[ci] < lens[ci] {
            continue;
        }
        let want = plans[ci].steps.iter().filter(|s| matches!(s.2, Out::Ok(..))).count();
        if done[ci] != want {
            bail!("lost-object", "connection {ci}: {} of {want} objects were delivered from {}", done[ci], hex(&streams[ci]));
        }
    }
    Ok(())
}

fn show(o: &Out<V>) -> String {
    match o {
        Out::Ok(V::N(n), u) => format!("object tag {} class {} using {u} bytes", n.hdr.tag, n.hdr.class),
        Out::Ok(V::I(n), u) => format!("{n} using {u} bytes"),
        Out::Inc(n) => format!("incomplete({n})"),
        Out::Err(e, _, _) => format!("error {e}"),
    }
}
