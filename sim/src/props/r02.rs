//! 'Incomplete' is answered exactly while bytes of the element are missing.
use super::common::*;
use super::*;
use crate::model::{self, E};
use crate::readers::Rd;
use crate::sim::*;
use crate::snap::Out;
use crate::{bail, ev};

pub const PROP: Prop = Prop {
    id: "R02",
    run,
    quick: 1_000_000,
    thorough: 40_000_000,
    rule: "one run = a stream of elements (intact, faulty encoder or corrupted) arriving under a drawn schedule; after every arrival the \
receiver's answer is compared with whether the reference framing says that bytes are missing; some receivers trust the reported count \
and wait for it; evaluation = one answer; non-trivial = at least one fault or fragmentation; distinct = hash of the sequence of \
(reader, first byte, part of the element where the buffer ends, answer)",
    measure: "(reader, first byte of element, part of the element where the buffer ends, answer)",
    ..BASE
};

/// known finding: the DER readers ask for the declared content length, not for the missing part
pub fn known_der_hint(rd: &Rd, buf: &[u8], hint: usize) -> bool {
    if !rd.der() {
        return false;
    }
    match model::header(buf, true) {
        Ok((h, n)) => match h.len {
            model::Len::Def(l) => buf.len() > n && (buf.len() - n) < l as usize && hint as u64 == l,
            _ => false,
        },
        _ => false,
    }
}

fn part(b: &[u8], der: bool) -> u64 {
    match model::header(b, der) {
        Err(E::More(_)) => {
            if b.len() < 2 {
                0
            } else {
                1
            }
        }
        Err(_) => 2,
        Ok((h, n)) => {
            if b.len() == n {
                3
            } else if h.len == model::Len::Indef {
                4
            } else {
                5
            }
        }
    }
}

/// A peer that announces a very large element and stalls: bytes are missing whatever it says
fn announced(sim: &mut Sim) -> R {
    use crate::gen;
    use crate::model::{enc_len, tags::*};
    let der = sim.c.chance(1, 2);
    let class = if sim.c.chance(1, 4) { 1 + sim.c.usize(3) as u8 } else { 0 };
    let tag = if class != 0 { gen::tag_no(sim) } else { *sim.c.pick(&[OCTETS, INT, BITS, OID, RELOID, SEQ, SET, UNIV, BMP, UTF8, IA5, PRINTABLE, T61, GENERAL, 9, 8, 11, 14, 31, 3000]) };
    let cons = if class != 0 { sim.c.chance(1, 2) } else { tag == SEQ || tag == SET };
    let mut l = match sim.c.usize(3) {
        0 => *sim.c.pick(&[65536u64, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, u32::MAX as u64 - 1, u32::MAX as u64]),
        1 => 1u64 << (12 + sim.c.usize(20)),
        _ => {
            let s = sim.c.usize(16);
            4096 + ((sim.c.raw() as u32) >> s) as u64 % (u32::MAX as u64 - 5000)
        }
    };
    if tag == BMP && class == 0 {
        l = l / 2 * 2;
    }
    let mut b = Vec::new();
    // open containers around it
    let levels = if der || sim.c.chance(2, 3) { 0 } else { 1 + sim.c.usize(3) };
    for _ in 0..levels {
        b.extend_from_slice(&[*sim.c.pick(&[0x30u8, 0x31, 0xa3]), 0x80]);
        if sim.c.chance(1, 3) {
            b.extend_from_slice(&[2, 1, 5]);
        }
    }
    let start = b.len();
    let b0 = (class << 6) | if cons { 0x20 } else { 0 };
    if tag < 31 {
        b.push(b0 | tag as u8);
    } else {
        b.push(b0 | 0x1f);
        let mut g = vec![(tag & 0x7f) as u8];
        let mut t = tag >> 7;
        while t > 0 {
            g.push(0x80 | (t & 0x7f) as u8);
            t >>= 7;
        }
        g.reverse();
        b.extend(g);
    }
    enc_len(&mut b, l as usize);
    let head = b.len();
    // the start of content that is allowed
    let n = sim.c.small(60);
    match tag {
        BITS | IA5 | PRINTABLE | UTF8 | T61 | GENERAL => b.extend(std::iter::repeat(b' ' * (tag != BITS) as u8).take(n)),
        SEQ | SET => b.extend([5u8, 0].iter().copied().cycle().take(n)),
        BMP => b.extend([0u8, b'a'].iter().copied().cycle().take(n)),
        OID | RELOID => b.extend(std::iter::repeat(0x2a).take(n)),
        _ => b.extend(std::iter::repeat(1).take(n)),
    }
    sim.fault("stalled-after-announcing");
    ev!(sim, "announced {} and stalls", hex(&b));
    let total = head as u64 + l;
    let mut at = if sim.c.chance(1, 2) { head } else { start + 1 };
    while at <= b.len() {
        let buf = &b[..at];
        let rd = if class != 0 || levels > 0 { if sim.c.chance(1, 2) { Rd::Gen(der) } else { Rd::Rec(der, 5) } } else { pick_reader(sim, buf, der) };
        sim.now += 1_000;
        let got = rd.run(buf);
        sim.eval();
        sim.feat(&[rd.code(), 7, tag as u64, bucket(l as usize), got.kind()]);
        ev!(sim, "{} bytes: {} -> {:?}", at, rd.name(), short(&got));
        match &got {
            Out::Inc(h) => {
                let left = total - at as u64;
                if at >= head && levels == 0 && *h as u64 > left && !(known_der_hint(&rd, buf, *h) && sim.listed("R02", "der-hint-is-declared-length")) {
                    bail!("hint-too-large", "{} with {} asks for {h} bytes, {left} are missing", rd.name(), hex(buf));
                }
            }
            o => bail!("prefix-not-incomplete", "{} with the first {at} bytes {} of an element of {total} bytes answers {:?}", rd.name(), hex(buf), short(o)),
        }
        at += 1 + sim.c.usize(30);
    }
    sim.probe("announced-large");
    Ok(())
}

fn run(sim: &mut Sim) -> R {
    if sim.c.chance(1, 10) {
        return announced(sim);
    }
    let flags = swarm(sim);
    let cfg = cfg_any(sim);
    let s = make_stream(sim, &cfg, 3, true);
    let der = if cfg.der { sim.c.chance(3, 4) } else { sim.c.chance(1, 6) };
    let trusting = sim.c.chance(1, 3);
    ev!(sim, "stream {}", hex(&s.bytes));
    // reader and truth for each element of the stream, from the reference model on the whole stream
    let whole = s.bytes.clone();
    let mut plan: Vec<(usize, Rd)> = Vec::new();
    let mut pos = 0;
    while pos < whole.len() {
        let rd = pick_reader(sim, &whole[pos..], der);
        plan.push((pos, rd));
        match model::frame(&whole[pos..], der, model::MAX_REC) {
            Ok(f) => pos += f.total,
            Err(_) => break,
        }
    }
    let streams = vec![s.bytes];
    let mut k = 0usize;
    let mut wait_for = 0usize;
    let mut restarts = 0usize;
    run_net(sim, &streams, flags, &mut |sim: &mut Sim, a: Arrival| {
        if a.buf.is_empty() {
            return Ok(Act::Wait);
        }
        let Some((pos, rd)) = plan.get(k).copied() else {
            return Ok(Act::Close);
        };
        if pos != a.off {
            bail!("harness", "offset {} is not {}", a.off, pos);
        }
        if a.off + a.buf.len() <= a.prev {
            restarts += 1;
        }
        let rest = &whole[pos..];
        let missing = model::frame(a.buf, der, rd.scan());
        let decodes = rd.model(rest);
        if trusting && a.buf.len() < wait_for && !a.eof {
            // this receiver sleeps until as many bytes as it was told to need have arrived
            if let Ok((_, n)) = &decodes {
                if a.buf.len() >= *n {
                    bail!(
                        "overslept",
                        "{}: a receiver that waits for the announced bytes waits for {} but the element {} has {}",
                        rd.name(),
                        wait_for,
                        hex(&rest[..*n]),
                        n
                    );
                }
            }
            sim.probe("slept-on-hint");
            return Ok(Act::Wait);
        }
        let got = rd.run(a.buf);
        sim.eval();
        sim.note(got.kind());
        sim.feat(&[rd.code(), a.buf[0] as u64, part(a.buf, der), got.kind(), matches!(missing, Ok(_)) as u64]);
        ev!(sim, "offset {} with {} bytes buffered: {} -> {:?}", a.off, a.buf.len(), rd.name(), short(&got));
        let ctx = format!("{} with {} of stream {}", rd.name(), hex(a.buf), hex(rest));
        // 1. a proper prefix of an element that decodes
        if let Ok((_, n)) = &decodes {
            if a.buf.len() < *n {
                match &got {
                    Out::Inc(h) => {
                        let left = n - a.buf.len();
                        if *h > left {
                            if known_der_hint(&rd, a.buf, *h) && sim.listed("R02", "der-hint-is-declared-length") {
                                sim.known.entry("der-hint-is-declared-length").or_insert_with(|| {
                                    format!(
                                        "{} on the {} buffered bytes {} asks for {} bytes, {} are missing (src/der/parser.rs, der_read_element_content_as)",
                                        rd.name(),
                                        a.buf.len(),
                                        hex(a.buf),
                                        h,
                                        left
                                    )
                                });
                                sim.probe("known-finding");
                                wait_for = 0;
                            } else {
                                bail!("hint-too-large", "{ctx}: asks for {h} bytes, {left} are missing");
                            }
                        } else {
                            wait_for = a.buf.len() + h;
                        }
                        return Ok(Act::Wait);
                    }
                    o => bail!("prefix-not-incomplete", "{ctx}: the element has {n} bytes, the answer is {:?}", short(o)),
                }
            }
        }
        wait_for = 0;
        // 2. all bytes that the element delimits have arrived
        match (&missing, &got) {
            (Ok(f), Out::Inc(_)) => {
                bail!("incomplete-without-reason", "{ctx}: the element is complete with {} bytes, the answer is {:?}", f.total, short(&got))
            }
            (Ok(f), Out::Ok(_, u)) => {
                if *u != f.total {
                    bail!("wrong-end", "{ctx}: the element has {} bytes, {u} were used", f.total);
                }
                k += 1;
                sim.probe("object");
                Ok(Act::Consumed(*u))
            }
            (Ok(_), Out::Err(..)) => {
                if decodes.is_ok() {
                    bail!("rejected", "{ctx}: complete and decodable, the answer is {:?}", short(&got));
                }
                sim.probe("rejected");
                Ok(Act::Close)
            }
            (Err(_), Out::Ok(_, u)) => {
                bail!("object-from-prefix", "{ctx}: an object using {u} bytes although the element is not complete")
            }
            (Err(E::More(_)), Out::Inc(_)) => Ok(Act::Wait),
            (Err(E::More(_)), Out::Err(..)) => Ok(Act::Close),
            (Err(_), Out::Inc(_)) => {
                // the header is wrong whatever follows: a final answer is due once it is there
                if a.eof || model::header(a.buf, der) == Err(E::Bad) {
                    bail!("incomplete-without-reason", "{ctx}: the header is not acceptable, the answer is {:?}", short(&got));
                }
                Ok(Act::Wait)
            }
            (Err(_), Out::Err(..)) => Ok(Act::Close),
        }
    })?;
    Ok(())
}

fn short(o: &Out) -> Out<()> {
    match o {
        Out::Ok(_, u) => Out::Ok((), *u),
        Out::Inc(n) => Out::Inc(*n),
        Out::Err(a, b, c) => Out::Err(a.clone(), *b, *c),
    }
}
