//! A received element decodes to exactly the value that was encoded.
use super::common::*;
use super::*;
use crate::gen::{self, Cfg};
use crate::model::{self, E};
use crate::readers::*;
use crate::sim::*;
use crate::snap::*;
use crate::{bail, ev};
use der_parser::ber::*;
use der_parser::der::*;

pub const PROP: Prop = Prop {
    id: "R07",
    run,
    quick: 3_500_000,
    thorough: 250_000_000,
    rule: "one run = a stream of 1-4 BER elements (all universal types, all classes, header forms, definite and indefinite lengths, also with content their type forbids) \
delivered under transport faults and possibly corrupted; each complete element is read by drawn generic, dedicated, other-type, header, slice and content readers; \
verdict, object and bytes used must be those of the reference decoder; evaluation = one reader on one element; \
distinct = hash of the sequence of (reader, first byte, size class, verdict)",
    measure: "(reader, first byte of the element, size class of the content, verdict)",
    ..BASE
};

fn agree(want: &Result<(model::Node, usize), E>, got: &Out) -> bool {
    match (want, got) {
        (Ok((n, u)), Out::Ok(g, v)) => n == g && u == v,
        (Err(E::More(_)), Out::Inc(_)) => true,
        (Err(E::More(n)), Out::Err(..)) => *n > u32::MAX as u64 / 2,
        (Err(E::Bad | E::Deep), Out::Err(..)) => true,
        _ => false,
    }
}

fn run(sim: &mut Sim) -> R {
    if is_giant(sim) {
        return giant(sim);
    }
    let mut cfg = Cfg::ber();
    cfg.max_depth = *sim.c.pick(&[3usize, 0, 1, 2, 5, 9]);
    cfg.max_kids = *sim.c.pick(&[3usize, 1, 2, 5, 12]);
    cfg.quirk = *sim.c.pick(&[2u64, 0, 6]);
    let n = 1 + sim.c.usize(4);
    let mut elems = gen::stream(sim, &cfg, n);
    if sim.c.chance(1, 5) {
        let i = sim.c.usize(n);
        gen::byzantine(sim, &mut elems[i]);
    }
    let mut bytes = Vec::new();
    for g in &elems {
        g.enc(&mut bytes);
    }
    if sim.c.chance(1, 6) {
        let k = 1 + sim.c.usize(2);
        corrupt(sim, &mut bytes, k);
    }
    ev!(sim, "stream {}", hex(&bytes));
    deliver(sim, bytes, &mut |sim, b| {
        let tag = peek_tag(b);
        let k = 2 + sim.c.usize(3);
        for _ in 0..k {
            let rd = match sim.c.weighted(&[6, 2, 1, 1]) {
                0 => pick_reader(sim, b, false),
                1 => Rd::Typed(false, sim.c.usize(TYPED_BER.len())),
                2 => {
                    // mostly another tag than the element's
                    let t = match sim.c.usize(4) {
                        0 => sim.c.usize(40) as u32,
                        1 => tag ^ (1 << sim.c.usize(32)),
                        2 => tag.wrapping_add(1),
                        _ => tag,
                    };
                    match sim.c.usize(3) {
                        0 => Rd::WithTag(true, t),
                        1 => Rd::AnyTagR(t, *sim.c.pick(&[50usize, 4, 1, 80])),
                        _ => Rd::WithTag(false, t),
                    }
                }
                _ => {
                    if sim.c.chance(1, 2) {
                        Rd::Typed(true, sim.c.usize(TYPED_DER.len()))
                    } else {
                        pick_reader(sim, b, true)
                    }
                }
            };
            let want = rd.model(b);
            let call = rd.call(b);
            if let Ok((_, o)) = &call {
                raw_tags(b, o, true)?;
            }
            let got = out(b, call, |o| snap(&o));
            sim.eval();
            sim.note(got.kind());
            let size = match &want {
                Ok((_, u)) => bucket(*u),
                _ => 99,
            };
            sim.feat(&[rd.code(), b[0] as u64, size, got.kind()]);
            ev!(sim, "{}: {}", rd.name(), show_out(&got));
            if !agree(&want, &got) {
                bail!(
                    match (&want, &got) {
                        (Ok(_), Out::Ok(..)) => "wrong-value",
                        (Ok(_), _) => "well-formed-rejected",
                        _ => "malformed-accepted",
                    },
                    "{} on {}: expected {}, got {}",
                    rd.name(),
                    hex(b),
                    show_want(&want),
                    show_out(&got)
                );
            }
            if matches!(got, Out::Ok(..)) {
                sim.probe("decoded");
            } else {
                sim.probe("rejected");
            }
        }
        parts(sim, b, tag)
    })
}

/// raw identifier octets kept in headers are those of the element
fn raw_tags(b: &[u8], o: &BerObject, top: bool) -> R {
    if let Some(t) = o.header.raw_tag() {
        if top && !(b.starts_with(t) && !t.is_empty()) {
            bail!("raw-tag", "raw tag {} of the object read from {}", hex(t), hex(b));
        }
        let want = model::header(t.iter().copied().chain([0]).collect::<Vec<u8>>().as_slice(), false);
        match want {
            Ok((h, n)) if n == t.len() + 1 && h.tag == o.header.tag().0 && h.class == class_no(o.header.class()) => (),
            _ => bail!("raw-tag", "raw tag {} of an object with tag {} read from {}", hex(t), o.header.tag().0, hex(b)),
        }
    }
    if let BerObjectContent::Sequence(v) | BerObjectContent::Set(v) = &o.content {
        for k in v {
            raw_tags(b, k, false)?;
        }
    }
    Ok(())
}

/// header, slice and undecoded readers
fn parts(sim: &mut Sim, b: &[u8], tag: u32) -> R {
    let der = sim.c.chance(1, 3);
    let wh = model::header(b, der);
    let gh = if der { ber_out(b, der_read_element_header(b)) } else { ber_out(b, ber_read_element_header(b)) };
    sim.eval();
    match (&wh, &gh) {
        (Ok((h, n)), Out::Ok(g, u)) if h == g && n == u => (),
        (Err(E::More(_)), Out::Inc(_)) | (Err(E::Bad), Out::Err(..)) => (),
        _ => bail!("header", "{}_read_element_header on {}: expected {wh:?}, got {gh:?}", if der { "der" } else { "ber" }, hex(b)),
    }
    let f = model::frame(b, false, model::MAX_REC);
    let got = out(b, parse_ber_any(b), |a| (hdr(&a.header), a.data.to_vec()));
    sim.eval();
    match (&f, &got) {
        (Ok(f), Out::Ok((h, d), u)) if f.hdr == *h && f.total == *u && b[f.hlen..f.hlen + f.clen] == d[..] => (),
        (Err(E::Bad | E::Deep), Out::Err(..)) => (),
        (Err(E::More(_)), Out::Inc(_) | Out::Err(..)) => (),
        _ => bail!("any", "parse_ber_any on {}: expected {f:?}, got {got:?}", hex(b)),
    }
    let t = if sim.c.chance(3, 4) { tag } else { sim.c.usize(40) as u32 };
    let got = if der { out(b, parse_der_slice(b, Tag(t)), |s| s.to_vec()) } else { out(b, parse_ber_slice(b, Tag(t)), |s| s.to_vec()) };
    let want = model::frame(b, der, model::MAX_REC).ok().filter(|f| f.hdr.tag == t);
    sim.eval();
    match (&want, &got) {
        (Some(f), Out::Ok(d, u)) if f.total == *u && b[f.hlen..f.hlen + f.clen] == d[..] => (),
        (None, Out::Err(..) | Out::Inc(_)) => (),
        _ => bail!("slice", "parse_{}_slice({t}) on {}: expected {:?}, got {got:?}", if der { "der" } else { "ber" }, hex(b), want),
    }
    Ok(())
}

fn ber_out<'a>(b: &'a [u8], r: der_parser::error::BerResult<'a, Header<'a>>) -> Out<model::Hdr> {
    out(b, r, |h| hdr(&h))
}
