use crate::gen::{self, Cfg, G};
use crate::model::{header, E};
use crate::readers::{draw, Rd};
use crate::sim::*;

/// tag announced by the first bytes (31 if not known yet)
pub fn peek_tag(b: &[u8]) -> u32 {
    match header(b, false) {
        Ok((h, _)) => h.tag,
        Err(_) => b.first().map_or(31, |x| (x & 0x1f) as u32),
    }
}

pub fn cfg_any(sim: &mut Sim) -> Cfg {
    let mut c = if sim.c.chance(1, 2) { Cfg::der() } else { Cfg::ber() };
    c.max_depth = *sim.c.pick(&[3usize, 1, 2, 5, 8]);
    c.max_kids = *sim.c.pick(&[3usize, 1, 2, 6]);
    c
}

/// a stream of elements as bytes, with end offsets of the intended elements; possibly faulty
pub struct Stream {
    pub bytes: Vec<u8>,
    pub ends: Vec<usize>,
    pub elems: Vec<G>,
    pub corrupted: bool,
}

pub fn make_stream(sim: &mut Sim, cfg: &Cfg, max: usize, faults: bool) -> Stream {
    let n = 1 + sim.c.usize(max);
    let mut elems = gen::stream(sim, cfg, n);
    let mut corrupted = false;
    if faults && sim.c.chance(1, 4) {
        let i = sim.c.usize(n);
        gen::byzantine(sim, &mut elems[i]);
        corrupted = true;
    }
    let mut bytes = Vec::new();
    let mut ends = Vec::new();
    for g in &elems {
        g.enc(&mut bytes);
        ends.push(bytes.len());
    }
    if faults && sim.c.chance(1, 3) {
        let k = 1 + sim.c.usize(3);
        corrupt(sim, &mut bytes, k);
        corrupted = true;
    }
    Stream { bytes, ends, elems, corrupted }
}

/// the reader a receiver uses for the element at the start of b
pub fn pick_reader(sim: &mut Sim, b: &[u8], der: bool) -> Rd {
    draw(sim, peek_tag(b), Some(der))
}

pub fn is_more(e: &E) -> bool {
    matches!(e, E::More(_))
}

/// Deliver a stream under transport faults; `f` is called for each element when its last byte has
/// arrived (with whatever follows it in the buffer), and once for bytes that delimit no element.
pub fn deliver(sim: &mut Sim, bytes: Vec<u8>, f: &mut dyn FnMut(&mut Sim, &[u8]) -> R) -> R {
    let flags = swarm(sim) & !F_RESET;
    run_net(sim, &[bytes], flags, &mut |sim: &mut Sim, a: Arrival| {
        if a.buf.is_empty() {
            return Ok(Act::Wait);
        }
        match crate::model::frame(a.buf, false, crate::model::MAX_REC) {
            Err(E::More(_)) => Ok(Act::Wait),
            Err(_) => {
                f(sim, a.buf)?;
                Ok(Act::Close)
            }
            Ok(fr) => {
                f(sim, a.buf)?;
                Ok(Act::Consumed(fr.total))
            }
        }
    })?;
    Ok(())
}

pub fn show_node(n: &crate::model::Node) -> String {
    let s = format!("{n:?}");
    if s.len() > 600 {
        let cut = (0..=600).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0);
        format!("{}...", &s[..cut])
    } else {
        s
    }
}

pub fn show_out(o: &crate::snap::Out) -> String {
    use crate::snap::Out;
    match o {
        Out::Ok(n, u) => format!("{} using {u} bytes", show_node(n)),
        Out::Inc(n) => format!("incomplete({n})"),
        Out::Err(e, _, _) => format!("error {e}"),
    }
}

pub fn show_want(w: &Result<(crate::model::Node, usize), E>) -> String {
    match w {
        Ok((n, u)) => format!("{} using {u} bytes", show_node(n)),
        Err(E::More(n)) => format!("incomplete({n})"),
        Err(E::Bad) => "a rejection".into(),
        Err(E::Deep) => "the maximum-depth error".into(),
    }
}

/// An element of a megabyte or more, received in a few pieces, decoded and encoded again. The judgement is direct:
/// nothing but the last byte completes it, and nothing is lost.
pub fn giant(sim: &mut Sim) -> R {
    use crate::model::{enc_header, tags::*, Val};
    use crate::snap::{snap, Out};
    use crate::{bail, ev};
    let l = *sim.c.pick(&[1usize << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, 5_000_000]);
    let der = sim.c.chance(1, 2);
    let mut fill = crate::choice::Rng::new(sim.c.raw());
    let mut data: Vec<u8> = Vec::with_capacity(l + 8);
    while data.len() < l {
        data.extend_from_slice(&fill.next().to_le_bytes());
    }
    data.truncate(l);
    let k = sim.c.usize(8).min(5);
    let (class, cons, tag) = match k {
        5 => (0, true, SET),
        0 => (0, false, OCTETS),
        1 => (0, false, INT),
        2 => (2, true, 5),
        3 => (0, false, BITS),
        _ => (0, true, SEQ),
    };
    match k {
        1 => data[0] = 0x40,
        3 => data[0] = 0,
        4 => {
            // a sequence of one large member and a small one
            let h = enc_header(0, false, OCTETS, l - 20);
            data.truncate(l - 20);
            let mut v = h;
            v.append(&mut data);
            v.extend_from_slice(&[5, 0]);
            data = v;
        }
        5 => {
            // very many members
            data.clear();
            for m in 0..many(sim) {
                data.extend_from_slice(&[4, 3, (m >> 16) as u8, (m >> 8) as u8, m as u8]);
            }
        }
        _ => (),
    }
    let mut elem = enc_header(class, cons, tag, data.len());
    let hlen = elem.len();
    elem.extend_from_slice(&data);
    let n = elem.len();
    let after = sim.c.usize(4);
    let mut buf = elem.clone();
    buf.extend_from_slice(&[5, 0, 5, 0][..after]);
    ev!(sim, "element of {n} bytes: {}", hex(&elem[..20]));
    let mut cuts = vec![hlen, hlen + sim.c.usize(n - hlen), n - 1, n, n + after];
    cuts.sort_unstable();
    let rd = if class == 0 && sim.c.chance(1, 2) { draw(sim, tag, Some(der)) } else { Rd::Gen(der) };
    for at in cuts {
        sim.now += 1_000_000;
        sim.eval();
        let b = &buf[..at];
        if at < n {
            match rd.run(b) {
                Out::Inc(_) => (),
                o => bail!("giant-not-incomplete", "{} with {at} of the {n} bytes of {}: {}", rd.name(), hex(&elem[..20]), show_out(&o)),
            }
            continue;
        }
        let (rem, o) = match rd.call(b) {
            Ok(x) => x,
            Err(_) => bail!("giant-rejected", "{} rejects or waits with all {n} bytes of {} and {} more", rd.name(), hex(&elem[..20]), at - n),
        };
        if rem.len() != at - n {
            bail!("giant-wrong-end", "{} leaves {} instead of {} bytes after {}", rd.name(), rem.len(), at - n, hex(&elem[..20]));
        }
        let same = match &snap(&o).val {
            Val::Octets(d) | Val::Int(d) | Val::Unknown(_, d) => *d == data,
            Val::Bits(0, d) => *d == data[1..],
            Val::Seq(m) => m.len() == 2 && m[1].val == Val::Null && matches!(&m[0].val, Val::Octets(d) if d.len() == l - 20),
            Val::Set(m) => m.len() == data.len() / 5 && m.iter().zip(data.chunks(5)).all(|(x, d)| matches!(&x.val, Val::Octets(o) if *o == d[2..])),
            _ => false,
        };
        if !same {
            bail!("giant-wrong-value", "{} reads another value from {}", rd.name(), hex(&elem[..20]));
        }
        match o.to_vec() {
            Ok(v) if v == elem => (),
            Ok(v) => bail!("giant-wrong-bytes", "{} decoded by {} encodes to {} bytes {}", hex(&elem[..20]), rd.name(), v.len(), hex(&v[..20])),
            Err(e) => bail!("giant-encode-failed", "{}: {e}", hex(&elem[..20])),
        }
    }
    sim.feat(&[99, k as u64, l as u64, rd.code()]);
    sim.probe("giant-element");
    Ok(())
}

/// more members than counters of 15 or 16 bits can number
fn many(sim: &mut Sim) -> usize {
    *sim.c.pick(&[65_600usize, 32_767, 32_768, 32_800, 65_535, 65_536, 65_537, 70_000])
}

/// a list of very many distinct members
pub fn wide(sim: &mut Sim) -> crate::model::Node {
    use crate::model::{enc_content, tags::*, Hdr, Len, Node, Val};
    let kids: Vec<Node> = (0..many(sim))
        .map(|m| Node { hdr: Hdr { class: 0, cons: false, tag: OCTETS, len: Len::Def(3) }, val: Val::Octets(vec![(m >> 16) as u8, (m >> 8) as u8, m as u8]) })
        .collect();
    let (tag, val) = if sim.c.chance(1, 2) { (SEQ, Val::Seq(kids)) } else { (SET, Val::Set(kids)) };
    let l = enc_content(&val).len() as u64;
    sim.probe("very-many-members");
    Node { hdr: Hdr { class: 0, cons: true, tag, len: Len::Def(l) }, val }
}

/// rarely true: the run deals with a list of very many members
pub fn is_wide(sim: &mut Sim) -> bool {
    sim.c.chance(1, 150_000)
}

/// rarely true: the run deals with a giant element
pub fn is_giant(sim: &mut Sim) -> bool {
    sim.c.chance(1, 100_000)
}
