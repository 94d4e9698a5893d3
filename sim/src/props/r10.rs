//! Encoding and decoding are inverse, end to end over relays.
use super::common::*;
use super::r03::any_kind;
use super::*;
use crate::comb::{self, CRes, CVal, K};
use crate::gen;
use crate::model::{self, tags::*, Hdr, Len, Node, Val};
use crate::readers::*;
use crate::sim::*;
use crate::snap::*;
use crate::{bail, ev};
use cookie_factory::gen_simple;
use der_parser::asn1_rs::{ASN1DateTime, ASN1TimeZone, Oid};
use der_parser::ber::*;
use der_parser::der::*;

pub const PROP: Prop = Prop {
    id: "R10",
    run,
    quick: 5_000_000,
    thorough: 350_000_000,
    rule: "one run = a message that travels: an object decoded from a received stream, or built from values by a program, is encoded, sent over a fragmenting, reordering, \
duplicating and crashing transport, decoded, and relayed again 1-3 times; at every hop the bytes must be those of the reference encoder and the object equal to the original \
(definite lengths); also tagged/implicit/optional wrapping and unwrapping and the header and raw encoders; evaluation = one encode or decode judged; \
distinct = hash of the sequence of (scenario, type, size class)",
    measure: "(scenario, first byte of the encoding, size class of the encoding)",
    ..BASE
};

pub fn uni(tag: u32, cons: bool) -> Hdr {
    Hdr { class: 0, cons, tag, len: Len::Def(0) }
}

/// value of a universal type that has one
pub fn leaf(sim: &mut Sim, b: &[u8]) -> (u32, Val) {
    let tag = *sim.c.pick(&gen::LEAF_TAGS);
    if !b.is_empty() && sim.c.chance(1, 6) {
        let n = sim.c.usize(b.len().min(40) + 1);
        let d = b[..n].to_vec();
        return if sim.c.chance(1, 2) { (INT, Val::Int(d)) } else { (OCTETS, Val::Octets(d)) };
    }
    let d = gen::good_content(sim, tag, false, true);
    let h = Hdr { class: 0, cons: false, tag, len: Len::Def(d.len() as u64) };
    match model::value(&h, &d, 50, false) {
        Ok(v) => {
            let v = match v {
                // headers of built objects carry no length
                Val::Unknown(mut h, d) => {
                    h.len = Len::Def(0);
                    Val::Unknown(h, d)
                }
                v => v,
            };
            (tag, v)
        }
        Err(_) => (NULL, Val::Null),
    }
}

/// an object a program may build; `b` is a source of content bytes
pub fn built(sim: &mut Sim, b: &[u8]) -> Node {
    let depth = *sim.c.pick(&[2usize, 0, 1, 4]);
    build_at(sim, b, depth)
}

fn build_at(sim: &mut Sim, b: &[u8], depth: usize) -> Node {
    let k = if depth == 0 { 0 } else { sim.c.weighted(&[6, 5, 2, 2, 2]) };
    match k {
        0 => {
            let (tag, val) = leaf(sim, b);
            Node { hdr: uni(tag, false), val }
        }
        1 => {
            let l: Vec<Node> = if sim.c.chance(1, 600) {
                let n = gen::width(sim, true);
                let mut l: Vec<Node> =
                    (0..n as u64).map(|i| Node { hdr: uni(INT, false), val: Val::Int(gen::count_content(i)) }).collect();
                for _ in 0..sim.c.usize(4) {
                    let at = sim.c.usize(n);
                    l[at] = build_at(sim, b, 1);
                }
                l
            } else {
                let n = sim.c.small(6);
                (0..n).map(|_| build_at(sim, b, depth - 1)).collect()
            };
            if sim.c.chance(1, 2) {
                Node { hdr: uni(SET, true), val: Val::Set(l) }
            } else {
                Node { hdr: uni(SEQ, true), val: Val::Seq(l) }
            }
        }
        2 => {
            let x = build_at(sim, b, depth - 1);
            let class = 1 + sim.c.usize(3) as u8;
            let tag = gen::tag_no(sim);
            Node { hdr: Hdr { class, cons: true, tag, len: Len::Def(0) }, val: Val::Tagged(class, tag, Box::new(x)) }
        }
        3 => {
            if sim.c.chance(1, 3) {
                Node { hdr: uni(0, false), val: Val::Opt(None) }
            } else {
                let mut x = build_at(sim, b, depth - 1);
                if let Val::Opt(_) = x.val {
                    x = Node { hdr: uni(NULL, false), val: Val::Null };
                }
                Node { hdr: x.hdr.clone(), val: Val::Opt(Some(Box::new(x))) }
            }
        }
        _ => {
            let class = 1 + sim.c.usize(3) as u8;
            let h = Hdr { class, cons: sim.c.chance(1, 3), tag: gen::tag_no(sim), len: Len::Def(0) };
            let n = sim.c.small(200);
            let d = gen::fill(sim, n);
            Node { hdr: h.clone(), val: Val::Unknown(h, d) }
        }
    }
}

/// what the generic reader sees of the encoding of a built object
pub fn plain(n: &Node) -> Option<Node> {
    match &n.val {
        Val::Opt(None) => None,
        Val::Opt(Some(x)) => plain(x),
        Val::Tagged(..) => Some(Node { hdr: n.hdr.clone(), val: Val::Unknown(n.hdr.clone(), model::enc_content(&n.val)) }),
        Val::Seq(l) => Some(Node { hdr: n.hdr.clone(), val: Val::Seq(l.iter().filter_map(plain).collect()) }),
        Val::Set(l) => Some(Node { hdr: n.hdr.clone(), val: Val::Set(l.iter().filter_map(plain).collect()) }),
        _ => Some(n.clone()),
    }
}

/// send bytes, give back what arrived when all of it did
fn send(sim: &mut Sim, bytes: &[u8]) -> R<Vec<u8>> {
    let flags = swarm(sim) & !F_RESET;
    let mut got = Vec::new();
    let n = bytes.len();
    run_net(sim, &[bytes.to_vec()], flags, &mut |_, a: Arrival| {
        if a.buf.len() < n {
            return Ok(Act::Wait);
        }
        got = a.buf.to_vec();
        Ok(Act::Close)
    })?;
    if n > 0 && got != bytes {
        bail!("harness", "transport delivered {} instead of {}", hex(&got), hex(bytes));
    }
    Ok(got)
}

fn to_vec(o: &BerObject) -> R<Vec<u8>> {
    o.to_vec().or_else(|e| viol("encode-failed", format!("to_vec of {}: {e}", show_node(&snap(o)))))
}

fn same_bytes(what: &str, n: &Node, got: &[u8], want: &[u8]) -> R {
    if got != want {
        bail!("wrong-bytes", "{what} of {}: got {}, expected {}", show_node(n), hex(got), hex(want));
    }
    Ok(())
}

/// relay: encode, send, decode with `rd`, any number of times
fn relay(sim: &mut Sim, code: u64, start: &Node, o: &BerObject, rd: &dyn Fn(&[u8]) -> Option<(Node, usize)>, name: &str) -> R {
    let hops = 1 + sim.c.weighted(&[4, 2, 1]);
    let want_obj = model::definite(start);
    let mut bytes = to_vec(o)?;
    for hop in 0..hops {
        sim.eval();
        let want = model::encode(start);
        sim.feat(&[code, want.first().copied().unwrap_or(0) as u64, bucket(want.len())]);
        same_bytes("encoding", start, &bytes, &want)?;
        ev!(sim, "hop {hop}: {} sent", hex(&bytes));
        let got = send(sim, &bytes)?;
        sim.note_bytes(&got);
        let Some((n, u)) = rd(&got) else {
            bail!("not-decodable", "{name} does not accept {}, the encoding of {}", hex(&got), show_node(start));
        };
        sim.eval();
        if u != got.len() || n != want_obj {
            bail!("round-trip", "{} was encoded as {}, {name} gives {} using {u} bytes", show_node(&want_obj), hex(&got), show_node(&n));
        }
        let o = build(&n);
        equality(sim, &n, &want_obj, &o)?;
        bytes = to_vec(&o)?;
        sim.probe("hop");
    }
    Ok(())
}

/// the library's own notion of equality, and copies
fn equality(sim: &mut Sim, n: &Node, want: &Node, o: &BerObject) -> R {
    if sim.c.chance(7, 8) {
        return Ok(());
    }
    let first = build(want);
    sim.eval();
    if first != *o || first.content != o.content || !(first == o.clone()) {
        bail!("not-equal", "the object {} is not equal to the one received back", show_node(want));
    }
    // another value of the same type, somewhere in the tree
    let other = differ(sim, n);
    if build(&other) == first {
        bail!("equal", "{} is equal to {}", show_node(&other), show_node(n));
    }
    Ok(())
}

/// a node with one difference
fn differ(sim: &mut Sim, n: &Node) -> Node {
    let mut m = n.clone();
    match &mut m.val {
        Val::Seq(l) | Val::Set(l) if !l.is_empty() && sim.c.chance(3, 4) => {
            let at = sim.c.usize(l.len());
            if sim.c.chance(1, 4) {
                l.remove(at);
            } else {
                l[at] = differ(sim, &l[at].clone());
            }
        }
        Val::Opt(Some(x)) | Val::Tagged(_, _, x) if sim.c.chance(3, 4) => **x = differ(sim, &(**x).clone()),
        Val::Int(d) | Val::Octets(d) | Val::Oid(d) | Val::RelOid(d) | Val::Bmp(d) | Val::Univ(d) | Val::Bits(_, d) if sim.c.chance(3, 4) => {
            if d.is_empty() || sim.c.chance(1, 4) {
                d.push(0);
            } else {
                let at = sim.c.usize(d.len());
                d[at] ^= 1 << sim.c.usize(8);
            }
        }
        Val::Str(_, s) if sim.c.chance(3, 4) => s.push(' '),
        _ => match sim.c.usize(3) {
            0 => m.hdr.tag ^= 1,
            1 => m.hdr.cons = !m.hdr.cons,
            _ => m.hdr.class ^= 1,
        },
    }
    m
}

fn run(sim: &mut Sim) -> R {
    if is_giant(sim) {
        return giant(sim);
    }
    match sim.c.weighted(&[5, 4, 3, 2, 2]) {
        0 => decoded(sim),
        1 => built_objects(sim),
        2 => tagging(sim),
        3 => combinators(sim),
        _ => headers(sim),
    }
}

fn decoded(sim: &mut Sim) -> R {
    let mut cfg = cfg_any(sim);
    cfg.quirk = 0;
    let n = 1 + sim.c.usize(3);
    let elems = gen::stream(sim, &cfg, n);
    let mut bytes = Vec::new();
    for g in &elems {
        g.enc(&mut bytes);
    }
    let canonical = cfg.der && elems.iter().all(no_time);
    ev!(sim, "received {}", hex(&bytes));
    deliver(sim, bytes, &mut |sim, b| {
        let d = cfg.der && sim.c.chance(1, 2);
        let rd = if sim.c.chance(2, 3) { Rd::Gen(d) } else { pick_reader(sim, b, d) };
        let Ok((_, o)) = rd.call(b) else { return Ok(()) };
        let n = snap(&o);
        let Ok((w, u)) = rd.model(b) else { return Ok(()) };
        if w != n {
            // judged by R07
            return Ok(());
        }
        if canonical && matches!(rd, Rd::Gen(_)) {
            let v = to_vec(&o)?;
            sim.eval();
            if v != b[..u] {
                bail!("not-reproduced", "{} decoded by {} encodes to {}", hex(&b[..u]), rd.name(), hex(&v));
            }
            sim.probe("canonical-reproduced");
        }
        // the same object written through the other interfaces
        if sim.c.chance(1, 4) {
            let h = o.header.clone();
            let want_content = model::enc_content(&n.val);
            let raw = gen_simple(ber_encode_object_raw(&h, &o.content), Vec::new());
            let mut want = match n.hdr.len {
                Len::Def(l) => model::enc_header(n.hdr.class, n.hdr.cons, n.hdr.tag, l as usize),
                Len::Indef => {
                    let mut v = model::enc_header(n.hdr.class, n.hdr.cons, n.hdr.tag, 0);
                    v.pop();
                    v.push(0x80);
                    v
                }
            };
            want.extend(want_content);
            sim.eval();
            match raw {
                Ok(v) => same_bytes("ber_encode_object_raw", &n, &v, &want)?,
                Err(e) => bail!("encode-failed", "ber_encode_object_raw of {}: {e}", show_node(&n)),
            }
        }
        relay(sim, 1, &n, &o, &|b| ok(rd.run(b)), &rd.name())
    })
}

fn no_time(g: &gen::G) -> bool {
    match &g.body {
        gen::Body::Prim(d) => g.class != 0 || (g.tag != UTC && g.tag != GENTIME && !(g.tag == ENUM && d.len() > 1 && d[0] == 0)),
        gen::Body::Kids(k) => k.iter().all(no_time),
    }
}

fn ok(o: Out) -> Option<(Node, usize)> {
    match o {
        Out::Ok(n, u) => Some((n, u)),
        _ => None,
    }
}

fn built_objects(sim: &mut Sim) -> R {
    let n = built(sim, &[]);
    ev!(sim, "built {}", show_node(&n));
    let o = build(&n);
    constructors(sim, &n)?;
    if sim.c.chance(1, 16) {
        let eoc = Node { hdr: uni(model::tags::EOC, false), val: Val::Eoc };
        constructors(sim, &eoc)?;
        same_bytes("encoding", &eoc, &to_vec(&build(&eoc))?, &[0, 0])?;
        // wider than the reader accepts
        let e = if sim.c.chance(1, 2) { gen::edge_u64(sim) } else { sim.c.raw() >> sim.c.usize(64) };
        let e = Node { hdr: uni(model::tags::ENUM, false), val: Val::Enum(e) };
        constructors(sim, &e)?;
        same_bytes("encoding", &e, &to_vec(&build(&e))?, &model::encode(&e))?;
        // a time with its full year, of which two digits are written
        let t = ASN1DateTime::new(
            1950 + sim.c.usize(100) as u32,
            1 + sim.c.usize(12) as u8,
            1 + sim.c.usize(28) as u8,
            sim.c.usize(24) as u8,
            sim.c.usize(60) as u8,
            sim.c.usize(60) as u8,
            None,
            match sim.c.usize(3) {
                0 => ASN1TimeZone::Z,
                1 => ASN1TimeZone::Undefined,
                _ => ASN1TimeZone::Offset(sim.c.usize(24) as i8 - 11, sim.c.usize(60) as i8),
            },
        );
        let e = Node { hdr: uni(model::tags::UTC, false), val: Val::Utc(t) };
        same_bytes("encoding", &e, &to_vec(&build(&e))?, &model::encode(&e))?;
    }
    let v = to_vec(&o)?;
    sim.eval();
    same_bytes("encoding", &n, &v, &model::encode(&n))?;
    match plain(&n) {
        None => {
            sim.probe("absent-encodes-to-nothing");
            Ok(())
        }
        Some(p) => relay(sim, 2, &p, &o, &|b| ok(Rd::Gen(false).run(b)), "parse_ber"),
    }
}

/// the constructors of the library make the same object as its parts
fn constructors(sim: &mut Sim, n: &Node) -> R {
    let check = |what: &str, o: BerObject, h: Hdr| -> R {
        let s = snap(&o);
        if s.val != n.val || s.hdr.class != h.class || s.hdr.cons != h.cons || s.hdr.tag != h.tag {
            bail!("constructor", "{what} made {} instead of {} with header {h:?}", show_node(&s), show_node(n));
        }
        Ok(())
    };
    let tag = match &n.val {
        Val::Opt(Some(x)) => {
            let mut x = x;
            while let Val::Opt(Some(y)) = &x.val {
                x = y;
            }
            x.hdr.tag
        }
        Val::Opt(None) => 0,
        _ => n.hdr.tag,
    };
    let h = uni(tag, tag == SEQ || tag == SET);
    check("from_obj", BerObject::from_obj(build_val(&n.val)), h.clone())?;
    check("From<BerObjectContent>", BerObject::from(build_val(&n.val)), h.clone())?;
    match &n.val {
        Val::Int(d) => check("from_int_slice", BerObject::from_int_slice(d), h)?,
        Val::Seq(l) => check("from_seq", BerObject::from_seq(l.iter().map(build).collect()), h)?,
        Val::Set(l) => check("from_set", BerObject::from_set(l.iter().map(build).collect()), h)?,
        Val::Oid(d) => check("From<Oid>", BerObject::from(Oid::new(d.as_slice().into())), h)?,
        _ => (),
    }
    // an optional object has the tag of what it holds, whatever that object's own header says
    if !matches!(n.val, Val::Opt(_) | Val::Tagged(..) | Val::Unknown(..)) && n.hdr.class == 0 && sim.c.chance(1, 2) {
        let mut y = n.clone();
        y.hdr.class = sim.c.usize(4) as u8;
        y.hdr.tag = gen::tag_no(sim);
        let mut w = Val::Opt(Some(Box::new(y)));
        if sim.c.chance(1, 4) {
            w = Val::Opt(Some(Box::new(Node { hdr: uni(gen::tag_no(sim), false), val: w })));
        }
        let s = snap(&BerObject::from_obj(build_val(&w)));
        if s.val != w || s.hdr.class != 0 || s.hdr.tag != n.hdr.tag || s.hdr.cons != (n.hdr.tag == SEQ || n.hdr.tag == SET) {
            bail!("constructor", "from_obj of {w:?} made {}", show_node(&s));
        }
        sim.eval();
    }
    // a raw tag is carried along and changes nothing else
    if sim.c.chance(1, 4) {
        let k = sim.c.usize(4);
        let raw = gen::fill(sim, k);
        let o = build(n).set_raw_tag(Some(&raw));
        let back = o.clone().set_raw_tag(None);
        if o.header.raw_tag() != Some(&raw[..]) || back.header.raw_tag().is_some() || snap(&o) != *n || snap(&back) != *n {
            bail!("constructor", "set_raw_tag({}) of {} gives {} with raw tag {:?}", hex(&raw), show_node(n), show_node(&snap(&o)), o.header.raw_tag());
        }
        same_bytes("encoding with a raw tag", n, &to_vec(&o)?, &model::encode(n))?;
    }
    sim.eval();
    Ok(())
}

/// explicit and implicit tagging around any object, and back
fn tagging(sim: &mut Sim) -> R {
    let der = sim.c.chance(1, 3);
    if sim.c.chance(1, 40) {
        // explicit tagging of an absent object: constructed, and empty
        let (class, tag) = (1 + sim.c.usize(3) as u8, gen::tag_no(sim));
        let o = BerObject::from_obj(BerObjectContent::Optional(None));
        let n = snap(&o);
        return match gen_simple(ber_encode_tagged_explicit(Tag(tag), class_of(class), &o), Vec::new()) {
            Ok(v) => same_bytes("ber_encode_tagged_explicit", &n, &v, &model::enc_header(class, true, tag, 0)),
            Err(e) => bail!("encode-failed", "ber_encode_tagged_explicit of an absent object: {e}"),
        };
    }
    // an object that its own generic reader accepts
    let n = loop_plain(sim);
    let o = build(&n);
    let class = if sim.c.chance(1, 8) { 0 } else { 1 + sim.c.usize(3) as u8 };
    let tag = gen::tag_no(sim);
    let inner = model::encode(&n);
    if sim.c.chance(1, 2) {
        let v = match gen_simple(ber_encode_tagged_explicit(Tag(tag), class_of(class), &o), Vec::new()) {
            Ok(v) => v,
            Err(e) => bail!("encode-failed", "ber_encode_tagged_explicit of {}: {e}", show_node(&n)),
        };
        let mut want = model::enc_header(class, true, tag, inner.len());
        want.extend_from_slice(&inner);
        sim.eval();
        sim.feat(&[3, v.first().copied().unwrap_or(0) as u64, bucket(v.len())]);
        same_bytes("ber_encode_tagged_explicit", &n, &v, &want)?;
        let got = send(sim, &v)?;
        let want = if class == 0 { Err(()) } else { Ok(model::definite(&n)) };
        if der && model::element(&inner, model::MAX_REC, true).is_err() {
            return Ok(());
        }
        for k in [K::Expl(tag), K::ExplG(tag), K::ExplOpt(tag)] {
            let r = comb::real(k, der, 0, &got, &mut |_| {});
            sim.eval();
            let back = match &r {
                CRes::Ok(CVal::Obj(x), u) if *u == got.len() => unwrap_tagged(x, class, tag),
                _ => None,
            };
            match (&want, back) {
                (Ok(w), Some(x)) if *w == x => (),
                (Err(()), None) => (),
                _ => bail!("explicit-round-trip", "{} explicitly tagged [{class} {tag}] is {}; {} gives {r:?}", show_node(&n), hex(&got), k.name(der)),
            }
        }
        sim.probe("explicit");
    } else {
        let v = match gen_simple(ber_encode_tagged_implicit(Tag(tag), class_of(class), &o), Vec::new()) {
            Ok(v) => v,
            Err(e) => bail!("encode-failed", "ber_encode_tagged_implicit of {}: {e}", show_node(&n)),
        };
        let c = model::enc_content(&n.val);
        let mut want = model::enc_header(class, n.hdr.cons, tag, c.len());
        want.extend_from_slice(&c);
        sim.eval();
        sim.feat(&[4, v.first().copied().unwrap_or(0) as u64, bucket(v.len())]);
        same_bytes("ber_encode_tagged_implicit", &n, &v, &want)?;
        if n.hdr.class != 0 || matches!(n.val, Val::Unknown(..)) || (der && model::element(&inner, model::MAX_REC, true).is_err()) {
            return Ok(());
        }
        let got = send(sim, &v)?;
        for k in [K::Impl(tag), K::ImplG(tag), K::Implicit(tag), K::OptImpl(tag)] {
            let r = comb::real(k, der, n.hdr.tag, &got, &mut |_| {});
            sim.eval();
            let back = match &r {
                CRes::Ok(CVal::Obj(x), u) if *u == got.len() => match &x.val {
                    Val::Opt(Some(y)) => Some(&y.val),
                    v => Some(v),
                },
                _ => None,
            };
            if back != Some(&model::definite(&n).val) {
                bail!("implicit-round-trip", "{} implicitly tagged [{class} {tag}] is {}; {} gives {r:?}", show_node(&n), hex(&got), k.name(der));
            }
        }
        sim.probe("implicit");
    }
    Ok(())
}

fn unwrap_tagged(x: &Node, class: u8, tag: u32) -> Option<Node> {
    match &x.val {
        Val::Opt(Some(y)) => unwrap_tagged(y, class, tag),
        Val::Tagged(c, t, y) if *c == class && *t == tag => Some((**y).clone()),
        _ => None,
    }
}

fn loop_plain(sim: &mut Sim) -> Node {
    let n = built(sim, &[]);
    plain(&n).unwrap_or(Node { hdr: uni(NULL, false), val: Val::Null })
}

/// objects obtained from combinators (tagged, optional, implicit) encode to what they were read from
fn combinators(sim: &mut Sim) -> R {
    let cfg = cfg_any(sim);
    let mut g = gen::element(sim, &cfg, 0);
    if sim.c.chance(2, 3) {
        // wrapped
        let mut w = gen::G::kids(0, vec![g]);
        w.class = 1 + sim.c.usize(3) as u8;
        w.tag = gen::tag_no(sim);
        if !cfg.der && sim.c.chance(1, 4) {
            w.lform = gen::LenForm::Indef;
        }
        g = w;
    }
    let b = g.bytes();
    let tag = peek_tag(&b);
    let k = match sim.c.usize(7) {
        0 => K::Expl(tag),
        1 => K::ExplOpt(tag),
        2 => K::Impl(tag),
        3 => K::OptImpl(tag),
        4 => K::Opt,
        5 => K::Implicit(tag),
        _ => any_kind(sim, tag),
    };
    if matches!(k, K::SeqDefG | K::SetDefG | K::Cont | K::Slice(_) | K::SeqOfV | K::SetOfV | K::ImplG(_)) {
        return Ok(());
    }
    let inner = *sim.c.pick(&[SEQ, SET, OCTETS, INT, UTF8, OID, IA5]);
    let der = cfg.der && sim.c.chance(1, 2);
    ev!(sim, "{} on {}", k.name(der), hex(&b));
    let got = send(sim, &b)?;
    let Some(Ok((want, _))) = comb::real_expect(k, der, inner, &got) else { return Ok(()) };
    let r = comb::real(k, der, inner, &got, &mut |_| {});
    if !comb::real_fits(&Ok((want.clone(), got.len())), &r) {
        // judged by R11 and R12
        return Ok(());
    }
    let CRes::Ok(CVal::Obj(n), _) = r else { return Ok(()) };
    if matches!(n.val, Val::Opt(None)) {
        let v = to_vec(&build(&n))?;
        return same_bytes("encoding", &n, &v, &[]);
    }
    let o = build(&n);
    relay(
        sim,
        5,
        &n,
        &o,
        &|b| match comb::real(k, der, inner, b, &mut |_| {}) {
            // objects of the list combinators carry no length
            CRes::Ok(CVal::Obj(n), u) => Some((model::definite(&n), u)),
            _ => None,
        },
        &k.name(der),
    )
}

/// headers: any class, form, tag and length
fn headers(sim: &mut Sim) -> R {
    let h = Hdr {
        class: sim.c.usize(4) as u8,
        cons: sim.c.chance(1, 2),
        tag: match sim.c.usize(3) {
            0 => gen::tag_no(sim),
            1 => sim.c.raw() as u32,
            _ => {
                let s = sim.c.usize(32);
                (sim.c.raw() as u32) >> s
            }
        },
        len: match sim.c.usize(4) {
            0 => Len::Indef,
            1 => Len::Def(*sim.c.pick(&[0u64, 1, 127, 128, 255, 256, 65535, 65536, 1 << 24, u32::MAX as u64])),
            _ => {
                let s = sim.c.usize(32);
                Len::Def((sim.c.raw() as u32 as u64) >> s)
            }
        },
    };
    let want = match h.len {
        Len::Def(l) => model::enc_header(h.class, h.cons, h.tag, l as usize),
        Len::Indef => {
            let mut v = model::enc_header(h.class, h.cons, h.tag, 0);
            v.pop();
            v.push(0x80);
            v
        }
    };
    let header = mk_header(&h);
    let v = match gen_simple(ber_encode_header(&header), Vec::new()) {
        Ok(v) => v,
        Err(e) => bail!("encode-failed", "ber_encode_header of {h:?}: {e}"),
    };
    sim.eval();
    sim.feat(&[6, v.first().copied().unwrap_or(0) as u64, v.len() as u64]);
    if v != want {
        bail!("wrong-bytes", "ber_encode_header of {h:?}: got {}, expected {}", hex(&v), hex(&want));
    }
    let got = send(sim, &v)?;
    let back = out(&got, ber_read_element_header(&got), |h| hdr(&h));
    match &back {
        Out::Ok(g, u) if *g == h && *u == got.len() => (),
        Out::Err(..) if h.len == Len::Indef && !h.cons => (),
        _ => bail!("header-round-trip", "header {h:?} encoded as {}: ber_read_element_header gives {back:?}", hex(&got)),
    }
    let back = out(&got, der_read_element_header(&got), |h| hdr(&h));
    match &back {
        Out::Ok(g, u) if *g == h && *u == got.len() => (),
        Out::Err(..) if h.len == Len::Indef => (),
        _ => bail!("header-round-trip", "header {h:?} encoded as {}: der_read_element_header gives {back:?}", hex(&got)),
    }
    Ok(())
}
