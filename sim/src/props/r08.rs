//! Accessors return the exact value or an error, never a wrong value.
use super::common::*;
use super::r03::any_kind;
use super::*;
use crate::comb;
use crate::gen::{self, G};
use crate::model::{tags::*, Node, Val};
use crate::sim::*;
use crate::snap::*;
use crate::{bail, ev};
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::BerError;

pub const PROP: Prop = Prop {
    id: "R08",
    run,
    quick: 8_000_000,
    thorough: 600_000_000,
    rule: "one run = a stream of 1-3 elements (two thirds numeric: integers around every width and sign boundary, enumerated values, bit strings of 0-20 octets with 0-255 declared unused bits), \
from a correct or faulty encoder, corrupted and delivered under transport faults; or an object built by the program, or wrapped by a tagged/optional combinator; every accessor, iterator (several, interleaved), \
index and number reader is called on the object and on its descendants and judged by reference arithmetic on the content octets; evaluation = one object with all its accessors, or one number reader; \
distinct = hash of the sequence of (content type, size class, sign, verdicts)",
    measure: "(content type, size class of the content, sign and verdict of each number accessor)",
    ..BASE
};

/// two's complement contents as sign and magnitude without leading zero octets
fn magnitude(d: &[u8]) -> (bool, Vec<u8>) {
    let neg = d.first().map_or(false, |b| b & 0x80 != 0);
    let mut m: Vec<u8> = d.to_vec();
    if neg {
        let mut carry = 1u16;
        for b in m.iter_mut().rev() {
            let v = (!*b) as u16 + carry;
            *b = v as u8;
            carry = v >> 8;
        }
        if carry > 0 {
            m.insert(0, 1);
        }
    }
    let z = m.iter().take_while(|b| **b == 0).count();
    (neg, m[z..].to_vec())
}

/// exact value when it fits in i128
fn exact(d: &[u8]) -> Option<i128> {
    let (neg, m) = magnitude(d);
    if m.len() > 15 {
        return None;
    }
    let v = m.iter().fold(0i128, |a, b| (a << 8) | *b as i128);
    Some(if neg { -v } else { v })
}

/// a form for which an error is also accepted: empty, or redundant leading FF octets
fn lenient(d: &[u8]) -> bool {
    d.is_empty() || (d.len() > 1 && d[0] == 0xff && d[1] >= 0x80)
}

fn shortest(d: &[u8]) -> bool {
    match d {
        [] => false,
        [0, x, ..] => *x >= 0x80,
        [0xff, x, ..] => *x < 0x80,
        _ => true,
    }
}

/// judge an answer for a number: None = must be an error
fn judge(what: &str, n: &Node, want: Option<i128>, may_fail: bool, got: &Result<i128, BerError>) -> R<u64> {
    match (want, got) {
        (Some(w), Ok(g)) if w == *g => Ok(0),
        (None, Err(_)) => Ok(1),
        (Some(_), Err(_)) if may_fail => Ok(2),
        _ => viol("wrong-number", format!("{what} of {}: expected {}, got {got:?}", show_node(n), want.map_or("an error".into(), |w| w.to_string()))),
    }
}

fn in_range(v: Option<i128>, lo: i128, hi: i128) -> Option<i128> {
    v.filter(|v| *v >= lo && *v <= hi)
}

const U64: i128 = u64::MAX as i128;
const U32: i128 = u32::MAX as i128;

pub fn kind_code(v: &Val) -> u64 {
    match v {
        Val::Eoc => 0,
        Val::Bool(_) => 1,
        Val::Int(_) => 2,
        Val::Bits(..) => 3,
        Val::Octets(_) => 4,
        Val::Null => 5,
        Val::Enum(_) => 10,
        Val::Oid(_) => 6,
        Val::RelOid(_) => 13,
        Val::Str(t, _) => 100 + *t as u64,
        Val::Bmp(_) => 30,
        Val::Univ(_) => 28,
        Val::Seq(_) => 16,
        Val::Set(_) => 17,
        Val::Utc(_) => 23,
        Val::Gen(_) => 24,
        Val::Opt(None) => 40,
        Val::Opt(_) => 41,
        Val::Tagged(..) => 42,
        Val::Unknown(..) => 43,
    }
}

fn raw(v: &Val) -> Option<&[u8]> {
    match v {
        Val::Int(d) | Val::Bits(_, d) | Val::Octets(d) | Val::Bmp(d) | Val::Univ(d) | Val::Unknown(_, d) => Some(d),
        Val::Str(_, s) => Some(s.as_bytes()),
        _ => None,
    }
}

fn numbers(sim: &mut Sim, n: &Node, o: &BerObject) -> R {
    let i = |r: Result<i64, BerError>| r.map(|x| x as i128);
    let i3 = |r: Result<i32, BerError>| r.map(|x| x as i128);
    let u = |r: Result<u64, BerError>| r.map(|x| x as i128);
    let u3 = |r: Result<u32, BerError>| r.map(|x| x as i128);
    let c = &o.content;
    // (i64, i32), (u64, u32), errors also accepted
    let (s, w, ms, mu) = match &n.val {
        Val::Int(d) => {
            let e = exact(d);
            let l = lenient(d);
            (
                (in_range(e, i64::MIN as i128, i64::MAX as i128), in_range(e, i32::MIN as i128, i32::MAX as i128)),
                (in_range(e, 0, U64), in_range(e, 0, U32)),
                l,
                l,
            )
        }
        Val::Enum(e) => ((None, None), (Some(*e as i128), in_range(Some(*e as i128), 0, U32)), false, false),
        Val::Bits(ig, d) => {
            let bits = d.len() as i64 * 8 - *ig as i64;
            let mut v = 0u128;
            let mut over = bits < 0;
            for k in 0..bits.max(0) as usize {
                if v >> 120 != 0 {
                    over = true;
                    break;
                }
                v = (v << 1) | ((d[k / 8] >> (7 - k % 8)) & 1) as u128;
            }
            let v = if over { None } else { Some(v as i128) };
            // more bits than the width: an error, or the value if it fits all the same
            ((None, None), (in_range(v, 0, U64), in_range(v, 0, U32)), false, bits > 64)
        }
        _ => ((None, None), (None, None), false, false),
    };
    let mut f = vec![800, kind_code(&n.val), raw(&n.val).map_or(99, |d| bucket(d.len()).max(d.len().min(20) as u64))];
    f.push(judge("as_i64", n, s.0, ms, &i(o.as_i64()))?);
    f.push(judge("as_i32", n, s.1, ms, &i3(o.as_i32()))?);
    f.push(judge("as_u64", n, w.0, mu, &u(o.as_u64()))?);
    f.push(judge("as_u32", n, w.1, mu, &u3(o.as_u32()))?);
    judge("content.as_i64", n, s.0, ms, &i(c.as_i64()))?;
    judge("content.as_i32", n, s.1, ms, &i3(c.as_i32()))?;
    judge("content.as_u64", n, w.0, mu, &u(c.as_u64()))?;
    judge("content.as_u32", n, w.1, mu, &u3(c.as_u32()))?;
    sim.feat(&f);
    // arbitrary precision
    let (b, bu) = (o.as_bigint(), o.as_biguint());
    match &n.val {
        Val::Int(d) => {
            let (neg, m) = magnitude(d);
            match &b {
                Ok(x) => {
                    let g = x.to_bytes_be().1;
                    let minus = x.to_string().starts_with('-');
                    let g: &[u8] = if g == [0] { &[] } else { &g };
                    if g != m || minus != (neg && !m.is_empty()) {
                        bail!("wrong-number", "as_bigint of {}: got {x}", show_node(n));
                    }
                }
                Err(_) if d.is_empty() => (),
                Err(e) => bail!("wrong-number", "as_bigint of {}: {e:?}", show_node(n)),
            }
            match &bu {
                Ok(x) => {
                    let g = x.to_bytes_be();
                    let g: &[u8] = if g == [0] { &[] } else { &g };
                    if neg || g != m {
                        bail!("wrong-number", "as_biguint of {}: got {x}", show_node(n));
                    }
                }
                Err(_) if d.is_empty() || neg => (),
                Err(e) => bail!("wrong-number", "as_biguint of {}: {e:?}", show_node(n)),
            }
        }
        _ => {
            if b.is_ok() || bu.is_ok() {
                bail!("wrong-type", "as_bigint/as_biguint of {}: {b:?} {bu:?}", show_node(n));
            }
        }
    }
    Ok(())
}

fn bits_are(what: &str, n: &Node, d: &[u8], got: Option<Vec<bool>>) -> R {
    let want: Vec<bool> = (0..d.len() * 8).map(|k| (d[k / 8] >> (7 - k % 8)) & 1 == 1).collect();
    if got != Some(want) {
        bail!("wrong-bits", "{what} of {}: {:?}", show_node(n), got);
    }
    Ok(())
}

/// size, a drawn bit, the last bit and the number of bits set, of contents that are too large to be compared bit by bit
fn long_bits(n: &Node, d: &[u8], k: usize, got: Option<(usize, Option<bool>, Option<bool>, usize)>) -> R {
    let bit = |k: usize| (d[k / 8] >> (7 - k % 8)) & 1 == 1;
    let ones = d.iter().map(|b| b.count_ones() as usize).sum();
    let want = Some((d.len() * 8, Some(bit(k)), Some(bit(d.len() * 8 - 1)), ones));
    if got != want {
        bail!("wrong-bits", "bits of {} (number, bit {k}, last, set): expected {want:?}, got {got:?}", show_node(n));
    }
    Ok(())
}

macro_rules! same {
    ($n:expr, $what:expr, $want:expr, $got:expr) => {{
        let (w, g) = ($want, $got);
        if w != g.as_ref().ok().cloned() {
            bail!("wrong-content", "{} of {}: expected {:?}, got {:?}", $what, show_node($n), w, g);
        }
    }};
}

fn contents(sim: &mut Sim, n: &Node, o: &BerObject) -> R {
    let v = &n.val;
    macro_rules! both {
        ($m:ident, $want:expr, $f:expr) => {{
            same!(n, concat!("BerObject::", stringify!($m)), $want, o.$m().map($f));
            same!(n, concat!("BerObjectContent::", stringify!($m)), $want, o.content.$m().map($f));
        }};
    }
    both!(as_bool, if let Val::Bool(b) = v { Some(*b) } else { None }, |b| b);
    let oid = match v {
        Val::Oid(d) => Some((d.clone(), false)),
        Val::RelOid(d) => Some((d.clone(), true)),
        _ => None,
    };
    if let Some((d, _)) = &oid {
        both!(as_oid, Some(d.clone()), |x| x.as_bytes().to_vec());
        both!(as_oid_val, Some(d.clone()), |x| x.as_bytes().to_vec());
    } else {
        same!(n, "as_oid", None::<u8>, o.as_oid().map(|_| 0));
        same!(n, "content.as_oid", None::<u8>, o.content.as_oid().map(|_| 0));
        same!(n, "as_oid_val", None::<u8>, o.as_oid_val().map(|_| 0));
    }
    let opt = if let Val::Opt(x) = v { Some(x.as_ref().map(|x| (**x).clone())) } else { None };
    both!(as_optional, opt.clone(), |x| x.map(snap));
    let tg = if let Val::Tagged(c, t, x) = v { Some((*c, *t, (**x).clone())) } else { None };
    both!(as_tagged, tg.clone(), |(c, t, x)| (class_no(c), t.0, snap(x)));
    let bs = if let Val::Bits(_, d) = v { Some(d.clone()) } else { None };
    both!(as_bitstring, bs.clone(), |b| b.data.to_vec());
    both!(as_bitstring_ref, bs.clone(), |b| b.as_ref().to_vec());
    let r = raw(v).map(|d| d.to_vec());
    both!(as_slice, r.clone(), |s| s.to_vec());
    both!(as_str, if let Val::Str(_, s) = v { Some(s.clone()) } else { None }, |s| s.to_string());
    let (sq, st) = match v {
        Val::Seq(l) => (Some(l.clone()), None),
        Val::Set(l) => (None, Some(l.clone())),
        _ => (None, None),
    };
    both!(as_sequence, sq.clone(), |l| l.iter().map(snap).collect::<Vec<_>>());
    both!(as_set, st.clone(), |l| l.iter().map(snap).collect::<Vec<_>>());
    match &r {
        Some(d) if d.len() <= 64 => {
            bits_are("as_bitslice", n, d, o.as_bitslice().ok().map(|b| b.iter().map(|x| *x).collect()))?;
            bits_are("content.as_bitslice", n, d, o.content.as_bitslice().ok().map(|b| b.iter().map(|x| *x).collect()))?;
        }
        Some(d) => {
            let k = sim.c.usize(d.len() * 8);
            for b in [o.as_bitslice().ok(), o.content.as_bitslice().ok()] {
                long_bits(n, d, k, b.map(|b| (b.len(), b.get(k).map(|x| *x), b.last().map(|x| *x), b.count_ones())))?;
            }
        }
        None => same!(n, "as_bitslice", None::<u8>, o.as_bitslice().map(|_| 0)),
    }
    if let (Some(d), Ok(b)) = (&bs, o.as_bitstring()) {
        if d.len() <= 64 {
            bits_are("BitStringObject::as_bitslice", n, d, b.as_bitslice().map(|b| b.iter().map(|x| *x).collect()))?;
            bits_are("BitStringObject::is_set", n, d, Some((0..d.len() * 8).map(|k| b.is_set(k)).collect()))?;
        } else {
            let k = sim.c.usize(d.len() * 8);
            long_bits(n, d, k, b.as_bitslice().map(|b| (b.len(), b.get(k).map(|x| *x), b.last().map(|x| *x), b.count_ones())))?;
            let ones = (0..d.len() * 8).filter(|k| b.is_set(*k)).count();
            long_bits(n, d, k, Some((d.len() * 8, Some(b.is_set(k)), Some(b.is_set(d.len() * 8 - 1)), ones)))?;
        }
        for k in [d.len() * 8, d.len() * 8 + 1, d.len() * 8 + 7, d.len() * 8 + 8, usize::MAX, usize::MAX / 8] {
            if b.is_set(k) {
                bail!("wrong-bits", "bit {k} of {} is set", show_node(n));
            }
        }
        let k = sim.c.usize(d.len() * 8 + 1);
        if b.is_set(k) != (k < d.len() * 8 && (d[k / 8] >> (7 - k % 8)) & 1 == 1) {
            bail!("wrong-bits", "bit {k} of {} reads {}", show_node(n), b.is_set(k));
        }
    }
    // header
    let h = &n.hdr;
    let t = if sim.c.chance(1, 2) { h.tag } else { sim.c.usize(40) as u32 };
    let cl = sim.c.usize(4) as u8;
    let got = (
        class_no(o.class()),
        o.tag().0,
        [o.is_universal(), o.is_application(), o.is_contextspecific(), o.is_private()],
        (o.is_constructed(), o.is_primitive(), o.assert_constructed().is_ok(), o.assert_primitive().is_ok()),
        (o.assert_tag(Tag(t)).is_ok(), o.assert_class(class_of(cl)).is_ok()),
        hdr(&o.header).len,
    );
    let want = (
        h.class,
        h.tag,
        [h.class == 0, h.class == 1, h.class == 2, h.class == 3],
        (h.cons, !h.cons, h.cons, !h.cons),
        (h.tag == t, h.class == cl),
        h.len,
    );
    let len = match o.length() {
        Length::Definite(l) => crate::model::Len::Def(l as u64),
        Length::Indefinite => crate::model::Len::Indef,
    };
    if got != want || len != h.len {
        bail!("wrong-header", "header accessors of {} (asked tag {t}, class {cl}): {got:?} {len:?}", show_node(n));
    }
    Ok(())
}

/// several iterators over the same object, advanced in a drawn order and past their end
fn iterators(sim: &mut Sim, n: &Node, o: &BerObject) -> R {
    let kids: Vec<&Node> = match &n.val {
        Val::Seq(l) | Val::Set(l) => l.iter().collect(),
        _ => vec![],
    };
    let leaf = !matches!(n.val, Val::Seq(_) | Val::Set(_));
    let small = kids.len() <= 12;
    let mut a = o.ref_iter();
    let mut b = o.ref_iter();
    let mut c = o.clone().into_iter();
    let mut at = [0usize; 3];
    let steps = if small { 3 * (kids.len() + 2) } else { 12 };
    for _ in 0..steps {
        let w = sim.c.usize(3);
        let got = match w {
            0 => a.next().map(snap),
            1 => b.next().map(snap),
            _ => c.next().map(|x| snap(&x)),
        };
        let want = if w == 2 && leaf {
            // a consuming iteration over something that is not a list yields the object itself
            if at[w] == 0 {
                Some(n)
            } else {
                None
            }
        } else {
            kids.get(at[w]).copied()
        };
        if got.as_ref() != want {
            bail!(
                "wrong-iteration",
                "item {} of {} over {}: expected {:?}, got {:?}",
                at[w],
                if w == 2 { "into_iter" } else { "ref_iter" },
                show_node(n),
                want.map(show_node),
                got.as_ref().map(show_node)
            );
        }
        at[w] += 1;
    }
    if o.ref_iter().count() != kids.len() || o.clone().into_iter().count() != if leaf { 1 } else { kids.len() } {
        bail!("wrong-iteration", "count of the iterations over {}", show_node(n));
    }
    // the other ways to advance an iteration
    let total = if leaf { 1 } else { kids.len() };
    let k = sim.c.usize(kids.len() + 2);
    let fits = |h: (usize, Option<usize>), left: usize| h.0 <= left && h.1.map_or(true, |u| u >= left);
    let mut i = o.ref_iter();
    let mut j = o.clone().into_iter();
    let ok = fits(i.size_hint(), kids.len())
        && fits(j.size_hint(), total)
        && i.nth(k).map(snap).as_ref() == kids.get(k).copied()
        && fits(i.size_hint(), kids.len().saturating_sub(k + 1))
        && i.last().map(snap).as_ref() == if k + 1 < kids.len() { kids.last().copied() } else { None };
    let from = |l: usize| if leaf { Some(n).filter(|_| l == 0) } else { kids.get(l).copied() };
    let ok = ok
        && j.nth(k).map(|x| snap(&x)).as_ref() == from(k)
        && fits(j.size_hint(), total.saturating_sub(k + 1))
        && j.last().map(|x| snap(&x)).as_ref() == if k + 1 < total { from(total - 1) } else { None };
    if !ok {
        bail!("wrong-iteration", "size_hint, nth({k}) and last of the iterations over {}", show_node(n));
    }
    // several advances in a row, then one of the ways to finish
    if sim.c.chance(1, 4) {
        let steps: Vec<usize> = (0..sim.c.usize(4)).map(|_| sim.c.small(kids.len() + 1)).collect();
        let end = sim.c.usize(4);
        let mut i = o.ref_iter();
        let mut j = o.clone().into_iter();
        let (mut at, mut bt) = (0, 0);
        let mut ok = true;
        for k in &steps {
            let (x, y) = if *k == 0 { (i.next(), j.next()) } else { (i.nth(*k), j.nth(*k)) };
            ok &= x.map(snap).as_ref() == kids.get(at + k).copied() && y.map(|y| snap(&y)).as_ref() == from(bt + k);
            at += k + 1;
            bt += k + 1;
            ok &= fits(i.size_hint(), kids.len().saturating_sub(at)) && fits(j.size_hint(), total.saturating_sub(bt));
        }
        let (at, bt) = (at.min(kids.len()), bt.min(total));
        let left: Vec<&Node> = kids[at..].to_vec();
        ok &= match end {
            0 => i.count() == left.len() && j.count() == total - bt,
            1 => i.map(snap).collect::<Vec<_>>().iter().eq(left) && j.count() == total - bt,
            2 => i.fold(0, |k, _| k + 1) == left.len() && (bt..total).map(from).eq(j.map(|y| snap(&y)).collect::<Vec<_>>().iter().map(Some)),
            _ => i.last().map(snap).as_ref() == left.last().copied() && j.fold(0, |k, _| k + 1) == total - bt,
        };
        if !ok {
            bail!("wrong-iteration", "iterations over {}, advanced by {steps:?}, then finished (way {end})", show_node(n));
        }
    }
    for k in 0..kids.len().min(4) {
        let k = if kids.len() > 4 { sim.c.usize(kids.len()) } else { k };
        if snap(&o[k]) != *kids[k] {
            bail!("wrong-index", "[{k}] of {}: {}", show_node(n), show_node(&snap(&o[k])));
        }
    }
    if sim.c.chance(1, 64) {
        let k = kids.len() + sim.c.usize(2);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| snap(&o[k])));
        if let Ok(x) = r {
            bail!("wrong-index", "[{k}] of {} does not panic but gives {}", show_node(n), show_node(&x));
        }
        sim.probe("index-out-of-range");
    }
    Ok(())
}

pub fn inspect(sim: &mut Sim, n: &Node, o: &BerObject, budget: &mut usize) -> R {
    if *budget == 0 {
        return Ok(());
    }
    *budget -= 1;
    sim.eval();
    numbers(sim, n, o)?;
    contents(sim, n, o)?;
    iterators(sim, n, o)?;
    match (&n.val, &o.content) {
        (Val::Seq(l), BerObjectContent::Sequence(m)) | (Val::Set(l), BerObjectContent::Set(m)) => {
            for (a, b) in l.iter().zip(m) {
                inspect(sim, a, b, budget)?;
            }
        }
        (Val::Opt(Some(x)), BerObjectContent::Optional(Some(y))) => inspect(sim, x, y, budget)?,
        (Val::Tagged(_, _, x), BerObjectContent::Tagged(_, _, y)) => inspect(sim, x, y, budget)?,
        _ => (),
    }
    Ok(())
}

fn number(sim: &mut Sim) -> G {
    match sim.c.weighted(&[6, 3, 2]) {
        0 => {
            let d = sim.c.chance(1, 2);
            G::prim(INT, gen::int_content(sim, d))
        }
        1 => {
            let n = sim.c.range(0, 11);
            let mut d = if sim.c.chance(1, 3) { vec![*sim.c.pick(&[0u8, 0xff, 0x80, 1]); n] } else { gen::fill(sim, n) };
            if sim.c.chance(1, 3) {
                if let Some(b) = d.first_mut() {
                    *b = *sim.c.pick(&[0u8, 1, 0xff, 0x80]);
                }
            }
            let u = match sim.c.weighted(&[8, 2, 1]) {
                0 => sim.c.usize(8),
                1 => 8 + sim.c.usize(90),
                _ => sim.c.usize(256),
            };
            d.insert(0, u as u8);
            G::prim(BITS, d)
        }
        _ => {
            let d = gen::good_content(sim, ENUM, false, false);
            G::prim(ENUM, d)
        }
    }
}

/// index and iterations over a list of very many members
fn wide_list(sim: &mut Sim) -> R {
    let n = wide(sim);
    let o = build(&n);
    let (Val::Seq(kids) | Val::Set(kids)) = &n.val else { return Ok(()) };
    ev!(sim, "list of {} members", kids.len());
    sim.eval();
    let (mut i, mut j) = (o.ref_iter(), o.clone().into_iter());
    for (k, w) in kids.iter().enumerate() {
        let (a, b) = (i.next().map(snap), j.next().map(|x| snap(&x)));
        if a.as_ref() != Some(w) || b.as_ref() != Some(w) || snap(&o[k]) != *w {
            bail!(
                "wrong-iteration",
                "member {k} of a list of {} members {}: ref_iter {:?}, into_iter {:?}, index {}",
                kids.len(),
                show_node(w),
                a.as_ref().map(show_node),
                b.as_ref().map(show_node),
                show_node(&snap(&o[k]))
            );
        }
    }
    let (a, b) = (i.next().is_some(), j.next().is_some());
    if a || b || o.ref_iter().count() != kids.len() {
        bail!("wrong-iteration", "after the end of a list of {} members: ref_iter {a}, into_iter {b}, count {}", kids.len(), o.ref_iter().count());
    }
    Ok(())
}

fn run(sim: &mut Sim) -> R {
    if is_wide(sim) {
        return wide_list(sim);
    }
    if sim.c.chance(1, 12) {
        // built by the program
        let mut n = super::r10::built(sim, &[]);
        if let Val::Enum(e) = &mut n.val {
            *e = if sim.c.chance(1, 2) { gen::edge_u64(sim) } else { sim.c.raw() >> sim.c.usize(64) };
        }
        ev!(sim, "built {}", show_node(&n));
        let o = build(&n);
        return inspect(sim, &n, &o, &mut 40);
    }
    let mut cfg = cfg_any(sim);
    cfg.big = sim.c.chance(1, 24);
    let k = 1 + sim.c.usize(3);
    let mut elems = Vec::new();
    for _ in 0..k {
        let mut g = if sim.c.chance(2, 3) { number(sim) } else { gen::element(sim, &cfg, 0) };
        if sim.c.chance(1, 6) {
            gen::byzantine(sim, &mut g);
        }
        if sim.c.chance(1, 8) {
            let sibs = sim.c.usize(4);
            let mut kids = vec![g];
            for _ in 0..sibs {
                kids.push(number(sim));
            }
            g = G::kids(*sim.c.pick(&[SEQ, SET]), kids);
            if sim.c.chance(1, 4) {
                g.class = 2;
                g.tag = sim.c.usize(4) as u32;
            }
        }
        elems.push(g);
    }
    let mut bytes = Vec::new();
    for g in &elems {
        g.enc(&mut bytes);
    }
    if sim.c.chance(1, 8) {
        corrupt(sim, &mut bytes, 1);
    }
    ev!(sim, "stream {}", hex(&bytes));
    deliver(sim, bytes, &mut |sim, b| {
        number_readers(sim, b)?;
        let der = sim.c.chance(1, 4);
        if sim.c.chance(1, 8) {
            // through a combinator
            let tag = peek_tag(b);
            let k = any_kind(sim, tag);
            let inner = *sim.c.pick(&[INT, BITS, ENUM, SEQ, OCTETS]);
            let mut r = Ok(());
            comb::real(k, der, inner, b, &mut |o| {
                let n = snap(o);
                r = inspect(sim, &n, o, &mut 40);
            });
            return r;
        }
        let rd = pick_reader(sim, b, der);
        if let Ok((_, o)) = rd.call(b) {
            let n = snap(&o);
            ev!(sim, "{}: {}", rd.name(), show_node(&n));
            inspect(sim, &n, &o, &mut 60)?;
        }
        Ok(())
    })
}

fn number_readers(sim: &mut Sim, b: &[u8]) -> R {
    // (the number readers are those of asn1-rs: only the plain form of integers is specified)
    if b.first() != Some(&2) {
        return Ok(());
    }
    let Ok((h, hl)) = crate::model::header(b, false) else { return Ok(()) };
    let crate::model::Len::Def(l) = h.len else { return Ok(()) };
    let l = l as usize;
    if b.len() < hl + l {
        return Ok(());
    }
    let d = &b[hl..hl + l];
    let e = exact(d);
    let sh = shortest(d);
    let node = Node { hdr: h.clone(), val: Val::Int(d.to_vec()) };
    macro_rules! one {
        ($f:ident, $lo:expr, $hi:expr) => {{
            let want = in_range(e, $lo as i128, $hi as i128);
            let r = out(b, $f(b), |x| x as i128);
            sim.eval();
            match (&want, &r) {
                (Some(w), Out::Ok(g, u)) if w == g && *u == hl + l => (),
                (None, Out::Err(..)) => (),
                (Some(_), Out::Err(..)) if !sh => (),
                _ => bail!("wrong-number", "{} on {}: expected {want:?}, got {r:?}", stringify!($f), show_node(&node)),
            }
        }};
    }
    one!(parse_ber_i32, i32::MIN, i32::MAX);
    one!(parse_ber_i64, i64::MIN, i64::MAX);
    one!(parse_ber_u32, u32::MIN, u32::MAX);
    one!(parse_ber_u64, u64::MIN, u64::MAX);
    one!(parse_der_i32, i32::MIN, i32::MAX);
    one!(parse_der_i64, i64::MIN, i64::MAX);
    one!(parse_der_u32, u32::MIN, u32::MAX);
    one!(parse_der_u64, u64::MIN, u64::MAX);
    Ok(())
}
