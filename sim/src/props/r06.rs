//! The DER readers accept only DER, at every nesting level.
use super::common::*;
use super::r03::any_kind;
use super::*;
use crate::comb::{self, CRes, K};
use crate::gen::{self, Cfg};
use crate::model::{self, tags::*, E, STR_TAGS};
use crate::readers::*;
use crate::sim::*;
use crate::snap::*;
use crate::{bail, ev};
use der_parser::ber::{parse_ber_i32, parse_ber_i64, parse_ber_u32, parse_ber_u64};
use der_parser::der::{parse_der_i32, parse_der_i64, parse_der_u32, parse_der_u64};

pub const PROP: Prop = Prop {
    id: "R06",
    run,
    quick: 6_000_000,
    thorough: 450_000_000,
    rule: "one run = a stream of 1-3 elements from a DER or BER encoder, with encoder faults (content that DER forbids, constructed strings, indefinite lengths, ...) at random nesting levels, \
delivered under transport faults; each complete element is given to drawn DER readers and to DER combinators around DER readers; the verdict and object must be those of the reference \
(accepted exactly if every level is DER), and the BER reader must accept with an identical object whatever the DER reader accepted; evaluation = one reader on one element; \
distinct = hash of the sequence of (reader, element type, verdict)",
    measure: "(reader, first byte of the element, fault applied, verdict)",
    ..BASE
};

/// the BER counterpart of a DER reader
fn ber_of(r: Rd) -> Rd {
    match r {
        Rd::Gen(_) => Rd::Gen(false),
        Rd::Rec(_, l) => Rd::Rec(false, l),
        Rd::Typed(_, i) => Rd::Typed(false, if i == 25 { TYPED_BER.iter().position(|x| x.1 == 26).unwrap() } else { i }),
        Rd::WithTag(_, t) => Rd::WithTag(false, t),
        Rd::HdrContent(_, l) => Rd::HdrContent(false, l),
        Rd::ContentFn(_, l) => Rd::ContentFn(false, l),
        Rd::ContentFn2(_, l) => Rd::ContentFn2(false, l),
        Rd::HdrContentDer => Rd::Gen(false),
        r => r,
    }
}

/// a leaf that BER allows and DER does not
fn non_der_leaf(sim: &mut Sim) -> gen::G {
    let t = *sim.c.pick(&[BOOL, INT, BITS, UTC, GENTIME]);
    let d = gen::der_breaking(sim, t).unwrap_or_default();
    let mut g = gen::G::prim(t, d);
    if sim.c.chance(1, 4) {
        let mut tags: Vec<u32> = STR_TAGS.to_vec();
        tags.extend([OCTETS, BITS, BMP, UNIV]);
        let t = *sim.c.pick(&tags);
        let n = sim.c.usize(3);
        let kids = (0..n).map(|_| gen::G::prim(t, b"12".to_vec())).collect();
        g = gen::G::kids(t, kids);
        if sim.c.chance(1, 3) {
            g.lform = gen::LenForm::Indef;
        }
    }
    g
}

fn run(sim: &mut Sim) -> R {
    let mut cfg = if sim.c.chance(3, 4) { Cfg::der() } else { Cfg::ber() };
    cfg.max_depth = *sim.c.pick(&[3usize, 1, 2, 5, 9]);
    cfg.max_kids = *sim.c.pick(&[3usize, 1, 2, 5]);
    let n = 1 + sim.c.usize(3);
    let mut elems = gen::stream(sim, &cfg, n);
    for g in elems.iter_mut() {
        match sim.c.weighted(&[3, 4, 3]) {
            0 => (),
            1 => {
                // one node becomes something DER forbids
                let mut i = sim.c.usize(g.size());
                if let Some(x) = g.nth(&mut i) {
                    let leaf = non_der_leaf(sim);
                    match &mut x.body {
                        gen::Body::Kids(k) if sim.c.chance(2, 3) => {
                            let at = sim.c.usize(k.len() + 1);
                            k.insert(at, leaf);
                        }
                        _ => *x = leaf,
                    }
                    sim.fault("non-der-member");
                }
            }
            _ => gen::byzantine(sim, g),
        }
        if sim.c.chance(1, 12) {
            // deep nesting around it
            let d = 1 + sim.c.usize(20);
            for _ in 0..d {
                let inner = std::mem::replace(g, gen::G::prim(5, vec![]));
                *g = gen::G::kids(*sim.c.pick(&[SEQ, SET]), vec![inner]);
            }
        }
    }
    let mut bytes = Vec::new();
    for g in &elems {
        g.enc(&mut bytes);
    }
    ev!(sim, "stream {}", hex(&bytes));
    deliver(sim, bytes, &mut |sim, b| {
        let tag = peek_tag(b);
        let k = 1 + sim.c.usize(3);
        for _ in 0..k {
            let rd = pick_reader(sim, b, true);
            let want = rd.model(b);
            let got = rd.run(b);
            sim.eval();
            sim.note(got.kind());
            sim.feat(&[rd.code(), b[0] as u64, want.is_ok() as u64, got.kind()]);
            ev!(sim, "{}: {}", rd.name(), show_out(&got));
            let same = match (&want, &got) {
                (Ok((n, u)), Out::Ok(g, v)) => n == g && u == v,
                (Err(E::More(_)), Out::Inc(_)) => true,
                // a length beyond the maximum object size may be refused at once
                (Err(E::More(n)), Out::Err(..)) => *n > u32::MAX as u64 / 2,
                (Err(E::Bad | E::Deep), Out::Err(..)) => true,
                _ => false,
            };
            if !same {
                bail!(
                    if matches!(got, Out::Ok(..)) && want.is_err() { "non-der-accepted" } else { "der-verdict" },
                    "{} on {}: expected {}, got {}",
                    rd.name(),
                    hex(b),
                    show_want(&want),
                    show_out(&got)
                );
            }
            if let Out::Ok(..) = got {
                sim.probe("der-accepted");
                let br = ber_of(rd);
                let g2 = br.run(b);
                if g2 != got {
                    bail!("ber-der-disagree", "{} and {} on {}: {} and {}", rd.name(), br.name(), hex(b), show_out(&got), show_out(&g2));
                }
            } else if rd.model(b).is_err() && ber_of(rd).model(b).is_ok() {
                sim.probe("ber-only-rejected-by-der");
            }
        }
        if b[0] == 2 {
            number_readers(sim, b)?;
        }
        // DER combinators around DER readers
        let kind = any_kind(sim, tag);
        let inner = if sim.c.chance(3, 4) { pick_inner(sim, b) } else { tag };
        if let Some(want) = comb::real_expect(kind, true, inner, b) {
            let got = comb::real(kind, true, inner, b, &mut |_| {});
            sim.eval();
            sim.feat(&[5000 + kind.code(), b[0] as u64, want.is_ok() as u64, matches!(got, CRes::Ok(..)) as u64]);
            if !comb::real_fits(&want, &got) {
                bail!(
                    "der-combinator",
                    "{} around DER readers (content as tag {inner}) on {}: expected {}, got {:?}",
                    kind.name(true),
                    hex(b),
                    match &want {
                        Ok((n, u)) => format!("{} using {u}", show_node(n)),
                        Err(()) => "a rejection".into(),
                    },
                    got
                );
            }
            // explicit and implicit wrappers: also what they contain is DER
            if let (K::Expl(_) | K::Impl(_), CRes::Ok(..)) = (kind, &got) {
                sim.probe("der-wrapped-accepted");
            }
        }
        Ok(())
    })
}

/// the readers that return a number: they refuse what the DER reader of integers refuses, and
/// otherwise agree with their BER counterpart (whose numbers R08 judges)
fn number_readers(sim: &mut Sim, b: &[u8]) -> R {
    let want = model::typed(b, INT, true);
    // a redundant leading FF may be refused, or not
    let loose = match &want {
        Ok((n, _)) => matches!(&n.val, model::Val::Int(d) if d.len() > 1 && d[0] == 0xff && d[1] >= 0x80),
        Err(_) => false,
    };
    macro_rules! pair {
        ($der:ident, $ber:ident) => {{
            let d = out(b, $der(b), |x| x as i128);
            sim.eval();
            let fits = match (&want, &d) {
                (Err(_), Out::Ok(..)) => false,
                (Err(_), _) => true,
                (Ok(_), Out::Err(..)) if loose => true,
                (Ok(_), Out::Err(..)) => !matches!(out(b, $ber(b), |x| x as i128), Out::Ok(..)),
                (Ok(_), d) => *d == out(b, $ber(b), |x| x as i128),
            };
            sim.feat(&[6000, d.kind(), want.is_ok() as u64, b.len().min(14) as u64]);
            if !fits {
                bail!(
                    if want.is_err() { "non-der-accepted" } else { "ber-der-disagree" },
                    "{} on {}: {d:?}, {}: {:?}, DER integer: {}",
                    stringify!($der),
                    hex(b),
                    stringify!($ber),
                    out(b, $ber(b), |x| x as i128),
                    show_want(&want)
                );
            }
        }};
    }
    pair!(parse_der_i32, parse_ber_i32);
    pair!(parse_der_i64, parse_ber_i64);
    pair!(parse_der_u32, parse_ber_u32);
    pair!(parse_der_u64, parse_ber_u64);
    Ok(())
}

/// a universal tag whose rules the content of the element may or may not follow
fn pick_inner(sim: &mut Sim, b: &[u8]) -> u32 {
    let _ = b;
    *sim.c.pick(&[INT, BOOL, BITS, OCTETS, UTC, SEQ, SET, NULL, OID, UTF8, GENTIME, ENUM])
}

#[allow(dead_code)]
fn unused() {
    let _ = model::MAX_REC;
}
