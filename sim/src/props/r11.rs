//! Sequence and set combinators drive callbacks correctly, also when they fail.
use super::common::*;
use super::r03::script;
use super::*;
use crate::comb::{self, Cb, Ctx, CRes, K};
use crate::gen::{self, Body, Cfg, LenForm, G};
use crate::model::{tags::*, Val};
use crate::sim::*;
use crate::snap::snap;
use crate::{bail, ev};
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::{BerError, BerResult};
use der_parser::nom::Err;

pub const PROP: Prop = Prop {
    id: "R11",
    run,
    quick: 5_000_000,
    thorough: 600_000_000,
    rule: "one run = one sequence, set or container combinator, made once and used on 1-6 received containers (right or wrong tag, class and form, definite or indefinite, from a correct or faulty encoder, \
corrupted, cut by a lost connection, followed by other data) with a scripted caller's parser that consumes one element, n bytes, everything or nothing, fails softly or hard with its own error, asks for more or panics at drawn calls; \
calls (position, length, header) and result are compared with the reference; a quarter of the runs use the library's own readers as the caller's parser; evaluation = one use judged; \
distinct = hash of the sequence of (combinator, first byte, script, outcome)",
    measure: "(combinator, first byte of the input, first two actions of the script, number of calls, outcome)",
    stub: &["caller's parsers (scripted)", "peer, transport and receiver"],
    ..BASE
};

pub fn containers(sim: &mut Sim) -> K {
    *sim.c.pick(&[K::SeqOfV, K::SetOfV, K::SeqOf, K::SetOf, K::SeqDef, K::SetDef, K::SeqDefG, K::SetDefG, K::Cont])
}

/// an element meant for the combinator
fn target(sim: &mut Sim, k: K, cfg: &Cfg) -> G {
    let mut g = if matches!(k, K::Slice(_) | K::ImplG(_) | K::Impl(_) | K::Implicit(_) | K::OptImpl(_) | K::Opt) && sim.c.chance(1, 2) {
        let t = *sim.c.pick(&gen::LEAF_TAGS);
        let d = gen::good_content(sim, t, cfg.der, false);
        let mut g = G::prim(t, d);
        if sim.c.chance(2, 3) {
            g.class = sim.c.usize(4) as u8;
        }
        g
    } else {
        let n = match sim.c.weighted(&[120, 20, 1]) {
            0 => sim.c.usize(5),
            1 => sim.c.usize(40),
            _ => gen::width(sim, false),
        };
        let n = if k.explicit() && sim.c.chance(3, 4) { 1 } else { n };
        let c2 = Cfg { max_depth: cfg.max_depth.min(2), ..*cfg };
        let same = n > 100 || sim.c.chance(1, 3);
        let mut kids: Vec<G> = Vec::new();
        for _ in 0..n {
            if same && !kids.is_empty() {
                let g = kids[0].clone();
                kids.push(g);
            } else {
                kids.push(gen::element(sim, &c2, 1));
            }
        }
        let mut g = G::kids(SEQ, kids);
        if !cfg.der && sim.c.chance(1, 3) {
            g.lform = LenForm::Indef;
        } else if sim.c.chance(1, 8) {
            g.lform = LenForm::Long(sim.c.usize(3));
        }
        g
    };
    match k.tag() {
        Some(t) => g.tag = t,
        None => {
            if sim.c.chance(1, 2) {
                g.tag = gen::tag_no(sim);
            }
        }
    }
    if k.explicit() || (k.tag().map_or(false, |t| t > 31) && sim.c.chance(1, 2)) {
        g.class = 1 + sim.c.usize(3) as u8;
    } else if sim.c.chance(1, 10) {
        g.class = sim.c.usize(4) as u8;
    }
    // a wrong tag, class or form
    if sim.c.chance(1, 8) {
        match sim.c.usize(4) {
            0 => g.tag ^= 1,
            1 => g.tag = gen::tag_no(sim),
            2 => g.class = sim.c.usize(4) as u8,
            _ => {
                g.cons = !g.cons;
                if !g.cons {
                    let c = g.content();
                    g.body = Body::Prim(c);
                    g.lform = LenForm::Min;
                }
            }
        }
        sim.fault("unexpected-element");
    }
    g
}

/// what the receiver has in its buffer when it calls the combinator
pub fn input(sim: &mut Sim, k: K, der: bool) -> Vec<u8> {
    let mut cfg = if der && sim.c.chance(5, 6) { Cfg::der() } else { Cfg::ber() };
    cfg.max_depth = 2;
    cfg.big = sim.c.chance(1, 8);
    let mut g = target(sim, k, &cfg);
    if sim.c.chance(1, 8) {
        gen::byzantine(sim, &mut g);
    }
    let mut b = g.bytes();
    if sim.c.chance(1, 8) {
        let n = 1 + sim.c.usize(2);
        corrupt(sim, &mut b, n);
    }
    if sim.c.chance(1, 3) {
        let t = if sim.c.chance(1, 2) {
            let n = 1 + sim.c.usize(6);
            gen::fill(sim, n)
        } else {
            b.iter().take(60).copied().collect()
        };
        b.extend(t);
    }
    if sim.c.chance(1, 8) && !b.is_empty() {
        let n = sim.c.usize(b.len());
        b.truncate(n);
        sim.fault("connection-lost");
    }
    b
}

fn act_code(a: &Cb) -> u64 {
    match a {
        Cb::Take(0) => 0,
        Cb::Take(_) => 1,
        Cb::Elem => 2,
        Cb::All => 3,
        Cb::Err(_) => 4,
        Cb::Fail(_) => 5,
        Cb::Inc(_) => 6,
        Cb::Panic => 7,
    }
}

pub fn res_code(r: &CRes) -> u64 {
    match r {
        CRes::Ok(..) => 0,
        CRes::Err(_) => 1,
        CRes::Fail(_) => 2,
        CRes::Inc(_) => 3,
        CRes::Panicked => 4,
    }
}

/// scripts whose fault comes at a drawn call
fn late_script(sim: &mut Sim) -> Vec<Cb> {
    let n = sim.c.small(12);
    let mut v = vec![Cb::Elem; n];
    v.push(match sim.c.usize(7) {
        0 => Cb::Err(sim.c.usize(100) as u32),
        1 => Cb::Fail(sim.c.usize(100) as u32),
        2 => Cb::Inc(sim.c.usize(5)),
        3 => Cb::Panic,
        4 => Cb::Take(0),
        5 => Cb::All,
        _ => Cb::Take(1),
    });
    v
}

/// a combinator with scripted parsers, used several times
pub fn scripted(sim: &mut Sim, k: K, der: bool) -> R {
    let n = 1 + sim.c.usize(6);
    let mut uses: Vec<(Vec<u8>, Vec<Cb>)> = Vec::new();
    for _ in 0..n {
        let b = input(sim, k, der);
        let s = if sim.c.chance(1, 2) { script(sim, true) } else { late_script(sim) };
        uses.push((b, s));
    }
    let c = Ctx::default();
    let mut f = comb::make(k, der, &c);
    for (i, (b, s)) in uses.iter().enumerate() {
        sim.steps += 1;
        sim.now += 1 + sim.c.below(1000);
        let got = comb::invoke(&mut f, &c, k, b, s);
        let calls = c.calls.borrow().clone();
        let want = comb::expect(k, der, b, s);
        sim.eval();
        sim.note(res_code(&got));
        sim.note(calls.len() as u64);
        for a in s.iter().take(calls.len()) {
            match a {
                Cb::Err(_) => sim.fault("callback-error"),
                Cb::Fail(_) => sim.fault("callback-failure"),
                Cb::Inc(_) => sim.fault("callback-incomplete"),
                Cb::Panic => sim.fault("callback-panics"),
                Cb::Take(0) => sim.fault("callback-consumes-nothing"),
                _ => (),
            }
        }
        sim.feat(&[
            1100 + 2 * k.code() + der as u64,
            b.first().copied().unwrap_or(0) as u64 & 0xe0,
            s.first().map_or(9, act_code),
            s.get(1).map_or(9, act_code),
            bucket(calls.len()),
            res_code(&got),
        ]);
        ev!(sim, "use {i}: {} on {} with {s:?}: {} calls, {got:?}", k.name(der), hex(b), calls.len());
        if !comb::same_calls(&want.calls, &calls) {
            bail!(
                "wrong-calls",
                "use {i} of {} on {} with {s:?}: expected calls {:?}, got {calls:?} (result {got:?})",
                k.name(der),
                hex(b),
                want.calls
            );
        }
        if !comb::fits(&want.res, &got) {
            bail!("wrong-result", "use {i} of {} on {} with {s:?}: expected {:?}, got {got:?}", k.name(der), hex(b), want.res);
        }
        if i > 0 {
            sim.probe("used-again");
        }
    }
    Ok(())
}

/// the combinator around the library's own readers
pub fn composed(sim: &mut Sim, k: K, der: bool) -> R {
    let n = 1 + sim.c.usize(3);
    for _ in 0..n {
        let b = input(sim, k, der);
        let inner = *sim.c.pick(&gen::LEAF_TAGS);
        let inner = match sim.c.usize(4) {
            0 => SEQ,
            1 => SET,
            _ => inner,
        };
        sim.steps += 1;
        let Some(want) = comb::real_expect(k, der, inner, &b) else { continue };
        let got = comb::real(k, der, inner, &b, &mut |_| {});
        sim.eval();
        sim.note(res_code(&got));
        sim.feat(&[1200 + 2 * k.code() + der as u64, b.first().copied().unwrap_or(0) as u64, res_code(&got)]);
        ev!(sim, "{} around the library's readers on {}: {got:?}", k.name(der), hex(&b));
        if !comb::real_fits(&want, &got) {
            bail!(
                "composed-result",
                "{} around the library's readers (content as {inner}) on {}: expected {:?}, got {got:?}",
                k.name(der),
                hex(&b),
                want
            );
        }
    }
    Ok(())
}

/// an 'of' combinator with a parser that fails after a number of calls
fn of_v<'a>(b: &'a [u8], set: bool, der: bool, stop: usize) -> (usize, BerResult<'a, Vec<BerObject<'a>>>) {
    let mut calls = 0usize;
    let f = |i: &'a [u8]| {
        calls += 1;
        if calls > stop {
            return Err(Err::Error(BerError::InvalidDateTime));
        }
        parse_ber_octetstring(i)
    };
    let r = match (set, der) {
        (false, false) => parse_ber_sequence_of_v(f)(b),
        (false, true) => parse_der_sequence_of_v(f)(b),
        (true, false) => parse_ber_set_of_v(f)(b),
        (true, true) => parse_der_set_of_v(f)(b),
    };
    (calls, r)
}

/// the 'of' combinators over very many elements
fn very_many(sim: &mut Sim) -> R {
    let n = wide(sim);
    let set = n.hdr.tag == SET;
    let (Val::Seq(kids) | Val::Set(kids)) = &n.val else { return Ok(()) };
    let b = crate::model::encode(&n);
    let stop = if sim.c.chance(1, 2) { usize::MAX } else { kids.len() - 1 - sim.c.usize(3) };
    let der = sim.c.chance(1, 2);
    let (calls, r) = of_v(&b, set, der, stop);
    sim.eval();
    ev!(sim, "{} elements, the parser fails after {stop} (set {set}, DER {der})", kids.len());
    let ok = match &r {
        Ok((rem, v)) => stop == usize::MAX && rem.is_empty() && v.len() == kids.len() && v.iter().zip(kids).all(|(x, k)| snap(x) == *k),
        Err(Err::Error(BerError::InvalidDateTime) | Err::Failure(BerError::InvalidDateTime)) => stop != usize::MAX,
        Err(_) => false,
    };
    // (a last call at the end of the content is allowed)
    let right = if stop == usize::MAX { calls == kids.len() || calls == kids.len() + 1 } else { calls == stop + 1 };
    let shown = match &r {
        Ok((rem, v)) => format!("{} objects, {} bytes left", v.len(), rem.len()),
        Err(e) => format!("{e:?}"),
    };
    let n = kids.len();
    if !ok || !right {
        bail!("wrong-result", "'of' combinator (set {set}, DER {der}) over {n} elements, the parser fails after {stop}: {calls} calls, {shown}");
    }
    Ok(())
}

fn run(sim: &mut Sim) -> R {
    if is_wide(sim) {
        return very_many(sim);
    }
    let k = containers(sim);
    let der = sim.c.chance(1, 2);
    if sim.c.chance(3, 4) {
        scripted(sim, k, der)
    } else {
        composed(sim, k, der)
    }
}
