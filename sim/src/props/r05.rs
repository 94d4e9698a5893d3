//! Nesting depth, stack and memory stay bounded by the limits and the bytes received.
use super::*;
use crate::comb::{self, K};
use crate::gen::{self, Body, LenForm, G};
use crate::model::{self, E};
use crate::readers::{Rd, TYPED_BER};
use crate::sim::*;
use crate::snap::*;
use crate::{alloc, bail, ev};
use der_parser::error::BerResult;

pub const PROP: Prop = Prop {
    id: "R05",
    run,
    quick: 800_000,
    thorough: 150_000_000,
    rule: "one run = one nested element (well-formed chain of containers around the reader's limit) or one hostile buffer (up to 200 000 levels, huge claimed lengths, many members), \
given to a reader in a thread whose stack is 64 KB + 48 KB per allowed level (about 3 to 4 times what is used), with live and peak heap bytes counted; evaluation = one call; \
violations: wrong depth verdict, object deeper than the limit, stack overflow (death of the process), heap peak above 64 KB + 1000 bytes per received byte (about 10 times what is used), memory not given back; \
distinct = hash of (reader, limit, shape of the nesting, depth relative to the limit, answer)",
    measure: "(reader, limit, depth minus limit, kind of nesting, answer)",
    assumptions: &[
        "sampled, not exhaustive: a clean campaign is evidence, not proof",
        "stack per level is measured on this build (der-parser at opt-level 0, x86-64) with a fixed allowance per level",
    ],
    ..BASE
};

pub const STACK_BASE: usize = 64 << 10;
pub const STACK_LEVEL: usize = 48 << 10;
const MEM_BASE: u64 = 64 << 10;
const MEM_PER_BYTE: u64 = 1000;

fn limit_of(r: &Rd) -> usize {
    match r {
        Rd::Rec(_, l) | Rd::AnyR(l) | Rd::AnyTagR(_, l) | Rd::HdrContent(_, l) | Rd::ContentFn(_, l) | Rd::ContentFn2(_, l) => *l,
        _ => model::MAX_REC,
    }
}

fn reader(sim: &mut Sim, tag: u32) -> Rd {
    let d = sim.c.chance(1, 2);
    let l = *sim.c.pick(&[50usize, 1, 2, 3, 5, 10, 20, 49, 51, 60, 100, 200, 0, 127, 128, 129, 254, 255, 256, 257, 300, 600]);
    match sim.c.usize(11) {
        0 => Rd::Gen(d),
        1 => match TYPED_BER.iter().position(|x| x.1 == tag) {
            Some(i) => Rd::Typed(d, i),
            None => Rd::Gen(d),
        },
        2 => Rd::Rec(d, l),
        3 => Rd::AnyR(l),
        4 => Rd::AnyTagR(tag, l),
        5 => Rd::HdrContent(d, l),
        6 => Rd::ContentFn(d, l),
        7 => Rd::ContentFn2(d, l),
        8 => Rd::WithTag(d, tag),
        9 => Rd::AnyTry,
        _ => match sim.c.usize(2) {
            0 => Rd::AnyTryRef,
            _ => Rd::HdrContentDer,
        },
    }
}

/// chain of n containers around a leaf, with siblings
fn chain(sim: &mut Sim, n: usize, style: usize, der: bool) -> G {
    let mut g = match sim.c.usize(4) {
        0 => G::prim(5, vec![]),
        1 => G::prim(2, vec![1]),
        2 => G::kids(16, vec![]),
        _ => G::prim(4, vec![0, 0, 0x30, 0x80]),
    };
    let opaque_class = if style == 5 { sim.c.usize(4) as u8 } else { 0 };
    let opaque_tag = if sim.c.chance(1, 2) { 1 } else { gen::tag_no(sim).max(1) };
    let opaque_at = if style == 3 { sim.c.usize(n + 1) } else { usize::MAX };
    for i in 0..n {
        let mut kids = Vec::new();
        let sib = if style >= 4 { 0 } else { sim.c.weighted(&[6, 1, 1]) };
        if sib == 1 {
            kids.push(G::prim(2, vec![7]));
        }
        kids.push(g);
        if sib == 2 {
            kids.push(G::prim(1, vec![0xff]));
        }
        let tag = match style {
            0 => 16,
            1 => 17,
            _ => *sim.c.pick(&[16u32, 17]),
        };
        g = G::kids(tag, kids);
        if i == opaque_at {
            g.class = 1 + sim.c.usize(3) as u8;
            g.tag = if sim.c.chance(1, 2) { 1 } else { gen::tag_no(sim) };
        }
        // all levels of one opaque class: only the search for the end descends into them
        if style == 5 {
            g.class = opaque_class;
            g.tag = if opaque_class == 0 { 4 } else { opaque_tag };
        }
        // any class and tag at each level
        if style == 6 {
            g.class = sim.c.usize(4) as u8;
            g.tag = if g.class == 0 { *sim.c.pick(&[16u32, 17, 4, 3, 12, 8, 31, 200]) } else { gen::tag_no(sim).max(1) };
        }
        if !der && style >= 2 && sim.c.chance(1, 3) {
            g.lform = LenForm::Indef;
        }
        if !der && style >= 4 {
            g.lform = LenForm::Indef;
        }
    }
    g
}

struct Meas<'a> {
    res: BerResult<'a>,
    peak: u64,
    kept: i64,
}

/// call the reader on a small stack
fn call<'a>(rd: Rd, b: &'a [u8], stack: usize) -> Meas<'a> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(stack)
            .spawn_scoped(s, move || {
                // twice: what the first call keeps (if anything) is not counted
                drop(rd.call(b));
                let m0 = alloc::mark();
                drop(rd.call(b));
                let kept = alloc::live() - m0;
                let m = alloc::mark();
                let res = rd.call(b);
                let peak = alloc::peak_since(m);
                Meas { res, peak, kept }
            })
            .expect("thread")
            .join()
            .unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}

fn run(sim: &mut Sim) -> R {
    if sim.c.chance(1, 6) {
        return combinators(sim);
    }
    let hostile = sim.c.chance(2, 5);
    let (b, tag, style);
    let rd;
    if hostile {
        let max = match sim.c.weighted(&[12, 4, 1]) {
            0 => 3000,
            1 => 30_000,
            _ => 400_000,
        };
        b = gen::hostile(sim, max);
        tag = super::common::peek_tag(&b);
        style = 9;
        rd = reader(sim, tag);
    } else {
        style = sim.c.usize(7);
        let r0 = reader(sim, 16);
        let l = limit_of(&r0);
        let n = match sim.c.weighted(&[6, 2, 1]) {
            0 => (l + sim.c.usize(5)).saturating_sub(3),
            1 => sim.c.usize(2 * l + 4),
            _ => sim.c.usize(300),
        };
        let g = chain(sim, n, style, r0.der());
        b = g.bytes();
        tag = g.tag;
        let _ = Body::Prim(vec![]);
        // the reader for the tag that came out
        rd = match r0 {
            Rd::Typed(d, _) => match TYPED_BER.iter().position(|x| x.1 == tag) {
                Some(i) => Rd::Typed(d, i),
                None => Rd::WithTag(d, tag),
            },
            Rd::WithTag(d, _) => Rd::WithTag(d, tag),
            Rd::AnyTagR(_, l) => Rd::AnyTagR(tag, l),
            r => r,
        };
        sim.fault("deep-nesting");
    }
    let limit = limit_of(&rd);
    let levels = limit.max(model::MAX_REC);
    ev!(sim, "{} on {} bytes {} (stack for {levels} levels)", rd.name(), b.len(), hex(&b));
    let m = call(rd, &b, STACK_BASE + STACK_LEVEL * levels);
    sim.eval();
    sim.steps += 3;
    if std::env::var_os("DERSIM_MEASURE").is_some() {
        eprintln!("MEAS {} {} {}", b.len(), m.peak, m.peak.saturating_sub(4096) / (b.len() as u64).max(1));
    }
    if m.peak > MEM_BASE + MEM_PER_BYTE * b.len() as u64 {
        bail!("memory", "{} on {} received bytes {} used {} bytes of heap", rd.name(), b.len(), hex(&b), m.peak);
    }
    if m.kept > 0 {
        bail!("leak", "{} on {} keeps {} bytes of heap per call after its result is gone", rd.name(), hex(&b), m.kept);
    }
    let got = out(&b, m.res, |o| snap(&o));
    sim.note(got.kind());
    let want = rd.model(&b);
    let dep = match &want {
        Ok((n, _)) => model::depth(n) as u64,
        Err(E::Deep) => 1000,
        _ => 2000,
    };
    sim.feat(&[rd.code(), limit as u64, dep.wrapping_sub(limit as u64), style as u64, got.kind()]);
    if let Out::Ok(n, _) = &got {
        let d = model::depth(n);
        if d > limit {
            bail!("too-deep", "{} returned an object nested {d} levels deep from {}", rd.name(), hex(&b));
        }
    }
    if !hostile {
        match (&want, &got) {
            (Ok((n, u)), Out::Ok(g, v)) => {
                if n != g || u != v {
                    bail!("wrong-object", "{} on {}: not the object that was encoded", rd.name(), hex(&b));
                }
                sim.probe("within-limit");
                if model::depth(n) == limit {
                    sim.probe("exactly-at-limit");
                }
            }
            (Err(E::Deep), Out::Err(_, true, _)) => {
                sim.probe("beyond-limit");
            }
            // DER refuses indefinite lengths whatever the depth, the reader of another type the tag
            (Err(E::Bad), Out::Err(_, false, _)) => {}
            (Err(E::Bad), _) if limit == 0 => {}
            _ => bail!(
                "wrong-verdict",
                "{} on {}: expected {}, got {}",
                rd.name(),
                hex(&b),
                match &want {
                    Ok((n, _)) => format!("an object of {} levels", model::depth(n)),
                    Err(E::Deep) => "the maximum-depth error".into(),
                    Err(_) => "a rejection".into(),
                },
                match &got {
                    Out::Ok(n, _) => format!("an object of {} levels", model::depth(n)),
                    Out::Inc(n) => format!("incomplete({n})"),
                    Out::Err(e, _, _) => format!("error {e}"),
                }
            ),
        }
    } else {
        match (&want, &got) {
            (Ok(_), Out::Err(e, true, _)) => {
                bail!("wrong-verdict", "{} on {}: within the limit, but {e}", rd.name(), hex(&b));
            }
            (Err(E::Deep), Out::Ok(..)) => {
                bail!("too-deep", "{} on {}: beyond the limit, but accepted", rd.name(), hex(&b));
            }
            _ => (),
        }
    }
    Ok(())
}

/// the combinators around the recursive readers: each member gets the default limit
fn combinators(sim: &mut Sim) -> R {
    let n = match sim.c.weighted(&[3, 1]) {
        0 => 46 + sim.c.usize(7),
        _ => sim.c.usize(200),
    };
    let der = sim.c.chance(1, 2);
    let style = sim.c.usize(7);
    let inner = chain(sim, n, style, der);
    let k = match sim.c.usize(10) {
        0 => K::SeqOf,
        1 => K::SetOf,
        2 => K::SeqDef,
        3 => K::SetDef,
        4 => K::Expl(1),
        5 => K::Impl(1),
        6 => K::ExplG(1),
        7 => K::ExplOpt(1),
        8 => K::SeqOfV,
        _ => K::Cont,
    };
    let mut g = match k {
        K::Impl(_) => inner.clone(),
        _ => G::kids(k.tag().unwrap_or(16), vec![inner.clone()]),
    };
    if k.explicit() {
        g.class = 2;
    }
    if let K::Impl(_) = k {
        g.class = 2;
        g.tag = 1;
        g.lform = LenForm::Min;
    }
    let hostile = sim.c.chance(1, 4);
    let b = if hostile { gen::hostile(sim, 60_000) } else { g.bytes() };
    sim.fault("deep-nesting");
    let tag = inner.tag;
    ev!(sim, "{} around real readers on {}", k.name(der), hex(&b));
    let (got, peak) = std::thread::scope(|s| {
        let b = &b;
        std::thread::Builder::new()
            .stack_size(STACK_BASE + STACK_LEVEL * 52)
            .spawn_scoped(s, move || {
                let m = alloc::mark();
                let r = comb::real(k, der, tag, b, &mut |_| {});
                (r, alloc::peak_since(m))
            })
            .expect("thread")
            .join()
            .unwrap_or_else(|e| std::panic::resume_unwind(e))
    });
    sim.eval();
    // the simulator's own copies of the objects are counted too
    if peak > MEM_BASE + 2 * MEM_PER_BYTE * b.len() as u64 {
        bail!("memory", "{} on {} received bytes {} used {} bytes of heap", k.name(der), b.len(), hex(&b), peak);
    }
    let want = comb::real_expect(k, der, tag, &b);
    sim.feat(&[5000 + k.code(), der as u64, n as u64, style as u64, matches!(got, comb::CRes::Ok(..)) as u64]);
    if let Some(w) = want {
        if !hostile && !comb::real_fits(&w, &got) {
            bail!("wrong-verdict", "{} around the generic reader, on {} ({n} containers inside): {}", k.name(der), hex(&b), if w.is_ok() { "should be accepted" } else { "should be rejected" });
        }
    }
    Ok(())
}
