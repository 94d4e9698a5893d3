//! Tagged and optional combinators honour tag, class, form and absence.
use super::r11::{composed, scripted};
use super::*;
use crate::comb::K;
use crate::gen;

pub const PROP: Prop = Prop {
    id: "R12",
    run,
    quick: 12_000_000,
    thorough: 800_000_000,
    rule: "one run = one tagged, implicit, optional or content-slice combinator for a drawn tag, made once and used on 1-6 received elements (requested or another tag, any class and form, definite or indefinite, \
faulty, corrupted, cut, followed by other data) with a scripted caller's parser that succeeds, fails softly or hard, asks for more or panics; calls (position, length, header) and result are compared with the reference; \
a quarter of the runs use the library's own readers as the caller's parser; evaluation = one use judged; distinct = hash of the sequence of (combinator, first byte, script, outcome)",
    measure: "(combinator, first byte of the input, first two actions of the script, number of calls, outcome)",
    stub: &["caller's parsers (scripted)", "peer, transport and receiver"],
    ..BASE
};

fn run(sim: &mut Sim) -> R {
    let t = gen::tag_no(sim);
    let k = match sim.c.usize(10) {
        0 => K::ExplG(t),
        1 => K::Expl(t),
        2 => K::ImplG(t),
        3 => K::Impl(t),
        4 => K::Implicit(t),
        5 => K::ExplOpt(t),
        6 => K::Opt,
        7 => K::OptExpl(t),
        8 => K::OptImpl(t),
        _ => K::Slice(t),
    };
    let der = sim.c.chance(1, 2);
    if sim.c.chance(3, 4) {
        scripted(sim, k, der)
    } else {
        composed(sim, k, der)
    }
}
