use crate::sim::{Sim, R};

pub mod common;
pub mod r01;
pub mod r02;
pub mod r03;
pub mod r04;
pub mod r05;
pub mod r06;
pub mod r07;
pub mod r08;
pub mod r09;
pub mod r10;
pub mod r11;
pub mod r12;
pub mod r13;
pub mod r14;
pub mod r15;

#[derive(Clone)]
pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Sim) -> R,
    /// number of simulated runs per tier
    pub quick: u64,
    pub thorough: u64,
    /// the run forks, keep it on the main thread
    pub forks: bool,
    pub stack: usize,
    pub hang_s: u64,
    pub rule: &'static str,
    pub measure: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub const REAL: &[&str] = &[
    "der-parser built from /repo with features std, serialize, bigint, as_bitvec",
    "asn1-rs, nom, cookie-factory, num-bigint, bitvec as resolved in sim/Cargo.lock",
];
pub const STUB_NET: &[&str] =
    &["peer (element generator and faulty encoder)", "transport (event queue, virtual clock)", "receiver buffer and retry loop"];

pub const BASE: Prop = Prop {
    id: "",
    run: |_| Ok(()),
    quick: 1000,
    thorough: 10000,
    forks: false,
    stack: 4 << 20,
    hang_s: 40,
    rule: "",
    measure: "",
    real: REAL,
    stub: STUB_NET,
    assumptions: &[
        "sampled, not exhaustive: a clean campaign is evidence, not proof",
        "the digits of date/time contents are judged by asn1-rs, the dependency that defines the time type",
    ],
};

pub fn all() -> Vec<Prop> {
    vec![r01::PROP, r02::PROP, r03::PROP, r04::PROP, r05::PROP, r06::PROP, r07::PROP, r08::PROP, r09::PROP, r10::PROP, r11::PROP, r12::PROP, r13::PROP, r14::PROP, r15::PROP]
}
