//! Visitors see every node exactly once, in document order, at its depth.
use super::common::*;
use super::r10::{built, leaf};
use super::*;
use crate::gen;
use crate::model::{self, Node, Val};
use crate::readers::*;
use crate::runner::Injected;
use crate::sim::*;
use crate::snap::*;
use crate::vis::*;
use crate::{bail, ev};
use der_parser::ber::*;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "R14",
    run,
    quick: 7_000_000,
    thorough: 400_000_000,
    rule: "one run = a history of 1-4 visits over 1-3 objects (decoded from delivered streams, built, or returned by the tagged and optional combinators), read-only or mutable, from drawn starting depths; the callbacks \
record what they see, edit nodes, values and lists of members, start a visit of another object, and panic at a drawn call; the history of callbacks and the object afterwards are compared with a traversal of the model tree that \
applies the same edits; evaluation = one visit judged; distinct = hash of the sequence of (visitor, size class, edits, panic, types seen)",
    measure: "(visitor, callback of type, depth class, edited, panicked)",
    stub: &["visitors (recording, editing, panicking)", "peer and transport that the objects come from"],
    ..BASE
};

fn object(sim: &mut Sim) -> Node {
    match sim.c.usize(3) {
        0 => built(sim, &[]),
        1 => {
            // built, wide
            let n = sim.c.small(12);
            let l: Vec<Node> = (0..n).map(|_| built(sim, &[])).collect();
            let mut x = built(sim, &[]);
            x.val = if sim.c.chance(1, 2) { Val::Seq(l) } else { Val::Set(l) };
            x
        }
        _ => {
            let mut cfg = cfg_any(sim);
            cfg.max_depth = *sim.c.pick(&[3usize, 5, 12, 40]);
            if cfg.max_depth > 5 {
                cfg.max_kids = 2;
            }
            let b = gen::element(sim, &cfg, 0).bytes();
            match Rd::Gen(false).run(&b) {
                Out::Ok(n, _) => n,
                _ => built(sim, &[]),
            }
        }
    }
}

struct Edits {
    arena: Arena,
    ber: BTreeMap<usize, &'static Node>,
    ty: BTreeMap<usize, &'static Val>,
    budget: usize,
}

/// a replacement the callback of the type can store
fn ty_edit(sim: &mut Sim, v: &Val, e: &Edits) -> Option<Val> {
    let d = |sim: &mut Sim| {
        let n = sim.c.usize(6);
        gen::fill(sim, n)
    };
    let _ = e;
    Some(match v {
        Val::Bool(b) => Val::Bool(!b),
        Val::Int(_) => Val::Int(d(sim)),
        Val::Bits(..) => Val::Bits(sim.c.usize(8) as u8, d(sim)),
        Val::Enum(_) => Val::Enum(sim.c.raw()),
        Val::Oid(_) => Val::Oid(d(sim)),
        Val::RelOid(_) => Val::RelOid(d(sim)),
        Val::Str(12, _) => return None,
        Val::Str(t, _) => Val::Str(*t, format!("edit{}", sim.c.usize(1000))),
        Val::Bmp(_) => Val::Bmp(d(sim)),
        Val::Univ(_) => Val::Univ(d(sim)),
        Val::Seq(l) | Val::Set(l) => {
            let mut l = l.clone();
            match sim.c.usize(5) {
                0 => {
                    let i = sim.c.usize(l.len() + 1);
                    let (tag, val) = leaf(sim, &[]);
                    let hdr = model::Hdr { class: 0, cons: false, tag, len: model::Len::Def(0) };
                    l.insert(i, Node { hdr, val });
                }
                1 => l.clear(),
                2 if !l.is_empty() => {
                    let i = sim.c.usize(l.len());
                    l.remove(i);
                }
                3 => l.reverse(),
                _ => l.truncate(1),
            }
            if let Val::Seq(_) = v {
                Val::Seq(l)
            } else {
                Val::Set(l)
            }
        }
        Val::Opt(Some(_)) => Val::Opt(Some(Box::new(built(sim, &[])))),
        Val::Tagged(..) => Val::Tagged(sim.c.usize(4) as u8, gen::tag_no(sim), Box::new(built(sim, &[]))),
        Val::Unknown(h, _) => Val::Unknown(h.clone(), d(sim)),
        _ => return None,
    })
}

/// reference traversal that draws edits; stops (false) at callback number `stop`
fn walk_mut(sim: &mut Sim, n: &mut Node, depth: usize, e: &mut Edits, stop: usize, out: &mut Vec<Evt>) -> bool {
    out.push(Evt::Ber(n.clone(), depth));
    if e.budget > 0 && sim.c.chance(1, 6) {
        e.budget -= 1;
        let x = built(sim, &[]);
        let r = e.arena.keep(x);
        e.ber.insert(out.len(), r);
        *n = r.clone();
    }
    if out.len() == stop {
        return false;
    }
    out.push(Evt::Ty(ty_name(&n.val), n.val.clone(), depth));
    if e.budget > 0 && sim.c.chance(1, 4) {
        if let Some(v) = ty_edit(sim, &n.val, e) {
            e.budget -= 1;
            let r = e.arena.keep(Node { hdr: n.hdr.clone(), val: v });
            e.ty.insert(out.len(), &r.val);
            n.val = r.val.clone();
        }
    }
    if out.len() == stop {
        return false;
    }
    if let Val::Seq(l) | Val::Set(l) = &mut n.val {
        for k in l.iter_mut() {
            if !walk_mut(sim, k, depth + 1, e, stop, out) {
                return false;
            }
        }
    }
    true
}

fn first_diff(a: &[Evt], b: &[Evt]) -> String {
    for i in 0..a.len().max(b.len()) {
        if a.get(i) != b.get(i) {
            let s = |x: Option<&Evt>| x.map_or("nothing".to_string(), |x| format!("{x:?}").chars().take(300).collect());
            return format!("callback {i}: expected {}, got {}", s(a.get(i)), s(b.get(i)));
        }
    }
    "no difference".into()
}

fn start_depth(sim: &mut Sim) -> Option<usize> {
    match sim.c.usize(4) {
        0 => None,
        1 => Some(sim.c.usize(5)),
        2 => Some(sim.c.usize(1000)),
        _ => Some(1 << sim.c.usize(40)),
    }
}

fn stop_at(sim: &mut Sim, n: usize) -> usize {
    if sim.c.chance(1, 3) {
        sim.fault("callback-panics");
        1 + sim.c.usize(2 * n)
    } else {
        usize::MAX
    }
}

fn feats(sim: &mut Sim, kind: u64, evts: &[Evt], edits: u64, stopped: u64) {
    for e in evts.iter().take(40) {
        if let Evt::Ty(t, _, d) = e {
            sim.feat(&[1400, kind, hstr(t), bucket(*d), edits.min(1), stopped]);
        }
    }
}

/// a whole visit of another object
fn plain_visit(n: &Node) -> Option<String> {
    let o = build(n);
    let mut tick = |_: usize| {};
    let mut r = Rec { evts: vec![], tick: &mut tick };
    Visit::run(&mut r, &o);
    let mut want = Vec::new();
    walk(n, 0, &mut want);
    if r.evts != want {
        return Some(first_diff(&want, &r.evts));
    }
    None
}

fn run(sim: &mut Sim) -> R {
    let k = 1 + sim.c.usize(3);
    let mut objs: Vec<Node> = (0..k).map(|_| object(sim)).collect();
    for n in &mut objs {
        while model::count(n) > 200 {
            *n = built(sim, &[]);
        }
    }
    if is_wide(sim) {
        objs[0] = wide(sim);
    }
    let visits = 1 + sim.c.usize(4);
    for v in 0..visits {
        let i = sim.c.usize(objs.len());
        let other = objs[(i + 1) % objs.len()].clone();
        let nested = if sim.c.chance(1, 4) { 1 + sim.c.usize(6) } else { usize::MAX };
        let depth = start_depth(sim);
        let d0 = depth.unwrap_or(0);
        let n = objs[i].clone();
        let stop = stop_at(sim, model::count(&n));
        sim.steps += 1;
        sim.now += 100;
        if sim.c.chance(1, 3) {
            // a visitor that implements some of the callbacks only
            let kind = if sim.c.chance(1, 4) { partial_of(ty_name(&n.val)) } else { sim.c.usize(partials()) };
            let mutable = sim.c.chance(1, 2);
            let mut full = Vec::new();
            walk(&n, d0, &mut full);
            let want = partial_expected(kind, &full);
            let (evts, after) = run_partial(kind, mutable, &n, d0);
            sim.eval();
            sim.note(evts.len() as u64);
            sim.feat(&[1401, kind as u64, mutable as u64, bucket(evts.len())]);
            ev!(sim, "visit {v} of object {i} by a visitor (mutable {mutable}) with {}: {} callbacks", partial_name(kind), evts.len());
            if evts != want {
                bail!("wrong-visit", "visitor (mutable {mutable}) with {} at {}: {}", partial_name(kind), show_node(&n), first_diff(&want, &evts));
            }
            if after != n {
                bail!("changed-by-visit", "a visitor (mutable {mutable}) with {} that changes nothing leaves {} instead of {}", partial_name(kind), show_node(&after), show_node(&n));
            }
            sim.probe("partial-visitor");
            continue;
        }
        let mut inner: Option<String> = None;
        if sim.c.chance(1, 2) {
            let mut want = Vec::new();
            walk(&n, d0, &mut want);
            let full = want.len();
            want.truncate(stop);
            let o = build(&n);
            let mut tick = |c: usize| {
                if c == nested {
                    inner = plain_visit(&other);
                }
                if c == stop {
                    std::panic::panic_any(Injected);
                }
            };
            let mut r = Rec { evts: vec![], tick: &mut tick };
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match depth {
                None => Visit::run(&mut r, &o),
                Some(d) => Visit::run_at(&mut r, &o, d),
            }));
            let evts = r.evts;
            if let Err(e) = &res {
                if e.downcast_ref::<Injected>().is_none() {
                    std::panic::resume_unwind(res.unwrap_err());
                }
            }
            sim.eval();
            sim.note(evts.len() as u64);
            feats(sim, 0, &evts, 0, (stop <= full) as u64);
            ev!(sim, "visit {v} of object {i} from depth {depth:?}: {} callbacks, panic at {stop}", evts.len());
            if evts != want || res.is_err() != (stop <= full) {
                bail!("wrong-visit", "visit from depth {depth:?} (panic at {stop}) of {}: {}", show_node(&n), first_diff(&want, &evts));
            }
            if snap(&o) != n {
                bail!("changed-by-visit", "a read-only visit changed {} to {}", show_node(&n), show_node(&snap(&o)));
            }
        } else {
            let mut e = Edits { arena: Arena::default(), ber: BTreeMap::new(), ty: BTreeMap::new(), budget: sim.c.usize(4) };
            let mut m = n.clone();
            let mut want = Vec::new();
            let done = walk_mut(sim, &mut m, d0, &mut e, stop, &mut want);
            let edits = (e.ber.len() + e.ty.len()) as u64;
            let start = e.arena.keep(n.clone());
            let mut tick = |c: usize| {
                if c == nested {
                    inner = plain_visit(&other);
                }
                if c == stop {
                    std::panic::panic_any(Injected);
                }
            };
            let (eb, et) = (&e.ber, &e.ty);
            let mut r = RecMut {
                evts: vec![],
                tick: &mut tick,
                edit_ber: &mut |c, _| eb.get(&c).copied(),
                edit_ty: &mut |c, _| et.get(&c).copied(),
            };
            let res = run_mut(&mut r, build(start), depth);
            let evts = r.evts;
            let (panicked, o) = match res {
                Ok(o) => (false, o),
                Err(o) => (true, o),
            };
            sim.eval();
            sim.note(evts.len() as u64);
            feats(sim, 1, &evts, edits, panicked as u64);
            if edits > 0 {
                sim.probe("edited-by-callback");
            }
            ev!(sim, "mutable visit {v} of object {i} from depth {depth:?}: {} callbacks, {edits} edits, panic at {stop}", evts.len());
            if evts != want || panicked == done {
                bail!(
                    "wrong-visit",
                    "mutable visit from depth {depth:?} (panic at {stop}, edits {:?} {:?}) of {}: {}",
                    e.ber,
                    e.ty,
                    show_node(&n),
                    first_diff(&want, &evts)
                );
            }
            let after = snap(&o);
            drop(o);
            if after != m {
                bail!(
                    "wrong-object-after-visit",
                    "mutable visit (panic at {stop}, edits {:?} {:?}) of {} leaves {} instead of {}",
                    e.ber,
                    e.ty,
                    show_node(&n),
                    show_node(&after),
                    show_node(&m)
                );
            }
            objs[i] = after;
        }
        if let Some(d) = inner {
            bail!("nested-visit", "a visit of another object started inside a callback: {d}");
        }
        if model::count(&objs[i]) > 300 {
            return Ok(());
        }
    }
    Ok(())
}
