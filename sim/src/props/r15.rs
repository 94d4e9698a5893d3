//! Printing is total, faithful to the tree and reports sink failures.
use super::common::*;
use super::r10::built;
use super::*;
use crate::gen;
use crate::model::{self, Hdr, Len, Node, Val, STR_TAGS};
use crate::readers::*;
use crate::runner::Injected;
use crate::sim::*;
use crate::snap::*;
use crate::{bail, ev};
use der_parser::asn1_rs::Oid;
use der_parser::ber::*;
use std::fmt::{self, Write};

pub const PROP: Prop = Prop {
    id: "R15",
    run,
    quick: 5_000_000,
    thorough: 300_000_000,
    rule: "one run = an object (decoded from bytes of a correct or faulty encoder, built, tagged, optional) printed 2-6 times with drawn indentation, options set and unset in a drawn history, into sinks that accept \
everything, fail at a drawn call or byte, or panic; the text accepted is compared with the text of a reference printer; evaluation = one printing judged; \
distinct = hash of the sequence of (type, options, sink fault, where it struck)",
    measure: "(type of the root, recursive, headers, indentation class, sink fault, size class of the text accepted)",
    stub: &["text sink (failing, panicking)", "peer and transport that the objects come from"],
    ..BASE
};

fn hx(d: &[u8]) -> String {
    format!("[{}]", d.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(" "))
}

fn class_name(c: u8) -> &'static str {
    ["UNIVERSAL", "APPLICATION", "CONTEXT-SPECIFIC", "PRIVATE"][c as usize & 3]
}

fn header(h: &Hdr, o: &mut String) {
    let plus = if h.cons { "+" } else { "" };
    let l = match h.len {
        Len::Def(n) => n.to_string(),
        Len::Indef => "Indefinite".into(),
    };
    match h.class {
        // the names of universal tags are asn1-rs's
        0 => *o += &format!("[{}]{plus} {l}", Tag(h.tag)),
        2 => *o += &format!("[{}]{plus} {l}", h.tag),
        c => *o += &format!("[{} {}]{plus} {l}", class_name(c), h.tag),
    }
}

/// reference printer
fn print(n: &Node, rec: bool, hdrs: bool, indent: usize, inc: usize, o: &mut String) {
    let pad = |o: &mut String, k: usize| o.extend(std::iter::repeat(' ').take(k));
    pad(o, indent);
    if hdrs {
        header(&n.hdr, o);
        o.push(' ');
    }
    match &n.val {
        Val::Eoc => *o += "EndOfContent",
        Val::Bool(b) => *o += if *b { "Boolean(true)" } else { "Boolean(false)" },
        Val::Int(d) => *o += &format!("Integer({})", hx(d)),
        Val::Enum(i) => *o += &format!("Enum({i})"),
        Val::Oid(d) => *o += &format!("OID({:?})", Oid::new(d.as_slice().into())),
        Val::RelOid(d) => *o += &format!("RelativeOID({:?})", Oid::new_relative(d.as_slice().into())),
        Val::Null => *o += "Null",
        Val::Octets(d) => *o += &format!("OctetString({})", hx(d)),
        Val::Bits(u, d) => *o += &format!("BitString({u},{})", hx(d)),
        Val::Gen(t) => *o += &format!("GeneralizedTime(\"{t}\")"),
        Val::Utc(t) => *o += &format!("UTCTime(\"{t}\")"),
        Val::Str(t, s) => {
            let (name, q) = match t {
                26 => ("VisibleString", "\""),
                27 => ("GeneralString", "\""),
                25 => ("GraphicString", "\""),
                19 => ("PrintableString", "\""),
                18 => ("NumericString", "\""),
                12 => ("UTF8String", "\""),
                22 => ("IA5String", "\""),
                20 => ("T61String", ""),
                21 => ("VideotexString", ""),
                7 => ("ObjectDescriptor", "\""),
                _ => ("?", ""),
            };
            *o += &format!("{name}({q}{s}{q})")
        }
        Val::Bmp(d) => {
            let v: Vec<u16> = d.chunks_exact(2).map(|a| (a[0] as u16) << 8 | a[1] as u16).collect();
            match String::from_utf16(&v) {
                Ok(s) => *o += &format!("BmpString(\"{s}\")\n"),
                e => *o += &format!("BmpString({e:?}) <error decoding utf32 string>\n"),
            }
        }
        Val::Univ(d) => {
            let s: Option<String> = d
                .chunks_exact(4)
                .map(|a| char::from_u32((a[0] as u32) << 24 | (a[1] as u32) << 16 | (a[2] as u32) << 8 | a[3] as u32))
                .collect();
            match s {
                Some(s) => *o += &format!("UniversalString(\"{s}\")\n"),
                None => *o += &format!("UniversalString({d:?}) <error decoding utf32 string>\n"),
            }
        }
        Val::Opt(Some(x)) => *o += &format!("OPTION {:?}", build(x)),
        Val::Opt(None) => *o += "NONE",
        Val::Tagged(c, t, x) => {
            *o += &format!("ContextSpecific [{} {t}] {{\n", class_name(*c));
            print(x, rec, hdrs, indent + inc, inc, o);
            pad(o, indent);
            o.push('}');
        }
        Val::Seq(l) | Val::Set(l) => {
            *o += if let Val::Seq(_) = n.val { "Sequence" } else { "Set" };
            if rec {
                *o += "[\n";
                for k in l {
                    print(k, rec, hdrs, indent + inc, inc, o);
                }
                pad(o, indent);
                o.push(']');
            }
        }
        Val::Unknown(_, d) => *o += &format!("Unknown {}", hx(d)),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum F {
    None,
    Call(usize),
    Byte(usize),
    PanicCall(usize),
}

struct Sink {
    s: String,
    calls: usize,
    f: F,
    fired: bool,
    after: usize,
}

impl Write for Sink {
    fn write_str(&mut self, t: &str) -> fmt::Result {
        crate::comb::yield_point();
        self.calls += 1;
        if self.fired {
            self.after += 1;
            return Err(fmt::Error);
        }
        match self.f {
            F::Call(k) if self.calls > k => {
                self.fired = true;
                return Err(fmt::Error);
            }
            F::PanicCall(k) if self.calls > k => {
                self.fired = true;
                std::panic::panic_any(Injected)
            }
            F::Byte(b) if self.s.len() + t.len() > b => {
                // the sink keeps what fits
                let n = (0..=b - self.s.len().min(b)).rev().find(|i| t.is_char_boundary(*i)).unwrap_or(0);
                self.s.push_str(&t[..n]);
                self.fired = true;
                return Err(fmt::Error);
            }
            _ => (),
        }
        self.s.push_str(t);
        Ok(())
    }
}

fn object(sim: &mut Sim) -> Node {
    let n = match sim.c.usize(3) {
        0 => built(sim, &[]),
        1 => {
            let k = sim.c.small(8);
            let l: Vec<Node> = (0..k).map(|_| built(sim, &[])).collect();
            let mut x = built(sim, &[]);
            x.val = if sim.c.chance(1, 2) { Val::Seq(l) } else { Val::Set(l) };
            x
        }
        _ => {
            let mut cfg = cfg_any(sim);
            cfg.big = false;
            if sim.c.chance(1, 6) {
                cfg.max_depth = 30;
                cfg.max_kids = 2;
            }
            let mut g = gen::element(sim, &cfg, 0);
            if sim.c.chance(1, 4) {
                gen::byzantine(sim, &mut g);
            }
            let mut b = g.bytes();
            if sim.c.chance(1, 6) {
                corrupt(sim, &mut b, 1);
            }
            match Rd::Gen(false).run(&b) {
                Out::Ok(n, _) => n,
                _ => built(sim, &[]),
            }
        }
    };
    if model::count(&n) > 120 {
        return Node { hdr: n.hdr, val: Val::Null };
    }
    n
}

/// headers the program filled in itself: their fields are not checked against the content
fn tamper(sim: &mut Sim, n: &mut Node) {
    if sim.c.chance(1, 2) {
        match sim.c.usize(4) {
            0 => n.hdr.class = sim.c.usize(4) as u8,
            1 => n.hdr.cons = !n.hdr.cons,
            2 => n.hdr.len = if sim.c.chance(1, 2) { Len::Indef } else { Len::Def(gen::edge_u64(sim)) },
            _ => n.hdr.tag = gen::edge_u64(sim) as u32,
        }
    }
    match &mut n.val {
        Val::Seq(v) | Val::Set(v) => v.iter_mut().for_each(|k| tamper(sim, k)),
        Val::Opt(Some(k)) | Val::Tagged(_, _, k) => tamper(sim, k),
        _ => (),
    }
}

/// content the program put there itself, outside the repertoire of its type
fn foreign(sim: &mut Sim) -> Val {
    let d = {
        let k = sim.c.usize(13);
        gen::fill(sim, k)
    };
    match sim.c.weighted(&[2, 2, 1, 4, 1, 1]) {
        0 => Val::Bmp(d),
        1 => Val::Univ(d),
        2 => Val::Enum(sim.c.raw()),
        3 => {
            let n = sim.c.usize(8);
            let s = (0..n)
                .map(|_| *sim.c.pick(&["\n", "\"", "\\", "{}", "{", "\0", "\t", "\r\n", " ", "  ", "a", "%", "é", "\u{1f600}", "\u{fffd}", "\u{7f}", ")", "]"]))
                .collect();
            Val::Str(*sim.c.pick(&STR_TAGS), s)
        }
        4 => Val::Bits(sim.c.byte(), d),
        _ => Val::Int(d),
    }
}

/// two long texts: what surrounds their first difference
fn clip<'a>(a: &'a str, b: &'a str) -> (&'a str, &'a str) {
    if a.len() < 4000 && b.len() < 4000 {
        return (a, b);
    }
    let d = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let part = |s: &'a str| {
        let lo = (0..=d.saturating_sub(200).min(s.len())).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0);
        let hi = ((d + 200).min(s.len())..=s.len()).find(|i| s.is_char_boundary(*i)).unwrap_or(s.len());
        &s[lo..hi]
    };
    (part(a), part(b))
}

fn run(sim: &mut Sim) -> R {
    let mut n = object(sim);
    if sim.c.chance(1, 6) {
        tamper(sim, &mut n);
    }
    if sim.c.chance(1, 8) {
        let v = foreign(sim);
        match &mut n.val {
            // a member, or everything
            Val::Seq(l) | Val::Set(l) if !l.is_empty() && sim.c.chance(2, 3) => {
                let k = sim.c.usize(l.len());
                l[k].val = v;
            }
            Val::Tagged(_, _, x) if sim.c.chance(1, 2) => x.val = v,
            _ => n.val = v,
        }
    }
    if is_wide(sim) {
        n = wide(sim);
    }
    let o = build(&n);
    ev!(sim, "object {}", show_node(&n));
    let mut indent = *sim.c.pick(&[0usize, 1, 2, 4, 9, 33]);
    let mut inc = *sim.c.pick(&[2usize, 0, 1, 4, 8]);
    if model::count(&n) < 12 && sim.c.chance(1, 200) {
        match sim.c.usize(3) {
            0 => indent = *sim.c.pick(&[127usize, 255, 256, 257, 1000, 65535, 65536, 70_000]),
            1 => inc = *sim.c.pick(&[127usize, 255, 256, 1000, 65535, 65536]),
            _ => (indent, inc) = (65_530, 7),
        }
    }
    let (mut rec, mut hdrs);
    let mut p;
    if sim.c.chance(1, 2) {
        p = o.as_pretty(indent, inc);
        (rec, hdrs) = (true, false);
    } else {
        let mut fl = Vec::new();
        let k = sim.c.usize(4);
        for _ in 0..k {
            fl.push(if sim.c.chance(1, 2) { PrettyPrinterFlag::Recursive } else { PrettyPrinterFlag::ShowHeader });
        }
        rec = fl.contains(&PrettyPrinterFlag::Recursive);
        hdrs = fl.contains(&PrettyPrinterFlag::ShowHeader);
        p = PrettyBer::new(&o, fl, indent, inc);
    }
    let times = 2 + sim.c.usize(5);
    for _ in 0..times {
        let ops = sim.c.small(4);
        for _ in 0..ops {
            match sim.c.usize(4) {
                0 => {
                    p.set_flag(PrettyPrinterFlag::Recursive);
                    rec = true
                }
                1 => {
                    p.unset_flag(PrettyPrinterFlag::Recursive);
                    rec = false
                }
                2 => {
                    p.set_flag(PrettyPrinterFlag::ShowHeader);
                    hdrs = true
                }
                _ => {
                    p.unset_flag(PrettyPrinterFlag::ShowHeader);
                    hdrs = false
                }
            }
        }
        if p.is_flag_set(PrettyPrinterFlag::Recursive) != rec || p.is_flag_set(PrettyPrinterFlag::ShowHeader) != hdrs {
            bail!("flags", "is_flag_set disagrees with what was set: recursive {rec}, headers {hdrs}");
        }
        let mut want = String::new();
        let deeper = sim.c.chance(1, 6);
        if deeper {
            print(&n, rec, hdrs, indent + inc, inc, &mut want);
        } else {
            print(&n, rec, hdrs, indent, inc, &mut want);
        }
        let f = match sim.c.weighted(&[3, 3, 3, 1]) {
            0 => F::None,
            1 => F::Call(sim.c.small(20)),
            2 => F::Byte(sim.c.usize(want.len() + 2)),
            _ => F::PanicCall(sim.c.small(10)),
        };
        let mut s = Sink { s: String::new(), calls: 0, f, fired: false, after: 0 };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if deeper {
                write!(s, "{:?}", p.next_indent(&o))
            } else {
                write!(s, "{p:?}")
            }
        }));
        let r = match r {
            Ok(r) => Some(r),
            Err(e) => {
                if e.downcast_ref::<Injected>().is_none() {
                    std::panic::resume_unwind(e);
                }
                None
            }
        };
        sim.eval();
        sim.steps += s.calls as u64;
        sim.now += s.calls as u64;
        if s.fired {
            sim.fault(match f {
                F::Call(_) => "sink-error-at-call",
                F::Byte(_) => "sink-full",
                _ => "sink-panics",
            });
        }
        sim.note_str(&s.s);
        sim.feat(&[1500, super::r08::kind_code(&n.val), rec as u64, hdrs as u64, bucket(indent), s.fired as u64, bucket(s.s.len())]);
        ev!(sim, "print recursive={rec} headers={hdrs} indent={indent}+{inc} sink {f:?}: {r:?} {:?}", clip(&s.s, &s.s).0);
        let ctx = || format!("printing {} (recursive {rec}, headers {hdrs}, indent {indent}+{inc}, sink {f:?})", show_node(&n));
        if !want.starts_with(&s.s) || (!s.fired && s.s != want) {
            bail!("wrong-text", "{}: expected {:?}, got {:?}", ctx(), clip(&want, &s.s).0, clip(&want, &s.s).1);
        }
        match (s.fired, r) {
            (false, Some(Ok(()))) => (),
            (true, Some(Err(_))) => (),
            (true, None) => (),
            _ => bail!("wrong-verdict", "{}: sink failed: {}, result {r:?}", ctx(), s.fired),
        }
        if s.after > 0 {
            bail!("continues-after-failure", "{}: {} more writes after the sink failed", ctx(), s.after);
        }
        if snap(&o) != n {
            bail!("changed-by-printing", "{}", ctx());
        }
    }
    Ok(())
}
