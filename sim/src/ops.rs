//! Every operation on a decoded object, as one digest (totality and history-independence checks).
use crate::choice::mix;
use crate::comb::yield_point;
use crate::snap::*;
use crate::vis::{Rec, RecMut};
use der_parser::asn1_rs::Any;
use der_parser::ber::*;
use std::convert::TryFrom;
use std::fmt::Write as _;

pub struct Dig(pub u64);

impl Dig {
    pub fn new() -> Dig {
        Dig(0x1357)
    }
    pub fn s(&mut self, s: &str) {
        self.0 = mix(self.0 ^ crate::sim::hstr(s));
    }
    pub fn dbg<T: std::fmt::Debug>(&mut self, t: &T) {
        let mut h = H(0xcbf2_9ce4_8422_2325);
        let _ = write!(h, "{t:?}");
        self.0 = mix(self.0 ^ h.0);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for x in b {
            h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.0 = mix(self.0 ^ h);
    }
}

struct H(u64);
impl std::fmt::Write for H {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for x in s.bytes() {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100_0000_01b3);
        }
        Ok(())
    }
}

/// which groups of operations
pub const ACC: u32 = 1;
pub const ITER: u32 = 2;
pub const VISIT: u32 = 4;
pub const PRINT: u32 = 8;
pub const ENCODE: u32 = 16;
pub const CLONE: u32 = 32;
pub const ALL: u32 = 63;

/// accessors of one object
pub fn accessors(o: &BerObject, d: &mut Dig) {
    d.dbg(&o.as_i64());
    d.dbg(&o.as_i32());
    d.dbg(&o.as_u64());
    d.dbg(&o.as_u32());
    d.dbg(&o.as_bool());
    d.dbg(&o.as_oid());
    d.dbg(&o.as_oid_val().map(|o| (o.to_id_string(), o.as_bytes().len(), o.iter().map(|i| i.take(64).collect::<Vec<u64>>()))));
    d.dbg(&o.as_optional().map(|x| x.is_some()));
    d.dbg(&o.as_tagged().map(|x| (x.0, x.1)));
    d.dbg(&o.as_bitstring_ref());
    d.dbg(&o.as_bitslice().map(|b| b.len()));
    d.dbg(&o.as_sequence().map(|v| v.len()));
    d.dbg(&o.as_set().map(|v| v.len()));
    d.dbg(&o.as_slice());
    d.dbg(&o.as_str());
    match o.as_bigint() {
        Ok(b) => d.bytes(&b.to_signed_bytes_be()),
        Err(e) => d.dbg(&e),
    }
    match o.as_biguint() {
        Ok(b) => d.bytes(&b.to_bytes_be()),
        Err(e) => d.dbg(&e),
    }
    d.dbg(&o.content.as_i64());
    d.dbg(&o.content.as_u32());
    d.dbg(&o.content.as_slice());
    d.dbg(&(o.class(), o.tag(), o.length(), o.is_universal(), o.is_application(), o.is_contextspecific(), o.is_private()));
    d.dbg(&(o.is_primitive(), o.is_constructed(), o.assert_constructed(), o.assert_primitive()));
    d.dbg(&(o.assert_tag(Tag::Integer), o.assert_class(Class::Universal)));
    if let Ok(b) = o.as_bitstring() {
        let n = b.data.len() * 8;
        for i in [0, 1, 7, 8, n.wrapping_sub(1), n, n + 1, usize::MAX] {
            d.dbg(&b.is_set(i));
        }
        d.dbg(&b.as_bitslice().map(|s| s.iter().filter(|b| **b).count()));
        d.bytes(b.as_ref());
    }
}

pub fn visit(o: &BerObject, d: &mut Dig) {
    // only the number of callbacks and their depths: values are covered by the accessors
    struct V<'x>(&'x mut Dig);
    impl<'a> Visit<'a> for V<'_> {
        fn visit_ber(&mut self, ber: &'_ BerObject<'a>, depth: usize) {
            self.0.dbg(&(depth, ber.tag()));
        }
        fn visit_ber_unknown(&mut self, ber: &'_ Any<'a>, depth: usize) {
            self.0.dbg(&(depth, ber.data));
        }
    }
    let mut v = V(d);
    v.run(o);
    v.run_at(o, 7);
}

/// all operations on the object and its descendants; false answers are not judged here
pub fn all(o: &BerObject, groups: u32, d: &mut Dig, budget: &mut usize) {
    if *budget == 0 {
        return;
    }
    *budget -= 1;
    if groups & ACC != 0 {
        accessors(o, d);
        yield_point();
    }
    if groups & ITER != 0 {
        // another task may run between two steps of an iteration
        let mut n = 0u64;
        for x in o.ref_iter() {
            n += 1;
            if n < 60 {
                yield_point();
                d.dbg(&(x.tag(), x.as_slice().map(|s| s.len())));
            }
        }
        d.dbg(&n);
        n = 0;
        for x in o.clone().into_iter().take(100_000) {
            n += 1;
            if n < 60 {
                yield_point();
                d.dbg(&(x.tag(), x.as_slice().map(|s| s.len())));
            }
        }
        d.dbg(&n);
        let n = match &o.content {
            BerObjectContent::Sequence(v) | BerObjectContent::Set(v) => v.len(),
            _ => 0,
        };
        for i in 0..n.min(50) {
            d.dbg(&o[i].tag());
        }
    }
    if groups & VISIT != 0 {
        visit(o, d);
        let mut tick = |_| {};
        let mut n = 0u64;
        if crate::model::count(&snap(o)) < 60 {
            let mut r = Rec { evts: vec![], tick: &mut tick };
            Visit::run(&mut r, o);
            n += r.evts.len() as u64;
            d.dbg(&n);
            let node = snap(o);
            let arena = crate::vis::Arena::default();
            let st = arena.keep(node);
            let mut rm = RecMut { evts: vec![], tick: &mut tick, edit_ber: &mut |_, _| None, edit_ty: &mut |_, _| None };
            let r = crate::vis::run_mut(&mut rm, build(st), Some(3));
            d.dbg(&rm.evts.len());
            drop(r);
            drop(arena);
        }
    }
    if groups & PRINT != 0 {
        d.dbg(o);
        let mut p = o.as_pretty(2, 3);
        d.dbg(&p);
        p.set_flag(PrettyPrinterFlag::ShowHeader);
        yield_point();
        d.dbg(&p);
        p.unset_flag(PrettyPrinterFlag::Recursive);
        d.dbg(&p);
    }
    if groups & CLONE != 0 {
        let c = o.clone();
        d.dbg(&(c == *o));
        d.dbg(&(*o == BerObject::from_obj(BerObjectContent::Null)));
        let any = Any::new(o.header.clone(), o.as_slice().unwrap_or(&[]));
        d.dbg(&BerObject::try_from(&any).is_ok());
        d.dbg(&BerObject::try_from(any).is_ok());
    }
    if groups & ENCODE != 0 {
        match o.to_vec() {
            Ok(v) => d.bytes(&v),
            Err(e) => d.dbg(&e),
        }
        let r = cookie_factory::gen_simple(ber_encode_object_raw(&o.header, &o.content), Vec::new());
        d.dbg(&r.map_err(|e| e.to_string()));
        let r = cookie_factory::gen_simple(ber_encode_tagged_explicit(Tag(3), Class::ContextSpecific, o), Vec::new());
        d.dbg(&r.map_err(|e| e.to_string()));
        let r = cookie_factory::gen_simple(ber_encode_tagged_implicit(Tag(33), Class::Private, o), Vec::new());
        d.dbg(&r.map_err(|e| e.to_string()));
        let r = cookie_factory::gen_simple(ber_encode_header(&o.header), Vec::new());
        d.dbg(&r.map_err(|e| e.to_string()));
    }
    match &o.content {
        BerObjectContent::Sequence(v) | BerObjectContent::Set(v) => v.iter().for_each(|k| all(k, groups & (ACC | ITER | CLONE), d, budget)),
        BerObjectContent::Optional(Some(k)) => all(k, groups, d, budget),
        BerObjectContent::Tagged(_, _, k) => all(k, groups, d, budget),
        _ => (),
    }
}
