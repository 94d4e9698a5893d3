//! Recording visitors and the reference traversal.
use crate::model::*;
use crate::snap::*;
use der_parser::asn1_rs::{ASN1DateTime, Any, Oid};
use der_parser::ber::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Evt {
    /// general callback
    Ber(Node, usize),
    /// callback of a type
    Ty(&'static str, Val, usize),
}

pub fn ty_name(v: &Val) -> &'static str {
    match v {
        Val::Eoc => "endofcontent",
        Val::Bool(_) => "boolean",
        Val::Int(_) => "integer",
        Val::Bits(..) => "bitstring",
        Val::Octets(_) => "octetstring",
        Val::Null => "null",
        Val::Enum(_) => "enum",
        Val::Oid(_) => "oid",
        Val::RelOid(_) => "relative_oid",
        Val::Str(t, _) => match t {
            18 => "numericstring",
            26 => "visiblestring",
            19 => "printablestring",
            22 => "ia5string",
            12 => "utf8string",
            20 => "teletexstring",
            21 => "videotextstring",
            7 => "objectdescriptor",
            25 => "graphicstring",
            _ => "generalstring",
        },
        Val::Bmp(_) => "bmpstring",
        Val::Univ(_) => "universalstring",
        Val::Seq(_) => "sequence",
        Val::Set(_) => "set",
        Val::Utc(_) => "utctime",
        Val::Gen(_) => "generalizedtime",
        Val::Opt(_) => "optional",
        Val::Tagged(..) => "tagged",
        Val::Unknown(..) => "unknown",
    }
}

/// what a visitor has to see
pub fn walk(n: &Node, depth: usize, out: &mut Vec<Evt>) {
    out.push(Evt::Ber(n.clone(), depth));
    out.push(Evt::Ty(ty_name(&n.val), n.val.clone(), depth));
    if let Val::Seq(v) | Val::Set(v) = &n.val {
        for k in v {
            walk(k, depth + 1, out);
        }
    }
}

/// records every callback; calls `tick` before returning from each
pub struct Rec<'t> {
    pub evts: Vec<Evt>,
    pub tick: &'t mut dyn FnMut(usize),
}

impl Rec<'_> {
    fn ty(&mut self, n: &'static str, v: Val, depth: usize) {
        self.evts.push(Evt::Ty(n, v, depth));
        (self.tick)(self.evts.len());
    }
}

fn oid(o: &Oid) -> Vec<u8> {
    o.as_bytes().to_vec()
}

impl<'a> Visit<'a> for Rec<'_> {
    fn visit_ber(&mut self, ber: &'_ BerObject<'a>, d: usize) {
        self.evts.push(Evt::Ber(snap(ber), d));
        (self.tick)(self.evts.len());
    }
    fn visit_ber_bitstring(&mut self, ignored: u8, data: &'a BitStringObject, d: usize) {
        self.ty("bitstring", Val::Bits(ignored, data.data.to_vec()), d)
    }
    fn visit_ber_bmpstring(&mut self, s: &'a [u8], d: usize) {
        self.ty("bmpstring", Val::Bmp(s.to_vec()), d)
    }
    fn visit_ber_boolean(&mut self, b: bool, d: usize) {
        self.ty("boolean", Val::Bool(b), d)
    }
    fn visit_ber_endofcontent(&mut self, d: usize) {
        self.ty("endofcontent", Val::Eoc, d)
    }
    fn visit_ber_enum(&mut self, e: u64, d: usize) {
        self.ty("enum", Val::Enum(e), d)
    }
    fn visit_ber_generalstring(&mut self, s: &'a str, d: usize) {
        self.ty("generalstring", Val::Str(27, s.into()), d)
    }
    fn visit_ber_generalizedtime(&mut self, t: &'a ASN1DateTime, d: usize) {
        self.ty("generalizedtime", Val::Gen(t.clone()), d)
    }
    fn visit_ber_graphicstring(&mut self, s: &'a str, d: usize) {
        self.ty("graphicstring", Val::Str(25, s.into()), d)
    }
    fn visit_ber_ia5string(&mut self, s: &'a str, d: usize) {
        self.ty("ia5string", Val::Str(22, s.into()), d)
    }
    fn visit_ber_integer(&mut self, b: &'a [u8], d: usize) {
        self.ty("integer", Val::Int(b.to_vec()), d)
    }
    fn visit_ber_null(&mut self, d: usize) {
        self.ty("null", Val::Null, d)
    }
    fn visit_ber_numericstring(&mut self, s: &'a str, d: usize) {
        self.ty("numericstring", Val::Str(18, s.into()), d)
    }
    fn visit_ber_oid(&mut self, o: &'a Oid, d: usize) {
        self.ty("oid", Val::Oid(oid(o)), d)
    }
    fn visit_ber_objectdescriptor(&mut self, s: &'a str, d: usize) {
        self.ty("objectdescriptor", Val::Str(7, s.into()), d)
    }
    fn visit_ber_octetstring(&mut self, b: &'a [u8], d: usize) {
        self.ty("octetstring", Val::Octets(b.to_vec()), d)
    }
    fn visit_ber_optional(&mut self, o: Option<&'a BerObject<'a>>, d: usize) {
        self.ty("optional", Val::Opt(o.map(|o| Box::new(snap(o)))), d)
    }
    fn visit_ber_printablestring(&mut self, s: &'a str, d: usize) {
        self.ty("printablestring", Val::Str(19, s.into()), d)
    }
    fn visit_ber_relative_oid(&mut self, o: &'a Oid, d: usize) {
        self.ty("relative_oid", Val::RelOid(oid(o)), d)
    }
    fn visit_ber_sequence(&mut self, l: &'_ [BerObject<'a>], d: usize) {
        self.ty("sequence", Val::Seq(l.iter().map(snap).collect()), d)
    }
    fn visit_ber_set(&mut self, l: &'_ [BerObject<'a>], d: usize) {
        self.ty("set", Val::Set(l.iter().map(snap).collect()), d)
    }
    fn visit_ber_teletexstring(&mut self, s: &'a str, d: usize) {
        self.ty("teletexstring", Val::Str(20, s.into()), d)
    }
    fn visit_ber_tagged(&mut self, c: Class, t: Tag, o: &'_ BerObject<'a>, d: usize) {
        self.ty("tagged", Val::Tagged(class_no(c), t.0, Box::new(snap(o))), d)
    }
    fn visit_ber_utctime(&mut self, t: &'a ASN1DateTime, d: usize) {
        self.ty("utctime", Val::Utc(t.clone()), d)
    }
    fn visit_ber_utf8string(&mut self, s: &'a str, d: usize) {
        self.ty("utf8string", Val::Str(12, s.into()), d)
    }
    fn visit_ber_universalstring(&mut self, b: &'a [u8], d: usize) {
        self.ty("universalstring", Val::Univ(b.to_vec()), d)
    }
    fn visit_ber_videotextstring(&mut self, s: &'a str, d: usize) {
        self.ty("videotextstring", Val::Str(21, s.into()), d)
    }
    fn visit_ber_visiblestring(&mut self, s: &'a str, d: usize) {
        self.ty("visiblestring", Val::Str(26, s.into()), d)
    }
    fn visit_ber_unknown(&mut self, a: &'_ Any<'a>, d: usize) {
        self.ty("unknown", Val::Unknown(hdr(&a.header), a.data.to_vec()), d)
    }
}

/// Recording mutable visitor. `edit` may replace the value a callback was given: it gets the number
/// of the callback and the value seen, and returns the new value (of the same kind).
pub struct RecMut<'t> {
    pub evts: Vec<Evt>,
    /// called with the callback's number before it returns
    pub tick: &'t mut dyn FnMut(usize),
    /// replacement of a whole node in the general callback
    pub edit_ber: &'t mut dyn FnMut(usize, &Node) -> Option<&'static Node>,
    /// replacement of a value in the callback of its type
    pub edit_ty: &'t mut dyn FnMut(usize, &Val) -> Option<&'static Val>,
}

impl RecMut<'_> {
    fn ev(&mut self, n: &'static str, v: &Val, d: usize) -> Option<&'static Val> {
        self.evts.push(Evt::Ty(n, v.clone(), d));
        (self.edit_ty)(self.evts.len(), v)
    }
    fn end(&mut self) {
        (self.tick)(self.evts.len());
    }
    fn s(&mut self, n: &'static str, tag: u32, s: &mut &str, d: usize) {
        let v = Val::Str(tag, s.to_string());
        if let Some(Val::Str(_, x)) = self.ev(n, &v, d) {
            *s = unsafe { long(x.as_str()) };
        }
        self.end()
    }
    fn b(&mut self, n: &'static str, mk: fn(Vec<u8>) -> Val, b: &mut &[u8], d: usize) {
        let v = mk(b.to_vec());
        if let Some(Val::Int(x) | Val::Bmp(x) | Val::Univ(x) | Val::Octets(x)) = self.ev(n, &v, d) {
            *b = unsafe { long(x.as_slice()) };
        }
        self.end()
    }
    fn ro(&mut self, n: &'static str, v: Val, d: usize) {
        self.ev(n, &v, d);
        self.end()
    }
    fn list(&mut self, n: &'static str, v: Val, l: &mut Vec<BerObject>, d: usize) {
        if let Some(Val::Seq(x) | Val::Set(x)) = self.ev(n, &v, d) {
            let x: &'static Vec<Node> = x;
            *l = x.iter().map(build).collect();
        }
        self.end()
    }
}

/// the callbacks hide the lifetime of what can be stored behind `&mut &'_`; all replacement values
/// of the simulator live for the whole run
unsafe fn long<'x, T: ?Sized>(x: &'static T) -> &'x T {
    x
}

impl<'a> VisitMut<'a> for RecMut<'_> {
    fn visit_ber_mut(&mut self, ber: &'_ mut BerObject<'a>, d: usize) {
        let n = snap(ber);
        self.evts.push(Evt::Ber(n.clone(), d));
        if let Some(m) = (self.edit_ber)(self.evts.len(), &n) {
            *ber = build(m);
        }
        self.end()
    }
    fn visit_ber_bitstring_mut(&mut self, ignored: &mut u8, data: &'a mut BitStringObject, d: usize) {
        let v = Val::Bits(*ignored, data.data.to_vec());
        if let Some(Val::Bits(u, x)) = self.ev("bitstring", &v, d) {
            *ignored = *u;
            data.data = x;
        }
        self.end()
    }
    fn visit_ber_bmpstring_mut(&mut self, s: &'a mut &'_ [u8], d: usize) {
        self.b("bmpstring", Val::Bmp, s, d)
    }
    fn visit_ber_boolean_mut(&mut self, b: &'a mut bool, d: usize) {
        if let Some(Val::Bool(x)) = self.ev("boolean", &Val::Bool(*b), d) {
            *b = *x;
        }
        self.end()
    }
    fn visit_ber_endofcontent_mut(&mut self, d: usize) {
        self.ro("endofcontent", Val::Eoc, d)
    }
    fn visit_ber_enum_mut(&mut self, e: &'a mut u64, d: usize) {
        if let Some(Val::Enum(x)) = self.ev("enum", &Val::Enum(*e), d) {
            *e = *x;
        }
        self.end()
    }
    fn visit_ber_generalstring_mut(&mut self, s: &'a mut &'_ str, d: usize) {
        self.s("generalstring", 27, s, d)
    }
    fn visit_ber_generalizedtime_mut(&mut self, t: &'a ASN1DateTime, d: usize) {
        self.ro("generalizedtime", Val::Gen(t.clone()), d)
    }
    fn visit_ber_graphicstring_mut(&mut self, s: &'a mut &'_ str, d: usize) {
        self.s("graphicstring", 25, s, d)
    }
    fn visit_ber_ia5string_mut(&mut self, s: &'a mut &'_ str, d: usize) {
        self.s("ia5string", 22, s, d)
    }
    fn visit_ber_integer_mut(&mut self, b: &'a mut &'_ [u8], d: usize) {
        self.b("integer", Val::Int, b, d)
    }
    fn visit_ber_null_mut(&mut self, d: usize) {
        self.ro("null", Val::Null, d)
    }
    fn visit_ber_numericstring_mut(&mut self, s: &'a mut &'_ str, d: usize) {
        self.s("numericstring", 18, s, d)
    }
    fn visit_ber_oid_mut(&mut self, o: &'a mut Oid, d: usize) {
        if let Some(Val::Oid(x)) = self.ev("oid", &Val::Oid(oid(o)), d) {
            *o = Oid::new(x.as_slice().into());
        }
        self.end()
    }
    fn visit_ber_objectdescriptor_mut(&mut self, s: &'a mut &'_ str, d: usize) {
        self.s("objectdescriptor", 7, s, d)
    }
    fn visit_ber_octetstring_mut(&mut self, b: &'a [u8], d: usize) {
        self.ro("octetstring", Val::Octets(b.to_vec()), d)
    }
    fn visit_ber_optional_mut(&mut self, o: Option<&'a mut BerObject<'a>>, d: usize) {
        let v = Val::Opt(o.as_ref().map(|o| Box::new(snap(o))));
        if let Some(Val::Opt(Some(x))) = self.ev("optional", &v, d) {
            if let Some(o) = o {
                *o = build(x);
            }
        }
        self.end()
    }
    fn visit_ber_printablestring_mut(&mut self, s: &'a mut &'_ str, d: usize) {
        self.s("printablestring", 19, s, d)
    }
    fn visit_ber_relative_oid_mut(&mut self, o: &'a mut Oid, d: usize) {
        if let Some(Val::RelOid(x)) = self.ev("relative_oid", &Val::RelOid(oid(o)), d) {
            *o = Oid::new_relative(x.as_slice().into());
        }
        self.end()
    }
    fn visit_ber_sequence_mut(&mut self, l: &'_ mut Vec<BerObject<'a>>, d: usize) {
        let v = Val::Seq(l.iter().map(snap).collect());
        self.list("sequence", v, l, d)
    }
    fn visit_ber_set_mut(&mut self, l: &'_ mut Vec<BerObject<'a>>, d: usize) {
        let v = Val::Set(l.iter().map(snap).collect());
        self.list("set", v, l, d)
    }
    fn visit_ber_teletexstring_mut(&mut self, s: &'a mut &'_ str, d: usize) {
        self.s("teletexstring", 20, s, d)
    }
    fn visit_ber_tagged_mut(&mut self, c: &'a mut Class, t: &'a mut Tag, o: &'a mut BerObject<'a>, d: usize) {
        let v = Val::Tagged(class_no(*c), t.0, Box::new(snap(o)));
        if let Some(Val::Tagged(c2, t2, x)) = self.ev("tagged", &v, d) {
            *c = class_of(*c2);
            *t = Tag(*t2);
            *o = build(x);
        }
        self.end()
    }
    fn visit_ber_utctime_mut(&mut self, t: &'a ASN1DateTime, d: usize) {
        self.ro("utctime", Val::Utc(t.clone()), d)
    }
    fn visit_ber_utf8string_mut(&mut self, s: &'a str, d: usize) {
        self.ro("utf8string", Val::Str(12, s.into()), d)
    }
    fn visit_ber_universalstring_mut(&mut self, b: &'a mut &'_ [u8], d: usize) {
        self.b("universalstring", Val::Univ, b, d)
    }
    fn visit_ber_videotextstring_mut(&mut self, s: &'a mut &'_ str, d: usize) {
        self.s("videotextstring", 21, s, d)
    }
    fn visit_ber_visiblestring_mut(&mut self, s: &'a mut &'_ str, d: usize) {
        self.s("visiblestring", 26, s, d)
    }
    fn visit_ber_unknown_mut(&mut self, a: &'_ mut Any<'a>, d: usize) {
        let v = Val::Unknown(hdr(&a.header), a.data.to_vec());
        if let Some(Val::Unknown(h, x)) = self.ev("unknown", &v, d) {
            *a = Any::new(mk_header(h), x);
        }
        self.end()
    }
}

/// run a mutable visitor on an object (the borrow lasts as long as the object's data)
pub fn run_mut(v: &mut RecMut, o: BerObject<'static>, depth: Option<usize>) -> Result<BerObject<'static>, BerObject<'static>> {
    let p: *mut BerObject<'static> = Box::into_raw(Box::new(o));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let o: &'static mut BerObject<'static> = unsafe { &mut *p };
        match depth {
            None => VisitMut::run(v, o),
            Some(d) => VisitMut::run_at(v, o, d),
        }
    }));
    let o = *unsafe { Box::from_raw(p) };
    match r {
        Ok(()) => Ok(o),
        Err(e) => {
            if e.downcast_ref::<crate::runner::Injected>().is_some() {
                Err(o)
            } else {
                std::mem::forget(o);
                std::panic::resume_unwind(e)
            }
        }
    }
}

/// nodes that stay in place until the end of a run
#[derive(Default)]
pub struct Arena(std::cell::RefCell<Vec<*mut Node>>);

impl Arena {
    /// the caller keeps the arena alive for as long as the reference is used
    pub fn keep(&self, n: Node) -> &'static Node {
        let p = Box::into_raw(Box::new(n));
        self.0.borrow_mut().push(p);
        unsafe { &*p }
    }
}

impl Drop for Arena {
    fn drop(&mut self) {
        for p in self.0.borrow_mut().drain(..) {
            drop(unsafe { Box::from_raw(p) });
        }
    }
}

// -----------------------------------------------------------------------------------------------
// visitors that implement only some callbacks (the others are the trait's own)

/// implements no callback
struct P0;
impl<'a> Visit<'a> for P0 {}
impl<'a> VisitMut<'a> for P0 {}

/// implements the general callback
struct P1(Vec<Evt>);
impl<'a> Visit<'a> for P1 {
    fn visit_ber(&mut self, ber: &'_ BerObject<'a>, d: usize) {
        self.0.push(Evt::Ber(snap(ber), d));
    }
}
impl<'a> VisitMut<'a> for P1 {
    fn visit_ber_mut(&mut self, ber: &'_ mut BerObject<'a>, d: usize) {
        self.0.push(Evt::Ber(snap(ber), d));
    }
}

/// implements the callbacks of the types with members
struct P2(Vec<Evt>);
impl<'a> Visit<'a> for P2 {
    fn visit_ber_sequence(&mut self, l: &'_ [BerObject<'a>], d: usize) {
        self.0.push(Evt::Ty("sequence", Val::Seq(l.iter().map(snap).collect()), d));
    }
    fn visit_ber_set(&mut self, l: &'_ [BerObject<'a>], d: usize) {
        self.0.push(Evt::Ty("set", Val::Set(l.iter().map(snap).collect()), d));
    }
}
impl<'a> VisitMut<'a> for P2 {
    fn visit_ber_sequence_mut(&mut self, l: &'_ mut Vec<BerObject<'a>>, d: usize) {
        self.0.push(Evt::Ty("sequence", Val::Seq(l.iter().map(snap).collect()), d));
    }
    fn visit_ber_set_mut(&mut self, l: &'_ mut Vec<BerObject<'a>>, d: usize) {
        self.0.push(Evt::Ty("set", Val::Set(l.iter().map(snap).collect()), d));
    }
}

/// partial visitors: nothing, the general callback, sequence and set, and one per callback of a type
pub fn partials() -> usize {
    3 + ONE.len()
}

pub fn partial_name(kind: usize) -> &'static str {
    match kind {
        0 => "no callback",
        1 => "visit_ber",
        2 => "sequence and set",
        k => ONE[k - 3],
    }
}

/// the kind of the partial visitor that implements the callback of a type only
pub fn partial_of(ty: &str) -> usize {
    ONE.iter().position(|n| *n == ty).unwrap() + 3
}

pub fn partial_expected(kind: usize, full: &[Evt]) -> Vec<Evt> {
    full.iter()
        .filter(|e| match (kind, e) {
            (0, _) => false,
            (1, Evt::Ber(..)) => true,
            (2, Evt::Ty(n, ..)) => ["sequence", "set"].contains(n),
            (k, Evt::Ty(n, ..)) if k > 2 => *n == ONE[k - 3],
            _ => false,
        })
        .cloned()
        .collect()
}

macro_rules! one_callback {
    ($(($n:literal, $f:ident($($a:ident: $t:ty),*) $v:expr, $fm:ident($($am:ident: $tm:ty),*) $vm:expr);)*) => {
        const ONE: &[&str] = &[$($n),*];
        $(one_callback!(@impl $n, $f, [$($a: $t),*], $v, $fm, [$($am: $tm),*], $vm);)*
        /// run the visitor that implements the callback of a type only
        fn run_one(ty: &str, go: &mut dyn Go) -> Vec<Evt> {
            match ty {
                $($n => { let mut v = $f::V(vec![]); go.go(&mut v); v.0 })*
                _ => unreachable!(),
            }
        }
    };
    (@impl $n:literal, $f:ident, [$($a:ident: $t:ty),*], $v:expr, $fm:ident, [$($am:ident: $tm:ty),*], $vm:expr) => {
        #[allow(unused_imports)]
        mod $f {
            use super::*;
            pub struct V(pub Vec<Evt>);
            impl<'a> Visit<'a> for V {
                fn $f(&mut self, $($a: $t,)* depth: usize) {
                    let v = $v;
                    self.0.push(Evt::Ty($n, v, depth));
                }
            }
            impl<'a> VisitMut<'a> for V {
                fn $fm(&mut self, $($am: $tm,)* depth: usize) {
                    let v = $vm;
                    self.0.push(Evt::Ty($n, v, depth));
                }
            }
        }
    };
}

one_callback! {
    ("bitstring", visit_ber_bitstring(u: u8, x: &'a BitStringObject) Val::Bits(u, x.data.to_vec()), visit_ber_bitstring_mut(u: &mut u8, x: &'a mut BitStringObject) Val::Bits(*u, x.data.to_vec()));
    ("bmpstring", visit_ber_bmpstring(x: &'a [u8]) Val::Bmp(x.to_vec()), visit_ber_bmpstring_mut(x: &'a mut &'_ [u8]) Val::Bmp(x.to_vec()));
    ("universalstring", visit_ber_universalstring(x: &'a [u8]) Val::Univ(x.to_vec()), visit_ber_universalstring_mut(x: &'a mut &'_ [u8]) Val::Univ(x.to_vec()));
    ("integer", visit_ber_integer(x: &'a [u8]) Val::Int(x.to_vec()), visit_ber_integer_mut(x: &'a mut &'_ [u8]) Val::Int(x.to_vec()));
    ("boolean", visit_ber_boolean(x: bool) Val::Bool(x), visit_ber_boolean_mut(x: &'a mut bool) Val::Bool(*x));
    ("endofcontent", visit_ber_endofcontent() Val::Eoc, visit_ber_endofcontent_mut() Val::Eoc);
    ("null", visit_ber_null() Val::Null, visit_ber_null_mut() Val::Null);
    ("enum", visit_ber_enum(x: u64) Val::Enum(x), visit_ber_enum_mut(x: &'a mut u64) Val::Enum(*x));
    ("generalstring", visit_ber_generalstring(x: &'a str) Val::Str(27, x.into()), visit_ber_generalstring_mut(x: &'a mut &'_ str) Val::Str(27, x.to_string()));
    ("graphicstring", visit_ber_graphicstring(x: &'a str) Val::Str(25, x.into()), visit_ber_graphicstring_mut(x: &'a mut &'_ str) Val::Str(25, x.to_string()));
    ("ia5string", visit_ber_ia5string(x: &'a str) Val::Str(22, x.into()), visit_ber_ia5string_mut(x: &'a mut &'_ str) Val::Str(22, x.to_string()));
    ("numericstring", visit_ber_numericstring(x: &'a str) Val::Str(18, x.into()), visit_ber_numericstring_mut(x: &'a mut &'_ str) Val::Str(18, x.to_string()));
    ("objectdescriptor", visit_ber_objectdescriptor(x: &'a str) Val::Str(7, x.into()), visit_ber_objectdescriptor_mut(x: &'a mut &'_ str) Val::Str(7, x.to_string()));
    ("printablestring", visit_ber_printablestring(x: &'a str) Val::Str(19, x.into()), visit_ber_printablestring_mut(x: &'a mut &'_ str) Val::Str(19, x.to_string()));
    ("teletexstring", visit_ber_teletexstring(x: &'a str) Val::Str(20, x.into()), visit_ber_teletexstring_mut(x: &'a mut &'_ str) Val::Str(20, x.to_string()));
    ("videotextstring", visit_ber_videotextstring(x: &'a str) Val::Str(21, x.into()), visit_ber_videotextstring_mut(x: &'a mut &'_ str) Val::Str(21, x.to_string()));
    ("visiblestring", visit_ber_visiblestring(x: &'a str) Val::Str(26, x.into()), visit_ber_visiblestring_mut(x: &'a mut &'_ str) Val::Str(26, x.to_string()));
    ("utf8string", visit_ber_utf8string(x: &'a str) Val::Str(12, x.into()), visit_ber_utf8string_mut(x: &'a str) Val::Str(12, x.into()));
    ("generalizedtime", visit_ber_generalizedtime(x: &'a ASN1DateTime) Val::Gen(x.clone()), visit_ber_generalizedtime_mut(x: &'a ASN1DateTime) Val::Gen(x.clone()));
    ("utctime", visit_ber_utctime(x: &'a ASN1DateTime) Val::Utc(x.clone()), visit_ber_utctime_mut(x: &'a ASN1DateTime) Val::Utc(x.clone()));
    ("oid", visit_ber_oid(x: &'a Oid) Val::Oid(oid(x)), visit_ber_oid_mut(x: &'a mut Oid) Val::Oid(oid(x)));
    ("relative_oid", visit_ber_relative_oid(x: &'a Oid) Val::RelOid(oid(x)), visit_ber_relative_oid_mut(x: &'a mut Oid) Val::RelOid(oid(x)));
    ("octetstring", visit_ber_octetstring(x: &'a [u8]) Val::Octets(x.to_vec()), visit_ber_octetstring_mut(x: &'a [u8]) Val::Octets(x.to_vec()));
    ("optional", visit_ber_optional(x: Option<&'a BerObject<'a>>) Val::Opt(x.map(|o| Box::new(snap(o)))), visit_ber_optional_mut(x: Option<&'a mut BerObject<'a>>) Val::Opt(x.map(|o| Box::new(snap(o)))));
    ("sequence", visit_ber_sequence(x: &'_ [BerObject<'a>]) Val::Seq(x.iter().map(snap).collect()), visit_ber_sequence_mut(x: &'_ mut Vec<BerObject<'a>>) Val::Seq(x.iter().map(snap).collect()));
    ("set", visit_ber_set(x: &'_ [BerObject<'a>]) Val::Set(x.iter().map(snap).collect()), visit_ber_set_mut(x: &'_ mut Vec<BerObject<'a>>) Val::Set(x.iter().map(snap).collect()));
    ("tagged", visit_ber_tagged(c: Class, t: Tag, o: &'_ BerObject<'a>) Val::Tagged(class_no(c), t.0, Box::new(snap(o))), visit_ber_tagged_mut(c: &'a mut Class, t: &'a mut Tag, o: &'a mut BerObject<'a>) Val::Tagged(class_no(*c), t.0, Box::new(snap(o))));
    ("unknown", visit_ber_unknown(x: &'_ Any<'a>) Val::Unknown(hdr(&x.header), x.data.to_vec()), visit_ber_unknown_mut(x: &'_ mut Any<'a>) Val::Unknown(hdr(&x.header), x.data.to_vec()));
}

/// something to do with a visitor of both kinds
trait Go {
    fn go(&mut self, v: &mut dyn Both);
}
trait Both {
    fn shared(&mut self, o: &BerObject<'static>, depth: usize);
    fn mutable(&mut self, o: &'static mut BerObject<'static>, depth: usize);
}
impl<V> Both for V
where
    V: for<'a> Visit<'a> + VisitMut<'static>,
{
    fn shared(&mut self, o: &BerObject<'static>, depth: usize) {
        // also through the default entry point
        if depth == 0 {
            Visit::run(self, o)
        } else {
            Visit::run_at(self, o, depth)
        }
    }
    fn mutable(&mut self, o: &'static mut BerObject<'static>, depth: usize) {
        let v: &mut dyn VisitMut<'static> = self;
        if depth == 0 {
            v.run(o)
        } else {
            v.run_at(o, depth)
        }
    }
}

struct Trip<'n> {
    mutable: bool,
    n: &'n Node,
    depth: usize,
    after: Option<Node>,
}

impl Go for Trip<'_> {
    fn go(&mut self, v: &mut dyn Both) {
        // the object does not outlive the node it is built from
        let n: &'static Node = unsafe { &*(self.n as *const Node) };
        let p: *mut BerObject<'static> = Box::into_raw(Box::new(build(n)));
        if self.mutable {
            v.mutable(unsafe { &mut *p }, self.depth);
        } else {
            v.shared(unsafe { &*p }, self.depth);
        }
        let o = unsafe { Box::from_raw(p) };
        self.after = Some(snap(&o));
    }
}

/// visit with a partial visitor: what it saw, and the object afterwards
pub fn run_partial(kind: usize, mutable: bool, n: &Node, depth: usize) -> (Vec<Evt>, Node) {
    let mut t = Trip { mutable, n, depth, after: None };
    let evts = match kind {
        0 => {
            t.go(&mut P0);
            vec![]
        }
        1 => {
            let mut v = P1(vec![]);
            t.go(&mut v);
            v.0
        }
        2 => {
            let mut v = P2(vec![]);
            t.go(&mut v);
            v.0
        }
        k => run_one(ONE[k - 3], &mut t),
    };
    (evts, t.after.unwrap())
}
