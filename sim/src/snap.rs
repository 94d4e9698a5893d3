//! Conversions between library objects and model nodes.
use crate::model::*;
use der_parser::asn1_rs::{Any, Oid};
use der_parser::ber::*;
use der_parser::error::{BerError, BerResult};
use der_parser::nom::{Err, Needed};

pub fn class_no(c: Class) -> u8 {
    match c {
        Class::Universal => 0,
        Class::Application => 1,
        Class::ContextSpecific => 2,
        Class::Private => 3,
    }
}

pub fn class_of(c: u8) -> Class {
    match c & 3 {
        0 => Class::Universal,
        1 => Class::Application,
        2 => Class::ContextSpecific,
        _ => Class::Private,
    }
}

pub fn hdr(h: &Header) -> Hdr {
    Hdr {
        class: class_no(h.class()),
        cons: h.is_constructed(),
        tag: h.tag().0,
        len: match h.length() {
            Length::Definite(l) => Len::Def(l as u64),
            Length::Indefinite => Len::Indef,
        },
    }
}

pub fn mk_header(h: &Hdr) -> Header<'static> {
    Header::new(
        class_of(h.class),
        h.cons,
        Tag(h.tag),
        match h.len {
            Len::Def(l) => Length::Definite(l as usize),
            Len::Indef => Length::Indefinite,
        },
    )
}

pub fn snap(o: &BerObject) -> Node {
    Node { hdr: hdr(&o.header), val: snap_val(&o.content) }
}

pub fn snap_val(c: &BerObjectContent) -> Val {
    use BerObjectContent as C;
    match c {
        C::EndOfContent => Val::Eoc,
        C::Boolean(b) => Val::Bool(*b),
        C::Integer(b) => Val::Int(b.to_vec()),
        C::BitString(u, b) => Val::Bits(*u, b.data.to_vec()),
        C::OctetString(b) => Val::Octets(b.to_vec()),
        C::Null => Val::Null,
        C::Enum(e) => Val::Enum(*e),
        C::OID(o) => Val::Oid(o.as_bytes().to_vec()),
        C::RelativeOID(o) => Val::RelOid(o.as_bytes().to_vec()),
        C::NumericString(s) => Val::Str(18, s.to_string()),
        C::VisibleString(s) => Val::Str(26, s.to_string()),
        C::PrintableString(s) => Val::Str(19, s.to_string()),
        C::IA5String(s) => Val::Str(22, s.to_string()),
        C::UTF8String(s) => Val::Str(12, s.to_string()),
        C::T61String(s) => Val::Str(20, s.to_string()),
        C::VideotexString(s) => Val::Str(21, s.to_string()),
        C::ObjectDescriptor(s) => Val::Str(7, s.to_string()),
        C::GraphicString(s) => Val::Str(25, s.to_string()),
        C::GeneralString(s) => Val::Str(27, s.to_string()),
        C::BmpString(b) => Val::Bmp(b.to_vec()),
        C::UniversalString(b) => Val::Univ(b.to_vec()),
        C::Sequence(v) => Val::Seq(v.iter().map(snap).collect()),
        C::Set(v) => Val::Set(v.iter().map(snap).collect()),
        C::UTCTime(t) => Val::Utc(t.clone()),
        C::GeneralizedTime(t) => Val::Gen(t.clone()),
        C::Optional(o) => Val::Opt(o.as_ref().map(|o| Box::new(snap(o)))),
        C::Tagged(c, t, o) => Val::Tagged(class_no(*c), t.0, Box::new(snap(o))),
        C::Unknown(a) => Val::Unknown(hdr(&a.header), a.data.to_vec()),
    }
}

/// library object with the content of a node, borrowing from it
pub fn build<'a>(n: &'a Node) -> BerObject<'a> {
    BerObject::from_header_and_content(mk_header(&n.hdr), build_val(&n.val))
}

pub fn build_val<'a>(v: &'a Val) -> BerObjectContent<'a> {
    use BerObjectContent as C;
    match v {
        Val::Eoc => C::EndOfContent,
        Val::Bool(b) => C::Boolean(*b),
        Val::Int(d) => C::Integer(d),
        Val::Bits(u, d) => C::BitString(*u, BitStringObject { data: d }),
        Val::Octets(d) => C::OctetString(d),
        Val::Null => C::Null,
        Val::Enum(e) => C::Enum(*e),
        Val::Oid(d) => C::OID(Oid::new(d.as_slice().into())),
        Val::RelOid(d) => C::RelativeOID(Oid::new_relative(d.as_slice().into())),
        Val::Str(t, s) => match t {
            18 => C::NumericString(s),
            26 => C::VisibleString(s),
            19 => C::PrintableString(s),
            22 => C::IA5String(s),
            12 => C::UTF8String(s),
            20 => C::T61String(s),
            21 => C::VideotexString(s),
            7 => C::ObjectDescriptor(s),
            25 => C::GraphicString(s),
            _ => C::GeneralString(s),
        },
        Val::Bmp(d) => C::BmpString(d),
        Val::Univ(d) => C::UniversalString(d),
        Val::Seq(l) => C::Sequence(l.iter().map(build).collect()),
        Val::Set(l) => C::Set(l.iter().map(build).collect()),
        Val::Utc(t) => C::UTCTime(t.clone()),
        Val::Gen(t) => C::GeneralizedTime(t.clone()),
        Val::Opt(o) => C::Optional(o.as_ref().map(|o| Box::new(build(o)))),
        Val::Tagged(c, t, o) => C::Tagged(class_of(*c), Tag(*t), Box::new(build(o))),
        Val::Unknown(h, d) => C::Unknown(Any::new(mk_header(h), d)),
    }
}

/// every slice that an object borrows from its input
pub fn slices<'x>(o: &'x BerObject, out: &mut Vec<&'x [u8]>) {
    use BerObjectContent as C;
    match &o.content {
        C::Integer(b) | C::OctetString(b) | C::BmpString(b) | C::UniversalString(b) => out.push(b),
        C::BitString(_, b) => out.push(b.data),
        C::NumericString(s)
        | C::VisibleString(s)
        | C::PrintableString(s)
        | C::IA5String(s)
        | C::UTF8String(s)
        | C::T61String(s)
        | C::VideotexString(s)
        | C::ObjectDescriptor(s)
        | C::GraphicString(s)
        | C::GeneralString(s) => out.push(s.as_bytes()),
        C::Sequence(v) | C::Set(v) => v.iter().for_each(|o| slices(o, out)),
        C::Optional(Some(o)) => slices(o, out),
        C::Tagged(_, _, o) => slices(o, out),
        C::Unknown(a) => out.push(a.data),
        _ => (),
    }
}

/// is `s` (if not empty) a part of `whole`?
pub fn inside(s: &[u8], whole: &[u8]) -> bool {
    if s.is_empty() {
        return true;
    }
    let (a, b) = (s.as_ptr() as usize, whole.as_ptr() as usize);
    a >= b && a + s.len() <= b + whole.len()
}

/// what a reader answered
#[derive(Clone, Debug, PartialEq)]
pub enum Out<T = Node> {
    /// object and number of bytes used
    Ok(T, usize),
    /// missing bytes, 0 when unknown
    Inc(usize),
    /// text of the error, is it the depth error, is it a nom failure
    Err(String, bool, bool),
}

impl<T> Out<T> {
    pub fn kind(&self) -> u64 {
        match self {
            Out::Ok(..) => 0,
            Out::Inc(_) => 1,
            Out::Err(_, false, _) => 2,
            Out::Err(_, true, _) => 3,
        }
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Out::Err(..))
    }
}

pub fn out<'a, T, U>(input: &'a [u8], r: BerResult<'a, T>, f: impl FnOnce(T) -> U) -> Out<U> {
    match r {
        Ok((rem, o)) => {
            // the remaining input must be the tail of the input
            let used = input.len().wrapping_sub(rem.len());
            if rem.len() > input.len() || (!rem.is_empty() && !std::ptr::eq(&input[used..], rem)) {
                return Out::Err("REMAINING INPUT IS NOT A TAIL OF THE INPUT".into(), false, false);
            }
            Out::Ok(f(o), used)
        }
        Err(e) => out_err(e),
    }
}

pub fn out_err<U>(e: Err<BerError>) -> Out<U> {
    match e {
        Err::Incomplete(Needed::Unknown) => Out::Inc(0),
        Err::Incomplete(Needed::Size(n)) => Out::Inc(n.get()),
        Err::Error(e) => Out::Err(format!("{e:?}"), e == BerError::BerMaxDepth, false),
        Err::Failure(e) => Out::Err(format!("{e:?}"), e == BerError::BerMaxDepth, true),
    }
}
