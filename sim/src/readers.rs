//! The library's element readers behind one interface.
use crate::model;
use crate::model::{Len, Node, E};
use crate::snap::*;
use der_parser::asn1_rs::Any;
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::BerResult;
use std::convert::TryFrom;

pub type F = for<'a> fn(&'a [u8]) -> BerResult<'a, BerObject<'a>>;

pub const TYPED_BER: [(&str, u32, F); 25] = [
    ("parse_ber_endofcontent", 0, parse_ber_endofcontent),
    ("parse_ber_bool", 1, parse_ber_bool),
    ("parse_ber_integer", 2, parse_ber_integer),
    ("parse_ber_bitstring", 3, parse_ber_bitstring),
    ("parse_ber_octetstring", 4, parse_ber_octetstring),
    ("parse_ber_null", 5, parse_ber_null),
    ("parse_ber_oid", 6, parse_ber_oid),
    ("parse_ber_objectdescriptor", 7, parse_ber_objectdescriptor),
    ("parse_ber_enum", 10, parse_ber_enum),
    ("parse_ber_utf8string", 12, parse_ber_utf8string),
    ("parse_ber_relative_oid", 13, parse_ber_relative_oid),
    ("parse_ber_sequence", 16, parse_ber_sequence),
    ("parse_ber_set", 17, parse_ber_set),
    ("parse_ber_numericstring", 18, parse_ber_numericstring),
    ("parse_ber_printablestring", 19, parse_ber_printablestring),
    ("parse_ber_t61string", 20, parse_ber_t61string),
    ("parse_ber_videotexstring", 21, parse_ber_videotexstring),
    ("parse_ber_ia5string", 22, parse_ber_ia5string),
    ("parse_ber_utctime", 23, parse_ber_utctime),
    ("parse_ber_generalizedtime", 24, parse_ber_generalizedtime),
    ("parse_ber_graphicstring", 25, parse_ber_graphicstring),
    ("parse_ber_visiblestring", 26, parse_ber_visiblestring),
    ("parse_ber_generalstring", 27, parse_ber_generalstring),
    ("parse_ber_universalstring", 28, parse_ber_universalstring),
    ("parse_ber_bmpstring", 30, parse_ber_bmpstring),
];

#[allow(deprecated)]
pub const TYPED_DER: [(&str, u32, F); 26] = [
    ("parse_der_endofcontent", 0, parse_der_endofcontent),
    ("parse_der_bool", 1, parse_der_bool),
    ("parse_der_integer", 2, parse_der_integer),
    ("parse_der_bitstring", 3, parse_der_bitstring),
    ("parse_der_octetstring", 4, parse_der_octetstring),
    ("parse_der_null", 5, parse_der_null),
    ("parse_der_oid", 6, parse_der_oid),
    ("parse_der_objectdescriptor", 7, parse_der_objectdescriptor),
    ("parse_der_enum", 10, parse_der_enum),
    ("parse_der_utf8string", 12, parse_der_utf8string),
    ("parse_der_relative_oid", 13, parse_der_relative_oid),
    ("parse_der_sequence", 16, parse_der_sequence),
    ("parse_der_set", 17, parse_der_set),
    ("parse_der_numericstring", 18, parse_der_numericstring),
    ("parse_der_printablestring", 19, parse_der_printablestring),
    ("parse_der_t61string", 20, parse_der_t61string),
    ("parse_der_videotexstring", 21, parse_der_videotexstring),
    ("parse_der_ia5string", 22, parse_der_ia5string),
    ("parse_der_utctime", 23, parse_der_utctime),
    ("parse_der_generalizedtime", 24, parse_der_generalizedtime),
    ("parse_der_graphicstring", 25, parse_der_graphicstring),
    ("parse_der_visiblestring", 26, parse_der_visiblestring),
    ("parse_der_generalstring", 27, parse_der_generalstring),
    ("parse_der_universalstring", 28, parse_der_universalstring),
    ("parse_der_bmpstring", 30, parse_der_bmpstring),
    // old name of parse_der_visiblestring
    ("visiblestring", 26, visiblestring),
];

/// An element reader of the public interface
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rd {
    /// parse_ber / parse_der
    Gen(bool),
    /// parse_ber_recursive / parse_der_recursive
    Rec(bool, usize),
    /// index in TYPED_BER / TYPED_DER
    Typed(bool, usize),
    /// parse_ber_with_tag / parse_der_with_tag
    WithTag(bool, u32),
    /// parse_ber_any_r
    AnyR(usize),
    /// parse_ber_any_with_tag_r
    AnyTagR(u32, usize),
    /// parse_ber_any then TryFrom<Any>
    AnyTry,
    /// parse_ber_any then TryFrom<&Any>
    AnyTryRef,
    /// header reader then content reader
    HdrContent(bool, usize),
    /// der_read_element_header then der_read_element_content
    HdrContentDer,
    /// header reader then parse_{ber,der}_content(tag)
    ContentFn(bool, usize),
    ContentFn2(bool, usize),
}

impl Rd {
    pub fn der(&self) -> bool {
        match self {
            Rd::Gen(d) | Rd::Rec(d, _) | Rd::Typed(d, _) | Rd::WithTag(d, _) | Rd::HdrContent(d, _) => *d,
            Rd::ContentFn(d, _) | Rd::ContentFn2(d, _) => *d,
            Rd::HdrContentDer => true,
            _ => false,
        }
    }
    pub fn name(&self) -> String {
        let p = if self.der() { "der" } else { "ber" };
        match self {
            Rd::Gen(_) => format!("parse_{p}"),
            Rd::Rec(_, l) => format!("parse_{p}_recursive(max_depth={l})"),
            Rd::Typed(false, i) => TYPED_BER[*i].0.into(),
            Rd::Typed(true, i) => TYPED_DER[*i].0.into(),
            Rd::WithTag(_, t) => format!("parse_{p}_with_tag({t})"),
            Rd::AnyR(l) => format!("parse_ber_any_r(max_depth={l})"),
            Rd::AnyTagR(t, l) => format!("parse_ber_any_with_tag_r(tag={t},max_depth={l})"),
            Rd::AnyTry => "parse_ber_any+BerObject::try_from(any)".into(),
            Rd::AnyTryRef => "parse_ber_any+BerObject::try_from(&any)".into(),
            Rd::HdrContent(_, l) => format!("{p}_read_element_header+{p}_read_element_content_as(max_depth={l})"),
            Rd::HdrContentDer => "der_read_element_header+der_read_element_content".into(),
            Rd::ContentFn(_, l) => format!("{p}_read_element_header+parse_{p}_content(max_depth={l})"),
            Rd::ContentFn2(_, l) => format!("{p}_read_element_header+parse_{p}_content2(max_depth={l})"),
        }
    }
    pub fn code(&self) -> u64 {
        match self {
            Rd::Gen(d) => *d as u64,
            Rd::Rec(d, _) => 2 + *d as u64,
            Rd::Typed(d, i) => 100 + 50 * *d as u64 + *i as u64,
            Rd::WithTag(d, _) => 4 + *d as u64,
            Rd::AnyR(_) => 6,
            Rd::AnyTagR(..) => 7,
            Rd::AnyTry => 8,
            Rd::AnyTryRef => 9,
            Rd::HdrContent(d, _) => 10 + *d as u64,
            Rd::HdrContentDer => 12,
            Rd::ContentFn(d, _) => 13 + *d as u64,
            Rd::ContentFn2(d, _) => 15 + *d as u64,
        }
    }
    /// call the library
    pub fn call<'a>(&self, i: &'a [u8]) -> BerResult<'a, BerObject<'a>> {
        match self {
            Rd::Gen(false) => parse_ber(i),
            Rd::Gen(true) => parse_der(i),
            Rd::Rec(false, l) => parse_ber_recursive(i, *l),
            Rd::Rec(true, l) => parse_der_recursive(i, *l),
            Rd::Typed(false, k) => TYPED_BER[*k].2(i),
            Rd::Typed(true, k) => TYPED_DER[*k].2(i),
            Rd::WithTag(false, t) => parse_ber_with_tag(i, Tag(*t)),
            Rd::WithTag(true, t) => parse_der_with_tag(i, Tag(*t)),
            Rd::AnyR(l) => parse_ber_any_r(i, *l),
            Rd::AnyTagR(t, l) => parse_ber_any_with_tag_r(i, Tag(*t), *l),
            Rd::AnyTry => {
                let (rem, any): (_, Any) = parse_ber_any(i)?;
                Ok((rem, BerObject::try_from(any).map_err(der_parser::nom::Err::Error)?))
            }
            Rd::AnyTryRef => {
                let (rem, any): (_, Any) = parse_ber_any(i)?;
                Ok((rem, BerObject::try_from(&any).map_err(der_parser::nom::Err::Error)?))
            }
            Rd::HdrContent(false, l) => {
                let (r, h) = ber_read_element_header(i)?;
                let (r, c) = ber_read_element_content_as(r, h.tag(), h.length(), h.is_constructed(), *l)?;
                Ok((r, BerObject::from_header_and_content(h, c)))
            }
            Rd::HdrContent(true, l) => {
                let (r, h) = der_read_element_header(i)?;
                let (r, c) = der_read_element_content_as(r, h.tag(), h.length(), h.is_constructed(), *l)?;
                Ok((r, BerObject::from_header_and_content(h, c)))
            }
            Rd::HdrContentDer => {
                let (r, h) = der_read_element_header(i)?;
                der_read_element_content(r, h)
            }
            Rd::ContentFn(false, l) => {
                let (r, h) = ber_read_element_header(i)?;
                let (r, c) = parse_ber_content(h.tag())(r, &h, *l)?;
                Ok((r, BerObject::from_header_and_content(h, c)))
            }
            Rd::ContentFn(true, l) => {
                let (r, h) = der_read_element_header(i)?;
                let (r, c) = parse_der_content(h.tag())(r, &h, *l)?;
                Ok((r, BerObject::from_header_and_content(h, c)))
            }
            Rd::ContentFn2(false, l) => {
                let (r, h) = ber_read_element_header(i)?;
                let (r, c) = parse_ber_content2(h.tag())(r, h.clone(), *l)?;
                Ok((r, BerObject::from_header_and_content(h, c)))
            }
            Rd::ContentFn2(true, l) => {
                let (r, h) = der_read_element_header(i)?;
                let (r, c) = parse_der_content2(h.tag())(r, h.clone(), *l)?;
                Ok((r, BerObject::from_header_and_content(h, c)))
            }
        }
    }
    pub fn run(&self, i: &[u8]) -> Out {
        out(i, self.call(i), |o| snap(&o))
    }
    /// what the reference model answers
    pub fn model(&self, b: &[u8]) -> Result<(Node, usize), E> {
        match self {
            Rd::Gen(d) => model::element(b, model::MAX_REC, *d),
            Rd::Rec(d, l) => model::element(b, *l, *d),
            Rd::HdrContentDer => model::element(b, model::MAX_REC, true),
            Rd::Typed(d, i) => model::typed(b, if *d { TYPED_DER[*i].1 } else { TYPED_BER[*i].1 }, *d),
            Rd::WithTag(d, t) => model::typed(b, *t, *d),
            Rd::AnyR(l) => model::element(b, *l, false),
            Rd::AnyTagR(t, l) => {
                let (n, u) = model::element(b, *l, false)?;
                if n.hdr.tag != *t {
                    return Err(E::Bad);
                }
                Ok((n, u))
            }
            Rd::AnyTry | Rd::AnyTryRef => {
                let f = model::frame(b, false, model::MAX_REC)?;
                let mut h = f.hdr.clone();
                h.len = Len::Def(f.clen as u64);
                let (val, _) = model::content_as(&b[f.hlen..f.hlen + f.clen], h.tag, &h, model::MAX_REC, false)?;
                Ok((Node { hdr: f.hdr, val }, f.total))
            }
            Rd::HdrContent(d, l) | Rd::ContentFn(d, l) | Rd::ContentFn2(d, l) => {
                let (hdr, hlen) = model::header(b, *d)?;
                let (val, t) = model::content_as(&b[hlen..], hdr.tag, &hdr, *l, *d)?;
                Ok((Node { hdr, val }, hlen + t))
            }
        }
    }
    /// depth up to which this reader looks for end-of-contents octets
    pub fn scan(&self) -> usize {
        match self {
            Rd::Rec(_, l) | Rd::AnyR(l) | Rd::AnyTagR(_, l) => (*l).max(model::MAX_REC),
            Rd::HdrContent(_, l) | Rd::ContentFn(_, l) | Rd::ContentFn2(_, l) => *l,
            _ => model::MAX_REC,
        }
    }
}

/// index of the reader dedicated to a tag
pub fn typed_index(tag: u32) -> Option<usize> {
    TYPED_BER.iter().position(|x| x.1 == tag)
}

/// draw a reader, favouring those that fit the element's first byte
pub fn draw(sim: &mut crate::sim::Sim, tag: u32, der: Option<bool>) -> Rd {
    let d = match der {
        Some(d) => d,
        None => sim.c.chance(1, 2),
    };
    let lim = |sim: &mut crate::sim::Sim| *sim.c.pick(&[50usize, 5, 3, 10, 60]);
    match sim.c.weighted(&[6, 5, 2, 2, 2, 2, 2]) {
        0 => Rd::Gen(d),
        1 => match typed_index(tag) {
            Some(_) if d && tag == 26 && sim.c.chance(1, 2) => Rd::Typed(d, 25),
            Some(i) => Rd::Typed(d, i),
            None => Rd::WithTag(d, tag),
        },
        2 => Rd::Rec(d, lim(sim)),
        3 => Rd::WithTag(d, tag),
        4 => Rd::HdrContent(d, lim(sim)),
        5 => {
            let l = lim(sim);
            match sim.c.usize(2) {
                0 => Rd::ContentFn(d, l),
                _ => Rd::ContentFn2(d, l),
            }
        }
        _ => {
            if d {
                Rd::HdrContentDer
            } else {
                match sim.c.usize(4) {
                    0 => Rd::AnyR(lim(sim)),
                    1 => Rd::AnyTagR(tag, lim(sim)),
                    2 => Rd::AnyTry,
                    _ => Rd::AnyTryRef,
                }
            }
        }
    }
}
