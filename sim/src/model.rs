//! Reference decoder and encoder, written from X.690 and the library's documentation, over owned
//! trees. It is the oracle: it never calls the library. (Date/time digits are validated by asn1-rs,
//! the dependency that defines the time type.)
use der_parser::asn1_rs::{ASN1DateTime, ASN1TimeZone, GeneralizedTime, UtcTime};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Len {
    Def(u64),
    Indef,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Hdr {
    pub class: u8,
    pub cons: bool,
    pub tag: u32,
    pub len: Len,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Eoc,
    Bool(bool),
    Int(Vec<u8>),
    Bits(u8, Vec<u8>),
    Octets(Vec<u8>),
    Null,
    Enum(u64),
    Oid(Vec<u8>),
    RelOid(Vec<u8>),
    /// string types whose content is a str, by universal tag
    Str(u32, String),
    Bmp(Vec<u8>),
    Univ(Vec<u8>),
    Seq(Vec<Node>),
    Set(Vec<Node>),
    Utc(ASN1DateTime),
    Gen(ASN1DateTime),
    Opt(Option<Box<Node>>),
    Tagged(u8, u32, Box<Node>),
    Unknown(Hdr, Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub hdr: Hdr,
    pub val: Val,
}

pub const MAX_REC: usize = 50;

pub mod tags {
    pub const EOC: u32 = 0;
    pub const BOOL: u32 = 1;
    pub const INT: u32 = 2;
    pub const BITS: u32 = 3;
    pub const OCTETS: u32 = 4;
    pub const NULL: u32 = 5;
    pub const OID: u32 = 6;
    pub const OBJDESC: u32 = 7;
    pub const ENUM: u32 = 10;
    pub const UTF8: u32 = 12;
    pub const RELOID: u32 = 13;
    pub const SEQ: u32 = 16;
    pub const SET: u32 = 17;
    pub const NUMERIC: u32 = 18;
    pub const PRINTABLE: u32 = 19;
    pub const T61: u32 = 20;
    pub const VIDEOTEX: u32 = 21;
    pub const IA5: u32 = 22;
    pub const UTC: u32 = 23;
    pub const GENTIME: u32 = 24;
    pub const GRAPHIC: u32 = 25;
    pub const VISIBLE: u32 = 26;
    pub const GENERAL: u32 = 27;
    pub const UNIV: u32 = 28;
    pub const BMP: u32 = 30;
}
use tags::*;

pub const STR_TAGS: [u32; 10] =
    [UTF8, NUMERIC, PRINTABLE, T61, VIDEOTEX, IA5, GRAPHIC, VISIBLE, GENERAL, OBJDESC];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum E {
    /// at least n more bytes are needed
    More(u64),
    Bad,
    Deep,
}

/// header at the start of b: header and its length in bytes
pub fn header(b: &[u8], der: bool) -> Result<(Hdr, usize), E> {
    let b0 = *b.first().ok_or(E::More(1))?;
    let class = b0 >> 6;
    let cons = b0 & 0x20 != 0;
    let mut pos = 1;
    let mut tag = (b0 & 0x1f) as u32;
    if tag == 0x1f {
        tag = 0;
        let mut n = 0;
        loop {
            if n == 5 {
                return Err(E::Bad);
            }
            let x = *b.get(pos).ok_or(E::More(1))?;
            pos += 1;
            n += 1;
            tag = (tag << 7) | (x & 0x7f) as u32;
            if x & 0x80 == 0 {
                break;
            }
        }
    }
    let l0 = *b.get(pos).ok_or(E::More(1))?;
    pos += 1;
    let len = if l0 < 0x80 {
        Len::Def(l0 as u64)
    } else if l0 == 0x80 {
        if der || !cons {
            return Err(E::Bad);
        }
        Len::Indef
    } else if l0 == 0xff {
        return Err(E::Bad);
    } else {
        let n = (l0 & 0x7f) as usize;
        if b.len() < pos + n {
            return Err(E::More((pos + n - b.len()) as u64));
        }
        let mut l = 0u64;
        for x in &b[pos..pos + n] {
            if l >> 56 != 0 {
                return Err(E::Bad);
            }
            l = (l << 8) | *x as u64;
        }
        pos += n;
        Len::Def(l)
    };
    Ok((Hdr { class, cons, tag, len }, pos))
}

/// length of the content octets at the start of b, and of content plus end-of-contents octets
pub fn content(b: &[u8], h: &Hdr, depth: usize) -> Result<(usize, usize), E> {
    if depth == 0 {
        return Err(E::Deep);
    }
    match h.len {
        Len::Def(l) => {
            if (b.len() as u64) < l {
                return Err(E::More(l - b.len() as u64));
            }
            Ok((l as usize, l as usize))
        }
        Len::Indef => {
            if !h.cons {
                return Err(E::Bad);
            }
            let mut p = 0;
            loop {
                if b.len() >= p + 2 && b[p] == 0 && b[p + 1] == 0 {
                    return Ok((p, p + 2));
                }
                let (h2, n) = header(&b[p..], false)?;
                let (_, t) = content(&b[p + n..], &h2, depth - 1)?;
                p += n + t;
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Frame {
    pub hdr: Hdr,
    pub hlen: usize,
    pub clen: usize,
    pub total: usize,
}

/// find the element at the start of b, whatever its content
pub fn frame(b: &[u8], der: bool, depth: usize) -> Result<Frame, E> {
    let (hdr, hlen) = header(b, der)?;
    let (clen, total) = content(&b[hlen..], &hdr, depth)?;
    Ok(Frame { hdr, hlen, clen, total: hlen + total })
}

fn charset(tag: u32, d: &[u8]) -> bool {
    match tag {
        UTF8 => std::str::from_utf8(d).is_ok(),
        NUMERIC => d.iter().all(|b| b.is_ascii_digit() || *b == b' '),
        PRINTABLE => d.iter().all(|b| b.is_ascii_alphanumeric() || b" '()+,-./:=?".contains(b)),
        T61 | VIDEOTEX | VISIBLE => d.iter().all(|b| (0x20..=0x7f).contains(b)),
        IA5 | GRAPHIC | GENERAL | OBJDESC => d.iter().all(|b| *b < 0x80),
        _ => unreachable!(),
    }
}

fn utf16_ok(d: &[u8]) -> bool {
    if d.len() % 2 != 0 {
        return false;
    }
    char::decode_utf16(d.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]]))).all(|r| r.is_ok())
}

pub fn utc(d: &[u8]) -> Option<ASN1DateTime> {
    if !d.iter().all(|b| (0x20..=0x7f).contains(b)) {
        return None;
    }
    UtcTime::from_bytes(d).ok().map(|t| t.0)
}

pub fn gentime(d: &[u8]) -> Option<ASN1DateTime> {
    if !d.iter().all(|b| (0x20..=0x7f).contains(b)) {
        return None;
    }
    GeneralizedTime::from_bytes(d).ok().map(|t| t.0)
}

/// DER restrictions on one element, content complete
pub fn der_ok(h: &Hdr, d: &[u8]) -> bool {
    match h.tag {
        BOOL => d.len() == 1 && (d[0] == 0 || d[0] == 0xff),
        INT => match d {
            [] => false,
            [0, x, ..] => *x >= 0x80,
            _ => true,
        },
        BITS => {
            if h.cons || d.is_empty() || d[0] > 7 {
                return false;
            }
            match d.len() {
                1 => true,
                n => d[n - 1] & ((1u16 << d[0]) - 1) as u8 == 0,
            }
        }
        OCTETS | BMP | UNIV => !h.cons,
        UTC | GENTIME => d.last() == Some(&b'Z'),
        t if STR_TAGS.contains(&t) => !h.cons,
        _ => true,
    }
}

/// value of a universal element from its content octets
pub fn value(h: &Hdr, d: &[u8], limit: usize, der: bool) -> Result<Val, E> {
    if limit == 0 {
        return Err(E::Deep);
    }
    if der && !der_ok(h, d) {
        return Err(E::Bad);
    }
    let ok = |c: bool, v: Val| if c { Ok(v) } else { Err(E::Bad) };
    match h.tag {
        EOC => ok(d.is_empty(), Val::Eoc),
        BOOL => ok(h.len == Len::Def(1), Val::Bool(d.first().map_or(false, |b| *b != 0))),
        INT => Ok(Val::Int(d.to_vec())),
        BITS => {
            if d.is_empty() || h.cons {
                return Err(E::Bad);
            }
            Ok(Val::Bits(d[0], d[1..].to_vec()))
        }
        OCTETS => Ok(Val::Octets(d.to_vec())),
        NULL => ok(d.is_empty(), Val::Null),
        OID => Ok(Val::Oid(d.to_vec())),
        RELOID => Ok(Val::RelOid(d.to_vec())),
        ENUM => {
            if h.cons {
                return Err(E::Bad);
            }
            let mut v = 0u64;
            for b in d {
                v = (v << 8) | *b as u64;
                if v > u32::MAX as u64 {
                    return Err(E::Bad);
                }
            }
            Ok(Val::Enum(v))
        }
        SEQ | SET => {
            if !h.cons {
                return Err(E::Bad);
            }
            let mut v = Vec::new();
            let mut p = 0;
            let mut deep = None;
            while p < d.len() {
                let r = element(&d[p..], limit - 1, der);
                match r {
                    Ok((n, t)) => {
                        v.push(n);
                        p += t;
                    }
                    Err(E::More(_)) => return Err(E::Bad),
                    Err(e) => {
                        deep = Some(e);
                        break;
                    }
                }
            }
            if let Some(e) = deep {
                return Err(e);
            }
            Ok(if h.tag == SEQ { Val::Seq(v) } else { Val::Set(v) })
        }
        UTC => utc(d).map(Val::Utc).ok_or(E::Bad),
        GENTIME => gentime(d).map(Val::Gen).ok_or(E::Bad),
        BMP => ok(!h.cons && utf16_ok(d), Val::Bmp(d.to_vec())),
        UNIV => ok(!h.cons, Val::Univ(d.to_vec())),
        t if STR_TAGS.contains(&t) => {
            if h.cons || !charset(t, d) {
                return Err(E::Bad);
            }
            Ok(Val::Str(t, String::from_utf8(d.to_vec()).map_err(|_| E::Bad)?))
        }
        _ => Ok(Val::Unknown(Hdr { class: 0, ..h.clone() }, d.to_vec())),
    }
}

/// the generic readers: element at the start of b, recursively; returns node and length
pub fn element(b: &[u8], limit: usize, der: bool) -> Result<(Node, usize), E> {
    if limit == 0 && !der {
        return Err(E::Deep);
    }
    let f = frame(b, der, limit.max(MAX_REC))?;
    if limit == 0 {
        return Err(E::Deep);
    }
    let d = &b[f.hlen..f.hlen + f.clen];
    let val = if f.hdr.class != 0 {
        Val::Unknown(f.hdr.clone(), d.to_vec())
    } else {
        value(&f.hdr, d, limit, der)?
    };
    Ok((Node { hdr: f.hdr, val }, f.total))
}

/// the readers dedicated to a tag: class is not looked at
pub fn typed(b: &[u8], tag: u32, der: bool) -> Result<(Node, usize), E> {
    let (hdr, hlen) = header(b, der)?;
    if hdr.tag != tag {
        return Err(E::Bad);
    }
    let (val, t) = content_as(&b[hlen..], tag, &hdr, MAX_REC, der)?;
    Ok((Node { hdr, val }, hlen + t))
}

/// content of an element with header h, read as universal type `tag`
pub fn content_as(b: &[u8], tag: u32, h: &Hdr, limit: usize, der: bool) -> Result<(Val, usize), E> {
    if der && h.len == Len::Indef {
        return Err(E::Bad);
    }
    let (clen, t) = content(b, h, limit)?;
    let h2 = Hdr { class: 0, cons: h.cons, tag, len: h.len };
    let val = value(&h2, &b[..clen], limit, der)?;
    Ok((val, t))
}

/// nesting depth of a node (a leaf has depth 1)
pub fn depth(n: &Node) -> usize {
    match &n.val {
        Val::Seq(v) | Val::Set(v) => 1 + v.iter().map(depth).max().unwrap_or(0),
        Val::Opt(Some(o)) => 1 + depth(o),
        Val::Tagged(_, _, o) => 1 + depth(o),
        _ => 1,
    }
}

pub fn count(n: &Node) -> usize {
    match &n.val {
        Val::Seq(v) | Val::Set(v) => 1 + v.iter().map(count).sum::<usize>(),
        Val::Opt(Some(o)) => 1 + count(o),
        Val::Tagged(_, _, o) => 1 + count(o),
        _ => 1,
    }
}

// ---------------------------------------------------------------------------------------------
// reference encoder

pub fn enc_header(class: u8, cons: bool, tag: u32, len: usize) -> Vec<u8> {
    let mut v = Vec::new();
    let b0 = (class << 6) | if cons { 0x20 } else { 0 };
    if tag <= 30 {
        v.push(b0 | tag as u8);
    } else {
        v.push(b0 | 0x1f);
        let mut g = vec![(tag & 0x7f) as u8];
        let mut t = tag >> 7;
        while t > 0 {
            g.push(0x80 | (t & 0x7f) as u8);
            t >>= 7;
        }
        g.reverse();
        v.extend(g);
    }
    enc_len(&mut v, len);
    v
}

pub fn enc_len(v: &mut Vec<u8>, len: usize) {
    if len < 0x80 {
        v.push(len as u8);
    } else {
        let b: Vec<u8> = (len as u64).to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
        v.push(0x80 | b.len() as u8);
        v.extend(b);
    }
}

fn tz(t: &ASN1TimeZone, undef: &str) -> String {
    match t {
        ASN1TimeZone::Undefined => undef.to_string(),
        ASN1TimeZone::Z => "Z".into(),
        ASN1TimeZone::Offset(h, m) => {
            format!("{}{:02}{:02}", if *h < 0 { "-" } else { "+" }, (*h as i32).abs(), (*m as i32).abs())
        }
    }
}

pub fn enc_content(v: &Val) -> Vec<u8> {
    match v {
        Val::Eoc | Val::Null => vec![],
        Val::Bool(b) => vec![if *b { 0xff } else { 0 }],
        Val::Int(d) | Val::Octets(d) | Val::Oid(d) | Val::RelOid(d) | Val::Bmp(d) | Val::Univ(d) => d.clone(),
        Val::Unknown(_, d) => d.clone(),
        Val::Bits(u, d) => {
            let mut o = vec![*u];
            o.extend_from_slice(d);
            o
        }
        Val::Enum(e) => {
            let b = e.to_be_bytes();
            let n = b.iter().take_while(|x| **x == 0).count().min(7);
            b[n..].to_vec()
        }
        Val::Str(_, s) => s.as_bytes().to_vec(),
        Val::Seq(l) | Val::Set(l) => l.iter().flat_map(encode).collect(),
        Val::Utc(t) => format!(
            "{:02}{:02}{:02}{:02}{:02}{:02}{}",
            t.year % 100,
            t.month,
            t.day,
            t.hour,
            t.minute,
            t.second,
            tz(&t.tz, "Z")
        )
        .into_bytes(),
        Val::Gen(t) => format!(
            "{:04}{:02}{:02}{:02}{:02}{:02}{}{}",
            t.year,
            t.month,
            t.day,
            t.hour,
            t.minute,
            t.second,
            t.millisecond.map_or(String::new(), |m| format!(".{m:03}")),
            tz(&t.tz, "")
        )
        .into_bytes(),
        Val::Opt(Some(o)) => enc_content(&o.val),
        Val::Opt(None) => vec![],
        Val::Tagged(_, _, o) => encode(o),
    }
}

pub fn encode(n: &Node) -> Vec<u8> {
    if let Val::Opt(None) = n.val {
        return vec![];
    }
    let c = enc_content(&n.val);
    let mut v = enc_header(n.hdr.class, n.hdr.cons, n.hdr.tag, c.len());
    v.extend(c);
    v
}

/// the node as it is after encoding and decoding: all lengths definite
pub fn definite(n: &Node) -> Node {
    let mut m = n.clone();
    fix_len(&mut m);
    m
}

fn fix_len(n: &mut Node) {
    match &mut n.val {
        Val::Seq(l) | Val::Set(l) => l.iter_mut().for_each(fix_len),
        Val::Opt(Some(o)) => fix_len(o),
        Val::Tagged(_, _, o) => fix_len(o),
        _ => (),
    }
    let l = enc_content(&n.val).len() as u64;
    n.hdr.len = Len::Def(l);
    if let Val::Unknown(h, _) = &mut n.val {
        h.len = Len::Def(l);
    }
}
