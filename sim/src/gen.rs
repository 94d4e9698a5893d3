//! Sender side: generates elements (trees of header forms and contents) and faulty variants.
use crate::choice::Rng;
use crate::model::tags::*;
use crate::model::{enc_len, STR_TAGS};
use crate::sim::Sim;

#[derive(Clone, Debug)]
pub enum LenForm {
    Min,
    /// long form with n length octets more than needed
    Long(usize),
    Indef,
}

#[derive(Clone, Debug)]
pub enum Body {
    Prim(Vec<u8>),
    Kids(Vec<G>),
}

#[derive(Clone, Debug)]
pub struct G {
    pub class: u8,
    pub cons: bool,
    pub tag: u32,
    /// use the long form for a tag below 31, with n leading 0x80 octets
    pub long_tag: Option<usize>,
    pub lform: LenForm,
    /// added to the declared length (a lying sender)
    pub lie: i64,
    pub body: Body,
}

#[derive(Clone, Copy)]
pub struct Cfg {
    /// only what DER allows
    pub der: bool,
    pub max_depth: usize,
    pub max_kids: usize,
    /// allow odd but legal header forms
    pub forms: bool,
    /// chance (of 16) of a content its type does not allow
    pub quirk: u64,
    /// large contents allowed
    pub big: bool,
}

impl Cfg {
    pub fn ber() -> Cfg {
        Cfg { der: false, max_depth: 5, max_kids: 5, forms: true, quirk: 1, big: true }
    }
    pub fn der() -> Cfg {
        Cfg { der: true, max_depth: 5, max_kids: 5, forms: false, quirk: 0, big: true }
    }
}

impl G {
    pub fn prim(tag: u32, d: Vec<u8>) -> G {
        G { class: 0, cons: false, tag, long_tag: None, lform: LenForm::Min, lie: 0, body: Body::Prim(d) }
    }
    pub fn kids(tag: u32, k: Vec<G>) -> G {
        G { class: 0, cons: true, tag, long_tag: None, lform: LenForm::Min, lie: 0, body: Body::Kids(k) }
    }
    pub fn content(&self) -> Vec<u8> {
        match &self.body {
            Body::Prim(d) => d.clone(),
            Body::Kids(k) => {
                let mut o = Vec::new();
                for g in k {
                    g.enc(&mut o);
                }
                o
            }
        }
    }
    pub fn enc(&self, o: &mut Vec<u8>) {
        let b0 = (self.class << 6) | if self.cons { 0x20 } else { 0 };
        let pads = if self.tag > 30 { Some(self.long_tag.unwrap_or(0)) } else { self.long_tag };
        match pads {
            None => o.push(b0 | self.tag as u8),
            Some(p) => {
                o.push(b0 | 0x1f);
                o.extend(std::iter::repeat(0x80).take(p));
                let mut g = vec![(self.tag & 0x7f) as u8];
                let mut t = self.tag >> 7;
                while t > 0 {
                    g.push(0x80 | (t & 0x7f) as u8);
                    t >>= 7;
                }
                g.reverse();
                o.extend(g);
            }
        }
        let c = self.content();
        let l = (c.len() as i64 + self.lie).max(0) as usize;
        match self.lform {
            LenForm::Min => enc_len(o, l),
            LenForm::Long(pad) => {
                let b: Vec<u8> = (l as u64).to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
                let b = if b.is_empty() { vec![0] } else { b };
                let pad = pad.min(126 - b.len());
                o.push(0x80 | (b.len() + pad) as u8);
                o.extend(std::iter::repeat(0).take(pad));
                o.extend(b);
            }
            LenForm::Indef => o.push(0x80),
        }
        o.extend_from_slice(&c);
        if let LenForm::Indef = self.lform {
            o.extend_from_slice(&[0, 0]);
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = Vec::new();
        self.enc(&mut o);
        o
    }
    pub fn size(&self) -> usize {
        match &self.body {
            Body::Prim(_) => 1,
            Body::Kids(k) => 1 + k.iter().map(|g| g.size()).sum::<usize>(),
        }
    }
    /// n-th node in preorder
    pub fn nth(&mut self, n: &mut usize) -> Option<&mut G> {
        if *n == 0 {
            return Some(self);
        }
        *n -= 1;
        if let Body::Kids(k) = &mut self.body {
            for g in k {
                if let Some(r) = g.nth(n) {
                    return Some(r);
                }
            }
        }
        None
    }
    pub fn has_indef(&self) -> bool {
        matches!(self.lform, LenForm::Indef)
            || match &self.body {
                Body::Prim(_) => false,
                Body::Kids(k) => k.iter().any(|g| g.has_indef()),
            }
    }
}

pub fn fill(sim: &mut Sim, len: usize) -> Vec<u8> {
    if len <= 24 {
        (0..len).map(|_| sim.c.byte()).collect()
    } else {
        let mut r = Rng::new(sim.c.raw());
        (0..len).map(|_| r.next() as u8).collect()
    }
}

fn size(sim: &mut Sim, big: bool) -> usize {
    match sim.c.weighted(&[20, 6, 3, if big { 1 } else { 0 }]) {
        0 => sim.c.small(40),
        1 => sim.c.usize(300),
        2 => *sim.c.pick(&[126usize, 127, 128, 129, 254, 255, 256, 257]),
        _ => match sim.c.usize(3) {
            0 => *sim.c.pick(&[4000usize, 65534, 65535, 65536, 65537]),
            1 => *sim.c.pick(&[511usize, 512, 513, 1000, 1023, 1024, 1025, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769]),
            _ => 300 + sim.c.usize(5000),
        },
    }
}

/// interesting integer contents
/// numbers at and around the powers of two
pub fn edge_u64(sim: &mut Sim) -> u64 {
    let b = match sim.c.usize(2) {
        0 => 1u64 << *sim.c.pick(&[0u32, 7, 8, 15, 16, 24, 31, 32, 56, 63]),
        _ => 0,
    };
    match sim.c.weighted(&[5, 1]) {
        0 => b.wrapping_add(sim.c.range(0, 2) as u64).wrapping_sub(1),
        _ => b.wrapping_add(sim.c.range(0, 6) as u64).wrapping_sub(3),
    }
}

pub fn int_content(sim: &mut Sim, der: bool) -> Vec<u8> {
    let mut v = match sim.c.weighted(&[6, 5, 4, 2]) {
        0 => {
            // around a power of two
            let e = *sim.c.pick(&[0u32, 7, 8, 15, 16, 31, 32, 63, 64, 127]);
            let d = sim.c.range(0, 2) as i128 - 1;
            let base: i128 = if e == 127 { i128::MAX - 1 } else { 1i128 << e };
            let x = if sim.c.chance(1, 2) { -base + d } else { base + d };
            let b = x.to_be_bytes();
            let neg = x < 0;
            let mut i = 0;
            while i < 15 && ((!neg && b[i] == 0 && b[i + 1] < 0x80) || (neg && b[i] == 0xff && b[i + 1] >= 0x80)) {
                i += 1;
            }
            b[i..].to_vec()
        }
        1 => {
            let n = 1 + sim.c.usize(10);
            fill(sim, n)
        }
        2 => {
            let n = sim.c.usize(10);
            let b = *sim.c.pick(&[0u8, 0xff, 0x80, 0x7f, 0x01]);
            let mut v = vec![b; n];
            if let Some(l) = v.last_mut() {
                *l = *sim.c.pick(&[b, 0, 1, 0x7f, 0x80, 0xff]);
            }
            v
        }
        _ => {
            let n = *sim.c.pick(&[16usize, 32, 64, 129, 256, 17, 255, 257, 1000]);
            fill(sim, n)
        }
    };
    if der {
        while v.len() > 1 && v[0] == 0 && v[1] < 0x80 {
            v.remove(0);
        }
        if v.is_empty() {
            v.push(0);
        }
    } else if sim.c.chance(1, 4) {
        // redundant leading octets
        let n = 1 + sim.c.small(12);
        let b = if v.first().map_or(false, |b| *b >= 0x80) && sim.c.chance(2, 3) { 0xff } else { 0 };
        for _ in 0..n {
            v.insert(0, b);
        }
    }
    v
}

pub fn oid_content(sim: &mut Sim) -> Vec<u8> {
    if sim.c.chance(1, 8) {
        let n = sim.c.small(20);
        return fill(sim, n);
    }
    let n = if sim.c.chance(1, 300) { width(sim, false) } else { 1 + sim.c.small(8) };
    let mut v = Vec::new();
    for _ in 0..n {
        let x = match sim.c.usize(4) {
            0 => sim.c.below(128),
            1 => sim.c.below(1 << 14),
            2 => sim.c.below(1 << 32),
            _ => *sim.c.pick(&[127u64, 128, 16383, 16384, u32::MAX as u64, u64::MAX]),
        };
        let mut g = vec![(x & 0x7f) as u8];
        let mut t = x >> 7;
        while t > 0 {
            g.push(0x80 | (t & 0x7f) as u8);
            t >>= 7;
        }
        g.reverse();
        v.extend(g);
    }
    v
}

pub fn str_content(sim: &mut Sim, tag: u32, big: bool) -> Vec<u8> {
    let b = big && sim.c_small();
    let n = size(sim, b);
    let mut rng = Rng::new(if n > 0 { sim.c.raw() } else { 0 });
    let pick = |r: &mut Rng, s: &[u8]| s[(r.next() % s.len() as u64) as usize];
    let printable: Vec<u8> =
        (b'a'..=b'z').chain(b'A'..=b'Z').chain(b'0'..=b'9').chain(b" '()+,-./:=?".iter().copied()).collect();
    match tag {
        NUMERIC => (0..n).map(|_| pick(&mut rng, b"0123456789 ")).collect(),
        PRINTABLE => (0..n).map(|_| pick(&mut rng, &printable)).collect(),
        T61 | VIDEOTEX | VISIBLE => (0..n).map(|_| 0x20 + (rng.next() % 0x60) as u8).collect(),
        UTF8 => {
            let mut s = String::new();
            while s.len() < n {
                let c = match rng.next() % 6 {
                    0 => char::from_u32((rng.next() % 0x80) as u32),
                    1 => char::from_u32(0x80 + (rng.next() % 0x780) as u32),
                    2 => char::from_u32(0x800 + (rng.next() % 0xd000) as u32),
                    3 => char::from_u32(0x10000 + (rng.next() % 0x100000) as u32),
                    _ => char::from_u32(b'a' as u32 + (rng.next() % 26) as u32),
                };
                s.push(c.unwrap_or('x'));
            }
            s.into_bytes()
        }
        _ => (0..n).map(|_| (rng.next() % 0x80) as u8).collect(),
    }
}

/// number of characters of a wide string
fn wchars(sim: &mut Sim, small: usize, big: bool) -> usize {
    if big && sim.c.chance(1, 60) {
        *sim.c.pick(&[41usize, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1025])
    } else {
        sim.c.small(small)
    }
}

pub fn bmp_content(sim: &mut Sim, big: bool) -> Vec<u8> {
    let n = wchars(sim, 40, big);
    let mut rng = Rng::new(if n > 0 { sim.c.raw() } else { 0 });
    let mut v = Vec::new();
    for _ in 0..n {
        let c = match rng.next() % 4 {
            0 => char::from_u32(0x10000 + (rng.next() % 0x100000) as u32),
            1 => char::from_u32((rng.next() % 0xd800) as u32),
            2 => char::from_u32(0xe000 + (rng.next() % 0x2000) as u32),
            _ => char::from_u32(b'a' as u32 + (rng.next() % 26) as u32),
        }
        .unwrap_or('x');
        let mut b = [0u16; 2];
        for u in c.encode_utf16(&mut b) {
            v.extend_from_slice(&u.to_be_bytes());
        }
    }
    v
}

/// time content; der: ends in Z
pub fn time_content(sim: &mut Sim, generalized: bool, der: bool) -> Vec<u8> {
    let y = if generalized {
        *sim.c.pick(&[1999usize, 1950, 2049, 2050, 0, 1, 99, 100, 1900, 2000, 2024, 9999])
    } else {
        sim.c.usize(100)
    };
    let mo = 1 + sim.c.usize(12);
    let dmax = if sim.c_small() { 31 } else { 28 };
    let d = 1 + sim.c.usize(dmax);
    let h = sim.c.usize(24);
    let mi = sim.c.usize(60);
    let s = sim.c.usize(60);
    let mut t = if generalized { format!("{y:04}") } else { format!("{y:02}") };
    t += &format!("{mo:02}{d:02}{h:02}");
    // minutes and seconds may be left out in BER
    let parts = if der { 0 } else { sim.c.weighted(&[12, 2, if generalized { 1 } else { 0 }]) };
    if parts < 2 {
        t += &format!("{mi:02}");
    }
    if parts < 1 {
        t += &format!("{s:02}");
    }
    if generalized && parts == 0 && sim.c.chance(1, 3) {
        let n = 1 + sim.c.usize(4);
        let f = sim.c.usize(10usize.pow(n as u32));
        t += &format!("{}{:0w$}", if sim.c.chance(1, 4) { "," } else { "." }, f, w = n);
    }
    match if der { 0 } else { sim.c.weighted(&[4, 3, 3, 1]) } {
        0 => t += "Z",
        1 => t += &format!("+{:02}{:02}", sim.c.usize(15), sim.c.usize(60)),
        2 => t += &format!("-{:02}{:02}", sim.c.usize(13), sim.c.usize(60)),
        _ => (),
    }
    t.into_bytes()
}

pub const LEAF_TAGS: [u32; 25] = [
    INT, OCTETS, NULL, BOOL, OID, UTF8, PRINTABLE, BITS, ENUM, UTC, GENTIME, IA5, NUMERIC, VISIBLE, T61, VIDEOTEX, GRAPHIC,
    GENERAL, OBJDESC, BMP, UNIV, RELOID, 9, 8, 11,
];

/// content octets allowed for a universal primitive type
pub fn good_content(sim: &mut Sim, tag: u32, der: bool, big: bool) -> Vec<u8> {
    match tag {
        BOOL => vec![if der { *sim.c.pick(&[0u8, 0xff]) } else { *sim.c.pick(&[0u8, 0xff, 1, 0x7f, 0x80]) }],
        INT => int_content(sim, der),
        BITS => {
            let n = if big && sim.c.chance(1, 40) { size(sim, true) } else { sim.c.small(20) };
            let mut d = fill(sim, n);
            let u = if n == 0 && der { sim.c.usize(8) as u8 } else { sim.c.usize(8) as u8 };
            if der {
                if let Some(l) = d.last_mut() {
                    *l &= !(((1u16 << u) - 1) as u8);
                }
            }
            d.insert(0, u);
            d
        }
        NULL | EOC => vec![],
        OID | RELOID => oid_content(sim),
        ENUM => {
            let mut v = if sim.c.chance(1, 4) {
                let b = edge_u64(sim).to_be_bytes();
                let skip = b.iter().take(7).take_while(|x| **x == 0).count().max(4);
                b[skip..].to_vec()
            } else {
                let n = 1 + sim.c.usize(4);
                fill(sim, n)
            };
            if !der && sim.c.chance(1, 8) {
                v.insert(0, 0);
            }
            v
        }
        UTC => time_content(sim, false, der),
        GENTIME => time_content(sim, true, der),
        BMP => bmp_content(sim, big),
        UNIV => {
            let n = wchars(sim, 12, big);
            let mut v = Vec::new();
            for _ in 0..n {
                let x = match sim.c.usize(3) {
                    0 => 0x61 + sim.c.below(26) as u32,
                    1 => sim.c.below(0x11_0000) as u32,
                    _ => 0x1_f600 + sim.c.below(64) as u32,
                };
                v.extend_from_slice(&x.to_be_bytes());
            }
            v
        }
        t if STR_TAGS.contains(&t) => str_content(sim, t, big),
        _ => {
            let b = big && sim.c_small();
            let n = size(sim, b);
            fill(sim, n)
        }
    }
}

/// content that is likely not allowed
pub fn bad_content(sim: &mut Sim, tag: u32) -> Vec<u8> {
    let long = sim.c.chance(1, 16);
    let mut d = good_content(sim, tag, false, false);
    if long && !d.is_empty() && (tag == BMP || tag == UNIV || STR_TAGS.contains(&tag)) {
        // the same characters again and again
        let want = size(sim, true).max(sim.c.usize(1200));
        let times = 1 + want / d.len();
        d = d.repeat(times);
    }
    match sim.c.weighted(&[4, 2, 2, 2, 2, 2]) {
        0 => {
            let b = *sim.c.pick(&[0x80u8, 0xff, 0x00, 0x1f, 0x7f, b'*', b'@', b'A', 0xd8]);
            let at = sim.c.usize(d.len() + 1);
            d.insert(at, b);
        }
        1 => {
            d.pop();
        }
        2 => d.clear(),
        3 => {
            if !d.is_empty() {
                let at = sim.c.usize(d.len());
                d[at] = sim.c.byte();
            }
        }
        5 => {
            // one character is not of the repertoire, often the last one
            let w = match tag {
                BMP => 2,
                UNIV => 4,
                _ => 1,
            };
            let n = d.len() / w;
            if n > 0 {
                let k = if sim.c.chance(1, 2) { n - 1 } else { sim.c.usize(n) };
                d[k * w] = *sim.c.pick(&[0xd8u8, 0xdc, 0xdf, 0x80, 0xff, 0x00, b'*', b'@', b'_']);
            }
        }
        _ => {
            let n = 1 + sim.c.usize(6);
            d = fill(sim, n);
        }
    }
    d
}

impl Sim {
    /// rarely true
    pub fn c_small(&mut self) -> bool {
        self.c.chance(1, 8)
    }
}

/// shortest two's complement content of a small number
pub fn count_content(i: u64) -> Vec<u8> {
    let b = i.to_be_bytes();
    let mut k = 0;
    while k < 7 && b[k] == 0 && b[k + 1] < 0x80 {
        k += 1;
    }
    b[k..].to_vec()
}

/// how many members a wide container has
pub fn width(sim: &mut Sim, huge: bool) -> usize {
    match sim.c.weighted(&[6, 4, if huge { 1 } else { 0 }]) {
        0 => *sim.c.pick(&[255usize, 256, 257, 127, 128, 129, 300]),
        1 => *sim.c.pick(&[511usize, 512, 513, 1000, 1024, 1025, 2049]),
        _ => *sim.c.pick(&[4097usize, 65535, 65536, 65537]),
    }
}

/// a container with many members, which are all different
fn wide(sim: &mut Sim, cfg: &Cfg) -> G {
    let huge = sim.c.chance(1, 30);
    let n = if huge { *sim.c.pick(&[4095usize, 4096, 4097, 5000, 8193, 16385, 20000, 65535, 65536, 65537]) } else { width(sim, false) };
    let mut kids: Vec<G> = (0..n as u64).map(|i| G::prim(INT, count_content(i))).collect();
    for _ in 0..sim.c.usize(4) {
        let at = sim.c.usize(n);
        kids[at] = element(sim, &Cfg { big: false, max_depth: 2, ..*cfg }, 1);
    }
    let mut g = G::kids(*sim.c.pick(&[SEQ, SET]), kids);
    if !cfg.der && sim.c.chance(1, 3) {
        g.lform = LenForm::Indef;
    }
    g
}

pub fn element(sim: &mut Sim, cfg: &Cfg, depth: usize) -> G {
    if cfg.big && depth <= 1 && sim.c.chance(1, 600) {
        return wide(sim, cfg);
    }
    let container = depth < cfg.max_depth && sim.c.chance(2, 5);
    let mut g;
    if container {
        let n = match sim.c.weighted(&[8, 1]) {
            0 => sim.c.usize(if depth > 2 { cfg.max_kids.min(3) } else { cfg.max_kids } + 1),
            _ => sim.c.usize(if depth > 1 { 5 } else { 3 * cfg.max_kids } + 1),
        };
        let kids = (0..n).map(|_| element(sim, cfg, depth + 1)).collect();
        g = G::kids(*sim.c.pick(&[SEQ, SET]), kids);
        if sim.c.chance(1, 6) {
            // constructed element of another class (opaque to the generic readers)
            g.class = 1 + sim.c.usize(3) as u8;
            g.tag = tag_no(sim);
        } else if !cfg.der && sim.c.chance(1, 20) {
            // constructed form of another universal type
            g.tag = *sim.c.pick(&[OCTETS, BITS, UTF8, INT, 8, 11, BOOL, NULL]);
        }
        if !cfg.der && sim.c.chance(1, 3) {
            g.lform = LenForm::Indef;
        }
    } else {
        let tag = *sim.c.pick(&LEAF_TAGS);
        let d = if sim.c.below(16) >= 16 - cfg.quirk { bad_content(sim, tag) } else { good_content(sim, tag, cfg.der, cfg.big) };
        g = G::prim(tag, d);
        match sim.c.weighted(&[16, 2, 1, 1]) {
            0 => (),
            1 => {
                g.class = 1 + sim.c.usize(3) as u8;
                g.tag = tag_no(sim);
            }
            2 => {
                // tag without a universal type
                g.tag = *sim.c.pick(&[14u32, 15, 29, 31, 32, 127, 128, 255, 256, 16383, 16384, 1 << 21, u32::MAX >> 4, u32::MAX]);
            }
            _ => {
                if depth > 0 && !cfg.der {
                    // an element that looks like end-of-contents inside its parent
                    g = G::prim(EOC, vec![]);
                    match sim.c.usize(4) {
                        0 => g.lform = LenForm::Long(0),
                        1 => g.class = 2,
                        2 => {
                            g.class = 1;
                            g.cons = true;
                            g.body = Body::Kids(vec![]);
                        }
                        _ => {
                            g.class = 3;
                            g.body = Body::Prim(vec![0, 0]);
                        }
                    }
                }
            }
        }
    }
    if cfg.forms {
        forms(sim, &mut g);
    }
    g
}

pub fn tag_no(sim: &mut Sim) -> u32 {
    match sim.c.weighted(&[5, 2, 2, 1]) {
        3 => {
            let w = 1 + sim.c.usize(32) as u32;
            (sim.c.raw() & ((1u64 << w) - 1)) as u32
        }
        0 => sim.c.below(6) as u32,
        1 => sim.c.below(31) as u32,
        _ => *sim.c.pick(&[
            0u32, 30, 31, 32, 127, 128, 129, 16383, 16384, 2_097_151, 2_097_152, 268_435_455, 268_435_456, u32::MAX,
            // edges of narrower integer types
            255, 256, 257, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0x1_0001, 0x100_0000, 0x7fff_ffff, 0x8000_0000,
        ]),
    }
}

fn forms(sim: &mut Sim, g: &mut G) {
    if !matches!(g.lform, LenForm::Indef) && sim.c.chance(1, 6) {
        g.lform = LenForm::Long(match sim.c.weighted(&[4, 2, 1]) {
            0 => 0,
            1 => sim.c.usize(8),
            _ => sim.c.usize(120),
        });
    }
    if sim.c.chance(1, 24) {
        let need = match g.tag {
            0..=127 => 1,
            128..=16383 => 2,
            16384..=2_097_151 => 3,
            2_097_152..=268_435_455 => 4,
            _ => 5,
        };
        g.long_tag = Some(sim.c.usize(6 - need));
    }
}

/// stream of elements
pub fn stream(sim: &mut Sim, cfg: &Cfg, n: usize) -> Vec<G> {
    (0..n).map(|_| element(sim, cfg, 0)).collect()
}

/// A faulty encoder: one structural fault at a random node
pub fn byzantine(sim: &mut Sim, g: &mut G) {
    let n = g.size();
    let mut i = sim.c.usize(n);
    let g = g.nth(&mut i).unwrap();
    sim.fault("byzantine-encoder");
    match sim.c.weighted(&[6, 3, 2, 2, 2, 2, 1]) {
        0 => {
            // content that breaks the rules of its own type
            if let Body::Prim(_) = g.body {
                let t = g.tag;
                let d = der_breaking(sim, t).unwrap_or_else(|| bad_content(sim, t));
                g.body = Body::Prim(d);
            } else {
                g.lform = LenForm::Indef;
            }
        }
        1 => g.cons = !g.cons,
        2 => {
            g.lform = LenForm::Indef;
            if sim.c.chance(1, 2) {
                g.cons = true;
            }
        }
        3 => g.lie = sim.c.range(0, 6) as i64 - 3,
        4 => g.tag = *sim.c.pick(&LEAF_TAGS),
        5 => g.class = sim.c.usize(4) as u8,
        _ => g.lform = LenForm::Long(sim.c.usize(9)),
    }
}

/// how much well-formed content surrounds the forbidden part
fn broken_len(sim: &mut Sim) -> usize {
    if sim.c.chance(1, 10) {
        size(sim, true)
    } else {
        sim.c.usize(4)
    }
}

/// content allowed in BER and forbidden in DER
pub fn der_breaking(sim: &mut Sim, tag: u32) -> Option<Vec<u8>> {
    Some(match tag {
        BOOL => match sim.c.usize(3) {
            0 => vec![1 + sim.c.usize(254) as u8],
            1 => vec![],
            _ => vec![0xff, 0xff],
        },
        INT => match sim.c.usize(3) {
            0 => vec![],
            1 => {
                let n = broken_len(sim);
                let mut v = fill(sim, n);
                v.insert(0, sim.c.usize(128) as u8);
                v.insert(0, 0);
                v
            }
            _ => {
                let n = broken_len(sim);
                let mut v = fill(sim, n);
                v.insert(0, 0);
                v.insert(0, 0);
                v
            }
        },
        BITS => match sim.c.usize(4) {
            0 => vec![],
            1 => vec![8 + sim.c.usize(248) as u8, 0],
            2 => {
                let u = 1 + sim.c.usize(7) as u8;
                let n = broken_len(sim);
                let mut v = fill(sim, n);
                v.insert(0, u);
                let bit = sim.c.usize(u as usize);
                v.push((sim.c.byte() << u) | (1 << bit));
                v
            }
            _ => vec![8 + sim.c.usize(248) as u8],
        },
        UTC | GENTIME => {
            let mut v = time_content(sim, tag == GENTIME, false);
            match sim.c.usize(3) {
                0 => {
                    v.pop();
                }
                1 => {
                    if v.last() == Some(&b'Z') {
                        v.pop();
                        v.extend_from_slice(b"+0000");
                    }
                }
                _ => {
                    if v.last() == Some(&b'Z') {
                        v.pop();
                        v.push(b'z');
                    }
                }
            }
            v
        }
        _ => return None,
    })
}

/// input of an attacker: extreme nesting, lengths or counts rather than corrupted bytes
pub fn hostile(sim: &mut Sim, max: usize) -> Vec<u8> {
    let mut o = Vec::new();
    let n = match sim.c.weighted(&[4, 3, 2]) {
        0 => sim.c.usize(60),
        1 => 45 + sim.c.usize(12),
        _ => sim.c.usize(max),
    };
    let open = match sim.c.weighted(&[3, 1]) {
        0 => *sim.c.pick(&[0x30u8, 0x31, 0xa0, 0x24, 0x61, 0x3f, 0x23, 0x2c]),
        _ => ((sim.c.usize(4) as u8) << 6) | 0x20 | *sim.c.pick(&[0u8, 1, 4, 16, 17, 31]),
    };
    let put_tag = |o: &mut Vec<u8>| {
        o.push(open);
        if open & 0x1f == 0x1f {
            o.push(0x21);
        }
    };
    match sim.c.usize(8) {
        0 => {
            // indefinite containers, closed or not
            for _ in 0..n {
                put_tag(&mut o);
                o.push(0x80);
            }
            let close = if sim.c.chance(1, 2) { n } else { sim.c.usize(n + 1) };
            o.extend(std::iter::repeat(0).take(2 * close));
        }
        1 => {
            // definite containers around each other
            let mut inner: Vec<u8> = vec![5, 0];
            let n = n.min(2000);
            let mut heads: Vec<Vec<u8>> = Vec::new();
            let mut len = inner.len();
            for _ in 0..n {
                let mut h = Vec::new();
                put_tag(&mut h);
                enc_len(&mut h, len);
                len += h.len();
                heads.push(h);
            }
            for h in heads.iter().rev() {
                o.extend_from_slice(h);
            }
            o.append(&mut inner);
        }
        2 => {
            // lengths that promise far more than is there
            for _ in 0..n.max(1) {
                put_tag(&mut o);
                let k = 1 + sim.c.usize(9);
                o.push(0x80 | k as u8);
                o.extend(std::iter::repeat(*sim.c.pick(&[0xffu8, 0x7f, 0x01])).take(k));
                if o.len() > max {
                    break;
                }
            }
        }
        3 => {
            // a container that claims everything that follows and more, at each level
            for _ in 0..n.max(1) {
                put_tag(&mut o);
                o.extend_from_slice(&[0x84, 0x00, 0xff, 0xff, 0xff]);
            }
        }
        4 => {
            // many small members
            let m = *sim.c.pick(&[&[5u8, 0][..], &[0, 0], &[1, 1, 0xff], &[0x30, 0], &[2, 1, 0]]);
            let body: Vec<u8> = m.iter().copied().cycle().take(n * 3 * m.len()).collect();
            put_tag(&mut o);
            if sim.c.chance(1, 3) {
                o.push(0x80);
                o.extend(body);
                o.extend_from_slice(&[0, 0]);
            } else {
                enc_len(&mut o, body.len());
                o.extend(body);
            }
        }
        5 => {
            // long runs of one byte as content of a primitive
            let t = *sim.c.pick(&[2u8, 3, 6, 13, 10, 0x1e, 0x1c, 12, 23, 24]);
            let b = *sim.c.pick(&[0u8, 0x80, 0xff, 0x7f, 0xd8, b'0']);
            o.push(t);
            enc_len(&mut o, n * 4);
            o.extend(std::iter::repeat(b).take(n * 4));
            if let Some(l) = o.last_mut() {
                *l = sim.c.byte();
            }
        }
        6 => {
            // long tags
            o.push(open | 0x1f);
            o.extend(std::iter::repeat(*sim.c.pick(&[0x80u8, 0xff, 0x81])).take(n.min(40)));
            o.extend_from_slice(&[1, 1, 0]);
        }
        _ => {
            // mixed nesting
            let mut closes = Vec::new();
            for _ in 0..n.min(400) {
                let b = *sim.c.pick(&[0x30u8, 0x31, 0xa1, 0x24]);
                o.push(b);
                if sim.c.chance(1, 2) {
                    o.push(0x80);
                    closes.push(0);
                    closes.push(0);
                } else {
                    o.push(*sim.c.pick(&[0x7fu8, 0x10, 0x04, 0x00]));
                }
            }
            o.append(&mut closes);
        }
    }
    o.truncate(max);
    sim.fault("hostile-structure");
    o
}
