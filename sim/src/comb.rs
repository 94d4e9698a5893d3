//! The library's combinators driven with scripted caller-supplied parsers.
use crate::model::{self, Hdr, Len, Node, Val, E};
use crate::runner::Injected;
use crate::snap::*;
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::{BerError, BerResult};
use der_parser::nom::error::{ErrorKind, ParseError};
use der_parser::nom::{Err, IResult, Needed};
use std::cell::{Cell, RefCell};

/// error type of the caller
#[derive(Clone, Debug, PartialEq)]
pub enum UErr {
    User(u32),
    Lib(String),
    Kind(ErrorKind),
}

impl<'a> ParseError<&'a [u8]> for UErr {
    fn from_error_kind(_: &'a [u8], k: ErrorKind) -> Self {
        UErr::Kind(k)
    }
    fn append(_: &'a [u8], _: ErrorKind, o: Self) -> Self {
        o
    }
}

const USER: u32 = 0x7000_0000;

impl From<BerError> for UErr {
    fn from(e: BerError) -> UErr {
        match e {
            // how the scripted parsers mark their own errors where the error type is the library's
            BerError::UnknownTag(c) if c >= USER => UErr::User(c - USER),
            e => UErr::Lib(format!("{e:?}")),
        }
    }
}

fn user_ber(c: u32) -> BerError {
    BerError::UnknownTag(USER + c)
}

/// what a scripted parser does when it is called
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cb {
    /// consume up to n bytes
    Take(usize),
    /// consume one element (as the reference framing delimits it)
    Elem,
    /// consume everything
    All,
    Err(u32),
    Fail(u32),
    Inc(usize),
    Panic,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    /// offset in the input (usize::MAX: not inside the input; 0 for empty arguments)
    pub off: usize,
    pub len: usize,
    pub hdr: Option<Hdr>,
    pub depth: Option<usize>,
}

#[derive(Default)]
pub struct Ctx {
    base: Cell<(usize, usize)>,
    script: RefCell<Vec<Cb>>,
    next: Cell<usize>,
    pub calls: RefCell<Vec<Call>>,
    /// what the calls on nothing (end of content) answer
    of: Cell<bool>,
}

thread_local! {
    static YIELD: Cell<Option<fn()>> = const { Cell::new(None) };
}
pub fn set_yield(f: Option<fn()>) {
    YIELD.with(|y| y.set(f))
}
/// suspension point of callbacks
pub fn yield_point() {
    if let Ok(Some(f)) = YIELD.try_with(|y| y.get()) {
        f()
    }
}

pub type Item = (u32, usize, usize);

impl Ctx {
    pub fn start(&self, input: &[u8], script: &[Cb], of: bool) {
        self.base.set((input.as_ptr() as usize, input.len()));
        *self.script.borrow_mut() = script.to_vec();
        self.next.set(0);
        self.calls.borrow_mut().clear();
        self.of.set(of);
    }
    fn off(&self, i: &[u8]) -> usize {
        let (b, n) = self.base.get();
        let p = i.as_ptr() as usize;
        if i.is_empty() {
            0
        } else if p >= b && p + i.len() <= b + n {
            p - b
        } else {
            usize::MAX
        }
    }
    fn cb<'a>(&self, i: &'a [u8], hdr: Option<Hdr>, depth: Option<usize>) -> Result<(&'a [u8], (u32, &'a [u8])), Err<u32>> {
        yield_point();
        if self.of.get() && i.is_empty() {
            return Err(Err::Incomplete(Needed::new(1)));
        }
        let k = self.next.get();
        self.next.set(k + 1);
        self.calls.borrow_mut().push(Call { off: self.off(i), len: i.len(), hdr, depth });
        let act = self.script.borrow().get(k).copied().unwrap_or(Cb::Elem);
        match decide(act, i) {
            Step::Use(n) => Ok((&i[n..], (k as u32, &i[..n]))),
            Step::Err(c) => Err(Err::Error(c)),
            Step::Fail(c) => Err(Err::Failure(c)),
            Step::Inc(0) => Err(Err::Incomplete(Needed::Unknown)),
            Step::Inc(n) => Err(Err::Incomplete(Needed::new(n))),
            Step::Panic => std::panic::panic_any(Injected),
        }
    }
    fn cb_u<'a>(&self, i: &'a [u8], hdr: Option<Hdr>, depth: Option<usize>) -> IResult<&'a [u8], Item, UErr> {
        match self.cb(i, hdr, depth) {
            Ok((r, (k, s))) => Ok((r, (k, self.off(s), s.len()))),
            Err(Err::Error(c)) => Err(Err::Error(UErr::User(c))),
            Err(Err::Failure(c)) => Err(Err::Failure(UErr::User(c))),
            Err(Err::Incomplete(n)) => Err(Err::Incomplete(n)),
        }
    }
    fn cb_b<'a>(&self, i: &'a [u8], hdr: Option<Hdr>, depth: Option<usize>) -> BerResult<'a, &'a [u8]> {
        match self.cb(i, hdr, depth) {
            Ok((r, (_, s))) => Ok((r, s)),
            Err(Err::Error(c)) => Err(Err::Error(user_ber(c))),
            Err(Err::Failure(c)) => Err(Err::Failure(user_ber(c))),
            Err(Err::Incomplete(n)) => Err(Err::Incomplete(n)),
        }
    }
    fn cb_obj<'a>(&self, i: &'a [u8]) -> BerResult<'a> {
        let (r, s) = self.cb_b(i, None, None)?;
        Ok((r, int_obj(s)))
    }
    fn cb_vec<'a>(&self, i: &'a [u8]) -> BerResult<'a, Vec<BerObject<'a>>> {
        let (r, s) = self.cb_b(i, None, None)?;
        Ok((r, vec![int_obj(s), int_obj(&s[..s.len() / 2])]))
    }
    fn cb_content<'a>(&self, i: &'a [u8], h: &Header, d: usize) -> BerResult<'a, BerObjectContent<'a>> {
        let (r, s) = self.cb_b(i, Some(hdr(h)), Some(d))?;
        Ok((r, BerObjectContent::Integer(s)))
    }
}

fn int_obj(s: &[u8]) -> BerObject<'_> {
    BerObject::from_header_and_content(
        Header::new(Class::Universal, false, Tag::Integer, Length::Definite(s.len())),
        BerObjectContent::Integer(s),
    )
}

fn int_node(s: &[u8]) -> Node {
    Node { hdr: Hdr { class: 0, cons: false, tag: 2, len: Len::Def(s.len() as u64) }, val: Val::Int(s.to_vec()) }
}

enum Step {
    Use(usize),
    Err(u32),
    Fail(u32),
    Inc(usize),
    Panic,
}

fn decide(a: Cb, i: &[u8]) -> Step {
    match a {
        Cb::Take(n) => Step::Use(n.min(i.len())),
        Cb::All => Step::Use(i.len()),
        Cb::Elem => match model::frame(i, false, model::MAX_REC) {
            Ok(f) => Step::Use(f.total),
            Err(E::More(n)) => Step::Inc(n.min(1 << 30) as usize),
            Err(_) => Step::Err(777),
        },
        Cb::Err(c) => Step::Err(c),
        Cb::Fail(c) => Step::Fail(c),
        Cb::Inc(n) => Step::Inc(n),
        Cb::Panic => Step::Panic,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    SeqOfV,
    SetOfV,
    SeqOf,
    SetOf,
    SeqDef,
    SetDef,
    SeqDefG,
    SetDefG,
    Cont,
    Slice(u32),
    ExplG(u32),
    Expl(u32),
    ImplG(u32),
    Impl(u32),
    /// parse_ber_implicit / parse_der_implicit
    Implicit(u32),
    /// parse_{ber,der}_explicit_optional
    ExplOpt(u32),
    /// parse_ber_optional around a scripted parser
    Opt,
    /// parse_ber_optional around parse_{ber,der}_tagged_explicit
    OptExpl(u32),
    /// parse_ber_optional around parse_{ber,der}_tagged_implicit
    OptImpl(u32),
}

impl K {
    pub fn name(&self, der: bool) -> String {
        let p = if der { "der" } else { "ber" };
        match self {
            K::SeqOfV => format!("parse_{p}_sequence_of_v"),
            K::SetOfV => format!("parse_{p}_set_of_v"),
            K::SeqOf => format!("parse_{p}_sequence_of"),
            K::SetOf => format!("parse_{p}_set_of"),
            K::SeqDef => format!("parse_{p}_sequence_defined"),
            K::SetDef => format!("parse_{p}_set_defined"),
            K::SeqDefG => format!("parse_{p}_sequence_defined_g"),
            K::SetDefG => format!("parse_{p}_set_defined_g"),
            K::Cont => format!("parse_{p}_container"),
            K::Slice(t) => format!("parse_{p}_slice({t})"),
            K::ExplG(t) => format!("parse_{p}_tagged_explicit_g({t})"),
            K::Expl(t) => format!("parse_{p}_tagged_explicit({t})"),
            K::ImplG(t) => format!("parse_{p}_tagged_implicit_g({t})"),
            K::Impl(t) => format!("parse_{p}_tagged_implicit({t})"),
            K::Implicit(t) => format!("parse_{p}_implicit({t})"),
            K::ExplOpt(t) => format!("parse_{p}_explicit_optional({t})"),
            K::Opt => "parse_ber_optional".into(),
            K::OptExpl(t) => format!("parse_ber_optional(parse_{p}_tagged_explicit({t}))"),
            K::OptImpl(t) => format!("parse_ber_optional(parse_{p}_tagged_implicit({t}))"),
        }
    }
    pub fn code(&self) -> u64 {
        match self {
            K::SeqOfV => 0,
            K::SetOfV => 1,
            K::SeqOf => 2,
            K::SetOf => 3,
            K::SeqDef => 4,
            K::SetDef => 5,
            K::SeqDefG => 6,
            K::SetDefG => 7,
            K::Cont => 8,
            K::Slice(_) => 9,
            K::ExplG(_) => 10,
            K::Expl(_) => 11,
            K::ImplG(_) => 12,
            K::Impl(_) => 13,
            K::Implicit(_) => 14,
            K::ExplOpt(_) => 15,
            K::Opt => 16,
            K::OptExpl(_) => 17,
            K::OptImpl(_) => 18,
        }
    }
    pub fn is_of(&self) -> bool {
        matches!(self, K::SeqOfV | K::SetOfV | K::SeqOf | K::SetOf)
    }
    /// tag the combinator asks for
    pub fn tag(&self) -> Option<u32> {
        match self {
            K::SeqOfV | K::SeqOf | K::SeqDef | K::SeqDefG => Some(16),
            K::SetOfV | K::SetOf | K::SetDef | K::SetDefG => Some(17),
            K::Cont | K::Opt => None,
            K::Slice(t) | K::ExplG(t) | K::Expl(t) | K::ImplG(t) | K::Impl(t) => Some(*t),
            K::Implicit(t) | K::ExplOpt(t) | K::OptExpl(t) | K::OptImpl(t) => Some(*t),
        }
    }
    pub fn explicit(&self) -> bool {
        matches!(self, K::ExplG(_) | K::Expl(_) | K::ExplOpt(_) | K::OptExpl(_))
    }
    pub fn optional(&self) -> bool {
        matches!(self, K::ExplOpt(_) | K::OptExpl(_) | K::OptImpl(_) | K::Opt)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum CVal {
    One(Item),
    Many(Vec<Item>),
    Obj(Node),
    Slice(usize, usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum CRes {
    /// value and bytes used (usize::MAX: the remaining input is not the tail of the input)
    Ok(CVal, usize),
    Err(UErr),
    Fail(UErr),
    Inc(usize),
    Panicked,
}

fn used(i: &[u8], rem: &[u8]) -> usize {
    let u = i.len().wrapping_sub(rem.len());
    if rem.len() > i.len() || (!rem.is_empty() && !std::ptr::eq(&i[u..], rem)) {
        return usize::MAX;
    }
    u
}

fn fin<'a, T, X: Into<UErr>>(i: &'a [u8], r: IResult<&'a [u8], T, X>, f: impl FnOnce(T) -> CVal) -> CRes {
    match r {
        Ok((rem, v)) => CRes::Ok(f(v), used(i, rem)),
        Err(Err::Error(e)) => CRes::Err(e.into()),
        Err(Err::Failure(e)) => CRes::Fail(e.into()),
        Err(Err::Incomplete(Needed::Unknown)) => CRes::Inc(0),
        Err(Err::Incomplete(Needed::Size(n))) => CRes::Inc(n.get()),
    }
}

fn hr<F: for<'x> Fn(&'x [u8]) -> BerResult<'x>>(f: F) -> F {
    f
}

pub type Comb<'a> = Box<dyn FnMut(&'a [u8]) -> CRes + 'a>;

/// the combinator, ready to be used any number of times
pub fn make<'a>(k: K, der: bool, c: &'a Ctx) -> Comb<'a> {
    macro_rules! obj {
        ($p:expr) => {{
            let mut p = $p;
            Box::new(move |i: &'a [u8]| fin(i, p(i), |o| CVal::Obj(snap(&o))))
        }};
    }
    macro_rules! one {
        ($p:expr) => {{
            let mut p = $p;
            Box::new(move |i: &'a [u8]| fin(i, p(i), CVal::One))
        }};
    }
    macro_rules! many {
        ($p:expr) => {{
            let mut p = $p;
            Box::new(move |i: &'a [u8]| fin(i, p(i), CVal::Many))
        }};
    }
    match (k, der) {
        (K::SeqOfV, false) => many!(parse_ber_sequence_of_v(move |i: &'a [u8]| c.cb_u(i, None, None))),
        (K::SeqOfV, true) => many!(parse_der_sequence_of_v(move |i: &'a [u8]| c.cb_u(i, None, None))),
        (K::SetOfV, false) => many!(parse_ber_set_of_v(move |i: &'a [u8]| c.cb_u(i, None, None))),
        (K::SetOfV, true) => many!(parse_der_set_of_v(move |i: &'a [u8]| c.cb_u(i, None, None))),
        (K::SeqOf, false) => obj!(parse_ber_sequence_of(move |i: &'a [u8]| c.cb_obj(i))),
        (K::SeqOf, true) => obj!(parse_der_sequence_of(move |i: &'a [u8]| c.cb_obj(i))),
        (K::SetOf, false) => obj!(parse_ber_set_of(move |i: &'a [u8]| c.cb_obj(i))),
        (K::SetOf, true) => obj!(parse_der_set_of(move |i: &'a [u8]| c.cb_obj(i))),
        (K::SeqDef, false) => obj!(parse_ber_sequence_defined(move |i: &'a [u8]| c.cb_vec(i))),
        (K::SeqDef, true) => obj!(parse_der_sequence_defined(move |i: &'a [u8]| c.cb_vec(i))),
        (K::SetDef, false) => obj!(parse_ber_set_defined(move |i: &'a [u8]| c.cb_vec(i))),
        (K::SetDef, true) => obj!(parse_der_set_defined(move |i: &'a [u8]| c.cb_vec(i))),
        (K::SeqDefG, false) => one!(parse_ber_sequence_defined_g(move |i: &'a [u8], h: Header<'a>| c.cb_u(i, Some(hdr(&h)), None))),
        (K::SeqDefG, true) => one!(parse_der_sequence_defined_g(move |i: &'a [u8], h: Header<'a>| c.cb_u(i, Some(hdr(&h)), None))),
        (K::SetDefG, false) => one!(parse_ber_set_defined_g(move |i: &'a [u8], h: Header<'a>| c.cb_u(i, Some(hdr(&h)), None))),
        (K::SetDefG, true) => one!(parse_der_set_defined_g(move |i: &'a [u8], h: Header<'a>| c.cb_u(i, Some(hdr(&h)), None))),
        (K::Cont, false) => one!(parse_ber_container(move |i: &'a [u8], h: Header<'a>| c.cb_u(i, Some(hdr(&h)), None))),
        (K::Cont, true) => one!(parse_der_container(move |i: &'a [u8], h: Header<'a>| c.cb_u(i, Some(hdr(&h)), None))),
        (K::Slice(t), false) => Box::new(move |i: &'a [u8]| fin(i, parse_ber_slice(i, Tag(t)), |s| CVal::Slice(c.off(s), s.len()))),
        (K::Slice(t), true) => Box::new(move |i: &'a [u8]| fin(i, parse_der_slice(i, Tag(t)), |s| CVal::Slice(c.off(s), s.len()))),
        (K::ExplG(t), false) => one!(parse_ber_tagged_explicit_g(Tag(t), move |i: &'a [u8], h: Header<'a>| c.cb_u(i, Some(hdr(&h)), None))),
        (K::ExplG(t), true) => one!(parse_der_tagged_explicit_g(Tag(t), move |i: &'a [u8], h: Header<'a>| c.cb_u(i, Some(hdr(&h)), None))),
        (K::Expl(t), false) => obj!(parse_ber_tagged_explicit(Tag(t), move |i: &'a [u8]| c.cb_obj(i))),
        (K::Expl(t), true) => obj!(parse_der_tagged_explicit(Tag(t), move |i: &'a [u8]| c.cb_obj(i))),
        (K::ImplG(t), false) => {
            one!(parse_ber_tagged_implicit_g(Tag(t), move |i: &'a [u8], h: Header<'a>, d: usize| c.cb_u(i, Some(hdr(&h)), Some(d))))
        }
        (K::ImplG(t), true) => {
            one!(parse_der_tagged_implicit_g(Tag(t), move |i: &'a [u8], h: Header<'a>, d: usize| c.cb_u(i, Some(hdr(&h)), Some(d))))
        }
        (K::Impl(t), false) => obj!(parse_ber_tagged_implicit(Tag(t), move |i: &'a [u8], h: &Header, d: usize| c.cb_content(i, h, d))),
        (K::Impl(t), true) => obj!(parse_der_tagged_implicit(Tag(t), move |i: &'a [u8], h: &Header, d: usize| c.cb_content(i, h, d))),
        (K::Implicit(t), false) => obj!(move |i: &'a [u8]| parse_ber_implicit(i, Tag(t), |i: &'a [u8], h: &Header, d: usize| c
            .cb_content(i, h, d))),
        (K::Implicit(t), true) => obj!(move |i: &'a [u8]| parse_der_implicit(i, Tag(t), |i: &'a [u8], h: &Header, d: usize| c
            .cb_content(i, h, d))),
        (K::ExplOpt(t), false) => obj!(move |i: &'a [u8]| parse_ber_explicit_optional(i, Tag(t), hr(|i| c.cb_obj(i)))),
        (K::ExplOpt(t), true) => obj!(move |i: &'a [u8]| parse_der_explicit_optional(i, Tag(t), hr(|i| c.cb_obj(i)))),
        (K::Opt, _) => obj!(parse_ber_optional(move |i: &'a [u8]| c.cb_obj(i))),
        (K::OptExpl(t), false) => obj!(parse_ber_optional(parse_ber_tagged_explicit(Tag(t), move |i: &'a [u8]| c.cb_obj(i)))),
        (K::OptExpl(t), true) => obj!(parse_ber_optional(parse_der_tagged_explicit(Tag(t), move |i: &'a [u8]| c.cb_obj(i)))),
        (K::OptImpl(t), false) => {
            obj!(parse_ber_optional(parse_ber_tagged_implicit(Tag(t), move |i: &'a [u8], h: &Header, d: usize| c.cb_content(i, h, d))))
        }
        (K::OptImpl(t), true) => {
            obj!(parse_ber_optional(parse_der_tagged_implicit(Tag(t), move |i: &'a [u8], h: &Header, d: usize| c.cb_content(i, h, d))))
        }
    }
}

/// use the combinator once; injected panics are caught
pub fn invoke<'a>(f: &mut Comb<'a>, c: &Ctx, k: K, i: &'a [u8], script: &[Cb]) -> CRes {
    c.start(i, script, k.is_of());
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i))) {
        Ok(r) => r,
        Err(e) => {
            if e.downcast_ref::<Injected>().is_some() {
                CRes::Panicked
            } else {
                std::panic::resume_unwind(e)
            }
        }
    }
}

/// what has to happen
#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    Ok(CVal, usize),
    /// the scripted parser's error; with the kind (failure or not) unless it may change
    User(u32, Option<bool>),
    /// refused by the combinator itself with an error
    Refused,
    /// bytes are missing
    More,
    /// 'incomplete' of the scripted parser, passed on
    Inc(usize),
    /// some error (the caller's parser did not use up the content)
    Rejected,
    Panicked,
}

pub struct Expect {
    pub calls: Vec<Call>,
    pub res: Exp,
}

/// where the content of the element at the start of b lies, as the combinators delimit it
fn delimit(b: &[u8], der: bool) -> Result<(Hdr, usize, usize, usize), Exp> {
    let (h, n) = model::header(b, der).map_err(|e| match e {
        E::More(_) => Exp::More,
        _ => Exp::Refused,
    })?;
    match h.len {
        Len::Def(l) => {
            if ((b.len() - n) as u64) < l {
                return Err(Exp::Refused);
            }
            Ok((h, n, l as usize, n + l as usize))
        }
        Len::Indef => {
            if der {
                return Err(Exp::Refused);
            }
            match model::content(&b[n..], &h, model::MAX_REC) {
                Ok((c, t)) => Ok((h, n, c, n + t)),
                Err(E::More(_)) => Err(Exp::More),
                Err(_) => Err(Exp::Refused),
            }
        }
    }
}

/// reference behaviour
pub fn expect(k: K, der: bool, b: &[u8], script: &[Cb]) -> Expect {
    let mut e = expect_inner(k, der, b, script);
    if k.optional() {
        e.res = match e.res {
            Exp::Ok(CVal::Obj(n), u) => {
                let h = n.hdr.clone();
                Exp::Ok(CVal::Obj(Node { hdr: h, val: Val::Opt(Some(Box::new(n))) }), u)
            }
            Exp::Panicked => Exp::Panicked,
            _ => Exp::Ok(CVal::Obj(Node { hdr: Hdr { class: 0, cons: false, tag: 0, len: Len::Def(0) }, val: Val::Opt(None) }), 0),
        };
    }
    e
}

fn expect_inner(k: K, der: bool, b: &[u8], script: &[Cb]) -> Expect {
    let act = |i: usize| script.get(i).copied().unwrap_or(Cb::Elem);
    if k == K::Opt {
        let calls = vec![Call { off: 0, len: b.len(), hdr: None, depth: None }];
        let res = match decide(act(0), b) {
            Step::Use(n) => Exp::Ok(CVal::Obj(int_node(&b[..n])), n),
            Step::Panic => Exp::Panicked,
            _ => Exp::Rejected,
        };
        return Expect { calls, res };
    }
    let (h, off, clen, total) = match delimit(b, der) {
        Ok(x) => x,
        Err(res) => return Expect { calls: vec![], res },
    };
    let refuse = Expect { calls: vec![], res: Exp::Refused };
    if k.explicit() && (h.class == 0 || !h.cons) {
        return refuse;
    }
    if let Some(t) = k.tag() {
        if h.tag != t {
            return refuse;
        }
    }
    let content = &b[off..off + clen];
    let aoff = |p: usize, n: usize| if n == 0 { 0 } else { off + p };
    match k {
        K::Slice(_) => Expect { calls: vec![], res: Exp::Ok(CVal::Slice(aoff(0, clen), clen), total) },
        _ if k.is_of() => {
            let mut calls = Vec::new();
            let mut items: Vec<Item> = Vec::new();
            let mut p = 0;
            while p < clen {
                let i = calls.len();
                calls.push(Call { off: off + p, len: clen - p, hdr: None, depth: None });
                let res = match decide(act(i), &content[p..]) {
                    Step::Use(0) => Exp::Rejected,
                    Step::Use(n) => {
                        items.push((i as u32, off + p, n));
                        p += n;
                        continue;
                    }
                    Step::Err(c) | Step::Fail(c) => Exp::User(c, None),
                    Step::Inc(_) => Exp::Rejected,
                    Step::Panic => Exp::Panicked,
                };
                return Expect { calls, res };
            }
            let v = match k {
                K::SeqOfV | K::SetOfV => CVal::Many(items),
                _ => {
                    let l = items.iter().map(|(_, o, n)| int_node(&b[*o..*o + *n])).collect();
                    CVal::Obj(from_list(matches!(k, K::SeqOf), l))
                }
            };
            Expect { calls, res: Exp::Ok(v, total) }
        }
        _ => {
            let with_hdr = !matches!(k, K::SeqDef | K::SetDef | K::Expl(_) | K::ExplOpt(_) | K::OptExpl(_));
            let calls = vec![Call { off: aoff(0, clen), len: clen, hdr: if with_hdr { Some(h.clone()) } else { None }, depth: None }];
            let res = match decide(act(0), content) {
                Step::Use(n) => {
                    let s = &content[..n];
                    let v = match k {
                        K::SeqDef | K::SetDef => {
                            CVal::Obj(from_list(matches!(k, K::SeqDef), vec![int_node(s), int_node(&s[..s.len() / 2])]))
                        }
                        K::Expl(_) | K::ExplOpt(_) | K::OptExpl(_) => {
                            let val = Val::Tagged(h.class, h.tag, Box::new(int_node(s)));
                            CVal::Obj(Node { hdr: h.clone(), val })
                        }
                        K::Impl(_) | K::Implicit(_) | K::OptImpl(_) => CVal::Obj(Node { hdr: h.clone(), val: Val::Int(s.to_vec()) }),
                        _ => CVal::One((0, aoff(0, n), n)),
                    };
                    Exp::Ok(v, total)
                }
                Step::Err(c) => Exp::User(c, Some(false)),
                Step::Fail(c) => Exp::User(c, Some(true)),
                Step::Inc(n) => Exp::Inc(n),
                Step::Panic => Exp::Panicked,
            };
            Expect { calls, res }
        }
    }
}

fn from_list(seq: bool, l: Vec<Node>) -> Node {
    Node {
        hdr: Hdr { class: 0, cons: true, tag: if seq { 16 } else { 17 }, len: Len::Def(0) },
        val: if seq { Val::Seq(l) } else { Val::Set(l) },
    }
}

/// is the result what was expected? (the length in headers made by the combinators themselves, and
/// the header of an absent object, carry no information)
pub fn fits(exp: &Exp, got: &CRes) -> bool {
    match (exp, got) {
        (Exp::Ok(a, u), CRes::Ok(b, v)) => {
            u == v
                && match (a, b) {
                    (CVal::Obj(x), CVal::Obj(y)) => match (&x.val, &y.val) {
                        (Val::Opt(None), Val::Opt(q)) => q.is_none(),
                        (Val::Seq(p), Val::Seq(q)) | (Val::Set(p), Val::Set(q)) => {
                            p == q && x.hdr.class == y.hdr.class && x.hdr.cons == y.hdr.cons && x.hdr.tag == y.hdr.tag
                        }
                        _ => x == y,
                    },
                    _ => a == b,
                }
        }
        (Exp::User(c, k), CRes::Err(UErr::User(d))) => c == d && *k != Some(true),
        (Exp::User(c, k), CRes::Fail(UErr::User(d))) => c == d && *k != Some(false),
        (Exp::Refused | Exp::Rejected, CRes::Err(e) | CRes::Fail(e)) => !matches!(e, UErr::User(_)),
        (Exp::More, CRes::Inc(_)) => true,
        (Exp::Inc(n), CRes::Inc(m)) => n == m,
        (Exp::Panicked, CRes::Panicked) => true,
        _ => false,
    }
}

/// calls compared without the depth argument (its value is not specified, only that it allows a level)
pub fn same_calls(a: &[Call], b: &[Call]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| x.off == y.off && x.len == y.len && x.hdr == y.hdr && y.depth.map_or(true, |d| d > 0))
}

// ---------------------------------------------------------------------------------------------
// the combinators around the library's own readers

fn elems<'a>(i: &'a [u8], der: bool) -> BerResult<'a, Vec<BerObject<'a>>> {
    let mut v = Vec::new();
    let mut i = i;
    while !i.is_empty() {
        let (r, o) = if der { parse_der(i)? } else { parse_ber(i)? };
        if r.len() >= i.len() {
            break;
        }
        v.push(o);
        i = r;
    }
    Ok((i, v))
}

fn list(h: &Header, v: Vec<BerObject>) -> Node {
    Node { hdr: hdr(h), val: Val::Seq(v.iter().map(snap).collect()) }
}

fn content2<'a>(i: &'a [u8], h: Header<'a>, d: usize, der: bool, inner: u32) -> BerResult<'a, Node> {
    let h2 = hdr(&h);
    let (r, c) = if der { parse_der_content2(Tag(inner))(i, h, d)? } else { parse_ber_content2(Tag(inner))(i, h, d)? };
    Ok((r, Node { hdr: h2, val: snap_val(&c) }))
}

/// the combinator with the generic readers as the caller's parsers; `inner` is the universal tag
/// that implicitly tagged content is read as. `f` sees the object while it borrows the input.
pub fn real(k: K, der: bool, inner: u32, b: &[u8], f: &mut dyn FnMut(&BerObject)) -> CRes {
    let g: for<'x> fn(&'x [u8]) -> BerResult<'x> = if der { parse_der } else { parse_ber };
    macro_rules! obj {
        ($r:expr) => {
            fin(b, $r, |o| {
                f(&o);
                CVal::Obj(snap(&o))
            })
        };
    }
    macro_rules! nodes {
        ($r:expr) => {
            fin(b, $r, |n: Node| CVal::Obj(n))
        };
    }
    macro_rules! both {
        ($m:ident, $ber:expr, $der:expr) => {
            if der {
                $m!($der(b))
            } else {
                $m!($ber(b))
            }
        };
    }
    let lst = |i: &_, h: &Header, v: Vec<BerObject>| -> Node {
        let _: &&[u8] = i;
        list(h, v)
    };
    let cont = move |i, h: Header| -> BerResult<'_, Node> {
        let (r, v) = elems(i, der)?;
        Ok((r, lst(&i, &h, v)))
    };
    match k {
        K::SeqOfV | K::SetOfV => {
            let m = |v: Vec<BerObject>| CVal::Obj(from_list(k == K::SeqOfV, v.iter().map(snap).collect()));
            match (k, der) {
                (K::SeqOfV, false) => fin(b, parse_ber_sequence_of_v(parse_ber)(b), m),
                (K::SeqOfV, true) => fin(b, parse_der_sequence_of_v(parse_der)(b), m),
                (_, false) => fin(b, parse_ber_set_of_v(parse_ber)(b), m),
                (_, true) => fin(b, parse_der_set_of_v(parse_der)(b), m),
            }
        }
        K::SeqOf => both!(obj, parse_ber_sequence_of(parse_ber), parse_der_sequence_of(parse_der)),
        K::SetOf => both!(obj, parse_ber_set_of(parse_ber), parse_der_set_of(parse_der)),
        K::SeqDef => both!(obj, parse_ber_sequence_defined(|i| elems(i, false)), parse_der_sequence_defined(|i| elems(i, true))),
        K::SetDef => both!(obj, parse_ber_set_defined(|i| elems(i, false)), parse_der_set_defined(|i| elems(i, true))),
        K::SeqDefG => both!(nodes, parse_ber_sequence_defined_g(cont), parse_der_sequence_defined_g(cont)),
        K::SetDefG => both!(nodes, parse_ber_set_defined_g(cont), parse_der_set_defined_g(cont)),
        K::Cont => both!(nodes, parse_ber_container(cont), parse_der_container(cont)),
        K::Slice(t) => {
            let m = |s: &[u8]| CVal::Obj(int_node(s));
            if der {
                fin(b, parse_der_slice(b, Tag(t)), m)
            } else {
                fin(b, parse_ber_slice(b, Tag(t)), m)
            }
        }
        K::ExplG(t) => {
            let one = |i, h: Header| -> BerResult<'_, Node> {
                let (r, o) = g(i)?;
                Ok((r, Node { hdr: hdr(&h), val: Val::Tagged(class_no(h.class()), h.tag().0, Box::new(snap(&o))) }))
            };
            both!(nodes, parse_ber_tagged_explicit_g(Tag(t), one), parse_der_tagged_explicit_g(Tag(t), one))
        }
        K::Expl(t) => both!(obj, parse_ber_tagged_explicit(Tag(t), g), parse_der_tagged_explicit(Tag(t), g)),
        K::ImplG(t) => {
            let c = |i, h, d| content2(i, h, d, der, inner);
            both!(nodes, parse_ber_tagged_implicit_g(Tag(t), c), parse_der_tagged_implicit_g(Tag(t), c))
        }
        K::Impl(t) => {
            if der {
                obj!(parse_der_tagged_implicit(Tag(t), parse_der_content(Tag(inner)))(b))
            } else {
                obj!(parse_ber_tagged_implicit(Tag(t), parse_ber_content(Tag(inner)))(b))
            }
        }
        K::Implicit(t) => {
            if der {
                obj!(parse_der_implicit(b, Tag(t), parse_der_content(Tag(inner))))
            } else {
                obj!(parse_ber_implicit(b, Tag(t), parse_ber_content(Tag(inner))))
            }
        }
        K::ExplOpt(t) => {
            if der {
                obj!(parse_der_explicit_optional(b, Tag(t), parse_der))
            } else {
                obj!(parse_ber_explicit_optional(b, Tag(t), parse_ber))
            }
        }
        K::Opt => obj!(parse_ber_optional(g)(b)),
        K::OptExpl(t) => {
            if der {
                obj!(parse_ber_optional(parse_der_tagged_explicit(Tag(t), g))(b))
            } else {
                obj!(parse_ber_optional(parse_ber_tagged_explicit(Tag(t), g))(b))
            }
        }
        K::OptImpl(t) => {
            if der {
                obj!(parse_ber_optional(parse_der_tagged_implicit(Tag(t), parse_der_content(Tag(inner))))(b))
            } else {
                obj!(parse_ber_optional(parse_ber_tagged_implicit(Tag(t), parse_ber_content(Tag(inner))))(b))
            }
        }
    }
}

/// reference for `real`: Ok(object, bytes used), or Err when it must not be accepted.
/// None: not specified (implicit tagging of an indefinite-length element)
pub fn real_expect(k: K, der: bool, inner: u32, b: &[u8]) -> Option<Result<(Node, usize), ()>> {
    let r = real_inner(k, der, inner, b)?;
    if !k.optional() {
        return Some(r);
    }
    Some(Ok(match r {
        Ok((n, u)) => (Node { hdr: n.hdr.clone(), val: Val::Opt(Some(Box::new(n))) }, u),
        Err(()) => (Node { hdr: Hdr { class: 0, cons: false, tag: 0, len: Len::Def(0) }, val: Val::Opt(None) }, 0),
    }))
}

fn real_inner(k: K, der: bool, inner: u32, b: &[u8]) -> Option<Result<(Node, usize), ()>> {
    if k == K::Opt {
        return Some(model::element(b, model::MAX_REC, der).map_err(|_| ()));
    }
    let (h, off, clen, total) = match delimit(b, der) {
        Ok(x) => x,
        Err(_) => return Some(Err(())),
    };
    if k.explicit() && (h.class == 0 || !h.cons) {
        return Some(Err(()));
    }
    if k.tag().map_or(false, |t| t != h.tag) {
        return Some(Err(()));
    }
    let c = &b[off..off + clen];
    let all = || {
        let mut v = Vec::new();
        let mut p = 0;
        while p < c.len() {
            match model::element(&c[p..], model::MAX_REC, der) {
                Ok((n, u)) => {
                    v.push(n);
                    p += u;
                }
                Err(_) => return Err(()),
            }
        }
        Ok(v)
    };
    Some(match k {
        K::SeqOf | K::SeqOfV | K::SeqDef => all().map(|v| (from_list(true, v), total)),
        K::SetOf | K::SetOfV | K::SetDef => all().map(|v| (from_list(false, v), total)),
        K::SeqDefG | K::SetDefG | K::Cont => all().map(|v| (Node { hdr: h.clone(), val: Val::Seq(v) }, total)),
        K::Slice(_) => Ok((int_node(c), total)),
        K::ExplG(_) | K::Expl(_) | K::ExplOpt(_) | K::OptExpl(_) => match model::element(c, model::MAX_REC, der) {
            Ok((n, _)) => Ok((Node { hdr: h.clone(), val: Val::Tagged(h.class, h.tag, Box::new(n)) }, total)),
            Err(_) => Err(()),
        },
        _ => {
            if h.len == Len::Indef {
                return None;
            }
            match model::content_as(c, inner, &h, model::MAX_REC, der) {
                Ok((v, _)) => Ok((Node { hdr: h.clone(), val: v }, total)),
                Err(_) => Err(()),
            }
        }
    })
}

/// does the answer of `real` agree with `real_expect`? (see `fits` for what is not compared)
pub fn real_fits(exp: &Result<(Node, usize), ()>, got: &CRes) -> bool {
    match (exp, got) {
        (Ok((n, u)), g) => fits(&Exp::Ok(CVal::Obj(n.clone()), *u), g),
        (Err(()), CRes::Ok(..)) => false,
        (Err(()), _) => true,
    }
}
