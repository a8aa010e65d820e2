//! Adapters between the model's vocabulary and the library's public API.
use crate::model::*;
use layered_clauses::ClauseKeyword;
use layered_nlp::x::{self, ToIdx, XDirection, XMatch};
use layered_nlp::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

#[derive(Clone, Debug, PartialEq)]
pub struct A(pub u8);
#[derive(Clone, Debug, PartialEq)]
pub struct B(pub u8);
#[derive(Clone, Debug, PartialEq)]
pub struct Z;
/// An equality coarser than identity, and not reflexive: 3 (mod 4) is like a NaN.
#[derive(Clone, Debug)]
pub struct P(pub u8);
impl PartialEq for P {
    fn eq(&self, o: &P) -> bool {
        val_eq(&Val::P(self.0), &Val::P(o.0))
    }
}
/// locates a custom token
#[derive(Clone, Debug, PartialEq)]
pub struct Mark(pub usize);
/// observes where a selection is
#[derive(Clone, Debug, PartialEq)]
pub struct Obs(pub u32, pub u32);

pub trait Attrish: 'static + std::fmt::Debug + Clone + PartialEq + Send + Sync {
    fn to_val(&self) -> Val;
    fn from_val(v: &Val) -> Self;
}
impl Attrish for A {
    fn to_val(&self) -> Val {
        Val::A(self.0)
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::A(x) => A(*x),
            _ => unreachable!(),
        }
    }
}
impl Attrish for B {
    fn to_val(&self) -> Val {
        Val::B(self.0)
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::B(x) => B(*x),
            _ => unreachable!(),
        }
    }
}
impl Attrish for P {
    fn to_val(&self) -> Val {
        Val::P(self.0)
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::P(x) => P(*x),
            _ => unreachable!(),
        }
    }
}
impl Attrish for String {
    fn to_val(&self) -> Val {
        Val::S(self.clone())
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(x) => x.clone(),
            _ => unreachable!(),
        }
    }
}
impl Attrish for char {
    fn to_val(&self) -> Val {
        Val::Ch(*self)
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Ch(x) => *x,
            _ => unreachable!(),
        }
    }
}
pub fn tagk(t: &TextTag) -> TagK {
    match t {
        TextTag::NATN => TagK::NATN,
        TextTag::PUNC => TagK::PUNC,
        TextTag::SYMB => TagK::SYMB,
        TextTag::SPACE => TagK::SPACE,
        TextTag::WORD => TagK::WORD,
    }
}
impl Attrish for TextTag {
    fn to_val(&self) -> Val {
        Val::Tag(tagk(self))
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Tag(TagK::NATN) => TextTag::NATN,
            Val::Tag(TagK::PUNC) => TextTag::PUNC,
            Val::Tag(TagK::SYMB) => TextTag::SYMB,
            Val::Tag(TagK::SPACE) => TextTag::SPACE,
            Val::Tag(TagK::WORD) => TextTag::WORD,
            _ => unreachable!(),
        }
    }
}
impl Attrish for ClauseKeyword {
    fn to_val(&self) -> Val {
        Val::Kw(match self {
            ClauseKeyword::ConditionStart => KwK::ConditionStart,
            ClauseKeyword::Then => KwK::Then,
            ClauseKeyword::And => KwK::And,
        })
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Kw(KwK::ConditionStart) => ClauseKeyword::ConditionStart,
            Val::Kw(KwK::Then) => ClauseKeyword::Then,
            Val::Kw(KwK::And) => ClauseKeyword::And,
            _ => unreachable!(),
        }
    }
}
impl Attrish for Z {
    fn to_val(&self) -> Val {
        Val::Z
    }
    fn from_val(_: &Val) -> Self {
        Z
    }
}

/// Runs `$body` with `$T` bound to the Rust type of a model type.
#[macro_export]
macro_rules! with_ty {
    ($ty:expr, $T:ident => $body:expr) => {
        match $ty {
            $crate::model::Ty::A => {
                type $T = $crate::real::A;
                $body
            }
            $crate::model::Ty::B => {
                type $T = $crate::real::B;
                $body
            }
            $crate::model::Ty::S => {
                type $T = String;
                $body
            }
            $crate::model::Ty::Ch => {
                type $T = char;
                $body
            }
            $crate::model::Ty::Tag => {
                type $T = layered_nlp::TextTag;
                $body
            }
            $crate::model::Ty::Kw => {
                type $T = layered_clauses::ClauseKeyword;
                $body
            }
            $crate::model::Ty::Z => {
                type $T = $crate::real::Z;
                $body
            }
            $crate::model::Ty::P => {
                type $T = $crate::real::P;
                $body
            }
        }
    };
}

pub fn any_attr(v: &Val) -> AnyAttribute {
    with_ty!(v.ty(), T => AnyAttribute::new(T::from_val(v)))
}
pub fn debug_text(v: &Val) -> String {
    with_ty!(v.ty(), T => format!("{:?}", T::from_val(v)))
}

// ---------------------------------------------------------------- inputs

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Item {
    /// `built` attributes are given at construction, the rest through add_attr
    Text { text: String, attrs: Vec<Val>, built: u8 },
    Custom { size: u64, attrs: Vec<Val>, built: u8, bare: bool },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Measure {
    One,
    Utf8,
    Utf16,
    Chars,
    Zero,
    Weird,
}
impl Measure {
    pub fn size(self, s: &str) -> usize {
        match self {
            Measure::One => 1,
            Measure::Utf8 => s.len(),
            Measure::Utf16 => s.encode_utf16().count(),
            Measure::Chars => s.chars().count(),
            Measure::Zero => 0,
            // deliberately not additive over concatenation
            Measure::Weird => s.bytes().fold(7usize, |a, b| (a * 31 + b as usize) % 1009),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Layer {
    pub ty: Ty,
    /// (a, b) are reduced modulo the number of tokens and put in order
    pub asg: Vec<(u16, u16, Val)>,
    /// hand the values over through FinishWith rather than finish_with_attr
    pub finish_with: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Scene {
    pub items: Vec<Item>,
    pub measure: Measure,
    pub layers: Vec<Layer>,
}

pub fn input_tokens(items: &[Item]) -> Vec<InputToken> {
    items
        .iter()
        .enumerate()
        .map(|(k, it)| {
            let (mut tok, attrs, built) = match it {
                Item::Text { text, attrs, built } => {
                    let b = (*built as usize).min(attrs.len());
                    (InputToken::text(text.clone(), attrs[..b].iter().map(any_attr).collect()), attrs, b)
                }
                Item::Custom { size, attrs, built, bare } => {
                    let b = (*built as usize).min(attrs.len());
                    let mut v: Vec<AnyAttribute> = attrs[..b].iter().map(any_attr).collect();
                    if !*bare {
                        v.push(AnyAttribute::new(Mark(k)));
                    }
                    (InputToken::custom(*size as usize, v), attrs, b)
                }
            };
            for v in &attrs[built..] {
                with_ty!(v.ty(), T => tok.add_attr(T::from_val(v)));
            }
            tok
        })
        .collect()
}

pub fn toks_of(line: &LLLine) -> Vec<Tok> {
    line.ll_tokens()
        .iter()
        .map(|t| match t.get_token() {
            LToken::Text(s, t) => Tok::Text(s.clone(), tagk(t)),
            LToken::Value => Tok::Value,
        })
        .collect()
}

/// A real line together with its model and the means to locate its tokens.
pub struct Bed {
    pub line: Option<LLLine>,
    pub m: MLine,
    /// token index -> input item index
    pub item_of: Vec<usize>,
    pub locatable: Vec<bool>,
    epoch: u32,
}

pub fn fail<T>(m: impl Into<String>) -> Result<T, String> {
    Err(m.into())
}

impl Bed {
    /// Builds line and model. The model takes its tokens from the real line (C01 and C02 judge
    /// tokenisation itself), and everything else from the inputs.
    pub fn build(items: &[Item], measure: Measure) -> Result<Bed, String> {
        let line = create_line_from_input_tokens(input_tokens(items), |s| measure.size(s));
        let toks = toks_of(&line);
        let (mut asg, mut pos, mut item_of, mut locatable) = (vec![], vec![], vec![], vec![]);
        let mut p = 0;
        for (i, t) in toks.iter().enumerate() {
            if let Tok::Text(s, tag) = t {
                if s.chars().count() == 1 {
                    asg.push((i, i, Val::Ch(s.chars().next().unwrap())));
                }
                asg.push((i, i, Val::Tag(*tag)));
            }
            // item_of filled below
            let _ = i;
            pos.push((0, 0));
        }
        let mut i = 0;
        for (k, it) in items.iter().enumerate() {
            let start = i;
            let attrs = match it {
                Item::Text { text, attrs, .. } => {
                    let mut rest = text.as_str();
                    while !rest.is_empty() {
                        match toks.get(i) {
                            Some(Tok::Text(s, _)) if !s.is_empty() && rest.starts_with(s.as_str()) => {
                                rest = &rest[s.len()..];
                                let e = p + measure.size(s);
                                pos[i] = (p, e);
                                p = e;
                                item_of.push(k);
                                locatable.push(true);
                                i += 1;
                            }
                            other => return fail(format!("tokens do not spell out input item {k}: at token {i} found {other:?}, remaining text {rest:?}")),
                        }
                    }
                    attrs
                }
                Item::Custom { size, attrs, bare, .. } => {
                    if toks.get(i) != Some(&Tok::Value) {
                        return fail(format!("custom item {k}: expected a value token at {i}, found {:?}", toks.get(i)));
                    }
                    pos[i] = (p, p + *size as usize);
                    p += *size as usize;
                    item_of.push(k);
                    locatable.push(!*bare);
                    i += 1;
                    attrs
                }
            };
            for a in attrs {
                asg.push((start, i - 1, a.clone()));
            }
        }
        if i != toks.len() {
            return fail(format!("{} tokens for inputs that account for {i}", toks.len()));
        }
        Ok(Bed { line: Some(line), m: MLine::new(toks, asg, pos), item_of, locatable, epoch: 0 })
    }
    pub fn line(&self) -> &LLLine {
        self.line.as_ref().unwrap()
    }
    pub fn n(&self) -> usize {
        self.m.len()
    }
    fn bound_ok(&self, i: usize) -> bool {
        // is there a way to cut between token i-1 and i?
        i == 0 || i >= self.n() || self.locatable[i - 1] || self.locatable[i]
    }
    /// Reduces raw numbers to a span that can be selected through the public API.
    pub fn span(&self, a: u16, b: u16) -> Span {
        let n = self.n();
        let (x, y) = (a as usize % n, b as usize % n);
        let (mut s, mut e) = (x.min(y), x.max(y));
        while !self.bound_ok(s) {
            s -= 1;
        }
        while !self.bound_ok(e + 1) {
            e += 1;
        }
        (s, e)
    }
    /// the span itself, where it can be selected through the public API
    pub fn span_exact(&self, (s, e): Span) -> Option<Span> {
        (self.bound_ok(s) && self.bound_ok(e + 1)).then_some((s, e))
    }
    /// single-token selections of every locatable token
    fn tok_sels(&self, full: &LLSelection) -> Vec<Option<LLSelection>> {
        let mut out: Vec<Option<LLSelection>> = vec![None; self.n()];
        let texts = full.find_by(&x::token_text());
        let idx: Vec<usize> = (0..self.n()).filter(|i| matches!(self.m.toks[*i], Tok::Text(..))).collect();
        assert_eq!(texts.len(), idx.len(), "searching for text tokens must find each text token once");
        for (i, (s, _)) in idx.into_iter().zip(texts) {
            out[i] = Some(s);
        }
        for i in 0..self.n() {
            if self.m.toks[i] == Tok::Value && self.locatable[i] {
                let mut f = full.find_by(&x::attr_eq(&Mark(self.item_of[i])));
                assert_eq!(f.len(), 1, "searching for a unique attribute must find it once");
                out[i] = Some(f.pop().unwrap().0);
            }
        }
        out
    }
    pub fn selector<'a>(&'a self, full: &LLSelection) -> Selector<'a> {
        Selector { bed: self, toks: self.tok_sels(full), full: full.clone() }
    }
    /// Runs `f` on the whole-line selection inside a recogniser, and reports the spans of the
    /// selections it returns by finishing each with a value and querying the line afterwards.
    pub fn probe<X>(&mut self, f: impl FnOnce(&Bed, LLSelection) -> (Vec<LLSelection>, X)) -> Result<(Vec<Span>, X), String> {
        self.epoch += 1;
        let epoch = self.epoch;
        let line = self.line.take().unwrap();
        let res = RefCell::new(None);
        let f = RefCell::new(Some(f));
        let this = &*self;
        let line = line.run(&ProbeR(|sel| {
            let (sels, x) = (f.borrow_mut().take().expect("recogniser consulted more than once"))(this, sel);
            let a: Vec<_> = sels.iter().enumerate().map(|(k, s)| s.finish_with_attr(Obs(epoch, k as u32))).collect();
            *res.borrow_mut() = Some((sels.len(), x));
            a
        }));
        self.line = Some(line);
        let Some((cnt, x)) = res.into_inner() else { return fail("recogniser was not consulted") };
        let mut spans = vec![None; cnt];
        for (range, _, vals) in self.line().query::<Obs>() {
            for v in vals {
                if v.0 == epoch {
                    if spans[v.1 as usize].replace(range).is_some() {
                        return fail(format!("value finished once from a selection was assigned twice ({range:?})"));
                    }
                }
            }
        }
        let mut out = vec![];
        for (k, s) in spans.into_iter().enumerate() {
            match s {
                Some(s) => out.push(s),
                None => return fail(format!("value finished from returned selection {k} is not on the line")),
            }
        }
        Ok((out, x))
    }
    /// Runs one layer on the real line and on the model.
    pub fn run_layer(&mut self, l: &Layer) -> Result<(), String> {
        if self.n() == 0 {
            return Ok(());
        }
        let spans: Vec<(Span, Val)> = l.asg.iter().map(|(a, b, v)| (self.span(*a, *b), v.clone())).collect();
        let line = self.line.take().unwrap();
        let this = &*self;
        let line = with_ty!(l.ty, T => line.run(&FnR::<T, _>(|sel: LLSelection| {
            let pick = this.selector(&sel);
            let picked = spans.iter().map(|(s, v)| (pick.get(*s), T::from_val(v)));
            if l.finish_with {
                picked.finish_with(|v| v)
            } else {
                picked.map(|(s, v)| s.finish_with_attr(v)).collect()
            }
        }, std::marker::PhantomData)));
        self.line = Some(line);
        for ((s, e), v) in spans {
            self.m.asg.push((s, e, v));
        }
        Ok(())
    }
    pub fn from_scene(sc: &Scene) -> Result<Bed, String> {
        let mut b = Bed::build(&sc.items, sc.measure)?;
        for l in &sc.layers {
            b.run_layer(l)?;
        }
        Ok(b)
    }
    /// query of one type, in model terms
    pub fn query(&self, ty: Ty) -> Vec<(Span, String, Vec<Val>)> {
        real_query(self.line(), ty)
    }
}

pub fn real_query(line: &LLLine, ty: Ty) -> Vec<(Span, String, Vec<Val>)> {
    with_ty!(ty, T => line
        .query::<T>()
        .into_iter()
        .map(|(r, t, vs)| (r, t, vs.into_iter().map(|v: &T| v.to_val()).collect()))
        .collect())
}

pub struct Selector<'a> {
    bed: &'a Bed,
    toks: Vec<Option<LLSelection>>,
    full: LLSelection,
}
impl Selector<'_> {
    /// the selection of a span (which must come from Bed::span)
    pub fn get(&self, (i, j): Span) -> LLSelection {
        let n = self.bed.n();
        let mut cur = self.full.clone();
        let what = "cutting the line next to a token must leave the tokens on the other side";
        if i > 0 {
            let left = match (&self.toks[i - 1], &self.toks[i]) {
                (Some(t), _) => t.clone(),
                (None, Some(t)) => self.full.split_with(t)[0].clone().expect(what),
                _ => unreachable!(),
            };
            cur = cur.split_with(&left)[1].clone().expect(what);
        }
        if j + 1 < n {
            let right = match (&self.toks[j + 1], &self.toks[j]) {
                (Some(t), _) => t.clone(),
                (None, Some(t)) => self.full.split_with(t)[1].clone().expect(what),
                _ => unreachable!(),
            };
            cur = cur.split_with(&right)[0].clone().expect(what);
        }
        cur
    }
}

pub struct ProbeR<F>(pub F);
impl<F: Fn(LLSelection) -> Vec<LLCursorAssignment<Obs>>> Resolver for ProbeR<F> {
    type Attr = Obs;
    fn go(&self, s: LLSelection) -> Vec<LLCursorAssignment<Obs>> {
        (self.0)(s)
    }
}
pub struct FnR<T, F>(pub F, pub std::marker::PhantomData<T>);
impl<T: Attrish, F: Fn(LLSelection) -> Vec<LLCursorAssignment<T>>> Resolver for FnR<T, F> {
    type Attr = T;
    fn go(&self, s: LLSelection) -> Vec<LLCursorAssignment<T>> {
        (self.0)(s)
    }
}

// ---------------------------------------------------------------- matchers

thread_local! { static OUTS: RefCell<Vec<Out>> = const { RefCell::new(Vec::new()) }; }
/// A handle to an Out (matcher outputs have to be Copy).
#[derive(Clone, Copy)]
pub struct Oid(u32);
fn put(o: Out) -> Oid {
    OUTS.with(|v| {
        let mut v = v.borrow_mut();
        v.push(o);
        Oid(v.len() as u32 - 1)
    })
}
pub fn out(o: Oid) -> Out {
    OUTS.with(|v| v.borrow()[o.0 as usize].clone())
}
pub fn reset_outs() {
    OUTS.with(|v| v.borrow_mut().clear())
}

/// A matcher expression evaluated by the library's own matchers.
pub struct Dyn<'x>(pub &'x M);
impl<'l> XMatch<'l> for Dyn<'_> {
    type Out = Oid;
    fn go<D: XDirection<'l>>(&self, d: &D, line: &'l LLLine) -> Vec<(Oid, ToIdx)> {
        fn tup(os: &[Oid]) -> Oid {
            put(Out::Tup(os.iter().map(|o| out(*o)).collect()))
        }
        fn alt(k: u8, o: Oid) -> Oid {
            put(Out::Alt(k, Box::new(out(o))))
        }
        match self.0 {
            M::Attr(ty) => {
                with_ty!(*ty, T => x::attr::<T>().go(d, line).into_iter().map(|(v, t)| (put(Out::V(v.to_val())), t)).collect())
            }
            M::Eq(v) => with_ty!(v.ty(), T => {
                let want = T::from_val(v);
                let r = x::attr_eq(&want).go(d, line).into_iter().map(|((), t)| (put(Out::Unit), t)).collect();
                r
            }),
            M::HasAny(ty, set) => with_ty!(*ty, T => {
                let set: Vec<T> = set.iter().map(T::from_val).collect();
                let r = x::token_has_any(&set).go(d, line).into_iter().map(|(v, t)| (put(Out::V(v.to_val())), t)).collect();
                r
            }),
            M::Text => x::token_text().go(d, line).into_iter().map(|(s, t)| (put(Out::T(s.to_string())), t)).collect(),
            M::White => x::whitespace().go(d, line).into_iter().map(|((), t)| (put(Out::Unit), t)).collect(),
            M::Seq2(p) => x::seq((Dyn(&p[0]), Dyn(&p[1]))).go(d, line).into_iter().map(|((a, b), t)| (tup(&[a, b]), t)).collect(),
            M::Seq3(p) => {
                x::seq((Dyn(&p[0]), Dyn(&p[1]), Dyn(&p[2]))).go(d, line).into_iter().map(|((a, b, c), t)| (tup(&[a, b, c]), t)).collect()
            }
            M::All2(p) => x::all((Dyn(&p[0]), Dyn(&p[1]))).go(d, line).into_iter().map(|((a, b), t)| (tup(&[a, b]), t)).collect(),
            M::All3(p) => {
                x::all((Dyn(&p[0]), Dyn(&p[1]), Dyn(&p[2]))).go(d, line).into_iter().map(|((a, b, c), t)| (tup(&[a, b, c]), t)).collect()
            }
            M::Any2(p) => x::any_of((Dyn(&p[0]), Dyn(&p[1])))
                .go(d, line)
                .into_iter()
                .map(|(o, t)| {
                    (
                        match o {
                            x::AnyOf2::A(o) => alt(0, o),
                            x::AnyOf2::B(o) => alt(1, o),
                        },
                        t,
                    )
                })
                .collect(),
            M::Any3(p) => x::any_of((Dyn(&p[0]), Dyn(&p[1]), Dyn(&p[2])))
                .go(d, line)
                .into_iter()
                .map(|(o, t)| {
                    (
                        match o {
                            x::AnyOf3::A(o) => alt(0, o),
                            x::AnyOf3::B(o) => alt(1, o),
                            x::AnyOf3::C(o) => alt(2, o),
                        },
                        t,
                    )
                })
                .collect(),
        }
    }
}

/// splits library results into selections (for probing) and outputs
pub fn unzip(v: Vec<(LLSelection, Oid)>) -> (Vec<LLSelection>, Vec<Out>) {
    v.into_iter().map(|(s, o)| (s, out(o))).unzip()
}
