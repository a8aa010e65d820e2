//! C07 to C11 and C13: matchers and the operations of one selection, against the model.
use super::{same, same_list};
use crate::gen::{self, *};
use crate::model::*;
use crate::real::*;
use crate::runner::*;
use layered_nlp::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct SelCase {
    pub scene: Scene,
    pub m: M,
    pub a: u16,
    pub b: u16,
}
pub fn sel_case(m: BoxedStrategy<M>) -> BoxedStrategy<SelCase> {
    // the edges of the line matter: pick them more often than chance would
    let idx = || prop_oneof![6 => any::<u16>(), 2 => Just(0u16), 2 => 0u16..4];
    let scenes = prop_oneof![6 => gen::scene(gen::measure()), 2 => dense_scene()];
    let usual = (scenes, m, idx(), idx()).prop_map(|(scene, m, a, b)| SelCase { scene, m, a, b });
    prop_oneof![60 => usual, 1 => needle()].boxed()
}
/// one token of its kind, far from both ends of a uniform line, and a matcher for it
fn needle() -> BoxedStrategy<SelCase> {
    let far = || if crate::guided::light() { (0usize..40).boxed() } else { prop_oneof![3 => 0usize..12, 3 => crate::dict::count(0, 700), 2 => (3u32..9).prop_map(|k| (1usize << k) - 1), 1 => (3u32..9).prop_map(|k| 1usize << k)].boxed() };
    let pick = |v: &'static [&'static str]| proptest::sample::select(v).prop_map(|s| s.to_string());
    let thing = prop_oneof![
        2 => Just(("a".to_string(), M::Eq(Val::Tag(TagK::WORD)))),
        2 => Just(("1".to_string(), M::Eq(Val::Tag(TagK::NATN)))),
        1 => Just((".".to_string(), M::Eq(Val::Ch('.')))),
        1 => Just((" ".to_string(), M::White)),
        1 => Just(("a".to_string(), M::HasAny(Ty::Tag, vec![TagK::NATN, TagK::WORD].into_iter().map(Val::Tag).collect()))),
        1 => Just(("a1".to_string(), M::Seq2(Box::new([M::Eq(Val::Tag(TagK::WORD)), M::White])))),
    ];
    (pick(&["$", ",", "-", "€"]), far(), thing, far(), prop_oneof![3 => Just(None), 1 => any::<(u16, u16)>().prop_map(Some)])
        .prop_map(|(fill, n, (needle, m), k, sel)| (fill, n, needle, m, k, sel.unwrap_or((0, (n + k) as u16))))
        .prop_map(|(fill, n, needle, m, k, (a, b))| SelCase {
            scene: Scene { items: vec![Item::Text { text: format!("{}{needle}{}", fill.repeat(n), fill.repeat(k)), attrs: vec![], built: 0 }], layers: vec![], measure: Measure::Utf8 },
            m,
            a,
            b,
        })
        .boxed()
}
/// few tokens, many overlapping spans of few values
pub fn dense_scene() -> BoxedStrategy<Scene> {
    let item = text_of(mild_piece(), 6).prop_map(|text| vec![Item::Text { text, attrs: vec![], built: 0 }]);
    let asg = proptest::collection::vec((0u16..9, 0u16..9, prop_oneof![Just(Val::A(0)), Just(Val::A(1))]), 1..10);
    let asgb = proptest::collection::vec((0u16..9, 0u16..9, Just(Val::B(0))), 0..8);
    (item, asg, asgb)
        .prop_map(|(items, asg, asgb)| Scene {
            items,
            measure: Measure::Utf8,
            layers: vec![Layer { ty: Ty::A, asg, finish_with: false }, Layer { ty: Ty::B, asg: asgb, finish_with: false }],
        })
        .boxed()
}
/// matchers that hit often on dense scenes
pub fn dense_matcher() -> BoxedStrategy<M> {
    let leaf = prop_oneof![
        3 => Just(M::Attr(Ty::A)),
        2 => Just(M::Attr(Ty::B)),
        2 => Just(M::Attr(Ty::Tag)),
        2 => Just(M::Text),
        1 => (0u8..2).prop_map(|k| M::Eq(Val::A(k))),
        1 => Just(M::HasAny(Ty::A, vec![Val::A(1), Val::A(0)])),
        1 => Just(M::White),
    ]
    .boxed();
    compounds(leaf)
}
fn compounds(leaf: BoxedStrategy<M>) -> BoxedStrategy<M> {
    leaf.prop_recursive(2, 9, 3, |i| {
        let j = || i.clone();
        prop_oneof![
            (j(), j()).prop_map(|(a, b)| M::Seq2(Box::new([a, b]))),
            (j(), j(), j()).prop_map(|(a, b, c)| M::Seq3(Box::new([a, b, c]))),
            (j(), j()).prop_map(|(a, b)| M::All2(Box::new([a, b]))),
            (j(), j(), j()).prop_map(|(a, b, c)| M::All3(Box::new([a, b, c]))),
            (j(), j()).prop_map(|(a, b)| M::Any2(Box::new([a, b]))),
            (j(), j(), j()).prop_map(|(a, b, c)| M::Any3(Box::new([a, b, c]))),
        ]
    })
    .boxed()
}
pub fn any_matcher() -> BoxedStrategy<M> {
    prop_oneof![gen::mixed_matcher(), dense_matcher()].boxed()
}

type Hits = Vec<(Span, Out)>;
/// Err(None): too big, skip
fn cap<T>(r: R<T>) -> Option<T> {
    r.ok()
}
fn on_sel(bed: &mut Bed, sp: Span, f: impl FnOnce(&LLSelection) -> Vec<(LLSelection, Oid)>) -> Result<Hits, String> {
    let (spans, outs) = bed.probe(|b, full| {
        let s = b.selector(&full).get(sp);
        let before = s.clone();
        let r = f(&s);
        assert!(s == before, "the selection itself changed");
        unzip(r)
    })?;
    Ok(spans.into_iter().zip(outs).collect())
}
fn sels_on(bed: &mut Bed, sp: Span, f: impl FnOnce(&LLSelection) -> Vec<LLSelection>) -> Result<Vec<Span>, String> {
    let (spans, ()) = bed.probe(|b, full| {
        let s = b.selector(&full).get(sp);
        (f(&s), ())
    })?;
    Ok(spans)
}
fn labels(ctx: &mut Ctx, m: &M) {
    ctx.label(match m {
        M::Attr(_) => "attr",
        M::Eq(_) => "attr_eq",
        M::HasAny(..) => "token_has_any",
        M::Text => "token_text",
        M::White => "whitespace",
        M::Seq2(_) => "seq of 2",
        M::Seq3(_) => "seq of 3",
        M::All2(_) => "all of 2",
        M::All3(_) => "all of 3",
        M::Any2(_) => "any_of 2",
        M::Any3(_) => "any_of 3",
    });
}

/// both directions at every position of the line
fn everywhere(c: &SelCase, ctx: &mut Ctx) -> Result<(), String> {
    let mut bed = Bed::from_scene(&c.scene)?;
    let n = bed.n();
    let whole = (0, n - 1);
    let Some(want) = cap(bed.m.find_two_way(whole, &c.m)) else { return Ok(()) };
    let got = on_sel(&mut bed, whole, |s| s.find_by_forwards_and_backwards(&Dyn(&c.m)))?;
    same_list(&format!("hits of {:?} at every position, forwards then backwards", c.m), &got, &want)?;
    // and as a continuation of a selection, at its two edges
    let sp = bed.span(c.a, c.b);
    let (Some(f), Some(b)) = (cap(bed.m.grow_f(sp, &c.m)), cap(bed.m.grow_b(sp, &c.m))) else { return Ok(()) };
    let got = on_sel(&mut bed, sp, |s| s.match_forwards(&Dyn(&c.m)))?;
    same_list(&format!("hits of {:?} following {sp:?}", c.m), &got, &f)?;
    let got = on_sel(&mut bed, sp, |s| s.match_backwards(&Dyn(&c.m)))?;
    same_list(&format!("hits of {:?} preceding {sp:?}", c.m), &got, &b)?;
    ctx.nontrivial_if(!want.is_empty());
    labels(ctx, &c.m);
    ctx.label_if(want.len() > 2 * n, "more hits than tokens and directions");
    ctx.label_if(want.iter().any(|h| h.0 .0 < h.0 .1), "hit of several tokens");
    Ok(())
}

/// The library's matchers put together directly, one object used for several searches.
macro_rules! native {
    ($bed:expr, $m:expr, $matcher:expr, $to:expr) => {{
        let (bed, m): (&mut Bed, M) = ($bed, $m);
        let matcher = $matcher;
        let whole = (0, bed.n() - 1);
        if let (Some(want), Some(two)) = (cap(bed.m.find_by_full(&m)), cap(bed.m.find_two_way(whole, &m))) {
            let at = |s: Span| (bed.m.pos[s.0].0, bed.m.pos[s.1].1);
            let want: Hits = want.into_iter().map(|(s, o)| (at(s), o)).collect();
            for round in ["first", "second"] {
                let got: Hits = bed.line().find(&matcher).iter().map(|f| (f.range(), ($to)(f.attr().clone()))).collect();
                same_list(&format!("LLLine::find({m:?}), {round} search with one matcher object"), &got, &want)?;
            }
            let (spans, outs) = bed.probe(|_, s| s.find_by_forwards_and_backwards(&matcher).into_iter().map(|(s, o)| (s, ($to)(o))).unzip())?;
            let got: Hits = spans.into_iter().zip::<Vec<Out>>(outs).collect();
            same_list(&format!("hits of {m:?} in both directions, third search with one matcher object"), &got, &two)?;
        }
    }};
}
fn v<T: Attrish>(x: &T) -> Out {
    Out::V(x.to_val())
}
fn t2(a: Out, b: Out) -> Out {
    Out::Tup(vec![a, b])
}
fn t3(a: Out, b: Out, c: Out) -> Out {
    Out::Tup(vec![a, b, c])
}
/// searching for the very value that lies on the line
fn own_values<T: Attrish>(bed: &Bed) -> Result<(), String> {
    let line = bed.line();
    for (_, _, vs) in line.query::<T>().into_iter().take(4) {
        for own in vs.into_iter().take(4) {
            let Some(want) = cap(bed.m.find_by_full(&M::Eq(own.to_val()))) else { continue };
            let want: Vec<Span> = want.into_iter().map(|(s, _)| (bed.m.pos[s.0].0, bed.m.pos[s.1].1)).collect();
            let got: Vec<Span> = line.find(&x::attr_eq(own)).iter().map(|f| f.range()).collect();
            same_list(&format!("LLLine::find(attr_eq) of the value {own:?} on the line itself"), &got, &want)?;
            let Some(want) = cap(bed.m.find_by_full(&M::HasAny(own.to_val().ty(), vec![own.to_val()]))) else { continue };
            let want: Hits = want.into_iter().map(|(s, o)| ((bed.m.pos[s.0].0, bed.m.pos[s.1].1), o)).collect();
            let got: Hits = line.find(&x::token_has_any(std::slice::from_ref(own))).iter().map(|f| (f.range(), v(*f.attr()))).collect();
            same_list(&format!("LLLine::find(token_has_any) of the value {own:?} on the line itself"), &got, &want)?;
        }
    }
    Ok(())
}
fn natives_basic(bed: &mut Bed, k: u16) -> Result<(), String> {
    own_values::<P>(bed)?;
    own_values::<A>(bed)?;
    match k % 7 {
        0 => native!(bed, M::Attr(Ty::A), x::attr::<A>(), v),
        1 => native!(bed, M::Attr(Ty::Tag), x::attr::<TextTag>(), v),
        2 => {
            let a = A(1);
            native!(bed, M::Eq(Val::A(1)), x::attr_eq(&a), |()| Out::Unit)
        }
        3 => {
            let set = [A(2), A(0), A(2)];
            native!(bed, M::HasAny(Ty::A, vec![Val::A(2), Val::A(0)]), x::token_has_any(&set), v)
        }
        4 => {
            let set = [TextTag::SPACE, TextTag::WORD, TextTag::PUNC];
            native!(bed, M::HasAny(Ty::Tag, vec![Val::Tag(TagK::SPACE), Val::Tag(TagK::WORD), Val::Tag(TagK::PUNC)]), x::token_has_any(&set), v)
        }
        5 => native!(bed, M::White, x::whitespace(), |()| Out::Unit),
        _ => native!(bed, M::Text, x::token_text(), |s: &str| Out::T(s.to_string())),
    }
    Ok(())
}
fn natives_combined(bed: &mut Bed, k: u16) -> Result<(), String> {
    let (a, b, tag, text) = (|| M::Attr(Ty::A), || M::Attr(Ty::B), || M::Attr(Ty::Tag), || M::Text);
    let (xa, xb, xtag, xtext) = (|| x::attr::<A>(), || x::attr::<B>(), || x::attr::<TextTag>(), || x::token_text());
    let s = |s: &str| Out::T(s.to_string());
    let alt = |k: u8, o: Out| Out::Alt(k, Box::new(o));
    match k % 9 {
        0 => native!(bed, M::Seq2(Box::new([a(), tag()])), x::seq((xa(), xtag())), |(p, q): (&A, &TextTag)| t2(v(p), v(q))),
        1 => native!(bed, M::Seq3(Box::new([tag(), a(), text()])), x::Seq3(xtag(), xa(), xtext()), |(p, q, r): (&TextTag, &A, &str)| t3(v(p), v(q), s(r))),
        2 => native!(bed, M::All2(Box::new([a(), b()])), x::all((xa(), xb())), |(p, q): (&A, &B)| t2(v(p), v(q))),
        3 => native!(bed, M::All3(Box::new([a(), text(), b()])), x::All3(xa(), xtext(), xb()), |(p, q, r): (&A, &str, &B)| t3(v(p), s(q), v(r))),
        4 => {
            let punc = TextTag::PUNC;
            native!(bed, M::Any2(Box::new([a(), M::Eq(Val::Tag(TagK::PUNC))])), x::any_of((xa(), x::attr_eq(&punc))), |o: x::AnyOf2<&A, ()>| match o {
                x::AnyOf2::A(p) => alt(0, v(p)),
                x::AnyOf2::B(()) => alt(1, Out::Unit),
            })
        }
        5 => native!(bed, M::Any3(Box::new([b(), M::White, text()])), x::any_of((xb(), x::whitespace(), xtext())), |o: x::AnyOf3<&B, (), &str>| match o {
            x::AnyOf3::A(p) => alt(0, v(p)),
            x::AnyOf3::B(()) => alt(1, Out::Unit),
            x::AnyOf3::C(t) => alt(2, s(t)),
        }),
        6 => native!(
            bed,
            M::Seq2(Box::new([M::All2(Box::new([tag(), text()])), M::Any2(Box::new([M::Seq2(Box::new([a(), b()])), a()]))])),
            x::seq((x::all((xtag(), xtext())), x::any_of((x::seq((xa(), xb())), xa())))),
            |((p, q), o): ((&TextTag, &str), x::AnyOf2<(&A, &B), &A>)| t2(
                t2(v(p), s(q)),
                match o {
                    x::AnyOf2::A((p, q)) => alt(0, t2(v(p), v(q))),
                    x::AnyOf2::B(p) => alt(1, v(p)),
                }
            )
        ),
        7 => native!(bed, M::All2(Box::new([M::Seq2(Box::new([text(), text()])), a()])), x::All2(x::Seq2(xtext(), xtext()), xa()), |((p, q), r): ((&str, &str), &A)| t2(t2(s(p), s(q)), v(r))),
        _ => native!(
            bed,
            M::Any2(Box::new([M::All2(Box::new([a(), b()])), M::Seq2(Box::new([tag(), a()]))])),
            x::any_of((x::all((xa(), xb())), x::seq((xtag(), xa())))),
            |o: x::AnyOf2<(&A, &B), (&TextTag, &A)>| match o {
                x::AnyOf2::A((p, q)) => alt(0, t2(v(p), v(q))),
                x::AnyOf2::B((p, q)) => alt(1, t2(v(p), v(q))),
            }
        ),
    }
    Ok(())
}

pub struct C07;
impl Prop for C07 {
    const ID: &'static str = "C07";
    const RULE: &'static str = "the basic matcher has at least one hit somewhere on the line";
    type Case = SelCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 1_200_000 } else { 40_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<SelCase> {
        sel_case(gen::leaf())
    }
    fn check(&self, c: &SelCase, ctx: &mut Ctx) -> Result<(), String> {
        if c.b % 4 == 1 {
            natives_basic(&mut Bed::from_scene(&c.scene)?, c.a)?;
        }
        everywhere(c, ctx)
    }
}

pub struct C08;
impl Prop for C08 {
    const ID: &'static str = "C08";
    const RULE: &'static str = "a combined matcher with at least one hit on the line";
    type Case = SelCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 800_000 } else { 30_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<SelCase> {
        // one combinator over leaves (on dense lines), or deep nestings
        let flat = compounds(prop_oneof![gen::leaf(), Just(M::Attr(Ty::A)), Just(M::Attr(Ty::Tag))].boxed());
        sel_case(prop_oneof![dense_matcher(), gen::matcher(), flat].boxed())
    }
    fn check(&self, c: &SelCase, ctx: &mut Ctx) -> Result<(), String> {
        if c.b % 4 == 1 {
            natives_combined(&mut Bed::from_scene(&c.scene)?, c.a)?;
        }
        everywhere(c, ctx)?;
        ctx.nontrivial &= is_compound(&c.m);
        Ok(())
    }
}

pub struct C09;
impl Prop for C09 {
    const ID: &'static str = "C09";
    const RULE: &'static str = "the search of the chosen selection has at least one match";
    type Case = SelCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 800_000 } else { 30_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<SelCase> {
        sel_case(any_matcher())
    }
    fn check(&self, c: &SelCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut bed = Bed::from_scene(&c.scene)?;
        let sp = bed.span(c.a, c.b);
        let m = &c.m;
        let (Some(want), Some(two)) = (cap(bed.m.find_by(sp, m)), cap(bed.m.find_two_way(sp, m))) else { return Ok(()) };
        let got = on_sel(&mut bed, sp, |s| s.find_by(&Dyn(m)))?;
        same_list(&format!("find_by({m:?}) on {sp:?}"), &got, &want)?;
        let got = on_sel(&mut bed, sp, |s| s.find_first_by(&Dyn(m)).into_iter().collect())?;
        same_list(&format!("find_first_by({m:?}) on {sp:?}"), &got, &want[..want.len().min(1)])?;
        let got = on_sel(&mut bed, sp, |s| s.find_by_forwards_and_backwards(&Dyn(m)))?;
        same_list(&format!("find_by_forwards_and_backwards({m:?}) on {sp:?}"), &got, &two)?;
        // the line itself
        if let Some(want) = cap(bed.m.find_by_full(m)) {
            let at = |s: Span| (bed.m.pos[s.0].0, bed.m.pos[s.1].1);
            let want: Hits = want.into_iter().map(|(s, o)| (at(s), o)).collect();
            let got: Hits = bed.line().find(&Dyn(m)).iter().map(|f| (f.range(), out(*f.attr()))).collect();
            same_list(&format!("LLLine::find({m:?})"), &got, &want)?;
            let rc = Rc::new(bed.line.take().unwrap());
            let Some(sel) = LLSelection::from_line(rc) else { return fail("no selection of a line with tokens") };
            let outs: Vec<Out> = sel.find_by(&Dyn(m)).into_iter().map(|x| out(x.1)).collect();
            let want: Vec<Out> = want.into_iter().map(|x| x.1).collect();
            same_list(&format!("find_by({m:?}) on LLSelection::from_line"), &outs, &want)?;
        }
        ctx.nontrivial_if(!want.is_empty());
        labels(ctx, m);
        ctx.label_if(want.iter().any(|h| h.0 .1 > sp.1), "match past the end of the selection");
        ctx.label_if(sp.0 > 0 || sp.1 + 1 < bed.m.len(), "proper part of the line");
        ctx.label_if(want.len() > 1, "several matches");
        Ok(())
    }
}

pub struct C10;
impl Prop for C10 {
    const ID: &'static str = "C10";
    const RULE: &'static str = "the selection grows in at least one direction";
    type Case = SelCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 1_200_000 } else { 40_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<SelCase> {
        sel_case(any_matcher())
    }
    fn check(&self, c: &SelCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut bed = Bed::from_scene(&c.scene)?;
        let sp = bed.span(c.a, c.b);
        let m = &c.m;
        let (Some(f), Some(b)) = (cap(bed.m.grow_f(sp, m)), cap(bed.m.grow_b(sp, m))) else { return Ok(()) };
        let got = on_sel(&mut bed, sp, |s| s.match_forwards(&Dyn(m)))?;
        same_list(&format!("match_forwards({m:?}) from {sp:?}"), &got, &f)?;
        let got = on_sel(&mut bed, sp, |s| s.match_first_forwards(&Dyn(m)).into_iter().collect())?;
        same_list(&format!("match_first_forwards({m:?}) from {sp:?}"), &got, &f[..f.len().min(1)])?;
        let got = on_sel(&mut bed, sp, |s| s.match_backwards(&Dyn(m)))?;
        same_list(&format!("match_backwards({m:?}) from {sp:?}"), &got, &b)?;
        let got = on_sel(&mut bed, sp, |s| s.match_first_backwards(&Dyn(m)).into_iter().collect())?;
        same_list(&format!("match_first_backwards({m:?}) from {sp:?}"), &got, &b[..b.len().min(1)])?;
        ctx.nontrivial_if(!f.is_empty() || !b.is_empty());
        labels(ctx, m);
        ctx.label_if(sp.0 == 0, "at the start of the line");
        ctx.label_if(sp.1 + 1 == bed.n(), "at the end of the line");
        ctx.label_if(f.len() > 1 || b.len() > 1, "several matches");
        Ok(())
    }
}

pub struct C11;
impl Prop for C11 {
    const ID: &'static str = "C11";
    const RULE: &'static str = "at least one match starts inside the selection, and at least one token of the selection stays uncovered";
    type Case = SelCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 1_000_000 } else { 30_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<SelCase> {
        sel_case(any_matcher())
    }
    fn check(&self, c: &SelCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut bed = Bed::from_scene(&c.scene)?;
        let m = &c.m;
        for sp in [bed.span(c.a, c.b), (0, bed.n() - 1)] {
            let (Some(want), Some(hits)) = (cap(bed.m.split_by(sp, m)), cap(bed.m.find_by(sp, m))) else { return Ok(()) };
            let got = sels_on(&mut bed, sp, |s| s.split_by(&Dyn(m)))?;
            same_list(&format!("split_by({m:?}) on {sp:?}"), &got, &want)?;
            ctx.nontrivial_if(!hits.is_empty() && !want.is_empty());
            ctx.label_if(hits.windows(2).any(|w| w[1].0 .0 <= w[0].0 .1), "overlapping matches");
            ctx.label_if(hits.iter().any(|h| h.0 .1 > sp.1), "match past the end");
            ctx.label_if(want.is_empty(), "nothing left");
            ctx.label_if(want.len() > 1, "several pieces");
        }
        Ok(())
    }
}

pub struct C13;
impl Prop for C13 {
    const ID: &'static str = "C13";
    const RULE: &'static str = "trimming removes something at one end at least";
    type Case = SelCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 1_000_000 } else { 40_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<SelCase> {
        sel_case(any_matcher())
    }
    fn check(&self, c: &SelCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut bed = Bed::from_scene(&c.scene)?;
        let sp = bed.span(c.a, c.b);
        let m = &c.m;
        for (what, start, end) in [("trim_start", true, false), ("trim_end", false, true), ("trim", true, true)] {
            let Some(want) = cap(bed.m.trim(sp, m, start, end)) else { return Ok(()) };
            let got = sels_on(&mut bed, sp, |s| {
                match (start, end) {
                    (true, false) => s.trim_start(&Dyn(m)),
                    (false, true) => s.trim_end(&Dyn(m)),
                    _ => s.trim(&Dyn(m)),
                }
                .into_iter()
                .collect()
            })?;
            same(&format!("{what}({m:?}) on {sp:?}"), &got, &want.into_iter().collect())?;
            ctx.nontrivial_if(want != Some(sp));
            ctx.label_if(want.is_none(), "nothing remains");
            ctx.label_if(start && end && want.is_some_and(|w| w.0 > sp.0 && w.1 < sp.1), "trimmed at both ends");
        }
        labels(ctx, m);
        Ok(())
    }
}
