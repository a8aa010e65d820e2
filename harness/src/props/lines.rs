//! C04 C05 C06 C15 C24: what a line holds and how it shows it.
use super::tokens::{nth_scalar, text_item, N_SCALARS};
use super::{same, same_list};
use crate::gen::{self, *};
use crate::model::*;
use crate::real::*;
use crate::runner::*;
use crate::with_ty;
use layered_nlp::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use unicode_width::UnicodeWidthStr;

type Q = Vec<(Span, String, Vec<Val>)>;
pub fn all_queries(line: &LLLine) -> Vec<(Ty, Q)> {
    ALL_TY.iter().map(|t| (*t, real_query(line, *t))).collect()
}
pub fn model_queries(m: &MLine) -> Vec<(Ty, Q)> {
    ALL_TY.iter().map(|t| (*t, m.query(*t))).collect()
}
fn tok_debug(line: &LLLine) -> Vec<String> {
    line.ll_tokens().iter().map(|t| format!("{t:?}")).collect()
}
pub fn compare_queries(what: &str, bed: &Bed) -> Result<(), String> {
    for (ty, want) in model_queries(&bed.m) {
        same_list(&format!("{what}: query of {ty:?}"), &bed.query(ty), &want)?;
    }
    Ok(())
}
/// which values of a type sit where, by the forward search over the whole line
fn find_spans<'l>(line: &'l LLLine, ty: Ty) -> Vec<(Span, Val)> {
    with_ty!(ty, T => line.find(&x::attr::<T>()).iter().map(|f| (f.range(), f.attr().to_val())).collect())
}
fn many_attrs() -> BoxedStrategy<Vec<Val>> {
    prop_oneof![
        4 => gen::attrs(),
        1 => vec(gen::val(), 4..12),
        1 => (gen::val(), 1usize..40).prop_map(|(v, n)| vec![v; n]),
        1 => vec(gen::val(), 60..300),
    ]
    .boxed()
}

pub struct C04;
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct FreshCase {
    items: Vec<Item>,
}
impl Prop for C04 {
    const ID: &'static str = "C04";
    const RULE: &'static str = "some item comes with at least one attribute, and the line has at least two tokens";
    type Case = FreshCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 120_000 } else { 7_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<FreshCase> {
        let it = prop_oneof![
            3 => (any_text(6), many_attrs(), any::<u8>()).prop_map(|(text, attrs, b)| Item::Text { text, built: b % (attrs.len() as u8 % 200 + 1), attrs }),
            3 => (gen::any_piece(), many_attrs(), any::<u8>()).prop_map(|(text, attrs, b)| Item::Text { text, built: b % (attrs.len() as u8 % 200 + 1), attrs }),
            2 => (0u64..40, many_attrs(), 0u8..4, any::<bool>()).prop_map(|(size, attrs, built, bare)| Item::Custom { size, attrs, built, bare }),
        ];
        let small = prop_oneof![
            3 => (gen::mild_piece(), gen::attrs()).prop_map(|(text, attrs)| Item::Text { text, attrs, built: 2 }),
            1 => (0u64..40, gen::attrs(), any::<bool>()).prop_map(|(size, attrs, bare)| Item::Custom { size, attrs, built: 1, bare }),
        ];
        prop_oneof![240 => vec(it.clone(), 0..5), 40 => vec(it.clone(), 5..30), 1 => vec(small, 200..600), 40 => text_of(mild_piece(), 400).prop_map(|text| vec![Item::Text { text, attrs: vec![Val::A(1)], built: 0 }])]
            .prop_map(|items| FreshCase { items })
            .boxed()
    }
    fn enum_len(&self, _: Tier) -> u64 {
        N_SCALARS
    }
    fn enum_case(&self, i: u64) -> FreshCase {
        FreshCase { items: vec![Item::Text { text: format!("{0} 1{0}", nth_scalar(i)), attrs: vec![Val::A(1)], built: 1 }] }
    }
    fn check(&self, c: &FreshCase, ctx: &mut Ctx) -> Result<(), String> {
        let bed = Bed::build(&c.items, Measure::One)?;
        compare_queries("fresh line", &bed)?;
        // seen by the searches as well (they go through other indexes)
        let line = bed.line();
        let unit = bed.m.pos.iter().all(|p| p.1 == p.0 + 1);
        for ty in ALL_TY {
            let got = find_spans(line, ty);
            let want = bed.m.find_by_full(&M::Attr(ty)).map_err(|_| "too big").unwrap_or_default();
            if !want.is_empty() || !got.is_empty() {
                let vals = |v: Vec<(Span, Out)>| v.into_iter().map(|(s, o)| ((bed.m.pos[s.0].0, bed.m.pos[s.1].1), match o { Out::V(v) => v, _ => unreachable!() })).collect::<Vec<_>>();
                same_list(&format!("fresh line: search for {ty:?}"), &got, &vals(want))?;
            }
        }
        let marks: Vec<Span> = line.query::<Mark>().into_iter().map(|(r, _, _)| r).collect();
        let want_marks: Vec<Span> = (0..bed.n()).filter(|i| bed.m.toks[*i] == Tok::Value && bed.locatable[*i]).map(|i| (i, i)).collect();
        same_list("marks of custom items", &marks, &want_marks)?;
        // types that were never given
        same("values of a type never supplied", &line.query::<Obs>().len(), &0)?;
        same("values of a type never supplied", &line.query::<u8>().len(), &0)?;
        let n_attr: usize = c.items.iter().map(|i| match i { Item::Text { attrs, .. } | Item::Custom { attrs, .. } => attrs.len() }).sum();
        ctx.nontrivial_if(n_attr > 0 && bed.n() > 1);
        ctx.label_if(unit, "positions are indexes");
        ctx.label_if(n_attr > 20, "over 20 attributes");
        ctx.label_if(bed.m.toks.iter().any(|t| matches!(t, Tok::Text(s, _) if s.chars().count() == 1 && s.len() > 1)), "one-character non-ascii token");
        ctx.label_if(c.items.iter().any(|i| matches!(i, Item::Custom { attrs, .. } if !attrs.is_empty())), "custom item with attributes");
        Ok(())
    }
}

// ------------------------------------------------------------ C05
pub struct C05;
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct RunCase {
    scene: Scene,
    /// matcher used from within to look at earlier layers
    m: M,
}
/// many values in one layer or on one span
pub fn heavy_layer() -> BoxedStrategy<Layer> {
    prop_oneof![
        gen::ty().prop_flat_map(|ty| (vec(val_of(ty), 1..80), any::<u16>(), any::<u16>()).prop_map(move |(vs, a, b)| Layer { ty, asg: vs.into_iter().map(|v| (a, b, v)).collect(), finish_with: false })),
        gen::ty().prop_flat_map(|ty| vec((0u16..3, 0u16..3, val_of(ty)), 1..30).prop_map(move |asg| Layer { ty, asg, finish_with: true })),
        gen::layer(60),
        gen::ty().prop_flat_map(|ty| (vec(val_of(ty), 240..300), any::<u16>(), any::<u16>()).prop_map(move |(vs, a, b)| Layer { ty, asg: vs.into_iter().map(|v| (a, b, v)).collect(), finish_with: true })),
    ]
    .boxed()
}
pub fn histories(tall_weight: u32) -> BoxedStrategy<Scene> {
    let busy = (gen::items(text_of(mild_piece(), 5), 3), vec(prop_oneof![gen::layer(4), heavy_layer()], 1..14)).prop_map(|(items, layers)| Scene { items, layers, measure: Measure::One });
    let empty = vec(gen::layer(3), 0..3).prop_map(|layers| Scene { items: vec![], layers, measure: Measure::One });
    // a great many little layers on a tiny line
    let n = if crate::guided::light() { crate::dict::count(20, 60) } else { prop_oneof![2 => 250usize..300, 1 => crate::dict::count(60, 600)].boxed() };
    let tall = (gen::items(mild_piece(), 2), n.prop_flat_map(|n| vec(gen::layer(1), n))).prop_map(|(items, layers)| Scene { items, layers, measure: Measure::One });
    prop_oneof![1600 => gen::unit_scene(), 800 => busy, 200 => empty, tall_weight => tall].prop_map(unit).boxed()
}
pub fn unit(mut s: Scene) -> Scene {
    for it in &mut s.items {
        if let Item::Custom { size, .. } = it {
            *size = 1;
        }
    }
    s
}
impl Prop for C05 {
    const ID: &'static str = "C05";
    const RULE: &'static str = "at least two layers that assign something, on a line of at least two tokens";
    type Case = RunCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 240_000 } else { 9_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<RunCase> {
        (histories(5), gen::mixed_matcher()).prop_map(|(scene, m)| RunCase { scene, m }).boxed()
    }
    fn check(&self, c: &RunCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut bed = Bed::build(&c.scene.items, c.scene.measure)?;
        if bed.n() == 0 {
            // nothing to recognise
            let consulted = Cell::new(false);
            let line = bed.line.take().unwrap().run(&ProbeR(|_| {
                consulted.set(true);
                vec![]
            }));
            same("recogniser consulted on a line without tokens", &consulted.get(), &false)?;
            same("tokens of the empty line", &line.ll_tokens().len(), &0)?;
            same("values on the empty line", &line.query::<Obs>().len(), &0)?;
            ctx.label("empty line");
            return Ok(());
        }
        let toks = tok_debug(bed.line());
        let mut busy = 0;
        for l in &c.scene.layers {
            // what this layer's recogniser can see before it answers: the whole line, with all earlier layers
            if let Ok(want) = bed.m.find_by_full(&c.m) {
                let (spans, outs) = bed.probe(|_, sel| unzip(sel.find_by(&Dyn(&c.m))))?;
                let got: Vec<(Span, Out)> = spans.into_iter().zip(outs).collect();
                same_list(&format!("matches of {:?} seen from within a recogniser", c.m), &got, &want)?;
            }
            bed.run_layer(l)?;
            busy += usize::from(!l.asg.is_empty());
            same_list("tokens after a run", &tok_debug(bed.line()), &toks)?;
            compare_queries("after a run", &bed)?;
        }
        // the selection a recogniser gets is the whole line
        let (spans, ()) = bed.probe(|_, sel| (vec![sel], ()))?;
        same("selection handed to the recogniser", &spans, &vec![(0, bed.n() - 1)])?;
        // a recogniser that finds nothing changes nothing
        let before = all_queries(bed.line());
        let line = bed.line.take().unwrap().run(&ProbeR(|_| vec![]));
        same("line after a recogniser without results", &all_queries(&line), &before)?;
        ctx.nontrivial_if(busy > 1 && bed.n() > 1);
        let asg = &bed.m.asg;
        ctx.label_if((0..asg.len().min(200)).any(|i| (0..i).any(|j| asg[i] == asg[j])), "equal value twice on a span");
        ctx.label_if(c.scene.layers.iter().any(|l| l.asg.len() > 20), "layer of over 20 values");
        ctx.label_if(c.scene.layers.iter().any(|l| l.finish_with), "FinishWith");
        Ok(())
    }
}

// ------------------------------------------------------------ C06
pub struct C06;
impl Prop for C06 {
    const ID: &'static str = "C06";
    const RULE: &'static str = "some type has at least two spans, one of them with at least two values";
    type Case = Scene;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 160_000 } else { 5_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<Scene> {
        histories(1)
    }
    fn check(&self, c: &Scene, ctx: &mut Ctx) -> Result<(), String> {
        let mut bed = Bed::from_scene(c)?;
        compare_queries("query", &bed)?;
        for ty in ALL_TY {
            let q = bed.m.query(ty);
            let mut listed: Vec<(Span, Val)> = q.iter().flat_map(|(s, _, vs)| vs.iter().map(move |v| (*s, v.clone()))).collect();
            // display: rows of this type, with the value's debug text (unordered: C15 has the layout)
            let text = with_ty!(ty, T => LLLineDisplay::new(bed.line()).with::<T>().to_string());
            let mut shown: Vec<String> = listed.iter().map(|(_, v)| debug_text(v)).collect();
            shown.sort();
            same_list(&format!("values displayed for {ty:?}"), &value_rows(&bed, &text), &shown)?;
            // forwards, over the whole line (all sizes are 1, so positions are indexes)
            let mut fwd: Vec<(Span, Val)> = find_spans(bed.line(), ty).into_iter().map(|((s, e), v)| ((s, e - 1), v)).collect();
            fwd.sort();
            listed.sort();
            same_list(&format!("forward search for {ty:?} against its query"), &fwd, &listed)?;
            if bed.n() == 0 {
                continue;
            }
            // backwards, token by token
            let (spans, vals) = bed.probe(|b, sel| {
                let pick = b.selector(&sel);
                let mut sels = vec![];
                let mut vals = vec![];
                for i in 0..b.n() {
                    // a selection whose backward neighbour is token i, or, at the end of the line, the two-way search on it
                    if i + 1 < b.n() {
                        let s = b.span_exact((i + 1, b.n() - 1));
                        let Some(s) = s else { continue };
                        let s = pick.get(s);
                        with_ty!(ty, T => for (grown, v) in s.match_backwards(&x::attr::<T>()) {
                            let Some([Some(hit), _]) = Some(grown.split_with(&s)) else { panic!("a grown selection must start before the original") };
                            sels.push(hit);
                            vals.push((i, v.to_val()));
                        });
                    } else if let Some(s) = b.span_exact((i, i)) {
                        let s = pick.get(s);
                        with_ty!(ty, T => {
                            let f = s.find_by(&x::attr::<T>()).len();
                            for (hit, v) in s.find_by_forwards_and_backwards(&x::attr::<T>()).into_iter().skip(f) {
                                sels.push(hit);
                                vals.push((i, v.to_val()));
                            }
                        });
                    }
                }
                (sels, vals)
            })?;
            let mut back: Vec<(Span, Val)> = vec![];
            for (s, (i, v)) in spans.into_iter().zip(vals) {
                same("end of a backward match", &s.1, &i)?;
                back.push((s, v));
            }
            back.sort();
            let reachable: Vec<(Span, Val)> = listed
                .iter()
                .filter(|(s, _)| {
                    let n = bed.n();
                    if s.1 + 1 < n { bed.span_exact((s.1 + 1, n - 1)).is_some() } else { bed.span_exact((n - 1, n - 1)).is_some() }
                })
                .cloned()
                .collect();
            same_list(&format!("backward matches of {ty:?} against its query"), &back, &reachable)?;
            ctx.nontrivial_if(q.len() > 1 && q.iter().any(|x| x.2.len() > 1));
        }
        ctx.label_if(bed.m.asg.iter().any(|a| bed.m.asg.iter().any(|b| a.0 == b.0 && a.1 != b.1 && a.2.ty() == b.2.ty())), "spans sharing a start");
        ctx.label_if(bed.m.asg.iter().any(|a| bed.m.asg.iter().any(|b| (a.0, a.1) == (b.0, b.1) && a.0 < a.1 && a.2.ty() != b.2.ty())), "several types on a wide span");
        Ok(())
    }
}
/// the value part of the rows of a display, sorted
fn value_rows(bed: &Bed, text: &str) -> Vec<String> {
    // tokens may hold newlines, the debug texts of this harness do not
    let rows = text.get(opening(bed).len()..).unwrap_or("");
    let mut v: Vec<String> = rows.split('\n').skip(1).map(|r| r.trim_start_matches([' ', '╰', '─', '╯']).to_string()).collect();
    v.sort();
    v
}

// ------------------------------------------------------------ C15
fn opening(bed: &Bed) -> String {
    bed.m
        .toks
        .iter()
        .map(|t| match t {
            Tok::Text(s, _) => s.as_str(),
            Tok::Value => "<>",
        })
        .collect::<Vec<_>>()
        .join("  ")
}
pub struct C15;
const WIDE: &[(&str, usize)] = &[("a", 70_000), ("ア", 40_000), ("1", 66_000), ("a\u{301}", 33_000), ("a", 4_097), ("日", 129), (" ", 70_000), ("a", 257)];
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ShowCase {
    scene: Scene,
    include: Vec<(Ty, bool)>,
    /// values whose debug text is any text, in one more run
    raw: Vec<(u16, u16, String)>,
    /// where the type of these is put among the included ones; None: left out
    raw_at: Option<u8>,
}
/// its debug text is the string, as it is
#[derive(Clone, PartialEq)]
pub struct Raw(String);
impl std::fmt::Debug for Raw {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
struct RawR<F>(F);
impl<F: Fn(LLSelection) -> Vec<LLCursorAssignment<Raw>>> Resolver for RawR<F> {
    type Attr = Raw;
    fn go(&self, s: LLSelection) -> Vec<LLCursorAssignment<Raw>> {
        (self.0)(s)
    }
}
impl Prop for C15 {
    const ID: &'static str = "C15";
    const RULE: &'static str = "some included type has a value on a span of several tokens or on a token that is not one column wide";
    type Case = ShowCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 450_000 } else { 20_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<ShowCase> {
        let wide = (gen::items(any_text(8), 3), vec(gen::layer(6), 0..5), gen::measure()).prop_map(|(items, layers, measure)| Scene { items, layers, measure });
        let raw_text = prop_oneof![
            3 => proptest::sample::select(&["", "x", " x", "x ", "a\nb", "\n", "\ta", "Struct {\n    field: 1,\n}", "日本", "  ", "╰─╯", "\u{301}", "very long debug text, longer than any token of the line is wide", "\r\n", "{}", "{:?}"][..]).prop_map(|s| s.to_string()),
            1 => any::<String>(),
        ];
        let raw = prop_oneof![3 => Just(vec![]), 2 => vec((any::<u16>(), any::<u16>(), raw_text), 1..4)];
        (prop_oneof![4 => wide, 2 => histories(1), 1 => scene(gen::measure())], vec((gen::ty(), any::<bool>()), 0..5), raw, proptest::option::weighted(0.8, 0u8..6))
            .prop_map(|(scene, include, raw, raw_at)| ShowCase { scene, include, raw, raw_at })
            .boxed()
    }
    fn enum_len(&self, _: Tier) -> u64 {
        WIDE.len() as u64 + N_SCALARS
    }
    fn enum_case(&self, i: u64) -> ShowCase {
        // tokens wider than any terminal; then every character, alone and in a word
        let text = match i.checked_sub(WIDE.len() as u64) {
            None => WIDE[i as usize].0.repeat(WIDE[i as usize].1) + " b c",
            Some(i) => format!("{0} a{0} b", nth_scalar(i)),
        };
        let asg = vec![(1, 2, Val::A(0)), (0, u16::MAX, Val::A(1)), (2, 2, Val::A(2))];
        ShowCase { scene: Scene { items: vec![text_item(text)], layers: vec![Layer { ty: Ty::A, asg, finish_with: false }], measure: Measure::One }, include: vec![(Ty::A, true), (Ty::Tag, false)], raw: vec![], raw_at: None }
    }
    fn check(&self, c: &ShowCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut bed = Bed::from_scene(&c.scene)?;
        // the additional run
        let mut raw: Vec<(Span, Vec<String>)> = vec![];
        if bed.n() > 0 && !c.raw.is_empty() {
            let spans: Vec<(Span, String)> = c.raw.iter().map(|(a, b, t)| (bed.span(*a, *b), t.clone())).collect();
            for (s, t) in &spans {
                match raw.iter_mut().find(|r| r.0 == *s) {
                    Some(r) => r.1.push(t.clone()),
                    None => raw.push((*s, vec![t.clone()])),
                }
            }
            let line = bed.line.take().unwrap();
            let this = &bed;
            let line = line.run(&RawR(|sel: LLSelection| {
                let pick = this.selector(&sel);
                spans.iter().map(|(s, t)| pick.get(*s).finish_with_attr(Raw(t.clone()))).collect()
            }));
            bed.line = Some(line);
        }
        let mut want = String::new();
        let mut cols: Vec<Span> = vec![];
        // the same columns token by token: the width of a line can differ from the sum of its parts' widths where
        // characters of neighbouring tokens combine, and either is a fair reading of "display column"
        let mut summed: Vec<Span> = vec![];
        let mut sum = 0;
        for (i, t) in bed.m.toks.iter().enumerate() {
            if i > 0 {
                want.push_str("  ");
                sum += 2;
            }
            let s = want.width();
            let text = match t {
                Tok::Text(t, _) => t.as_str(),
                Tok::Value => "<>",
            };
            want.push_str(text);
            cols.push((s, want.width()));
            summed.push((sum, sum + text.width()));
            sum += text.width();
        }
        let mut want2 = want.clone();
        let raw_at = c.raw_at.map(|k| k as usize % (c.include.len() + 1));
        // included types in order; None stands for the raw ones
        let mut shown: Vec<(Option<Ty>, bool)> = c.include.iter().map(|(t, w)| (Some(*t), *w)).collect();
        if let Some(k) = raw_at {
            shown.insert(k, (None, k % 2 == 0));
        }
        let mut wide = false;
        for (ty, _) in &shown {
            let rows: Vec<(Span, Vec<String>)> = match ty {
                Some(ty) => bed.m.query(*ty).into_iter().map(|(s, _, vs)| (s, vs.iter().map(debug_text).collect())).collect(),
                None => raw.clone(),
            };
            for ((s, e), vals) in rows {
                for v in vals.iter().rev() {
                    for (cols, want) in [(&cols, &mut want), (&summed, &mut want2)] {
                        let (from, to) = (cols[s].0, cols[e].1);
                        let mut row: Vec<char> = vec![' '; from];
                        row.push('╰');
                        if to > from + 1 {
                            row.resize(to - 1, '─');
                            row.push('╯');
                        }
                        want.push('\n');
                        want.extend(row);
                        want.push_str(v);
                        wide |= s < e || to != from + 1;
                    }
                }
            }
        }
        let mut d = debug_line(bed.line());
        let mut d2 = LLLineDisplay::new(bed.line());
        for (ty, with) in &shown {
            match ty {
                Some(ty) => {
                    with_ty!(*ty, T => if *with { d = d.with::<T>() } else { d.include::<T>() });
                    with_ty!(*ty, T => d2.include::<T>());
                }
                None => {
                    if *with { d = d.with::<Raw>() } else { d.include::<Raw>() }
                    d2.include::<Raw>();
                }
            }
        }
        let got = d.to_string();
        ctx.label_if(want != want2, "widths that do not add up");
        if got == want2 {
            want = want2;
        }
        if got != want {
            return fail(format!("display differs\n  got:      {got:?}\n  expected: {want:?}"));
        }
        same("display by include alone, written twice", &(d2.to_string(), format!("{d2}")), &(want.clone(), want))?;
        ctx.nontrivial_if(wide);
        ctx.label_if(cols.iter().any(|c| c.0 == c.1), "token of no width");
        ctx.label_if(bed.m.toks.contains(&Tok::Value), "value token");
        ctx.label_if(raw_at.is_some() && !raw.is_empty(), "free-form debug text");
        ctx.label_if(c.include.iter().any(|(t, _)| bed.m.query(*t).iter().any(|q| q.2.len() > 1)), "several values on a span");
        Ok(())
    }
}

// ------------------------------------------------------------ C24
pub struct C24;
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Boxed {
    V(Val),
    Unit,
    Big(Vec<u64>),
    Nested(Vec<String>),
    Num(i64, u64),
    Str,
    Guard,
    Block(u8),
    Flag(bool),
    Shared(String),
    Maybe(Option<u64>),
}
/// takes no room, yet has something to do when it goes
#[derive(Debug)]
pub struct Guard;
impl Drop for Guard {
    fn drop(&mut self) {
        std::hint::black_box(self);
    }
}
type Block = [u8; 400];
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct BoxCase {
    what: Boxed,
    /// types tried on it before its own
    tries: Vec<u8>,
    /// finish by handing it over on an item instead
    on_item: bool,
}
fn wide(a: i64, b: u64) -> i128 {
    (a as i128) << 64 | b as i128
}
fn boxed(b: &Boxed) -> AnyAttribute {
    match b {
        Boxed::V(v) => any_attr(v),
        Boxed::Unit => AnyAttribute::new(()),
        Boxed::Big(v) => AnyAttribute::new(v.clone()),
        Boxed::Nested(v) => AnyAttribute::new(v.clone()),
        Boxed::Num(a, b) => AnyAttribute::new(wide(*a, *b)),
        Boxed::Str => AnyAttribute::new("static"),
        Boxed::Guard => AnyAttribute::new(Guard),
        Boxed::Block(k) => AnyAttribute::new([*k; 400]),
        Boxed::Flag(b) => AnyAttribute::new(*b),
        Boxed::Shared(s) => AnyAttribute::new(std::sync::Arc::new(s.clone())),
        Boxed::Maybe(v) => AnyAttribute::new(*v),
    }
}
fn kind(b: &Boxed) -> u8 {
    match b {
        Boxed::V(v) => v.ty() as u8,
        Boxed::Unit => 8,
        Boxed::Big(_) => 9,
        Boxed::Nested(_) => 10,
        Boxed::Num(..) => 11,
        Boxed::Str => 12,
        Boxed::Guard => 13,
        Boxed::Block(_) => 14,
        Boxed::Flag(_) => 15,
        Boxed::Shared(_) => 16,
        Boxed::Maybe(_) => 17,
    }
}
/// $body with T = the Rust type numbered $k
macro_rules! with_kind {
    ($k:expr, $T:ident => $body:expr) => {
        match $k {
            8 => { type $T = (); $body }
            9 => { type $T = Vec<u64>; $body }
            10 => { type $T = Vec<String>; $body }
            11 => { type $T = i128; $body }
            12 => { type $T = &'static str; $body }
            13 => { type $T = Guard; $body }
            14 => { type $T = Block; $body }
            15 => { type $T = bool; $body }
            16 => { type $T = std::sync::Arc<String>; $body }
            17 => { type $T = Option<u64>; $body }
            k => with_ty!(ALL_TY[k as usize], $T => $body),
        }
    };
}
impl Prop for C24 {
    const ID: &'static str = "C24";
    const RULE: &'static str = "at least one wrong type was tried first, or the attribute was read back off a line";
    type Case = BoxCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 3_200_000 } else { 200_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<BoxCase> {
        let what = prop_oneof![
            6 => gen::val().prop_map(Boxed::V),
            2 => (any::<u8>(), any::<char>(), any::<String>()).prop_flat_map(|(n, c, s)| proptest::sample::select(vec![Boxed::V(Val::A(n)), Boxed::V(Val::B(n)), Boxed::V(Val::Ch(c)), Boxed::V(Val::S(s))])),
            1 => Just(Boxed::Unit),
            1 => vec(any::<u64>(), 0..40).prop_map(Boxed::Big),
            1 => vec(any::<String>(), 0..4).prop_map(Boxed::Nested),
            1 => (any::<i64>(), any::<u64>()).prop_map(|(a, b)| Boxed::Num(a, b)),
            1 => Just(Boxed::Str),
            1 => Just(Boxed::Guard),
            1 => any::<u8>().prop_map(Boxed::Block),
            1 => any::<bool>().prop_map(Boxed::Flag),
            1 => any::<String>().prop_map(Boxed::Shared),
            1 => any::<Option<u64>>().prop_map(Boxed::Maybe),
        ];
        (what, vec(0u8..18, 0..6), any::<bool>()).prop_map(|(what, tries, on_item)| BoxCase { what, tries, on_item }).boxed()
    }
    fn check(&self, c: &BoxCase, ctx: &mut Ctx) -> Result<(), String> {
        let own = kind(&c.what);
        let own_id = with_kind!(own, T => std::any::TypeId::of::<T>());
        let mut a = boxed(&c.what);
        same("type reported", &a.type_id(), &own_id)?;
        let mut wrong = 0;
        for k in &c.tries {
            if *k == own {
                continue;
            }
            a = with_kind!(*k, T => match a.extract::<T>() {
                Ok(v) => return fail(format!("gave out {v:?} for a type it does not hold")),
                Err(a) => a,
            });
            wrong += 1;
            same("type reported after a refused attempt", &a.type_id(), &own_id)?;
        }
        let want: String = format!("{:?}", c.what);
        if c.on_item {
            let line = create_line_from_input_tokens(vec![InputToken::text("a b".into(), vec![a, AnyAttribute::new(Mark(9)), boxed(&c.what)])], |s| s.len());
            // both copies, over the whole item, under their own type only
            let q: Vec<(Span, String, Vec<String>)> = with_kind!(own, T => line
                .query::<T>()
                .into_iter()
                .map(|(r, t, vs)| (r, t, vs.into_iter().map(|v: &T| format!("{v:?}")).collect::<Vec<_>>()))
                .filter(|q| q.0 == (0, 2))
                .collect());
            let d = debug_of(&c.what);
            same("attribute read back off the line", &q, &vec![((0, 2), "a b".to_string(), vec![d.clone(), d])])?;
            same("attribute given with it", &line.query::<Mark>().len(), &1)?;
            for k in &c.tries {
                if *k != own {
                    let n = with_kind!(*k, T => line.query::<T>().into_iter().filter(|q| q.0 == (0, 2)).count());
                    same("values under another type", &n, &0)?;
                }
            }
            ctx.label("read back off a line");
        } else {
            let got = match own {
                8 => a.extract::<()>().ok().map(|()| Boxed::Unit),
                9 => a.extract::<Vec<u64>>().ok().map(Boxed::Big),
                10 => a.extract::<Vec<String>>().ok().map(Boxed::Nested),
                11 => a.extract::<i128>().ok().map(|v| Boxed::Num((v >> 64) as i64, v as u64)),
                12 => a.extract::<&'static str>().ok().filter(|s| *s == "static").map(|_| Boxed::Str),
                13 => a.extract::<Guard>().ok().map(|_| Boxed::Guard),
                14 => a.extract::<Block>().ok().filter(|b| b.iter().all(|x| *x == b[0])).map(|b| Boxed::Block(b[0])),
                15 => a.extract::<bool>().ok().map(Boxed::Flag),
                16 => a.extract::<std::sync::Arc<String>>().ok().map(|s| Boxed::Shared(s.to_string())),
                17 => a.extract::<Option<u64>>().ok().map(Boxed::Maybe),
                k => with_ty!(ALL_TY[k as usize], T => a.extract::<T>().ok().map(|v| Boxed::V(v.to_val()))),
            };
            same("value taken out", &got.map(|g| format!("{g:?}")), &Some(want))?;
        }
        ctx.nontrivial_if(wrong > 0 || c.on_item);
        ctx.label_if(wrong > 1, "several refused attempts");
        Ok(())
    }
}
fn debug_of(b: &Boxed) -> String {
    match b {
        Boxed::V(v) => debug_text(v),
        Boxed::Unit => "()".into(),
        Boxed::Big(v) => format!("{v:?}"),
        Boxed::Nested(v) => format!("{v:?}"),
        Boxed::Num(a, b) => format!("{:?}", wide(*a, *b)),
        Boxed::Str => format!("{:?}", "static"),
        Boxed::Guard => "Guard".into(),
        Boxed::Block(k) => format!("{:?}", [*k; 400]),
        Boxed::Flag(b) => format!("{b:?}"),
        Boxed::Shared(s) => format!("{s:?}"),
        Boxed::Maybe(v) => format!("{v:?}"),
    }
}
