//! C25 to C28: recognisers on parts of lines, threads, ownership, and cascades of rules.
use super::resolvers::*;
use super::{same, same_list};
use crate::alloc_count;
use crate::gen::{self, *};
use crate::model::*;
use crate::real::*;
use crate::runner::*;
use crate::with_ty;
use layered_amount::{Amount, AmountResolver};
use layered_clauses::{Clause, ClauseKeyword, ClauseKeywordResolver, ClauseResolver};
use layered_nlp::*;
use layered_part_of_speech::{POSTagResolver, Tag};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::{Arc, Barrier};

// ------------------------------------------------------------ C25
pub struct C25;
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct PartCase {
    items: Vec<Item>,
    /// one part, or two applied within one run
    parts: Vec<(u16, u16)>,
    delims: Vec<char>,
    decimal: char,
    extra: Option<Layer>,
    /// the same recognisers have been over the whole line before
    prior: bool,
}
/// applies a recogniser to parts of the line instead of the whole
struct Parts<'a, R>(&'a R, &'a [Span], &'a Bed);
impl<R: Resolver> Resolver for Parts<'_, R> {
    type Attr = R::Attr;
    fn go(&self, sel: LLSelection) -> Vec<LLCursorAssignment<R::Attr>> {
        let pick = self.2.selector(&sel);
        self.1.iter().flat_map(|p| self.0.go(pick.get(*p))).collect()
    }
}
fn on_parts<R: Resolver>(bed: &mut Bed, parts: &[Span], r: &R) {
    let line = bed.line.take().unwrap();
    let line = line.run(&Parts(r, parts, bed));
    bed.line = Some(line);
}
impl Prop for C25 {
    const ID: &'static str = "C25";
    const RULE: &'static str = "a proper part of the line with at least two kinds of results in it";
    type Case = PartCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 240_000 } else { 5_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<PartCase> {
        let conf = prop_oneof![2 => Just((vec![',', '\''], '.')), 2 => Just((vec![' ', '.', '\''], ',')), 1 => (vec(select(DELIMS), 0..4), select(DELIMS))];
        conf.prop_flat_map(|(delims, decimal)| {
            let text = prop_oneof![4 => pipeline_text(), 2 => number_text(delims.clone(), decimal), 1 => (pipeline_text(), number_text(delims.clone(), decimal)).prop_map(|(a, b)| a + &b)].boxed();
            let idx = || prop_oneof![6 => any::<u16>(), 1 => 0u16..3];
            let kws = vec((any::<u16>(), any::<u16>(), kw().prop_map(Val::Kw)), 1..3).prop_map(|asg| Some(Layer { ty: Ty::Kw, asg, finish_with: false }));
            (gen::plain_items(text, 2), prop_oneof![4 => vec((idx(), idx()), 1..2), 1 => vec((idx(), idx()), 2..4)], Just(delims), Just(decimal), prop_oneof![4 => Just(None), 1 => kws], any::<bool>())
        })
        .prop_map(|(items, parts, delims, decimal, extra, prior)| PartCase { items, parts, delims, decimal, extra, prior })
        .boxed()
    }
    fn check(&self, c: &PartCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut bed = Bed::build(&c.items, Measure::Utf8)?;
        let parts: Vec<Span> = c.parts.iter().map(|(a, b)| bed.span(*a, *b)).collect();
        let n = bed.n();
        let inside = |s: Span, p: Span| p.0 <= s.0 && s.1 <= p.1;
        let mut kinds = 0;
        // recognisers that judge each token for itself: what they say of the whole line, part by part
        macro_rules! per_token {
            ($r:expr, $t:ty) => {{
                let r = $r;
                let whole = create_line_from_input_tokens(input_tokens(&c.items), |s| s.len()).run(&r);
                let all: Vec<(Span, Vec<String>)> = whole.query::<$t>().into_iter().map(|(s, _, v)| (s, v.iter().map(|v| format!("{v:?}")).collect())).collect();
                // in the order of the parts, a token of several parts once, with the values of each
                let mut want: Vec<(Span, Vec<String>)> = vec![];
                if c.prior {
                    want = all.clone();
                    bed.line = Some(bed.line.take().unwrap().run(&r));
                }
                for p in &parts {
                    for (s, v) in all.iter().filter(|a| inside(a.0, *p)) {
                        match want.iter_mut().find(|w| w.0 == *s) {
                            Some(w) => w.1.extend(v.clone()),
                            None => want.push((*s, v.clone())),
                        }
                    }
                }
                on_parts(&mut bed, &parts, &r);
                let got: Vec<(Span, Vec<String>)> = bed.line().query::<$t>().into_iter().map(|(s, _, v)| (s, v.iter().map(|v| format!("{v:?}")).collect())).collect();
                same_list(&format!("{} on the parts {parts:?} of {:?}", stringify!($t), bed.m.text(0, n - 1)), &got, &want)?;
                kinds += usize::from(!want.is_empty());
            }};
        }
        per_token!(TextMatchAssignResolver::new_case_insensitive_str_arr([("rain", L3(1)), ("RAIN", L3(2)), ("Open", L3(3)), ("if", L3(4)), (",", L3(5))]), L3);
        per_token!(TextMatchAssignResolver::new(HashMap::from([("rain".to_string(), vec![L2(1), L2(2)]), ("a".to_string(), vec![L2(3)]), ("5".to_string(), vec![L2(4)])])), L2);
        per_token!(POSTagResolver::default(), Tag);
        per_token!(ClauseKeywordResolver::new(&["if", "when"], &["and"], &["then"]), ClauseKeyword);
        // amounts begin inside the part and are read to their end
        let r = AmountResolver::new(c.delims.clone(), c.decimal);
        let mut want: Vec<(Span, Vec<String>)> = vec![];
        if c.prior {
            bed.line = Some(bed.line.take().unwrap().run(&r));
            want = expected_amounts(&bed.m, &c.delims, c.decimal, (0, n - 1)).into_iter().map(|a| (a.span, vec![a.value])).collect();
        }
        on_parts(&mut bed, &parts, &r);
        let mut past = false;
        for p in &parts {
            for a in expected_amounts(&bed.m, &c.delims, c.decimal, *p) {
                past |= a.span.1 > p.1;
                match want.iter_mut().find(|w| w.0 == a.span) {
                    Some(w) => w.1.push(a.value),
                    None => want.push((a.span, vec![a.value])),
                }
            }
        }
        let got: Vec<(Span, Vec<String>)> = bed.line().query::<Amount>().into_iter().map(|(s, _, v)| (s, v.iter().map(|v| v.get_decimal().to_string()).collect())).collect();
        same_list(&format!("amounts of the parts {parts:?} of {:?}", bed.m.text(0, n - 1)), &got, &want)?;
        kinds += usize::from(!want.is_empty());
        // clauses: keywords over the whole line, then the parts
        let mut bed = Bed::build(&c.items, Measure::Utf8)?;
        let line = bed.line.take().unwrap().run(&ClauseKeywordResolver::new(&["if", "when"], &["and"], &["then"]));
        for ((s, e), _, vs) in real_query(&line, Ty::Kw) {
            bed.m.asg.extend(vs.into_iter().map(|v| (s, e, v)));
        }
        bed.line = Some(line);
        if let Some(l) = &c.extra {
            bed.run_layer(l)?;
        }
        let mut want: Vec<(Span, Vec<Clause>)> = vec![];
        if c.prior {
            bed.line = Some(bed.line.take().unwrap().run(&ClauseResolver::default()));
            want = expected_clauses(&bed.m, (0, n - 1)).0.into_iter().map(|(s, k)| (s, vec![k])).collect();
        }
        on_parts(&mut bed, &parts, &ClauseResolver::default());
        for p in &parts {
            for (s, k) in expected_clauses(&bed.m, *p).0 {
                match want.iter_mut().find(|w| w.0 == s) {
                    Some(w) => w.1.push(k),
                    None => want.push((s, vec![k])),
                }
            }
        }
        let got: Vec<(Span, Vec<Clause>)> = bed.line().query::<Clause>().into_iter().map(|(s, _, vs)| (s, vs.into_iter().cloned().collect())).collect();
        same_list(&format!("clauses of the parts {parts:?} of {:?}", bed.m.text(0, n - 1)), &got, &want)?;
        kinds += usize::from(!want.is_empty());
        ctx.nontrivial_if(kinds >= 2 && parts.iter().any(|p| *p != (0, n - 1)));
        ctx.label_if(past, "amount read past the end of the part");
        ctx.label_if(parts.len() > 1, "several parts");
        ctx.label_if(c.prior, "whole line recognised before");
        ctx.label_if(want.len() > 1, "several clauses");
        Ok(())
    }
}

// ------------------------------------------------------------ C26
/// `Shared::<T>::IMPLS` is true exactly when T may be shared and sent between threads.
struct Shared<T: ?Sized>(std::marker::PhantomData<T>);
trait NotShared {
    const IMPLS: bool = false;
}
impl<T: ?Sized> NotShared for Shared<T> {}
impl<T: ?Sized + Send + Sync> Shared<T> {
    const IMPLS: bool = true;
}
/// carries what the compiler might not let through, after IMPLS has been checked
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn take(self) -> T {
        self.0
    }
}
pub struct C26;
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ThreadCase {
    /// each thread's own input
    lines: Vec<Vec<Item>>,
    runs: Vec<Rk>,
    rounds: u8,
}
/// everything that can be read off a line by reference; where the reading starts is up to the caller, the result is not
fn readings_from(line: &LLLine, from: usize) -> Vec<String> {
    fn one<T: 'static + std::fmt::Debug>(line: &LLLine) -> Vec<String> {
        let mut out: Vec<String> = line.query::<T>().into_iter().map(|(r, t, v)| format!("query {r:?} {t:?} {v:?}")).collect();
        out.extend(line.find(&x::attr::<T>()).iter().map(|f| format!("find {:?} {:?}", f.range(), f.attr())));
        out.extend(line.find(&x::seq((x::attr::<T>(), x::attr::<TextTag>()))).iter().map(|f| format!("seq {:?} {:?}", f.range(), f.attr())));
        out
    }
    fn tokens(line: &LLLine) -> Vec<String> {
        line.ll_tokens().iter().map(|t| format!("{t:?}")).collect()
    }
    fn shown(line: &LLLine) -> Vec<String> {
        vec![LLLineDisplay::new(line).with::<Amount>().with::<Clause>().with::<L1>().with::<TextTag>().to_string()]
    }
    let parts: [fn(&LLLine) -> Vec<String>; 11] = [tokens, one::<Amount>, one::<Tag>, one::<ClauseKeyword>, one::<Clause>, one::<L1>, one::<L3>, one::<B>, one::<TextTag>, one::<char>, shown];
    let mut out = vec![vec![]; parts.len()];
    for k in 0..parts.len() {
        let i = (k + from) % parts.len();
        out[i] = parts[i](line);
    }
    out.concat()
}
fn readings(line: &LLLine) -> Vec<String> {
    readings_from(line, 0)
}
impl Prop for C26 {
    const ID: &'static str = "C26";
    const RULE: &'static str = "at least two threads, on whose lines the recognisers produced something";
    type Case = ThreadCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 12_000 } else { 500_000 }
    }
    fn strategy(&self) -> BoxedStrategy<ThreadCase> {
        let text = prop_oneof![6 => pipeline_text(), 2 => spaced(gen::mild_piece(), 6), 1 => number_text(vec![','], '.')].boxed();
        let item = prop_oneof![
            6 => (text, vec((0u8..3).prop_map(Val::B), 0..3)).prop_map(|(text, attrs)| Item::Text { text, attrs, built: 1 }),
            1 => (0u64..9, any::<bool>()).prop_map(|(size, bare)| Item::Custom { size, attrs: vec![Val::B(7)], built: 0, bare }),
        ];
        (vec(vec(item, 1..3), 2..5), vec(select(ALL_RK), 1..7), 1u8..4).prop_map(|(lines, runs, rounds)| ThreadCase { lines, runs, rounds }).boxed()
    }
    fn check(&self, c: &ThreadCase, ctx: &mut Ctx) -> Result<(), String> {
        for (what, ok) in [
            ("a line", Shared::<LLLine>::IMPLS),
            ("the text lookup", Shared::<TextMatchAssignResolver<L1>>::IMPLS),
            ("the amount recogniser", Shared::<AmountResolver>::IMPLS),
            ("the part-of-speech recogniser", Shared::<POSTagResolver>::IMPLS),
            ("the keyword recogniser", Shared::<ClauseKeywordResolver>::IMPLS),
            ("the clause recogniser", Shared::<ClauseResolver>::IMPLS),
            ("an amount", Shared::<Amount>::IMPLS),
            ("a clause", Shared::<Clause>::IMPLS),
            ("a clause keyword", Shared::<ClauseKeyword>::IMPLS),
            ("a text tag", Shared::<TextTag>::IMPLS),
        ] {
            if !ok {
                return fail(format!("{what} can no longer be shared between threads"));
            }
        }
        let build = |items: &[Item]| create_line_from_input_tokens(input_tokens(items), |s| s.len());
        let want: Vec<Vec<String>> = c.lines.iter().map(|l| readings(&c.runs.iter().fold(build(l), |x, k| run_rk(x, *k, &Shipped::new())))).collect();
        // 1. each thread builds its own line, all of them use the same recognisers
        let shared = Force(Shipped::new());
        let n = c.lines.len();
        let start = Barrier::new(n);
        let got: Vec<Result<(), String>> = std::thread::scope(|s| {
            let hs: Vec<_> = c
                .lines
                .iter()
                .zip(&want)
                .map(|(items, want)| {
                    let (shared, start) = (&shared, &start);
                    s.spawn(move || {
                        start.wait();
                        for _ in 0..c.rounds {
                            let line = c.runs.iter().fold(build(items), |x, k| run_rk(x, *k, shared.get()));
                            same_list("a line built and read while other threads do the same", &readings(&line), want)?;
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| fail(format!("a thread failed: {}", last_panic())))).collect()
        });
        got.into_iter().collect::<Result<(), String>>()?;
        // 2. one line passed from thread to thread between the runs, then read by all at once
        let mut line = Force(build(&c.lines[0]));
        for k in &c.runs {
            let shared = &shared;
            line = std::thread::scope(|s| s.spawn(move || Force(run_rk(line.take(), *k, shared.get()))).join()).map_err(|_| format!("a thread failed: {}", last_panic()))?;
        }
        let line = Arc::new(line);
        let got: Vec<Result<(), String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n)
                .map(|t| {
                    let (line, want, start) = (line.clone(), &want[0], &start);
                    s.spawn(move || {
                        start.wait();
                        for r in 0..c.rounds as usize {
                            same_list("one line read by several threads at once", &readings_from(line.get(), 3 * t + r), want)?;
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| fail(format!("a thread failed: {}", last_panic())))).collect()
        });
        got.into_iter().collect::<Result<(), String>>()?;
        ctx.nontrivial_if(c.lines.iter().zip(&want).all(|(l, w)| w.len() > readings(&build(l)).len()));
        ctx.label_if(n > 3, "four threads");
        Ok(())
    }
}

// ------------------------------------------------------------ C27
thread_local! {
    static LIVE: RefCell<HashMap<u64, i64>> = RefCell::new(HashMap::new());
    static NEXT: Cell<u64> = const { Cell::new(0) };
}
/// A value that keeps the books: which instances are alive.
#[derive(Debug)]
pub struct Counted<const K: u8>(u64, #[allow(dead_code)] Box<u64>);
impl<const K: u8> Counted<K> {
    fn new() -> Self {
        let id = NEXT.with(|n| n.replace(n.get() + 1));
        LIVE.with(|l| *l.borrow_mut().entry(id).or_default() += 1);
        Counted(id, Box::new(id))
    }
}
impl<const K: u8> Clone for Counted<K> {
    fn clone(&self) -> Self {
        Self::new()
    }
}
impl<const K: u8> Drop for Counted<K> {
    fn drop(&mut self) {
        LIVE.with(|l| *l.borrow_mut().entry(self.0).or_default() -= 1);
    }
}
/// ids of the living; anything but 0 or 1 is an error
fn living() -> Result<Vec<u64>, String> {
    LIVE.with(|l| {
        let mut out = vec![];
        for (id, k) in l.borrow().iter() {
            match k {
                0 => {}
                1 => out.push(*id),
                k => return fail(format!("value {id} was dropped {} times", 1 - k)),
            }
        }
        out.sort();
        Ok(out)
    })
}
pub struct C27;
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Own {
    /// one or more values over a span, of the first or second type
    Give(u16, u16, bool, u8),
    /// searches and selections made and dropped
    Look(M),
    /// a text lookup with values of its own
    Lookup(u8),
    Shipped(Rk),
    /// a recogniser that makes assignments and throws them away
    Discard(u16, u16),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct OwnCase {
    text: String,
    custom: bool,
    /// values on the input item, and how many of them are first tried with a wrong type
    on_item: u8,
    tried: u8,
    ops: Vec<Own>,
}
struct Drops<'a, const K: u8>(&'a Bed, Span, u8, bool);
impl<const K: u8> Resolver for Drops<'_, K> {
    type Attr = Counted<K>;
    fn go(&self, sel: LLSelection) -> Vec<LLCursorAssignment<Counted<K>>> {
        let s = self.0.selector(&sel).get(self.1);
        let all: Vec<_> = (0..self.2).map(|_| s.finish_with_attr(Counted::new())).collect();
        if self.3 {
            return vec![];
        }
        all
    }
}
fn ownership(c: &OwnCase) -> Result<usize, String> {
    LIVE.with(|l| l.borrow_mut().clear());
    let mut attrs = vec![];
    for i in 0..c.on_item {
        let mut a = AnyAttribute::new(Counted::<0>::new());
        if i < c.tried {
            a = match a.extract::<Counted<1>>() {
                Ok(_) => return fail("gave out a value of another type"),
                Err(a) => a,
            };
        }
        attrs.push(a);
    }
    same("values alive before the line is made", &living()?.len(), &(c.on_item as usize))?;
    if c.tried > 3 {
        // one taken out: it is ours again
        let a = AnyAttribute::new(Counted::<0>::new());
        let before = living()?.len();
        let v = a.extract::<Counted<0>>().map_err(|_| "refused its own type".to_string())?;
        same("values alive while one is taken out", &living()?.len(), &before)?;
        drop(v);
        same("values alive after it was dropped", &living()?.len(), &(before - 1))?;
        drop(AnyAttribute::new(Counted::<1>::new()));
        same("values alive after a prepared attribute was dropped unused", &living()?.len(), &(before - 1))?;
    }
    let mut tokens = vec![InputToken::text(c.text.clone(), attrs)];
    if c.custom {
        tokens.push(InputToken::custom(1, vec![AnyAttribute::new(Mark(1))]));
    }
    let items: Vec<Item> = std::iter::once(Item::Text { text: c.text.clone(), attrs: vec![], built: 0 }).chain(c.custom.then(|| Item::Custom { size: 1, attrs: vec![], built: 0, bare: false })).collect();
    // the line whose values are counted; the bed beside it only knows where things are
    let bed = Bed::build(&items, Measure::One)?;
    let mut line = create_line_from_input_tokens(tokens, |_| 1);
    let (mut on0, mut on1) = (c.on_item as usize, 0usize);
    let counts = |line: &LLLine| -> (Vec<u64>, Vec<u64>) {
        let a = line.query::<Counted<0>>().iter().flat_map(|q| q.2.iter().map(|v| v.0).collect::<Vec<_>>()).collect();
        let b = line.query::<Counted<1>>().iter().flat_map(|q| q.2.iter().map(|v| v.0).collect::<Vec<_>>()).collect();
        (a, b)
    };
    for op in &c.ops {
        match op {
            Own::Give(a, b, first, k) => {
                let sp = bed.span(*a, *b);
                if *first {
                    line = line.run(&Drops::<0>(&bed, sp, *k, false));
                    on0 += *k as usize;
                } else {
                    line = line.run(&Drops::<1>(&bed, sp, *k, false));
                    on1 += *k as usize;
                }
            }
            Own::Discard(a, b) => line = line.run(&Drops::<0>(&bed, bed.span(*a, *b), 2, true)),
            Own::Look(m) => {
                let rc = Rc::new(line);
                {
                    let sel = LLSelection::from_line(rc.clone()).ok_or("no selection")?;
                    let _ = rc.find(&Dyn(m));
                    let _ = rc.find(&x::attr::<Counted<0>>());
                    let found = sel.find_by(&Dyn(m));
                    let _ = sel.split_by(&x::attr::<Counted<1>>());
                    let _ = sel.split_by(&Dyn(m));
                    let _ = sel.find_first_by(&Dyn(m));
                    let _ = sel.find_by_forwards_and_backwards(&Dyn(m));
                    let _ = sel.trim_start(&x::token_text());
                    // a few of them, from everywhere in the line
                    for (s, _) in found.iter().step_by(1 + found.len() / 4) {
                        let _ = sel.split_with(s);
                        let _ = (s.trim(&Dyn(m)), s.trim_start(&Dyn(m)), s.trim_end(&Dyn(m)));
                        let _ = (s.match_forwards(&Dyn(m)), s.match_backwards(&Dyn(m)));
                        let _ = (s.match_first_forwards(&x::token_text()), s.match_first_backwards(&x::token_text()));
                        let _ = (s.after(), s.clone(), s == &sel, format!("{s:?}"));
                        let _ = s.finish_with_attr(Counted::<1>::new());
                    }
                    let _ = LLLineDisplay::new(&rc).with::<Counted<0>>().with::<Counted<1>>().to_string();
                }
                line = Rc::try_unwrap(rc).map_err(|_| "a selection of the line is still held after all were dropped".to_string())?;
            }
            Own::Lookup(k) => {
                let r = TextMatchAssignResolver::new_case_insensitive(HashMap::from([("a".to_string(), (0..*k).map(|_| Counted::<1>::new()).collect::<Vec<_>>()), ("b".to_string(), vec![Counted::new()])]));
                let hits: usize = bed.m.toks.iter().map(|t| match t {
                    Tok::Text(s, _) if s.to_lowercase() == "a" => *k as usize,
                    Tok::Text(s, _) if s.to_lowercase() == "b" => 1,
                    _ => 0,
                }).sum();
                let before = living()?.len();
                line = line.run(&r);
                same("values alive after a text lookup", &living()?.len(), &(before + hits))?;
                drop(r);
                on1 += hits;
            }
            Own::Shipped(k) => line = run_rk(line, *k, &Shipped::new()),
        }
        let alive = living()?;
        let (a, b) = counts(&line);
        same("values on the line", &(a.len(), b.len()), &(on0, on1))?;
        let mut all: Vec<u64> = a.into_iter().chain(b).collect();
        all.sort();
        same(&format!("values alive after {op:?}, against those on the line"), &alive, &all)?;
    }
    drop(line);
    same("values alive after the line was dropped", &living()?, &vec![])?;
    LIVE.with(|l| *l.borrow_mut() = HashMap::new());
    Ok(on0 + on1)
}
impl Prop for C27 {
    const ID: &'static str = "C27";
    const RULE: &'static str = "at least three values were on the line";
    type Case = OwnCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 300_000 } else { 10_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<OwnCase> {
        let op = prop_oneof![
            4 => (any::<u16>(), any::<u16>(), any::<bool>(), prop_oneof![5 => 1u8..4, 1 => 0u8..60]).prop_map(|(a, b, f, k)| Own::Give(a, b, f, k)),
            3 => gen::mixed_matcher().prop_map(Own::Look),
            2 => (0u8..4).prop_map(Own::Lookup),
            2 => select(ALL_RK).prop_map(Own::Shipped),
            1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Own::Discard(a, b)),
        ];
        let text = prop_oneof![4 => text_of(gen::mild_piece(), 6), 3 => pipeline_text(), 1 => gen::any_text(8)];
        (text, any::<bool>(), 0u8..5, 0u8..6, prop_oneof![6 => vec(op.clone(), 0..7), 1 => vec(op, 7..30)])
            .prop_map(|(text, custom, on_item, tried, ops)| OwnCase { text, custom, on_item, tried, ops })
            .boxed()
    }
    fn check(&self, c: &OwnCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut values = ownership(c)?;
        // Memory: the same again and again; what is still held afterwards must not grow every time.
        let mut growth = vec![];
        for _ in 0..4 {
            reset_outs();
            let before = alloc_count::held();
            values = ownership(c)?;
            reset_outs();
            growth.push(alloc_count::held() - before);
            if growth.last().is_some_and(|g| *g <= 0) {
                break;
            }
        }
        if growth.len() == 4 && growth.iter().all(|g| *g > 0) {
            return fail(format!("memory still held after everything was dropped grows with every repetition (bytes: {growth:?})"));
        }
        ctx.nontrivial_if(values >= 3);
        ctx.label_if(c.ops.len() > 4, "over 4 steps");
        ctx.label_if(c.ops.iter().any(|o| matches!(o, Own::Shipped(_))), "shipped recognisers");
        Ok(())
    }
}

// ------------------------------------------------------------ C28
pub struct C28;
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Rule {
    m: M,
    /// what the matched span becomes; the types differ from rule to rule
    becomes: Vec<Val>,
    /// also look backwards
    two_way: bool,
    finish_with: bool,
    /// apply it until nothing new comes of it (at most so many times)
    times: u8,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct CascadeCase {
    items: Vec<Item>,
    rules: Vec<Rule>,
}
impl Prop for C28 {
    const ID: &'static str = "C28";
    const RULE: &'static str = "a rule matched values that an earlier rule had left";
    type Case = CascadeCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 600_000 } else { 15_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<CascadeCase> {
        // the first rules lift tags and characters, the others combine what is there
        let base = prop_oneof![
            3 => tag().prop_map(|t| M::Eq(Val::Tag(t))),
            1 => Just(M::Text),
            1 => chr().prop_map(|c| M::Eq(Val::Ch(c))),
            1 => Just(M::Attr(Ty::Tag)),
        ]
        .boxed();
        let own = select(&[Ty::A, Ty::B, Ty::S, Ty::P, Ty::Z][..]);
        let leaf = prop_oneof![4 => own.clone().prop_map(M::Attr), 2 => own.clone().prop_flat_map(val_of).prop_map(M::Eq), 2 => base.clone()].boxed();
        let two = |l: BoxedStrategy<M>| {
            prop_oneof![
                4 => (l.clone(), l.clone()).prop_map(|(a, b)| M::Seq2(Box::new([a, b]))),
                2 => (l.clone(), l.clone(), l.clone()).prop_map(|(a, b, c)| M::Seq3(Box::new([a, b, c]))),
                1 => (l.clone(), l.clone()).prop_map(|(a, b)| M::All2(Box::new([a, b]))),
                1 => (l.clone(), l.clone()).prop_map(|(a, b)| M::Any2(Box::new([a, b]))),
                1 => (l.clone(), l.clone(), l).prop_map(|(a, b, c)| M::Any3(Box::new([a, b, c]))),
            ]
        };
        let becomes = own.prop_flat_map(|t| vec(val_of(t), 1..3));
        let rule = move |m: BoxedStrategy<M>| (m, becomes.clone(), proptest::bool::weighted(0.15), any::<bool>(), prop_oneof![4 => Just(1u8), 1 => 2u8..4]).prop_map(|(m, becomes, two_way, finish_with, times)| Rule { m, becomes, two_way, finish_with, times });
        let rules = (vec(rule(base), 1..4), vec(rule(prop_oneof![3 => two(leaf.clone()), 1 => leaf, 1 => gen::matcher()].boxed()), 1..6)).prop_map(|(a, b)| a.into_iter().chain(b).collect());
        let text = prop_oneof![6 => text_of(gen::mild_piece(), 8), 2 => pipeline_text(), 1 => gen::any_text(8)].boxed();
        (gen::plain_items(text, 2), rules).prop_map(|(items, rules)| CascadeCase { items, rules }).boxed()
    }
    fn check(&self, c: &CascadeCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut bed = Bed::build(&c.items, Measure::Utf8)?;
        let whole = (0, bed.n() - 1);
        let first = bed.m.asg.len();
        let mut deep = false;
        for r in &c.rules {
            for _ in 0..r.times {
                let Ok(hits) = (if r.two_way { bed.m.find_two_way(whole, &r.m) } else { bed.m.find_by(whole, &r.m) }) else { return Ok(()) };
                if hits.len() * r.becomes.len() + bed.m.asg.len() > 700 {
                    return Ok(());
                }
                let ty = r.becomes[0].ty();
                let line = bed.line.take().unwrap();
                let line = with_ty!(ty, T => line.run(&FnR::<T, _>(|sel: LLSelection| {
                    let found = if r.two_way { sel.find_by_forwards_and_backwards(&Dyn(&r.m)) } else { sel.find_by(&Dyn(&r.m)) };
                    let put = found.into_iter().flat_map(|(s, _)| r.becomes.iter().map(move |v| (s.clone(), T::from_val(v))));
                    if r.finish_with {
                        put.finish_with(|v| v)
                    } else {
                        put.map(|(s, v)| s.finish_with_attr(v)).collect()
                    }
                }, std::marker::PhantomData)));
                bed.line = Some(line);
                deep |= !hits.is_empty() && reads_own(&r.m) && bed.m.asg.len() > first;
                for (sp, _) in hits {
                    for v in &r.becomes {
                        bed.m.asg.push((sp.0, sp.1, v.clone()));
                    }
                }
                same_list(&format!("values of type {ty:?} after {r:?}"), &bed.query(ty), &bed.m.query(ty))?;
            }
        }
        for ty in ALL_TY {
            same_list(&format!("values of type {ty:?} after all rules"), &bed.query(ty), &bed.m.query(ty))?;
        }
        ctx.nontrivial_if(deep);
        ctx.label_if(bed.m.asg.len() - first > 50, "over 50 values");
        ctx.label_if(c.rules.iter().any(|r| r.times > 1), "rule applied to its own results");
        Ok(())
    }
}
/// does the matcher need a value of one of the rules' types?
fn reads_own(m: &M) -> bool {
    let ty = |t: &Ty| matches!(t, Ty::A | Ty::B | Ty::S | Ty::P | Ty::Z);
    match m {
        M::Attr(t) | M::HasAny(t, _) => ty(t),
        M::Eq(v) => ty(&v.ty()),
        M::Text | M::White => false,
        M::Seq2(p) | M::All2(p) => p.iter().any(reads_own),
        M::Seq3(p) | M::All3(p) => p.iter().any(reads_own),
        M::Any2(p) => p.iter().all(reads_own),
        M::Any3(p) => p.iter().all(reads_own),
    }
}
