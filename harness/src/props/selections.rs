//! C12 and C14: several selections of one line, and histories of operations.
use super::{same, same_list};
use crate::dict;
use crate::gen;
use crate::model::*;
use crate::props::engine::{any_matcher, dense_scene};
use crate::real::*;
use crate::runner::*;
use layered_nlp::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

/// A span and one related to it: its start, its end or both moved by a distance that is often a round one.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Near {
    span: (u16, u16),
    by: usize,
    how: u8,
}
fn near() -> BoxedStrategy<Near> {
    let by = prop_oneof![2 => 0usize..4, 2 => (0u32..12).prop_map(|k| 1usize << k), 1 => dict::count(1, 2000)];
    ((any::<u16>(), any::<u16>()), by, 0u8..5).prop_map(|(span, by, how)| Near { span, by, how }).boxed()
}
impl Near {
    fn spans(&self, bed: &Bed) -> (Span, Option<Span>) {
        let (s, e) = bed.span(self.span.0, self.span.1);
        let n = bed.n();
        let by = self.by;
        let o = match self.how {
            0 => (s, e + by),
            1 => (s + by, e),
            2 => (s + by, e + by),
            3 => (e + 1, e + 1 + by),
            _ => (s, s + by),
        };
        ((s, e), (o.0 <= o.1 && o.1 < n).then(|| bed.span_exact(o)).flatten())
    }
}

pub struct C12;
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct TwoSel {
    scene: Scene,
    a: (u16, u16),
    b: (u16, u16),
    near: Option<Near>,
}
impl Prop for C12 {
    const ID: &'static str = "C12";
    const RULE: &'static str = "the two selections differ";
    type Case = TwoSel;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 1_000_000 } else { 40_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<TwoSel> {
        let idx = || (prop_oneof![any::<u16>(), 0u16..6], prop_oneof![any::<u16>(), 0u16..6]);
        (prop_oneof![gen::scene(gen::measure()), dense_scene()], idx(), idx(), proptest::option::of(near())).prop_map(|(scene, a, b, near)| TwoSel { scene, a, b, near }).boxed()
    }
    fn check(&self, c: &TwoSel, ctx: &mut Ctx) -> Result<(), String> {
        let mut bed = Bed::from_scene(&c.scene)?;
        let (mut a, mut b) = (bed.span(c.a.0, c.a.1), bed.span(c.b.0, c.b.1));
        if let Some((x, Some(y))) = c.near.as_ref().map(|n| n.spans(&bed)) {
            (a, b) = if c.a.0 % 2 == 0 { (x, y) } else { (y, x) };
        }
        let other = Bed::from_scene(&c.scene)?;
        let (got, shape) = bed.probe(|bed, full| {
            let pick = bed.selector(&full);
            let (sa, sb) = (pick.get(a), pick.get(b));
            let [l, r] = sa.split_with(&sb);
            let af = sa.after();
            let shape = (l.is_some(), r.is_some(), af.is_some());
            (l.into_iter().chain(r).chain(af).collect(), shape)
        })?;
        let [l, r] = bed.m.split_with(a, b);
        let af = bed.m.after(a);
        same(&format!("which parts {a:?}.split_with({b:?}) and {a:?}.after() have"), &shape, &(l.is_some(), r.is_some(), af.is_some()))?;
        same(&format!("{a:?}.split_with({b:?}) and {a:?}.after()"), &got, &l.into_iter().chain(r).chain(af).collect())?;
        // another line, even an equal one, is refused
        let refused = {
            let mine = LLSelection::from_line(Rc::new(bed.line.take().unwrap())).unwrap();
            let theirs = LLSelection::from_line(Rc::new(other.line.unwrap())).unwrap();
            quietly(|| mine.split_with(&theirs).iter().flatten().count()).is_err()
        };
        same("splitting with a selection of another line is refused", &refused, &true)?;
        ctx.nontrivial_if(a != b);
        ctx.label_if(a.1 < b.0 || b.1 < a.0, "disjoint");
        ctx.label_if(a.0 < b.0 && b.1 < a.1, "second inside the first");
        ctx.label_if(b.0 <= a.0 && a.1 <= b.1, "first inside the second");
        ctx.label_if((a.0 < b.0 && b.0 <= a.1 && a.1 < b.1) || (b.0 < a.0 && a.0 <= b.1 && b.1 < a.1), "partial overlap");
        ctx.label_if(b.0 == 0, "second starts the line");
        Ok(())
    }
}

/// the numbers in a text
pub fn numbers(s: &str) -> Vec<u64> {
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|d| d.parse().ok()).collect()
}

// ------------------------------------------------------------ C14
pub struct C14;
#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize, PartialEq, Eq)]
pub enum OpK {
    Find,
    FindFirst,
    TwoWay,
    Split,
    GrowF,
    GrowFirstF,
    GrowB,
    GrowFirstB,
    TrimStart,
    TrimEnd,
    Trim,
    After,
    SplitWith,
    Clone,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Op {
    k: OpK,
    on: u16,
    with: u16,
    m: M,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct History {
    scene: Scene,
    ops: Vec<Op>,
    /// selections to start from, besides the whole line
    near: Vec<Near>,
}
impl Prop for C14 {
    const ID: &'static str = "C14";
    const RULE: &'static str = "at least three operations of the history produced selections, at least one of them from a selection that is not the whole line";
    type Case = History;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 480_000 } else { 20_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<History> {
        use OpK::*;
        let k = proptest::sample::select(vec![Find, FindFirst, TwoWay, Split, GrowF, GrowFirstF, GrowB, GrowFirstB, TrimStart, TrimEnd, Trim, After, SplitWith, SplitWith, Clone]);
        let op = (k, any::<u16>(), any::<u16>(), any_matcher()).prop_map(|(k, on, with, m)| Op { k, on, with, m });
        let empty = Just(Scene { items: vec![], layers: vec![], measure: Measure::One });
        (prop_oneof![10 => gen::scene(gen::measure()), 6 => dense_scene(), 1 => empty], vec(op, 1..14), vec(near(), 0..4)).prop_map(|(scene, ops, near)| History { scene, ops, near }).boxed()
    }
    fn check(&self, c: &History, ctx: &mut Ctx) -> Result<(), String> {
        let mut bed = Bed::from_scene(&c.scene)?;
        if bed.n() == 0 {
            same("selection of a line without tokens", &LLSelection::from_line(Rc::new(bed.line.take().unwrap())).is_none(), &true)?;
            ctx.label("empty line");
            return Ok(());
        }
        let n = bed.n();
        const POOL: usize = 90;
        // the history on plain intervals first: which op is carried out on what, and what it yields
        let mut pool: Vec<Span> = vec![(0, n - 1)];
        for x in &c.near {
            let (a, b) = x.spans(&bed);
            pool.push(a);
            pool.extend(b);
        }
        let start = pool.clone();
        let mut plan: Vec<(usize, usize, Vec<Span>)> = vec![];
        let mut productive = 0;
        let mut inner = false;
        for op in &c.ops {
            let (on, with) = (op.on as usize % pool.len(), op.with as usize % pool.len());
            let (s, m) = (pool[on], &op.m);
            let spans = |h: R<Vec<(Span, Out)>>| h.map(|h| h.into_iter().map(|x| x.0).collect::<Vec<Span>>());
            let first = |h: R<Vec<(Span, Out)>>| h.map(|h| h.into_iter().map(|x| x.0).take(1).collect::<Vec<Span>>());
            let r: R<Vec<Span>> = match op.k {
                OpK::Find => spans(bed.m.find_by(s, m)),
                OpK::FindFirst => first(bed.m.find_by(s, m)),
                OpK::TwoWay => spans(bed.m.find_two_way(s, m)),
                OpK::Split => bed.m.split_by(s, m),
                OpK::GrowF => spans(bed.m.grow_f(s, m)),
                OpK::GrowFirstF => first(bed.m.grow_f(s, m)),
                OpK::GrowB => spans(bed.m.grow_b(s, m)),
                OpK::GrowFirstB => first(bed.m.grow_b(s, m)),
                OpK::TrimStart => bed.m.trim(s, m, true, false).map(|o| o.into_iter().collect()),
                OpK::TrimEnd => bed.m.trim(s, m, false, true).map(|o| o.into_iter().collect()),
                OpK::Trim => bed.m.trim(s, m, true, true).map(|o| o.into_iter().collect()),
                OpK::After => Ok(bed.m.after(s).into_iter().collect()),
                OpK::SplitWith => Ok(bed.m.split_with(s, pool[with]).into_iter().flatten().collect()),
                OpK::Clone => Ok(vec![s]),
            };
            let Ok(r) = r else { return Ok(()) };
            if !r.is_empty() {
                productive += 1;
                inner |= s != (0, n - 1);
            }
            pool.extend(r.iter().take(POOL.saturating_sub(pool.len())));
            plan.push((on, with, r));
        }
        let (spans, outcome) = bed.probe(|bed, full| {
            let mut sels = vec![full.clone()];
            if start.len() > 1 {
                let pick = bed.selector(&full);
                sels.extend(start[1..].iter().map(|s| pick.get(*s)));
            }
            let mut outcome: Result<(), String> = Ok(());
            for (op, (on, with, want)) in c.ops.iter().zip(&plan) {
                let (s, m) = (sels[*on].clone(), Dyn(&op.m));
                let hits = |v: Vec<(LLSelection, Oid)>| v.into_iter().map(|x| x.0).collect::<Vec<_>>();
                let r: Vec<LLSelection> = match op.k {
                    OpK::Find => hits(s.find_by(&m)),
                    OpK::FindFirst => s.find_first_by(&m).into_iter().map(|x| x.0).collect(),
                    OpK::TwoWay => hits(s.find_by_forwards_and_backwards(&m)),
                    OpK::Split => s.split_by(&m),
                    OpK::GrowF => hits(s.match_forwards(&m)),
                    OpK::GrowFirstF => s.match_first_forwards(&m).into_iter().map(|x| x.0).collect(),
                    OpK::GrowB => hits(s.match_backwards(&m)),
                    OpK::GrowFirstB => s.match_first_backwards(&m).into_iter().map(|x| x.0).collect(),
                    OpK::TrimStart => s.trim_start(&m).into_iter().collect(),
                    OpK::TrimEnd => s.trim_end(&m).into_iter().collect(),
                    OpK::Trim => s.trim(&m).into_iter().collect(),
                    OpK::After => s.after().into_iter().collect(),
                    OpK::SplitWith => s.split_with(&sels[*with]).into_iter().flatten().collect(),
                    OpK::Clone => vec![s.clone()],
                };
                if r.len() != want.len() {
                    outcome = Err(format!("{:?} gives {} selections, expected {want:?}", op, r.len()));
                    break;
                }
                let room = POOL.saturating_sub(sels.len());
                sels.extend(r.into_iter().take(room));
            }
            // equality: same tokens, and nothing else
            if outcome.is_ok() {
                'o: for i in 0..sels.len() {
                    for j in 0..sels.len() {
                        let (eq, want) = (sels[i] == sels[j], pool[i] == pool[j]);
                        if eq != want || (sels[i] != sels[j]) == want {
                            outcome = Err(format!("selections expected to be {:?} and {:?} compare {}", pool[i], pool[j], if eq { "equal" } else { "unequal" }));
                            break 'o;
                        }
                    }
                }
            }
            // what they print as: whatever the wording, it names the first and the last token
            if outcome.is_ok() {
                for (sel, (a, b)) in sels.iter().zip(&pool).take(16) {
                    let printed = format!("{sel:?}");
                    if numbers(&printed) != [*a as u64, *b as u64] {
                        outcome = Err(format!("the selection of tokens {a} to {b} prints as {printed}"));
                    }
                }
            }
            (sels, outcome)
        })?;
        // where each selection really is, by the value finished from it
        let k = spans.len();
        same_list("selections reached by the history", &spans, &pool[..k])?;
        outcome?;
        // the whole line, by from_line; a line equal in everything is still another line
        let other = Bed::from_scene(&c.scene)?;
        let rc = Rc::new(bed.line.take().unwrap());
        let (Some(x), Some(y)) = (LLSelection::from_line(rc.clone()), LLSelection::from_line(rc)) else { return fail("no selection of a line with tokens") };
        same("two selections of the whole line are equal", &(x == y), &true)?;
        let z = LLSelection::from_line(Rc::new(other.line.unwrap())).unwrap();
        same("selections of two lines are equal", &(x == z), &false)?;
        same("something follows the selection of the whole line", &x.after().is_none(), &true)?;
        same("the whole line holds every text token", &x.find_by(&x::token_text()).len(), &bed.m.toks.iter().filter(|t| **t != Tok::Value).count())?;
        ctx.nontrivial_if(productive >= 3 && inner);
        ctx.label_if(pool.len() > 20, "over 20 selections");
        ctx.label_if(c.ops.len() > 8, "over 8 operations");
        Ok(())
    }
}
