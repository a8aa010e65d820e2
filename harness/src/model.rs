//! The reference model: a line is its tokens plus one ordered list of (start, end, value)
//! assignments; everything else is recomputed naively from that list.
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum TagK {
    NATN,
    PUNC,
    SYMB,
    SPACE,
    WORD,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum KwK {
    ConditionStart,
    Then,
    And,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Val {
    A(u8),
    B(u8),
    S(String),
    Ch(char),
    Tag(TagK),
    Kw(KwK),
    Z,
    /// its equality is coarser than identity, and one class in four is not even equal to itself
    P(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Ty {
    A,
    B,
    S,
    Ch,
    Tag,
    Kw,
    Z,
    P,
}
pub const ALL_TY: [Ty; 8] = [Ty::A, Ty::B, Ty::S, Ty::Ch, Ty::Tag, Ty::Kw, Ty::Z, Ty::P];
/// equality as the user's type defines it
pub fn val_eq(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::P(a), Val::P(b)) => a % 4 == b % 4 && a % 4 != 3,
        _ => a == b,
    }
}

impl Val {
    pub fn ty(&self) -> Ty {
        match self {
            Val::A(_) => Ty::A,
            Val::B(_) => Ty::B,
            Val::S(_) => Ty::S,
            Val::Ch(_) => Ty::Ch,
            Val::Tag(_) => Ty::Tag,
            Val::Kw(_) => Ty::Kw,
            Val::Z => Ty::Z,
            Val::P(_) => Ty::P,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    Text(String, TagK),
    Value,
}

/// Matcher expressions, nested at will.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum M {
    Attr(Ty),
    Eq(Val),
    HasAny(Ty, Vec<Val>),
    Text,
    White,
    Seq2(Box<[M; 2]>),
    Seq3(Box<[M; 3]>),
    All2(Box<[M; 2]>),
    All3(Box<[M; 3]>),
    Any2(Box<[M; 2]>),
    Any3(Box<[M; 3]>),
}

/// What a matcher hands out.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Out {
    Unit,
    V(Val),
    T(String),
    Tup(Vec<Out>),
    Alt(u8, Box<Out>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dir {
    F,
    B,
}

pub type Span = (usize, usize);

#[derive(Clone, Debug)]
pub struct MLine {
    pub toks: Vec<Tok>,
    /// only ever added to
    pub asg: Vec<(usize, usize, Val)>,
    /// token positions (start, end)
    pub pos: Vec<Span>,
    /// derived from the first so many entries of asg
    cache: RefCell<(usize, HashMap<Ty, Rc<PerType>>)>,
}
#[derive(Debug, Default)]
struct PerType {
    /// spans in order of their first value
    spans: Vec<(Span, Vec<Val>)>,
    by_start: HashMap<usize, Vec<usize>>,
    by_end: HashMap<usize, Vec<usize>>,
}

pub struct TooBig;
pub type R<T> = Result<T, TooBig>;
const CAP: usize = 6000;

impl MLine {
    pub fn len(&self) -> usize {
        self.toks.len()
    }
    pub fn new(toks: Vec<Tok>, asg: Vec<(usize, usize, Val)>, pos: Vec<Span>) -> Self {
        MLine { toks, asg, pos, cache: RefCell::default() }
    }
    fn of_type(&self, ty: Ty) -> Rc<PerType> {
        let mut c = self.cache.borrow_mut();
        if c.0 != self.asg.len() {
            c.0 = self.asg.len();
            c.1.clear();
        }
        c.1.entry(ty)
            .or_insert_with(|| {
                let mut p = PerType::default();
                let mut at: HashMap<Span, usize> = HashMap::new();
                for (s, e, v) in self.asg.iter().filter(|a| a.2.ty() == ty) {
                    let k = *at.entry((*s, *e)).or_insert_with(|| {
                        p.spans.push(((*s, *e), vec![]));
                        p.by_start.entry(*s).or_default().push(p.spans.len() - 1);
                        p.by_end.entry(*e).or_default().push(p.spans.len() - 1);
                        p.spans.len() - 1
                    });
                    p.spans[k].1.push(v.clone());
                }
                Rc::new(p)
            })
            .clone()
    }
    /// (span, text, values) of a type: spans in order of their first value
    pub fn query(&self, ty: Ty) -> Vec<(Span, String, Vec<Val>)> {
        self.of_type(ty).spans.iter().map(|(s, vs)| (*s, self.text(s.0, s.1), vs.clone())).collect()
    }
    pub fn text(&self, s: usize, e: usize) -> String {
        self.toks[s..=e]
            .iter()
            .map(|t| match t {
                Tok::Text(t, _) => t.as_str(),
                Tok::Value => "",
            })
            .collect()
    }
    /// values of type `ty` whose span starts (F) / ends (B) at i, with the other end
    fn adjoining(&self, ty: Ty, d: Dir, i: usize) -> Vec<(Val, usize)> {
        let p = self.of_type(ty);
        let at = if d == Dir::F { &p.by_start } else { &p.by_end };
        let mut out = vec![];
        for k in at.get(&i).into_iter().flatten() {
            let (sp, vs) = &p.spans[*k];
            let to = if d == Dir::F { sp.1 } else { sp.0 };
            out.extend(vs.iter().map(|v| (v.clone(), to)));
        }
        out
    }
    fn next(&self, d: Dir, to: usize) -> Option<usize> {
        match d {
            Dir::F => (to + 1 < self.len()).then_some(to + 1),
            Dir::B => to.checked_sub(1),
        }
    }
    pub fn eval(&self, m: &M, d: Dir, i: usize) -> R<Vec<(Out, usize)>> {
        let r = match m {
            M::Attr(ty) => self.adjoining(*ty, d, i).into_iter().map(|(v, t)| (Out::V(v), t)).collect(),
            M::Eq(v) => self.eval_eq(v, d, i),
            M::White => self.eval_eq(&Val::Tag(TagK::SPACE), d, i),
            M::HasAny(ty, set) => self
                .adjoining(*ty, Dir::F, i)
                .into_iter()
                .filter(|(v, t)| *t == i && set.iter().any(|w| val_eq(v, w)))
                .map(|(v, t)| (Out::V(v), t))
                .collect(),
            M::Text => match &self.toks[i] {
                Tok::Text(t, _) => vec![(Out::T(t.clone()), i)],
                Tok::Value => vec![],
            },
            M::Seq2(p) => self.eval_seq(&p[..], d, i)?,
            M::Seq3(p) => self.eval_seq(&p[..], d, i)?,
            M::All2(p) => self.eval_all(&p[..], d, i)?,
            M::All3(p) => self.eval_all(&p[..], d, i)?,
            M::Any2(p) => self.eval_any(&p[..], d, i)?,
            M::Any3(p) => self.eval_any(&p[..], d, i)?,
        };
        if r.len() > CAP {
            return Err(TooBig);
        }
        Ok(r)
    }
    fn eval_eq(&self, v: &Val, d: Dir, i: usize) -> Vec<(Out, usize)> {
        self.adjoining(v.ty(), d, i)
            .into_iter()
            .filter(|(x, _)| val_eq(x, v))
            .map(|(_, t)| (Out::Unit, t))
            .collect()
    }
    fn eval_seq(&self, parts: &[M], d: Dir, i: usize) -> R<Vec<(Out, usize)>> {
        // partial chains: outs so far, and where the next part has to start
        let mut chains: Vec<(Vec<Out>, Option<usize>, usize)> = vec![(vec![], Some(i), i)];
        for p in parts {
            let mut nxt = vec![];
            for (outs, from, _) in chains {
                let Some(from) = from else { continue };
                for (o, to) in self.eval(p, d, from)? {
                    let mut outs = outs.clone();
                    outs.push(o);
                    nxt.push((outs, self.next(d, to), to));
                }
                if nxt.len() > CAP {
                    return Err(TooBig);
                }
            }
            chains = nxt;
        }
        Ok(chains.into_iter().map(|(o, _, to)| (Out::Tup(o), to)).collect())
    }
    fn eval_all(&self, parts: &[M], d: Dir, i: usize) -> R<Vec<(Out, usize)>> {
        let mut acc: Option<Vec<(Vec<Out>, usize)>> = None;
        for p in parts {
            let hits = self.eval(p, d, i)?;
            acc = Some(match acc {
                None => hits.into_iter().map(|(o, t)| (vec![o], t)).collect(),
                Some(acc) => {
                    let mut n = vec![];
                    for (os, t) in acc {
                        for (o, t2) in &hits {
                            if t == *t2 {
                                let mut os = os.clone();
                                os.push(o.clone());
                                n.push((os, t));
                            }
                        }
                        if n.len() > CAP {
                            return Err(TooBig);
                        }
                    }
                    n
                }
            });
        }
        Ok(acc.unwrap().into_iter().map(|(o, t)| (Out::Tup(o), t)).collect())
    }
    fn eval_any(&self, parts: &[M], d: Dir, i: usize) -> R<Vec<(Out, usize)>> {
        for (k, p) in parts.iter().enumerate() {
            let hits = self.eval(p, d, i)?;
            if !hits.is_empty() {
                return Ok(hits.into_iter().map(|(o, t)| (Out::Alt(k as u8, Box::new(o)), t)).collect());
            }
        }
        Ok(vec![])
    }

    // ---- selection operations on plain intervals ----
    pub fn find_by(&self, sel: Span, m: &M) -> R<Vec<(Span, Out)>> {
        let mut r = vec![];
        for i in sel.0..=sel.1 {
            for (o, to) in self.eval(m, Dir::F, i)? {
                r.push(((i, to), o));
            }
            if r.len() > CAP {
                return Err(TooBig);
            }
        }
        Ok(r)
    }
    pub fn find_by_full(&self, m: &M) -> R<Vec<(Span, Out)>> {
        if self.len() == 0 {
            return Ok(vec![]);
        }
        self.find_by((0, self.len() - 1), m)
    }
    pub fn find_two_way(&self, sel: Span, m: &M) -> R<Vec<(Span, Out)>> {
        let mut r = vec![];
        for i in sel.0..=sel.1 {
            for (o, to) in self.eval(m, Dir::F, i)? {
                r.push(((i, to), o));
            }
            for (o, to) in self.eval(m, Dir::B, i)? {
                r.push(((to, i), o));
            }
            if r.len() > CAP {
                return Err(TooBig);
            }
        }
        Ok(r)
    }
    pub fn grow_f(&self, sel: Span, m: &M) -> R<Vec<(Span, Out)>> {
        if sel.1 + 1 >= self.len() {
            return Ok(vec![]);
        }
        Ok(self.eval(m, Dir::F, sel.1 + 1)?.into_iter().map(|(o, to)| ((sel.0, to), o)).collect())
    }
    pub fn grow_b(&self, sel: Span, m: &M) -> R<Vec<(Span, Out)>> {
        if sel.0 == 0 {
            return Ok(vec![]);
        }
        Ok(self.eval(m, Dir::B, sel.0 - 1)?.into_iter().map(|(o, to)| ((to, sel.1), o)).collect())
    }
    pub fn split_by(&self, sel: Span, m: &M) -> R<Vec<Span>> {
        let mut covered = vec![false; self.len()];
        for ((s, e), _) in self.find_by(sel, m)? {
            covered[s..=e].iter_mut().for_each(|c| *c = true);
        }
        Ok(runs(sel, |i| !covered[i]))
    }
    pub fn trim(&self, sel: Span, m: &M, start: bool, end: bool) -> R<Option<Span>> {
        // the set of tokens left over, as a range of i64 to allow emptiness
        let (mut s, mut e) = (sel.0 as i64, sel.1 as i64);
        if start {
            if let Some((_, to)) = self.eval(m, Dir::F, sel.0)?.first() {
                s = *to as i64 + 1;
            }
        }
        if end {
            if let Some((_, to)) = self.eval(m, Dir::B, sel.1)?.first() {
                e = *to as i64 - 1;
            }
        }
        Ok(if s <= e { Some((s as usize, e as usize)) } else { None })
    }
    pub fn split_with(&self, sel: Span, other: Span) -> [Option<Span>; 2] {
        let before: Vec<usize> = (sel.0..=sel.1).filter(|i| *i < other.0).collect();
        let after: Vec<usize> = (sel.0..=sel.1).filter(|i| *i > other.1).collect();
        let f = |v: Vec<usize>| Some((*v.first()?, *v.last()?));
        [f(before), f(after)]
    }
    pub fn after(&self, sel: Span) -> Option<Span> {
        (sel.1 + 1 < self.len()).then(|| (sel.1 + 1, self.len() - 1))
    }
}

/// maximal runs of indices in `sel` satisfying `f`
pub fn runs(sel: Span, f: impl Fn(usize) -> bool) -> Vec<Span> {
    let mut out: Vec<Span> = vec![];
    for i in sel.0..=sel.1 {
        if f(i) {
            match out.last_mut() {
                Some(l) if l.1 + 1 == i => l.1 = i,
                _ => out.push((i, i)),
            }
        }
    }
    out
}
