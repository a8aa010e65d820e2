//! C16 to C23: the recognisers shipped with the library.
use super::{same, same_list};
use crate::dict;
use crate::gen::{self, *};
use crate::model::*;
use crate::props::tokens::{cased, n_sequences, nth_scalar, nth_sequence, wild_text, N_SCALARS};
use crate::real::*;
use crate::runner::*;
use layered_amount::{Amount, AmountResolver};
use layered_clauses::{Clause, ClauseKeyword, ClauseKeywordResolver, ClauseResolver};
use layered_nlp::*;
use layered_part_of_speech::{POSTagResolver, Tag};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use rust_decimal::Decimal;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;
use wiktionary_part_of_speech_extract::ENGLISH_TAG_LOOKUP;

pub(super) fn text_item(text: String) -> Item {
    Item::Text { text, attrs: vec![], built: 0 }
}
/// random letter case, character by character
pub(super) fn recase(s: &str, bits: u32) -> String {
    s.chars()
        .enumerate()
        .flat_map(|(i, c)| {
            let v: Vec<char> = match bits >> (2 * (i % 16)) & 3 {
                0 | 1 => vec![c],
                2 => c.to_uppercase().collect(),
                _ => c.to_lowercase().collect(),
            };
            v
        })
        .collect()
}
pub(super) fn spaced(words: BoxedStrategy<String>, max: usize) -> BoxedStrategy<String> {
    let sep = prop_oneof![6 => Just(" "), 1 => Just(""), 1 => Just(", "), 1 => Just("\t"), 1 => Just(". "), 1 => Just("  ")];
    vec((words, sep), 1..=max).prop_map(|v| v.into_iter().map(|(w, s)| format!("{w}{s}")).collect::<String>()).prop_filter("non-empty", |s| !s.is_empty()).boxed()
}
/// lines of some words, now and then of very many
fn lines_of(words: BoxedStrategy<String>, usual: usize) -> BoxedStrategy<String> {
    let many = (vec(words.clone(), 1..6), 270usize..900).prop_map(|(ws, n)| (0..n).map(|i| format!("{} ", ws[i % ws.len()])).collect::<String>());
    let named = (vec(words.clone(), 1..4), dict::count(1, 400)).prop_map(|(ws, n)| (0..n).map(|i| format!("{} ", ws[i % ws.len()])).collect::<String>());
    prop_oneof![500 => spaced(words.clone(), usual), 25 => spaced(words, 120), 1 => many, 3 => named].boxed()
}
/// Lines the same recogniser object is run on before the one that is looked at.
const WARM: &[&str] = &[
    "If it rains", "open the door then", "when a, and b. Then c!", "x", "1,000.", "12", "1.5 and 3,", "Slack SLACK rain don't", " ", "1'000'240.00 2,5", "79228162514264337593543950336", "then", "if if and and, then 5 5",
    "stay, if it rains", "a, when b", "if a, if b", "then a", "a, b then", "x and", "5 and if 6", "1,2 if 3.", "if a then b", ", ,", "when", "it rains and if",
];
fn warm() -> BoxedStrategy<Vec<String>> {
    let one = prop_oneof![1 => spaced(dict::word(), 3), 3 => select(WARM).prop_map(|s| s.to_string()), 1 => pipeline_text()];
    prop_oneof![2 => Just(vec![]), 2 => vec(one, 1..4)].boxed()
}
fn warm_up<R: Resolver>(r: &R, warm: &[String]) {
    for k in warm {
        create_line_from_string(k).run(&ClauseKeywordResolver::new(&["if", "when"], &["and"], &["then"])).run(r);
    }
}
/// texts and custom items without attributes
fn texts_and_customs(text: BoxedStrategy<String>, max: usize) -> BoxedStrategy<Vec<Item>> {
    plain_items(text, max)
}

// ------------------------------------------------------------ C16
pub struct C16;
const LOOKUP_WORDS: &[&str] = &[
    "slack", "Slack", "SLACK", "sLaCk", "a", "A", "é", "É", "e\u{301}", "straße", "STRASSE", "strasse", "ΣΑΣ", "σας", "σασ", "Σ", "ς", "σ", "İstanbul", "i̇stanbul", "istanbul", "\u{212A}", "k", "K", "Ǆ", "ǅ", "ǆ",
    "ПРИВЕТ", "привет", "ﬁne", "fine", "don't", "DON'T", "1", "10", "007", ",", " ", "$", "😀", "New York", "new york", "日本", "Ⅷ", "ⅷ", "", "İ", "ẞ", "ß", "  ", "example.com", "Example.com", "ı", "I", "i",
    "pneumonoultramicroscopicsilicovolcanoconiosis", "Donaudampfschiffahrtselektrizitätenhauptbetriebswerkbauunterbeamtengesellschaft", "ПРЕВЫСОКОМНОГОРАССМОТРИТЕЛЬСТВУЮЩИЙпревысокомногорассмотрительствующий", "12345678901234567890123456789012345678901234567890",
    "llanfairpwllgwyngyllgogerychwyrndrobwllllantysiliogogogochLLANFAIRPWLLGWYNGYLLGOGERYCHWYRNDROBWLLLLANTYSILIOGOGOGOCHllanfairpwllgwyngyllgogerychwyrndrobwllllantysiliogogogochLLANFAIRPWLLGWYNGYLLGOGERYCHWYRNDROBWLLLLANTYSILIOGOGOGOCHllanfairpwllgwyngyllgogerychwyrndrobwllllantysiliogogogoch",
];
const ARR_SIZES: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 33];
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct LookupCase {
    items: Vec<Item>,
    /// 0 sensitive, 1 insensitive, 2 insensitive from an array
    mode: u8,
    keys: Vec<(String, Vec<u8>)>,
    warm: Vec<String>,
}
impl Prop for C16 {
    const ID: &'static str = "C16";
    const RULE: &'static str = "some token receives a value and some text token receives none";
    type Case = LookupCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 800_000 } else { 20_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<LookupCase> {
        // keys first, so that the text can be made of them in other letter cases
        let key = prop_oneof![48 => select(LOOKUP_WORDS).prop_map(|s| s.to_string()), 1 => gen::long_word(), 8 => dict::word(), 4 => gen::any_piece(), 4 => "[a-zA-Z]{1,12}", 8 => gen::mutated(select(LOOKUP_WORDS).prop_map(|s| s.to_string()).boxed())];
        let keys = (key, prop_oneof![3 => vec(0u8..5, 1..2), 2 => vec(0u8..5, 0..5), 1 => vec(any::<u8>(), 5..40)]);
        let keys = prop_oneof![8 => vec(keys.clone(), 0..7), 1 => vec(keys, 7..60)];
        (keys, 0u8..3)
            .prop_flat_map(|(keys, mode)| {
                let ks: Vec<String> = keys.iter().map(|k| k.0.clone()).collect();
                let like = if ks.is_empty() { Just("x".to_string()).boxed() } else { gen::mutated(select(ks.clone()).boxed()) };
                let word = prop_oneof![
                    1 => like,
                    5 => (any::<prop::sample::Index>(), any::<u32>()).prop_map(move |(i, bits)| if ks.is_empty() { "x".to_string() } else { recase(&ks[i.index(ks.len())], bits) }),
                    2 => (select(LOOKUP_WORDS), any::<u32>()).prop_map(|(w, bits)| recase(w, bits)),
                    1 => gen::any_piece(),
                ]
                .boxed();
                (texts_and_customs(lines_of(word, 10), 3), Just(keys), Just(mode), warm())
            })
            .prop_map(|(items, keys, mode, warm)| LookupCase { items, mode, keys, warm })
            .boxed()
    }
    fn enum_len(&self, _: Tier) -> u64 {
        cased().len() as u64 * 36
    }
    fn enum_case(&self, i: u64) -> LookupCase {
        // every character with letter case, in four places of a word, listed in three forms, in the three modes
        let c = cased()[(i / 36) as usize];
        let w = [format!("{c}"), format!("x{c}"), format!("{c}x"), format!("x{c}y")][(i % 4) as usize].clone();
        let key = [w.clone(), w.to_lowercase(), w.to_uppercase()][(i / 4 % 3) as usize].clone();
        LookupCase { items: vec![text_item(format!("{w} {} {} z", w.to_lowercase(), w.to_uppercase()))], mode: (i / 12 % 3) as u8, keys: vec![(key, vec![1]), ("q".into(), vec![2])], warm: vec![] }
    }
    fn check(&self, c: &LookupCase, ctx: &mut Ctx) -> Result<(), String> {
        let bed = Bed::build(&c.items, Measure::Utf8)?;
        // the listed entries, in order
        let mut entries: Vec<(&'static str, Vec<u8>)> = vec![];
        for (k, vs) in &c.keys {
            let k = dict::intern(k);
            if c.mode == 2 {
                entries.extend(vs.iter().take(1).map(|v| (k, vec![*v])));
            } else if !entries.iter().any(|e| e.0 == k) {
                entries.push((k, vs.clone()));
            }
        }
        if c.mode == 2 {
            let n = ARR_SIZES.iter().copied().filter(|n| *n <= entries.len()).max().unwrap();
            entries.truncate(n);
        }
        let map: HashMap<String, Vec<A>> = if c.mode == 2 { HashMap::new() } else { entries.iter().map(|(k, v)| (k.to_string(), v.iter().map(|x| A(*x)).collect())).collect() };
        let arr = |i: usize| (entries[i].0, A(entries[i].1[0]));
        let r = match c.mode {
            0 => TextMatchAssignResolver::new(map),
            1 => TextMatchAssignResolver::new_case_insensitive(map),
            _ => {
                macro_rules! sized {
                    ($($n:literal)*) => { match entries.len() { $( $n => TextMatchAssignResolver::new_case_insensitive_str_arr(std::array::from_fn::<_, $n, _>(arr)), )* _ => unreachable!() } };
                }
                sized!(0 1 2 3 4 5 6 7 8 9 12 17 33)
            }
        };
        warm_up(&r, &c.warm);
        let line = bed.line.unwrap().run(&r);
        let mut got = real_query(&line, Ty::A);
        let mut want: Vec<(Span, String, Vec<Val>)> = vec![];
        let mut merged = false;
        let mut missed = false;
        for (i, t) in bed.m.toks.iter().enumerate() {
            let Tok::Text(text, _) = t else { continue };
            let hits: Vec<&(&str, Vec<u8>)> = entries
                .iter()
                .filter(|(k, _)| if c.mode == 0 { *k == text.as_str() } else { k.to_lowercase() == text.to_lowercase() })
                .collect();
            merged |= c.mode == 1 && hits.len() > 1;
            let vs: Vec<Val> = hits.iter().flat_map(|h| h.1.iter().map(|v| Val::A(*v))).collect();
            missed |= vs.is_empty();
            if !vs.is_empty() {
                want.push(((i, i), text.clone(), vs));
            }
        }
        if merged {
            // the keys come out of a hash map: which of two coinciding keys goes first is not said
            for q in got.iter_mut().chain(&mut want) {
                q.2.sort();
            }
        }
        same_list("values of the text lookup", &got, &want)?;
        same("other types", &real_query(&line, Ty::B).len(), &0)?;
        ctx.nontrivial_if(!want.is_empty() && missed);
        ctx.label(["case sensitive", "case insensitive", "case insensitive from array"][c.mode as usize]);
        ctx.label_if(merged, "coinciding keys");
        ctx.label_if(want.iter().any(|w| w.2.len() > 1), "several values");
        ctx.label_if(want.iter().any(|w| !w.1.is_ascii()), "non-ascii hit");
        Ok(())
    }
}

// ------------------------------------------------------------ C17
pub struct C17;
const AM_SYMS: &[&str] = &["1", "05", ",", ".", " ", "x"];
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct AmountCase {
    items: Vec<Item>,
    delims: Vec<char>,
    decimal: char,
    warm: Vec<String>,
    /// a decimal to make an amount of: mantissa and scale
    made: (i64, u32, u8),
}
pub(super) const DELIMS: &[char] = &[',', '.', '\'', ' ', '_', '’', '\u{202f}', '\u{a0}', '·', '-', ';', ':', '٬', '$', 'k', '/'];
/// a delimiter or decimal point
pub(super) fn any_delim() -> BoxedStrategy<char> {
    prop_oneof![8 => select(DELIMS), 1 => dict::chr().prop_map(|c| if c.is_ascii_digit() { ',' } else { c })].boxed()
}
pub(super) fn number_text(delims: Vec<char>, decimal: char) -> BoxedStrategy<String> {
    let d = move || prop_oneof![4 => select(if delims.is_empty() { vec![','] } else { delims.clone() }), 2 => Just(decimal), 1 => any_delim()];
    let named = dict::count(1, 70).prop_flat_map(|n| vec(proptest::char::range('0', '9'), n)).prop_map(|v| v.into_iter().collect::<String>());
    let digits = prop_oneof![1 => select(dict::dict().nums.clone()).prop_map(|n| n.to_string()), 1 => named, 5 => "[0-9]{1,3}", 2 => "0{1,4}[0-9]{0,2}", 1 => "[0-9]{1,12}", 1 => "[0-9]{20,32}", 1 => select(NUMS).prop_map(|s| s.to_string())];
    let few = vec((d(), digits.clone()), 0..6);
    let many = vec((d(), "[0-9]".boxed()), 6..34);
    let group = (digits, prop_oneof![12 => few.boxed(), 1 => many.boxed()]).prop_map(|(h, t)| {
        let mut s = h;
        for (c, g) in t {
            s.push(c);
            s.push_str(&g);
        }
        s
    });
    let piece = prop_oneof![
        6 => group.clone(),
        2 => (group.clone(), vec(d(), 1..3), group).prop_map(|(a, ds, b)| format!("{a}{}{b}", ds.into_iter().collect::<String>())),
        2 => d().prop_map(|c| c.to_string()),
        1 => Just(" ".to_string()),
        1 => mild_piece(),
    ];
    prop_oneof![24 => vec(piece.clone(), 1..7), 1 => vec(piece, 7..90)].prop_map(|v| v.concat()).boxed()
}
#[derive(Debug, PartialEq, Clone)]
pub(super) struct Am {
    pub(super) span: Span,
    pub(super) value: String,
}
/// the reading of a line by the documented rules, straight from the tokens
pub(super) fn expected_amounts(m: &MLine, delims: &[char], decimal: char, part: Span) -> Vec<Am> {
    let n = m.len();
    let natn = |i: usize| match m.toks.get(i) {
        Some(Tok::Text(s, TagK::NATN)) => Some(s.as_str()),
        _ => None,
    };
    let chars_at = |i: usize| -> Vec<char> { m.asg.iter().filter(|a| a.0 == i && a.1 == i).filter_map(|a| if let Val::Ch(c) = a.2 { Some(c) } else { None }).collect() };
    let is_delim = |i: usize| i < n && chars_at(i).iter().any(|c| delims.contains(c));
    let is_dec = |i: usize| i < n && chars_at(i).contains(&decimal);
    let mut out = vec![];
    let mut i = part.0;
    while i <= part.1 {
        let Some(first) = natn(i) else {
            i += 1;
            continue;
        };
        let mut int = first.to_string();
        let mut frac = String::new();
        let mut last = i;
        let mut consumed = i;
        let mut dangling = false;
        while is_delim(last + 1) {
            match natn(last + 2) {
                Some(d) => {
                    int.push_str(d);
                    last += 2;
                    consumed = last;
                }
                None => {
                    consumed = last + 1;
                    dangling = true;
                    break;
                }
            }
        }
        if !dangling && is_dec(last + 1) {
            match natn(last + 2) {
                Some(d) => {
                    frac.push_str(d);
                    last += 2;
                    consumed = last;
                }
                None => consumed = last + 1,
            }
        }
        if let Some(value) = decimal_text(&int, &frac) {
            out.push(Am { span: (i, last), value });
        }
        i = consumed + 1;
    }
    out
}
/// the canonical writing of int.frac as a Decimal shows it; None if it cannot be represented
fn decimal_text(int: &str, frac: &str) -> Option<String> {
    let int = int.trim_start_matches('0');
    if int.len() + frac.len() <= 28 {
        let int = if int.is_empty() { "0" } else { int };
        return Some(if frac.is_empty() { int.to_string() } else { format!("{int}.{frac}") });
    }
    // at the edge of the representable range: what Decimal itself says
    let t = if frac.is_empty() { format!("0{int}") } else { format!("0{int}.{frac}") };
    t.parse::<Decimal>().ok().map(|d| d.to_string())
}
pub(super) fn real_amounts(line: &LLLine) -> Result<Vec<Am>, String> {
    let mut out = vec![];
    for (span, _, vs) in line.query::<Amount>() {
        if vs.len() != 1 {
            return fail(format!("{} amounts on {span:?}", vs.len()));
        }
        out.push(Am { span, value: vs[0].get_decimal().to_string() });
    }
    Ok(out)
}
fn amount_labels(ctx: &mut Ctx, bed: &MLine, want: &[Am]) {
    ctx.label_if(want.iter().any(|a| a.span.1 > a.span.0 + 1), "several groups");
    ctx.label_if(want.len() > 1, "several amounts");
    ctx.label_if(want.iter().any(|a| a.value.contains('.')), "decimal point");
    let covered: usize = want.iter().map(|a| (a.span.0..=a.span.1).filter(|i| matches!(bed.toks[*i], Tok::Text(_, TagK::NATN))).count()).sum();
    ctx.label_if(covered < bed.toks.iter().filter(|t| matches!(t, Tok::Text(_, TagK::NATN))).count(), "number too large");
    ctx.label_if(bed.toks.windows(2).any(|w| matches!(w, [Tok::Text(_, TagK::NATN), Tok::Text(_, TagK::NATN)])), "adjacent numbers");
}
impl Prop for C17 {
    const ID: &'static str = "C17";
    const RULE: &'static str = "at least one amount of several tokens, or at least two amounts";
    type Case = AmountCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 200_000 } else { 6_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<AmountCase> {
        let conf = prop_oneof![
            2 => Just((vec![',', '\''], '.')),
            2 => Just((vec![' ', '.', '\''], ',')),
            3 => (vec(any_delim(), 0..4), any_delim()),
        ];
        conf.prop_flat_map(|(delims, decimal)| {
            let text = prop_oneof![6 => number_text(delims.clone(), decimal), 1 => any_text(8)].boxed();
            let ch = prop_oneof![any_delim(), Just(decimal)];
            let item = prop_oneof![
                6 => text.clone().prop_map(text_item),
                // a character handed over with the item counts where the item is a single token
                1 => (prop_oneof![2 => text, 3 => select(&["x", "1", "日", "-", "€"][..]).prop_map(|s| s.to_string())], vec(ch.clone(), 0..3)).prop_map(|(text, cs)| Item::Text { text, attrs: cs.into_iter().map(Val::Ch).collect(), built: 1 }),
                1 => (vec(ch, 0..3), any::<bool>()).prop_map(|(cs, bare)| Item::Custom { size: 1, attrs: cs.into_iter().map(Val::Ch).collect(), built: 1, bare }),
            ];
            (vec(item, 1..5), Just(delims), Just(decimal), warm(), (any::<i64>(), any::<u32>(), 0u8..29))
        })
        .prop_map(|(items, delims, decimal, warm, made)| AmountCase { items, delims, decimal, warm, made })
        .boxed()
    }
    fn enum_len(&self, t: Tier) -> u64 {
        2 * N_SCALARS + n_sequences(AM_SYMS.len() as u64, if t == Tier::Quick { 6 } else { 8 })
    }
    fn enum_case(&self, i: u64) -> AmountCase {
        // every character as a delimiter and as the decimal point, then all short sequences of the tokens that matter
        let made = (i as i64, 0, 2);
        if i < 2 * N_SCALARS {
            let c = nth_scalar(i / 2);
            let (delims, decimal) = if i % 2 == 0 { (vec![c], '.') } else { (vec!['_'], c) };
            return AmountCase { items: vec![text_item(format!("1{c}2.5 a{c}3 {c} 4{c}{c}"))], delims, decimal, warm: vec![], made };
        }
        let items = nth_sequence(AM_SYMS.len() as u64, i - 2 * N_SCALARS).into_iter().map(|k| text_item(AM_SYMS[k as usize].to_string())).collect();
        AmountCase { items, delims: vec![',', ' '], decimal: '.', warm: vec![], made }
    }
    fn check(&self, c: &AmountCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut bed = Bed::build(&c.items, Measure::Utf8)?;
        let want = expected_amounts(&bed.m, &c.delims, c.decimal, (0, bed.m.len() - 1));
        let r = AmountResolver::new(c.delims.clone(), c.decimal);
        warm_up(&r, &c.warm);
        let line = bed.line.take().unwrap().run(&r);
        let got = real_amounts(&line)?;
        same_list(&format!("amounts of {:?} with delimiters {:?} and decimal point {:?}", bed.m.text(0, bed.m.len() - 1), c.delims, c.decimal), &got, &want)?;
        // an amount made by hand holds what it was made of, digit for digit
        let d = Decimal::from_i128_with_scale((c.made.0 as i128) << 32 | c.made.1 as i128, c.made.2 as u32);
        for (how, a) in [("new", Amount::new(d)), ("from", Amount::from(d)), ("clone", Amount::new(d).clone())] {
            same(&format!("Amount::{how} of {d}"), &a.get_decimal().to_string(), &d.to_string())?;
        }
        same("Amount::new of an integer", &Amount::new(c.made.0).get_decimal().to_string(), &c.made.0.to_string())?;
        ctx.nontrivial_if(want.len() > 1 || want.iter().any(|a| a.span.0 < a.span.1));
        amount_labels(ctx, &bed.m, &want);
        Ok(())
    }
}

// ------------------------------------------------------------ C18
pub struct C18;
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum PresetCase {
    Number { french: bool, before: u8, int: Vec<(String, u8)>, frac: Option<String>, after: u8 },
    Text { french: bool, text: String },
    Documented(u8),
}
const DOCUMENTED: &[(bool, &str, &str)] = &[
    (false, "1'000'240.00", "1000240.00"),
    (false, "1,000,000", "1000000"),
    (false, "1,00,00", "10000"),
    (false, "1.00,00", "1.0000"),
    (true, "1'000'240,00", "1000240.00"),
    (true, "1 000 000", "1000000"),
    (true, "1,00", "1.00"),
    (true, "1.00,00", "100.00"),
];
const BEFORE: &[&str] = &["", "$", "owe ", "(", "€ ", "x - ", "He said: ", "#", "\n", "“", "a, b. "];
const AFTER: &[&str] = &["", " dollars", "!", ")", "%", "km", " x", "?", "€", "\n", "”", "; y", " - z"];
fn preset(french: bool) -> (AmountResolver, Vec<char>, char) {
    if french {
        (AmountResolver::french(), vec![' ', '.', '\''], ',')
    } else {
        (AmountResolver::english(), vec![',', '\''], '.')
    }
}
impl Prop for C18 {
    const ID: &'static str = "C18";
    const RULE: &'static str = "a documented example, or a number written with at least one delimiter or a decimal point";
    type Case = PresetCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 600_000 } else { 20_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<PresetCase> {
        let number = (any::<bool>(), 0..BEFORE.len() as u8, prop_oneof![6 => vec(("[0-9]{1,4}", 0u8..3), 1..7), 1 => vec(("[0-9]", 0u8..3), 7..27), 1 => vec(("[0-9]{5,26}", 0u8..3), 1..2)], proptest::option::of(prop_oneof![4 => "[0-9]{1,4}", 1 => "[0-9]{5,20}"]), 0..AFTER.len() as u8)
            .prop_map(|(french, before, int, frac, after)| PresetCase::Number { french, before, int, frac, after });
        let text = any::<bool>().prop_flat_map(|french| {
            let (_, d, p) = preset(french);
            number_text(d, p).prop_map(move |text| PresetCase::Text { french, text })
        });
        prop_oneof![3 => number, 2 => text].boxed()
    }
    fn enum_len(&self, _: Tier) -> u64 {
        DOCUMENTED.len() as u64
    }
    fn enum_case(&self, i: u64) -> PresetCase {
        PresetCase::Documented(i as u8)
    }
    fn check(&self, c: &PresetCase, ctx: &mut Ctx) -> Result<(), String> {
        let run = |text: &str, french: bool| -> Result<Vec<(String, String)>, String> {
            let r = preset(french).0;
            // the same object again and again: on a line that ends in the middle of a number, on this one, and once more
            warm_up(&r, &[WARM[text.len() % WARM.len()].to_string()]);
            let line = create_line_from_string(text).run(&r);
            Ok(line.query::<Amount>().into_iter().flat_map(|(_, t, vs)| vs.into_iter().map(move |v| (t.clone(), v.get_decimal().to_string()))).collect())
        };
        let name = |f: bool| if f { "french" } else { "english" };
        match c {
            PresetCase::Documented(k) => {
                let (french, text, value) = DOCUMENTED[*k as usize];
                let got = run(text, french)?;
                ctx.nontrivial = true;
                ctx.label("documented example");
                // an exact record of what came out, so that only the very same deviation can be a known one
                ctx.sig = Some(format!("{}|{}|{}", name(french), text, got.iter().map(|g| format!("{}={}", g.0, g.1)).collect::<Vec<_>>().join("|")).replace(' ', "_"));
                same(&format!("{}: documented example {text:?}", name(french)), &got, &vec![(text.to_string(), value.to_string())])
            }
            PresetCase::Number { french, before, int, frac, after } => {
                let (_, delims, point) = preset(*french);
                let mut written = String::new();
                let mut digits = String::new();
                for (i, (g, d)) in int.iter().enumerate() {
                    if i > 0 {
                        written.push(delims[*d as usize % delims.len()]);
                    }
                    written.push_str(g);
                    digits.push_str(g);
                }
                if let Some(f) = frac {
                    written.push(point);
                    written.push_str(f);
                }
                let text = format!("{}{written}{}", BEFORE[*before as usize], AFTER[*after as usize]);
                let got = run(&text, *french)?;
                let Some(value) = decimal_text(&digits, frac.as_deref().unwrap_or("")) else { return Ok(()) };
                same(&format!("{}: {text:?}", name(*french)), &got, &vec![(written, value)])?;
                ctx.nontrivial_if(int.len() > 1 || frac.is_some());
                ctx.label(name(*french));
                Ok(())
            }
            PresetCase::Text { french, text } => {
                let (_, delims, point) = preset(*french);
                let mut bed = Bed::build(&[text_item(text.clone())], Measure::Utf8)?;
                let line = bed.line.take().unwrap().run(&preset(*french).0);
                let want = expected_amounts(&bed.m, &delims, point, (0, bed.m.len() - 1));
                same_list(&format!("{}: amounts of {text:?}", name(*french)), &real_amounts(&line)?, &want)?;
                ctx.nontrivial_if(want.iter().any(|a| a.span.0 < a.span.1));
                amount_labels(ctx, &bed.m, &want);
                Ok(())
            }
        }
    }
}

// ------------------------------------------------------------ C19
pub struct C19;
pub(super) fn dictionary() -> &'static [&'static str] {
    use std::sync::OnceLock;
    static WORDS: OnceLock<Vec<&'static str>> = OnceLock::new();
    WORDS.get_or_init(|| include_str!("../../data/words.txt").lines().filter(|l| !l.is_empty()).collect())
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ItemsCase {
    items: Vec<Item>,
    warm: Vec<String>,
}
impl Prop for C19 {
    const ID: &'static str = "C19";
    const RULE: &'static str = "at least one word token the dictionary knows and at least one token that is not a word";
    type Case = ItemsCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 400_000 } else { 30_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<ItemsCase> {
        let word = prop_oneof![
            5 => (select(dictionary()), any::<u32>()).prop_map(|(w, b)| recase(w, b)),
            2 => (select(dictionary()), any::<bool>()).prop_map(|(w, up)| if up { w.to_uppercase() } else { w.to_string() }),
            2 => (gen::mutated(select(dictionary()).prop_map(|w| w.to_string()).boxed()), any::<u32>()).prop_map(|(w, b)| recase(&w, b)),
            1 => dict::word(),
            1 => "[a-z]{1,9}",
            1 => "[A-Z][a-z]{0,4}'[a-z]{1,2}",
            1 => "[A-Za-z]{20,70}",
            1 => gen::any_piece(),
            1 => prop_oneof![7 => Just("a".to_string()), 1 => gen::long_word()],
            1 => "[a-z]{2,4}".prop_map(|s| s.replace('k', "\u{212A}")),
        ]
        .boxed();
        (texts_and_customs(lines_of(word, 12), 3), warm()).prop_map(|(items, warm)| ItemsCase { items, warm }).boxed()
    }
    fn enum_len(&self, _: Tier) -> u64 {
        dictionary().len() as u64 + N_SCALARS
    }
    fn enum_case(&self, i: u64) -> ItemsCase {
        // every word of the dictionary, then every character
        if let Some(i) = i.checked_sub(dictionary().len() as u64) {
            let c = nth_scalar(i);
            return ItemsCase { items: vec![text_item(format!("{c} a{c} {c}s"))], warm: vec![] };
        }
        let w = dictionary()[i as usize];
        ItemsCase { items: vec![text_item(format!("{w} {}, {}\t1", w.to_uppercase(), recase(w, 0xAAAA_AABB)))], warm: vec![] }
    }
    fn check(&self, c: &ItemsCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut bed = Bed::build(&c.items, Measure::Utf8)?;
        let r = POSTagResolver::default();
        warm_up(&r, &c.warm);
        let line = bed.line.take().unwrap().run(&r);
        let mut got: HashMap<Span, Vec<String>> = HashMap::new();
        for (s, _, vs) in line.query::<Tag>() {
            let e = got.entry(s).or_default();
            e.extend(vs.iter().map(|v| format!("{v:?}")));
            e.sort();
        }
        let (mut known, mut nonword) = (false, false);
        for (i, t) in bed.m.toks.iter().enumerate() {
            let g = got.remove(&(i, i));
            match t {
                Tok::Text(s, TagK::WORD) => {
                    let want: BTreeSet<String> = match ENGLISH_TAG_LOOKUP.get(&s.to_lowercase()) {
                        Some(set) => {
                            known = true;
                            set.tags().map(|t| format!("{t:?}")).collect()
                        }
                        None => BTreeSet::from(["Noun".to_string()]),
                    };
                    same(&format!("tags of word {s:?}"), &g.unwrap_or_default(), &want.into_iter().collect())?;
                }
                t => {
                    nonword = true;
                    same(&format!("tags of token {t:?}, which is not a word"), &g, &None)?;
                }
            }
        }
        same("tags on spans that are no token", &got, &HashMap::new())?;
        ctx.nontrivial_if(known && nonword);
        ctx.label_if(known, "known word");
        Ok(())
    }
}

// ------------------------------------------------------------ C20
pub struct C20;
pub(super) const KW_POOL: &[&str] = &[
    "if", "when", "then", "and", "si", "et", "alors", "falls", "если", "σας", "straße", "k", "é", "don't", ",", "1", "😀", "i̇f", "a", "日", "ǆ", "or", "unless", "once", "vorausgesetzt", "notwithstandingtheforegoingprovisionsofthisagreement", "доказательствонеобходимостипредставлениякоторогоустановлено", "hereinaftercalledthecondition",
];
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct KwCase {
    items: Vec<Item>,
    cond: Vec<String>,
    and: Vec<String>,
    then: Vec<String>,
    warm: Vec<String>,
}
fn kw_words(v: &[String]) -> Vec<&'static str> {
    v.iter().map(|w| dict::intern(w)).collect()
}
impl Prop for C20 {
    const ID: &'static str = "C20";
    const RULE: &'static str = "some token is a keyword and some text token is not";
    type Case = KwCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 900_000 } else { 40_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<KwCase> {
        // configured words are in lower case
        let w = || prop_oneof![48 => select(KW_POOL).prop_map(|s| s.to_string()), 8 => dict::word().prop_map(|w| w.to_lowercase()), 4 => "[a-z]{1,12}", 1 => gen::long_word().prop_map(|w| w.to_lowercase())].prop_map(|w| if w.to_lowercase() == w { w } else { "if".to_string() });
        let set = || prop_oneof![8 => vec(w(), 0..5), 1 => vec(w(), 5..40)];
        (set(), set(), set(), proptest::bool::weighted(0.3))
            .prop_flat_map(|(cond, mut and, mut then, share)| {
                if share {
                    // the same words in several roles
                    then.extend(cond.iter().take(2).cloned());
                    and.extend(then.iter().take(2).cloned().collect::<Vec<_>>());
                }
                let all: Vec<String> = cond.iter().chain(&and).chain(&then).cloned().collect();
                let like = if all.is_empty() { Just("x".to_string()).boxed() } else { gen::mutated(select(all.clone()).boxed()) };
                let word = prop_oneof![
                    1 => like,
                    5 => (any::<prop::sample::Index>(), any::<u32>()).prop_map(move |(i, b)| if all.is_empty() { "x".to_string() } else { recase(&all[i.index(all.len())], b) }),
                    2 => (select(KW_POOL), any::<u32>()).prop_map(|(w, b)| recase(w, b)),
                    1 => Just("\u{212A}".to_string()),
                    1 => gen::any_piece(),
                    1 => "[a-z]{2,5}",
                    1 => "[A-Za-z]{20,60}",
                ]
                .boxed();
                (texts_and_customs(lines_of(word, 10), 3), Just(cond), Just(and), Just(then), warm())
            })
            .prop_map(|(items, cond, and, then, warm)| KwCase { items, cond, and, then, warm })
            .boxed()
    }
    fn enum_len(&self, _: Tier) -> u64 {
        cased().len() as u64 * 12
    }
    fn enum_case(&self, i: u64) -> KwCase {
        let c = cased()[(i / 12) as usize];
        let w = [format!("{c}"), format!("x{c}"), format!("{c}x"), format!("x{c}y")][(i % 4) as usize].clone();
        let lower = w.to_lowercase();
        let set = |k: u64| if i / 4 % 3 == k && lower.to_lowercase() == lower { vec![lower.clone()] } else { vec!["if".to_string()] };
        KwCase { items: vec![text_item(format!("{w} {lower} {} z", w.to_uppercase()))], cond: set(0), and: set(1), then: set(2), warm: vec![] }
    }
    fn check(&self, c: &KwCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut bed = Bed::build(&c.items, Measure::Utf8)?;
        let (cond, and, then) = (kw_words(&c.cond), kw_words(&c.and), kw_words(&c.then));
        let r = ClauseKeywordResolver::new(&cond, &and, &then);
        warm_up(&r, &c.warm);
        let line = bed.line.take().unwrap().run(&r);
        let mut want = vec![];
        let mut other = false;
        for (i, t) in bed.m.toks.iter().enumerate() {
            let Tok::Text(text, _) = t else { continue };
            let low = text.to_lowercase();
            let is = |set: &[&str]| set.iter().any(|k| *k == low);
            let kw = match (is(&cond), is(&then), is(&and)) {
                (true, _, _) => KwK::ConditionStart,
                (_, true, _) => KwK::Then,
                (_, _, true) => KwK::And,
                _ => {
                    other = true;
                    continue;
                }
            };
            want.push(((i, i), text.clone(), vec![Val::Kw(kw)]));
        }
        same_list("clause keywords", &real_query(&line, Ty::Kw), &want)?;
        ctx.nontrivial_if(!want.is_empty() && other);
        ctx.label_if(want.iter().any(|w| w.1 != w.1.to_lowercase()), "keyword not in lower case");
        ctx.label_if(cond.iter().any(|w| then.contains(w) || and.contains(w)) || then.iter().any(|w| and.contains(w)), "word in several roles");
        Ok(())
    }
}

// ------------------------------------------------------------ C21
pub struct C21;
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ClauseCase {
    items: Vec<Item>,
    /// run the keyword recogniser (if/when, and, then) first
    keywords: bool,
    /// more keyword marks, over arbitrary spans
    extra: Option<Layer>,
    warm: Vec<String>,
}
/// the clauses of a part of a line by the documented rule, and the number of pieces it falls into
pub(super) fn expected_clauses(m: &MLine, part: Span) -> (Vec<(Span, Clause)>, usize) {
    let mut cut = vec![false; m.len()];
    for (s, e, v) in m.asg.iter().filter(|a| part.0 <= a.0 && a.0 <= part.1) {
        if matches!(v, Val::Kw(_) | Val::Tag(TagK::PUNC)) {
            cut[*s..=*e].iter_mut().for_each(|c| *c = true);
        }
    }
    let pieces = runs(part, |i| !cut[i]);
    let space = |i: usize| matches!(m.toks[i], Tok::Text(_, TagK::SPACE));
    let mut want: Vec<(Span, Clause)> = vec![];
    let mut condition_before = false;
    for &(s, e) in &pieces {
        let (mut a, mut b) = (s as i64, e as i64);
        if space(s) {
            a += 1;
        }
        if space(e) {
            b -= 1;
        }
        if a > b {
            continue;
        }
        let directly_before = m.query(Ty::Kw).into_iter().find(|((_, ke), _, _)| ke + 1 == s).map(|q| q.2[0].clone());
        let is_cond = directly_before == Some(Val::Kw(KwK::ConditionStart));
        let clause = if pieces.len() == 1 {
            if is_cond { Clause::Condition } else { Clause::Independent }
        } else if is_cond {
            Clause::Condition
        } else if directly_before == Some(Val::Kw(KwK::Then)) || condition_before {
            Clause::TrailingEffect
        } else {
            Clause::LeadingEffect
        };
        condition_before |= is_cond;
        want.push(((a as usize, b as usize), clause));
    }
    (want, pieces.len())
}
impl Prop for C21 {
    const ID: &'static str = "C21";
    const RULE: &'static str = "the line is cut into at least two pieces that get clauses";
    type Case = ClauseCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 1_600_000 } else { 50_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<ClauseCase> {
        let word = prop_oneof![
            3 => select(&["if", "If", "when", "WHEN"][..]).prop_map(|s| s.to_string()),
            2 => select(&["then", "Then"][..]).prop_map(|s| s.to_string()),
            2 => select(&["and", "AND"][..]).prop_map(|s| s.to_string()),
            5 => select(&["it", "rains", "I", "open", "don't", "$", "100", "日", "😀", "-"][..]).prop_map(|s| s.to_string()),
            2 => select(&[",", ".", "!", ";", "\"", "...", "?"][..]).prop_map(|s| s.to_string()),
            1 => select(&[" ", "\t", "\n", ""][..]).prop_map(|s| s.to_string()),
            1 => gen::any_piece(),
        ]
        .boxed();
        let text = prop_oneof![20 => lines_of(word.clone(), 14), 8 => text_of(prop_oneof![word, select(&[" ", "\t", "  "][..]).prop_map(|s| s.to_string())].prop_filter("non-empty", |s| !s.is_empty()).boxed(), 10)].boxed();
        let extra = prop_oneof![
            5 => Just(None),
            2 => vec((any::<u16>(), any::<u16>(), kw().prop_map(Val::Kw)), 0..4).prop_map(|asg| Some(Layer { ty: Ty::Kw, asg, finish_with: false })),
            1 => vec((0u16..8, 0u16..8, kw().prop_map(Val::Kw)), 1..5).prop_map(|asg| Some(Layer { ty: Ty::Kw, asg, finish_with: false })),
        ];
        (texts_and_customs(text, 2), proptest::bool::weighted(0.9), extra, warm()).prop_map(|(items, keywords, extra, warm)| ClauseCase { items, keywords, extra, warm }).boxed()
    }
    fn enum_len(&self, t: Tier) -> u64 {
        n_sequences(7, if t == Tier::Quick { 6 } else { 8 })
    }
    fn enum_case(&self, i: u64) -> ClauseCase {
        // all short lines of the tokens that matter
        let item = |k: u64| match k {
            0 => Item::Custom { size: 1, attrs: vec![], built: 0, bare: true },
            k => text_item(["x", " ", ",", "if", "then", "and"][k as usize - 1].to_string()),
        };
        ClauseCase { items: nth_sequence(7, i).into_iter().map(item).collect(), keywords: true, extra: None, warm: vec![] }
    }
    fn check(&self, c: &ClauseCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut bed = Bed::build(&c.items, Measure::Utf8)?;
        if c.keywords {
            let line = bed.line.take().unwrap().run(&ClauseKeywordResolver::new(&["if", "when"], &["and"], &["then"]));
            // what the recogniser found is an input here (C20 judges it)
            for ((s, e), _, vs) in real_query(&line, Ty::Kw) {
                bed.m.asg.extend(vs.into_iter().map(|v| (s, e, v)));
            }
            bed.line = Some(line);
        }
        if let Some(l) = &c.extra {
            bed.run_layer(l)?;
        }
        let r = ClauseResolver::default();
        warm_up(&r, &c.warm);
        let line = bed.line.take().unwrap().run(&r);
        let m = &bed.m;
        let n = m.len();
        let (want, pieces) = expected_clauses(m, (0, n - 1));
        let want: Vec<(Span, Vec<Clause>)> = want.into_iter().map(|(s, c)| (s, vec![c])).collect();
        let got: Vec<(Span, Vec<Clause>)> = line.query::<Clause>().into_iter().map(|(s, _, vs)| (s, vs.into_iter().cloned().collect())).collect();
        same_list(&format!("clauses of {:?}", m.text(0, n - 1)), &got, &want)?;
        ctx.nontrivial_if(want.len() > 1);
        for (_, k) in &want {
            ctx.label(match k[0] {
                Clause::Condition => "condition",
                Clause::Independent => "independent",
                Clause::LeadingEffect => "leading effect",
                Clause::TrailingEffect => "trailing effect",
            });
        }
        ctx.label_if(pieces > want.len(), "blank piece");
        ctx.label_if(m.asg.iter().any(|a| matches!(a.2, Val::Kw(_)) && a.0 < a.1), "keyword of several tokens");
        Ok(())
    }
}

// ------------------------------------------------------------ C22, C23
#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize, PartialEq, Eq)]
pub enum Rk {
    English,
    French,
    Pos,
    Keywords,
    Clauses,
    Lookup,
    LookupExact,
    LookupArr,
    LayerB,
    /// type, pattern
    Spans(u8, u8),
}
pub(super) const ALL_RK: &[Rk] = &[Rk::English, Rk::French, Rk::Pos, Rk::Keywords, Rk::Clauses, Rk::Lookup, Rk::LookupExact, Rk::LookupArr, Rk::LayerB];
#[derive(Clone, Debug, PartialEq)]
pub(super) struct L1(pub(super) u8);
#[derive(Clone, Debug, PartialEq)]
pub(super) struct L2(pub(super) u8);
#[derive(Clone, Debug, PartialEq)]
pub(super) struct L3(pub(super) u8);
pub(super) fn lookup_map<T>(f: fn(u8) -> T) -> HashMap<String, Vec<T>> {
    let keys = ["rain", "Rain", "RAIN", "a", "A", "Slack", "slack", "if", "1", ",", "日本", "Σ", "σ", "ς", "İ", "don't"];
    keys.iter().enumerate().map(|(i, k)| (k.to_string(), (0..(i as u8 % 3 + 1)).map(|j| f(i as u8 * 4 + j)).collect())).collect()
}
#[derive(Clone, Debug, PartialEq)]
struct W1(u8);
#[derive(Clone, Debug, PartialEq)]
struct W2(String);
#[derive(Clone, Debug, PartialEq)]
struct W3;
trait FromTexts: std::fmt::Debug + Send + Sync {
    fn of(texts: &[&str]) -> Vec<Self>
    where
        Self: Sized;
}
impl FromTexts for B {
    fn of(t: &[&str]) -> Vec<B> {
        vec![B(t.iter().fold(0, |a: u8, x| a.wrapping_mul(7).wrapping_add(x.len() as u8)))]
    }
}
impl FromTexts for W1 {
    fn of(t: &[&str]) -> Vec<W1> {
        // several values on one span
        (0..t[0].len() as u8 % 4).map(W1).collect()
    }
}
impl FromTexts for W2 {
    fn of(t: &[&str]) -> Vec<W2> {
        vec![W2(t.concat())]
    }
}
impl FromTexts for W3 {
    fn of(_: &[&str]) -> Vec<W3> {
        vec![W3]
    }
}
/// Marks spans of one, two, three tokens or of the whole line, as its bits say, from left to right or
/// from right to left. Reads nothing but the texts of the tokens.
struct Spans<T>(u8, std::marker::PhantomData<T>);
impl<T: FromTexts + 'static> Resolver for Spans<T> {
    type Attr = T;
    fn go(&self, sel: LLSelection) -> Vec<LLCursorAssignment<T>> {
        let mut out = vec![];
        let t = || x::token_text();
        let mut put = |s: LLSelection, texts: &[&str]| out.extend(T::of(texts).into_iter().map(|v| s.finish_with_attr(v)));
        if self.0 & 1 > 0 {
            sel.find_by(&t()).into_iter().for_each(|(s, a)| put(s, &[a]));
        }
        if self.0 & 2 > 0 {
            sel.find_by(&x::seq((t(), t()))).into_iter().for_each(|(s, (a, b))| put(s, &[a, b]));
        }
        if self.0 & 4 > 0 {
            sel.find_by(&x::seq((t(), t(), t()))).into_iter().for_each(|(s, (a, b, c))| put(s, &[a, b, c]));
        }
        if self.0 & 8 > 0 {
            let texts: Vec<&str> = sel.find_by(&t()).into_iter().map(|x| x.1).collect();
            if !texts.is_empty() {
                put(sel.clone(), &texts);
            }
        }
        if self.0 & 16 > 0 {
            out.reverse();
        }
        out
    }
}
/// One object per recogniser, used for every line of a case.
pub(super) struct Shipped {
    pub(super) english: AmountResolver,
    pub(super) french: AmountResolver,
    pub(super) pos: POSTagResolver,
    pub(super) keywords: ClauseKeywordResolver,
    pub(super) clauses: ClauseResolver,
    pub(super) lookup: TextMatchAssignResolver<L1>,
    pub(super) exact: TextMatchAssignResolver<L2>,
    pub(super) arr: TextMatchAssignResolver<L3>,
}
impl Shipped {
    pub(super) fn new() -> Self {
        Shipped {
            english: AmountResolver::english(),
            french: AmountResolver::french(),
            pos: POSTagResolver::default(),
            keywords: ClauseKeywordResolver::new(&["if", "when"], &["and"], &["then"]),
            clauses: ClauseResolver::default(),
            lookup: TextMatchAssignResolver::new_case_insensitive(lookup_map(L1)),
            exact: TextMatchAssignResolver::new(lookup_map(L2)),
            arr: TextMatchAssignResolver::new_case_insensitive_str_arr([("rain", L3(1)), ("RAIN", L3(2)), ("Open", L3(3)), ("if", L3(4))]),
        }
    }
}
pub(super) fn run_rk(line: LLLine, k: Rk, r: &Shipped) -> LLLine {
    fn spans<T: FromTexts + 'static + std::fmt::Debug>(line: LLLine, bits: u8) -> LLLine {
        line.run(&Spans::<T>(bits, std::marker::PhantomData))
    }
    match k {
        Rk::English => line.run(&r.english),
        Rk::French => line.run(&r.french),
        Rk::Pos => line.run(&r.pos),
        Rk::Keywords => line.run(&r.keywords),
        Rk::Clauses => line.run(&r.clauses),
        Rk::Lookup => line.run(&r.lookup),
        Rk::LookupExact => line.run(&r.exact),
        Rk::LookupArr => line.run(&r.arr),
        Rk::LayerB => spans::<B>(line, 2),
        Rk::Spans(ty, bits) => match ty % 4 {
            0 => spans::<B>(line, bits),
            1 => spans::<W1>(line, bits),
            2 => spans::<W2>(line, bits),
            _ => spans::<W3>(line, bits),
        },
    }
}
/// everything one recogniser's type shows: query, matches in both directions, display
pub(super) fn view<T: 'static + std::fmt::Debug>(line: &Rc<LLLine>) -> Vec<String> {
    let mut out: Vec<String> = line.query::<T>().into_iter().map(|(r, t, v)| format!("query {r:?} {t:?} {v:?}")).collect();
    out.extend(line.find(&x::attr::<T>()).iter().map(|f| format!("find {:?} {:?}", f.range(), f.attr())));
    out.extend(line.find(&x::seq((x::attr::<T>(), x::attr::<TextTag>()))).iter().map(|f| format!("seq {:?} {:?}", f.range(), f.attr())));
    if let Some(sel) = LLSelection::from_line(line.clone()) {
        // where a selection is, in text tokens inside and after it
        let texts = |s: &LLSelection| s.find_by(&x::token_text()).len();
        let at = |s: &LLSelection| (texts(s), s.after().map(|a| texts(&a)));
        out.extend(sel.find_by_forwards_and_backwards(&x::attr::<T>()).iter().map(|(s, v)| format!("both ways {:?} {v:?}", at(s))));
        for (tok, _) in sel.find_by(&x::token_text()) {
            out.extend(tok.match_backwards(&x::attr::<T>()).iter().map(|(s, v)| format!("backwards {:?} {v:?}", at(s))));
            out.extend(tok.match_forwards(&x::attr::<T>()).iter().map(|(s, v)| format!("forwards {:?} {v:?}", at(s))));
        }
        out.extend(sel.split_by(&x::attr::<T>()).iter().map(|s| format!("piece {:?}", at(s))));
    }
    out.push(LLLineDisplay::new(line).with::<T>().to_string());
    out
}
pub(super) fn views(line: &Rc<LLLine>, k: Rk) -> Vec<String> {
    match k {
        Rk::English | Rk::French => view::<Amount>(line),
        Rk::Pos => view::<Tag>(line),
        Rk::Keywords => view::<ClauseKeyword>(line),
        Rk::Clauses => view::<Clause>(line),
        Rk::Lookup => view::<L1>(line),
        Rk::LookupExact => view::<L2>(line),
        Rk::LookupArr => view::<L3>(line),
        Rk::LayerB => view::<B>(line),
        Rk::Spans(ty, _) => match ty % 4 {
            0 => view::<B>(line),
            1 => view::<W1>(line),
            2 => view::<W2>(line),
            _ => view::<W3>(line),
        },
    }
}
pub(super) fn base_views(line: &Rc<LLLine>) -> Vec<String> {
    let mut out: Vec<String> = line.ll_tokens().iter().map(|t| format!("{t:?}")).collect();
    out.extend(view::<TextTag>(line));
    out.extend(view::<char>(line));
    out.extend(view::<A>(line));
    out
}
pub(super) fn pipeline_text() -> BoxedStrategy<String> {
    let word = prop_oneof![
        3 => select(&["if", "When", "then", "AND", "and"][..]).prop_map(|s| s.to_string()),
        4 => select(&["rain", "Rain", "RAIN", "Slack", "open", "a", "A", "don't", "日本", "Σ", "ς", "İ"][..]).prop_map(|s| s.to_string()),
        3 => "[0-9]{1,3}([,. '][0-9]{1,3}){0,3}",
        2 => gen::any_piece(),
        1 => select(&[",", ".", "$"][..]).prop_map(|s| s.to_string()),
    ]
    .boxed();
    spaced(word, 12)
}
pub struct C22;
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct PipeCase {
    items: Vec<Item>,
    /// a permutation of independent recognisers
    order: Vec<Rk>,
    keep: u16,
    french: bool,
}
impl Prop for C22 {
    const ID: &'static str = "C22";
    const RULE: &'static str = "at least three independent recognisers each produced something";
    type Case = PipeCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 20_000 } else { 480_000 }
    }
    fn strategy(&self) -> BoxedStrategy<PipeCase> {
        let all = vec![Rk::English, Rk::Pos, Rk::Keywords, Rk::Lookup, Rk::LookupExact, Rk::LookupArr, Rk::Spans(0, 0), Rk::Spans(1, 0), Rk::Spans(2, 0), Rk::Spans(3, 0)];
        let bits = || prop_oneof![1u8..32, proptest::sample::select(&[2u8, 3, 4, 6, 8, 12, 18, 31][..])];
        let order = (proptest::sample::subsequence(all, 2..=10).prop_shuffle(), bits(), bits(), bits(), bits()).prop_map(|(mut v, a, b, c, d)| {
            for k in &mut v {
                if let Rk::Spans(t, bits) = k {
                    *bits = [a, b, c, d][*t as usize];
                }
            }
            v
        });
        // attributes of a type none of the recognisers reads
        let text = prop_oneof![90 => pipeline_text(), 90 => spaced(gen::mild_piece(), 3), 30 => text_of(gen::mild_piece(), 5), 1 => text_of(gen::mild_piece(), 150)].boxed();
        let item = prop_oneof![
            6 => (text, vec((0u8..3).prop_map(Val::A), 0..3)).prop_map(|(text, attrs)| Item::Text { text, attrs, built: 1 }),
            1 => (0u64..9, any::<bool>()).prop_map(|(size, bare)| Item::Custom { size, attrs: vec![Val::A(7)], built: 0, bare }),
        ];
        (vec(item, 1..4), order, any::<u16>(), any::<bool>()).prop_map(|(items, order, keep, french)| PipeCase { items, order, keep, french }).boxed()
    }
    fn check(&self, c: &PipeCase, ctx: &mut Ctx) -> Result<(), String> {
        let fresh = || create_line_from_input_tokens(input_tokens(&c.items), |s| s.encode_utf16().count());
        let kind = |k: Rk| if k == Rk::English && c.french { Rk::French } else { k };
        let order: Vec<Rk> = c.order.iter().map(|k| kind(*k)).collect();
        // one set of recogniser objects throughout, except for one run with new ones
        let rs = Shipped::new();
        let go = |ks: &[Rk]| ks.iter().fold(fresh(), |l, k| run_rk(l, *k, &rs));
        let full = Rc::new(go(&order));
        let dump = |l: &Rc<LLLine>| {
            let mut v = base_views(l);
            for k in &order {
                v.extend(views(l, *k));
            }
            v
        };
        let d = dump(&full);
        let new = Shipped::new();
        same_list("the same pipeline with newly made recognisers", &dump(&Rc::new(order.iter().fold(fresh(), |l, k| run_rk(l, *k, &new)))), &d)?;
        same_list("the same pipeline once more", &dump(&Rc::new(go(&order))), &d)?;
        // the other way round
        let rev: Vec<Rk> = order.iter().rev().copied().collect();
        same_list("independent recognisers in the reverse order", &dump(&Rc::new(go(&rev))), &d)?;
        let mut busy = 0;
        let base = base_views(&Rc::new(fresh()));
        same_list("what the line held before, after all recognisers", &base_views(&full), &base)?;
        let bare = Rc::new(fresh());
        for k in &order {
            let alone = Rc::new(go(&[*k]));
            let v = views(&alone, *k);
            same_list(&format!("{k:?} alone against {k:?} among all"), &views(&full, *k), &v)?;
            busy += usize::from(v != views(&bare, *k));
        }
        // some of them only
        let some: Vec<Rk> = order.iter().enumerate().filter(|(i, _)| c.keep >> i & 1 == 1).map(|x| *x.1).collect();
        let part = Rc::new(go(&some));
        for k in &order {
            if some.contains(k) {
                same_list(&format!("{k:?} among {some:?}"), &views(&part, *k), &views(&full, *k))?;
            } else {
                same_list(&format!("{k:?}, not run, among {some:?}"), &views(&part, *k), &views(&bare, *k))?;
            }
        }
        // clauses read keywords only: whatever else ran before, after or in between
        let clauses = |l: LLLine| views(&Rc::new(l), Rk::Clauses);
        let others: Vec<Rk> = order.iter().copied().filter(|k| *k != Rk::Keywords).collect();
        let b = clauses(run_rk(run_rk(fresh(), Rk::Keywords, &new), Rk::Clauses, &new));
        same_list("clauses once more, with recognisers that have other lines behind them", &clauses(run_rk(go(&[Rk::Keywords]), Rk::Clauses, &rs)), &b)?;
        let mut with_kw = others.clone();
        with_kw.insert(c.keep as usize % (others.len() + 1), Rk::Keywords);
        same_list("clauses after all recognisers against clauses after the keywords alone", &clauses(run_rk(go(&with_kw), Rk::Clauses, &rs)), &b)?;
        let after = others.iter().fold(run_rk(go(&[Rk::Keywords]), Rk::Clauses, &rs), |l, k| run_rk(l, *k, &rs));
        same_list("clauses with other recognisers run afterwards", &clauses(after), &b)?;
        ctx.nontrivial_if(busy >= 3);
        ctx.label_if(b.len() > 2, "has clauses");
        ctx.label_if(order.iter().filter(|k| matches!(k, Rk::Spans(_, b) if b & 14 > 0)).count() > 1, "several types on wide spans");
        Ok(())
    }
}

pub struct C23;
const LONG: &[(&str, usize)] = &[("a", 70_000), ("日", 600), ("1", 66_000), ("A\u{301}", 33_000), (" ", 70_000), ("if ", 700), ("1,", 800), ("1", 29), ("9", 30), ("0", 3000)];
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct AnyPipe {
    items: Vec<Item>,
    runs: Vec<Rk>,
    delims: Vec<char>,
    decimal: char,
}
impl Prop for C23 {
    const ID: &'static str = "C23";
    const RULE: &'static str = "at least two kinds of results were produced by the recognisers run";
    type Case = AnyPipe;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 120_000 } else { 4_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<AnyPipe> {
        let text = prop_oneof![3 => wild_text(), 3 => pipeline_text(), 1 => number_text(vec![',', ' '], '.'), 1 => vec(any::<char>(), 1..30).prop_map(|v| v.into_iter().collect::<String>())].boxed();
        let conf = (vec(prop_oneof![select(DELIMS), any::<char>(), Just('0')], 0..4), prop_oneof![select(DELIMS), any::<char>()]);
        (prop_oneof![3 => gen::items(text.clone(), 3), 3 => gen::plain_items(text, 3), 1 => Just(vec![])], vec(select(ALL_RK), 0..9), conf)
            .prop_map(|(items, runs, (delims, decimal))| AnyPipe { items, runs, delims, decimal })
            .boxed()
    }
    fn enum_len(&self, t: Tier) -> u64 {
        LONG.len() as u64 + N_SCALARS * if t == Tier::Quick { 1 } else { 2 }
    }
    fn enum_case(&self, i: u64) -> AnyPipe {
        // very long tokens and lines; then every character in places that matter to the recognisers
        let text = match i.checked_sub(LONG.len() as u64) {
            None => LONG[i as usize].0.repeat(LONG[i as usize].1) + " if b, then 5",
            Some(i) if i < N_SCALARS => {
                let runs = vec![[Rk::English, Rk::French][i as usize % 2], Rk::Pos, Rk::Keywords, Rk::Clauses, Rk::Lookup];
                return AnyPipe { items: vec![text_item(format!("{0}a 1{0}5", nth_scalar(i)))], runs, delims: vec![], decimal: '.' };
            }
            Some(i) => format!("if {0}, a{0} 1{0}5 {0}then {0}", nth_scalar(i - N_SCALARS)),
        };
        AnyPipe { items: vec![text_item(text)], runs: ALL_RK.to_vec(), delims: vec![',', ' '], decimal: '.' }
    }
    fn check(&self, c: &AnyPipe, ctx: &mut Ctx) -> Result<(), String> {
        let mut line = create_line_from_input_tokens(input_tokens(&c.items), |s| s.len());
        let n = line.ll_tokens().len();
        if n > 3000 {
            return Ok(());
        }
        let rs = Shipped::new();
        for k in &c.runs {
            line = run_rk(line, *k, &rs);
        }
        let custom = create_line_from_input_tokens(input_tokens(&c.items), |s| s.len()).run(&AmountResolver::new(c.delims.clone(), c.decimal));
        let shown = LLLineDisplay::new(&line).with::<Amount>().with::<Tag>().with::<ClauseKeyword>().with::<Clause>().with::<L1>().with::<L2>().with::<L3>().with::<B>().with::<TextTag>().with::<char>().to_string();
        let _ = LLLineDisplay::new(&custom).with::<Amount>().to_string();
        if n > 0 && shown.is_empty() {
            return fail("empty display");
        }
        // in bounds
        let total: usize = c.items.iter().map(|i| match i { Item::Text { text, .. } => text.len(), Item::Custom { size, .. } => *size as usize }).sum();
        let mut kinds = 0;
        let mut bounds = |name: &str, spans: Vec<Span>, finds: Vec<Span>| -> Result<(), String> {
            kinds += usize::from(!spans.is_empty());
            for s in &spans {
                if s.0 > s.1 || s.1 >= n {
                    return fail(format!("{name} on {s:?} of a line of {n} tokens"));
                }
            }
            for f in finds {
                if f.0 > f.1 || f.1 > total {
                    return fail(format!("{name} at positions {f:?} of a line of size {total}"));
                }
            }
            Ok(())
        };
        macro_rules! b {
            ($l:expr, $t:ty) => {
                bounds(stringify!($t), $l.query::<$t>().into_iter().map(|q| q.0).collect(), $l.find(&x::attr::<$t>()).iter().map(|f| f.range()).collect())?
            };
        }
        b!(line, Amount);
        b!(line, Tag);
        b!(line, ClauseKeyword);
        b!(line, Clause);
        b!(line, L1);
        b!(line, L2);
        b!(line, L3);
        b!(custom, Amount);
        // one run never overlaps itself: a run on the line as it is now adds spans to none that were there
        let disjoint = |name: &str, mut spans: Vec<(Span, usize)>| -> Result<(), String> {
            spans.sort();
            for (s, k) in &spans {
                if *k != 1 {
                    return fail(format!("{name}: {k} values on {s:?} from one run"));
                }
            }
            for w in spans.windows(2) {
                if w[1].0 .0 <= w[0].0 .1 {
                    return fail(format!("{name}: {:?} and {:?} of one run overlap", w[0].0, w[1].0));
                }
            }
            Ok(())
        };
        for k in [Rk::English, Rk::French] {
            if !c.runs.iter().any(|r| matches!(r, Rk::English | Rk::French)) || n < 200 {
                // every other recogniser first, as the case says, then amounts once
                let mut l = create_line_from_input_tokens(input_tokens(&c.items), |s| s.len());
                for r in c.runs.iter().filter(|r| !matches!(r, Rk::English | Rk::French)) {
                    l = run_rk(l, *r, &rs);
                }
                let l = run_rk(l, k, &rs);
                disjoint("amounts", l.query::<Amount>().into_iter().map(|q| (q.0, q.2.len())).collect())?;
            }
        }
        disjoint("amounts", custom.query::<Amount>().into_iter().map(|q| (q.0, q.2.len())).collect())?;
        let mut l = create_line_from_input_tokens(input_tokens(&c.items), |s| s.len());
        for r in c.runs.iter().filter(|r| **r != Rk::Clauses) {
            l = run_rk(l, *r, &rs);
        }
        let l = run_rk(l, Rk::Clauses, &rs);
        disjoint("clauses", l.query::<Clause>().into_iter().map(|q| (q.0, q.2.len())).collect())?;
        ctx.nontrivial_if(kinds >= 2);
        ctx.label_if(c.items.is_empty(), "empty line");
        ctx.label_if(n > 100, "over 100 tokens");
        ctx.label_if(c.runs.len() > 4, "over 4 runs");
        Ok(())
    }
}
