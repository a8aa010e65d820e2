//! C01 C02 C03: from input items to tokens and positions.
use super::selections::numbers;
use super::{same, same_list};
use crate::gen::{self, *};
use crate::model::*;
use crate::real::*;
use crate::runner::*;
use layered_nlp::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use unicode_segmentation::UnicodeSegmentation;

fn tok_dump(line: &LLLine) -> Vec<String> {
    line.ll_tokens().iter().map(|t| format!("{t:?}")).collect()
}
fn text_toks(line: &LLLine) -> Vec<Tok> {
    toks_of(line)
}
/// everything observable about a line without attributes of its own
fn dump(line: &LLLine) -> (Vec<String>, Vec<Vec<(Span, String, Vec<Val>)>>, Vec<(usize, usize)>) {
    (
        tok_dump(line),
        ALL_TY.iter().map(|t| real_query(line, *t)).collect(),
        line.find(&x::attr::<TextTag>()).iter().map(|f| f.range()).collect(),
    )
}

/// pieces glued without separators, repeated pieces, very long pieces
pub fn wild_text() -> BoxedStrategy<String> {
    prop_oneof![
        10 => any_text(12),
        3 => (gen::any_piece(), crate::dict::count(1, 300)).prop_map(|(p, n)| p.repeat(n)),
        3 => (vec(gen::any_piece(), 1..4), 1usize..60).prop_map(|(p, n)| p.concat().repeat(n)),
        3 => (0u8..10, vec(gen::any_piece(), 1..6)).prop_map(|(d, p)| format!("{d}{}", p.join(&d.to_string()))),
        2 => vec(prop_oneof![proptest::char::range('0', '9'), any::<char>()], 1..12).prop_map(|v| v.into_iter().collect()),
        1 => straddling(),
    ]
    .boxed()
}
/// a long text in which a piece lies across a chosen byte offset
fn straddling() -> BoxedStrategy<String> {
    let hi = if crate::guided::light() { 300 } else { 8200 };
    let at = prop_oneof![2 => crate::dict::count(16, hi), 2 => (4u32..14).prop_map(move |k| (1usize << k).min(hi)), 1 => (10usize..hi / 10).prop_map(|k| k * 10)];
    let filler = proptest::sample::select(&["a", "a ", "longerword ", "1", "aaaaaaaaaaaaaaa,", "é", "日本 ", "  \t", "if a then b "][..]);
    let piece = prop_oneof![2 => (gen::any_piece(), 1usize..6).prop_map(|(p, n)| p.repeat(n)), 1 => vec(gen::any_piece(), 2..5).prop_map(|v| v.concat())];
    (at, filler, piece, any::<u8>(), any_text(3))
        .prop_map(|(at, filler, piece, k, tail)| {
            let want = at.saturating_sub(k as usize % (piece.len() + 1));
            let mut s = filler.repeat(want / filler.len());
            s.push_str(&"b".repeat(want - s.len()));
            s + &piece + &tail
        })
        .boxed()
}

pub struct C01;
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ItemsCase {
    items: Vec<Item>,
    measure: Measure,
}
fn wild_items() -> BoxedStrategy<Vec<Item>> {
    prop_oneof![
        60 => gen::items(wild_text(), 4),
        20 => gen::items(any_text(3), 12),
        10 => gen::plain_items(gen::any_piece(), 40),
        1 => gen::plain_items(gen::any_piece(), 600),
        10 => Just(vec![]),
        20 => wild_text().prop_map(|text| vec![Item::Text { text, attrs: vec![], built: 0 }]),
    ]
    .boxed()
}
impl Prop for C01 {
    const ID: &'static str = "C01";
    const RULE: &'static str = "at least two input items, or one text that becomes at least two tokens";
    type Case = ItemsCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 90_000 } else { 6_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<ItemsCase> {
        (wild_items(), gen::measure()).prop_map(|(items, measure)| ItemsCase { items, measure }).boxed()
    }
    fn enum_len(&self, t: Tier) -> u64 {
        // big lines; every Unicode scalar between digits and, in the thorough tier, in four more places
        BIG.len() as u64 + N_SCALARS * if t == Tier::Quick { 1 } else { 5 }
    }
    fn enum_case(&self, i: u64) -> ItemsCase {
        let text = match i.checked_sub(BIG.len() as u64) {
            None => {
                let (s, n) = BIG[i as usize];
                s.repeat(n)
            }
            Some(i) => template((i / N_SCALARS + 1) % 5, nth_scalar(i % N_SCALARS)),
        };
        ItemsCase { items: vec![text_item(text)], measure: Measure::Utf8 }
    }
    fn check(&self, c: &ItemsCase, ctx: &mut Ctx) -> Result<(), String> {
        let size = |s: &str| c.measure.size(s);
        let line = create_line_from_input_tokens(input_tokens(&c.items), size);
        let toks = text_toks(&line);
        // walk the items over the tokens
        let mut at = 0;
        let mut alone: Vec<Tok> = vec![];
        for (k, it) in c.items.iter().enumerate() {
            match it {
                Item::Custom { .. } => {
                    if toks.get(at) != Some(&Tok::Value) {
                        return fail(format!("item {k} is custom, but token {at} is {:?}", toks.get(at)));
                    }
                    at += 1;
                    alone.push(Tok::Value);
                }
                Item::Text { text, .. } => {
                    let mut rest = text.as_str();
                    while !rest.is_empty() {
                        match toks.get(at) {
                            Some(Tok::Text(s, _)) if s.is_empty() => return fail(format!("token {at} is an empty text")),
                            Some(Tok::Text(s, _)) if rest.starts_with(s.as_str()) => {
                                rest = &rest[s.len()..];
                                at += 1;
                            }
                            o => return fail(format!("item {k}: token {at} is {o:?} where the text goes on with {rest:?}")),
                        }
                    }
                    if c.items.len() > 1 {
                        let one = create_line_from_input_tokens(vec![InputToken::text(text.clone(), vec![])], size);
                        alone.extend(text_toks(&one));
                    }
                }
            }
        }
        same("number of tokens accounted for by the input", &toks.len(), &at)?;
        if c.items.len() > 1 {
            same_list("tokens of the line against the tokens of its items taken alone", &toks, &alone)?;
        }
        let big = toks.len() > 3000;
        if big {
            // building is quadratic in the number of tokens: once is enough
            ctx.nontrivial = true;
            ctx.label("over 3000 tokens");
            return Ok(());
        }
        #[allow(deprecated)]
        let old = create_tokens(input_tokens(&c.items), size);
        same("create_tokens builds another line", &dump(&old), &dump(&line))?;
        if let [Item::Text { text, .. }] = &c.items[..] {
            let plain = create_line_from_string(text);
            let general = create_line_from_input_tokens(vec![InputToken::text(text.clone(), vec![])], |s| s.len());
            same("create_line_from_string builds another line", &dump(&plain), &dump(&general))?;
            // any AsRef<str>
            same_list("create_line_from_string(String)", &tok_dump(&create_line_from_string(text.clone())), &tok_dump(&plain))?;
        }
        ctx.nontrivial_if(c.items.len() > 1 || toks.len() > 1);
        ctx.label_if(c.items.is_empty(), "no items");
        ctx.label_if(toks.contains(&Tok::Value), "custom item");
        ctx.label_if(c.items.windows(2).any(|w| matches!(w, [Item::Text { .. }, Item::Text { .. }])), "adjacent texts");
        ctx.label_if(toks.len() > 256, "over 256 tokens");
        ctx.label_if(toks.iter().any(|t| matches!(t, Tok::Text(s, _) if s.len() > 256)), "token over 256 bytes");
        Ok(())
    }
}

// ------------------------------------------------------------ enumeration over Unicode
pub const N_SCALARS: u64 = 0x110000 - 0x800;
pub fn nth_scalar(i: u64) -> char {
    let u = if i < 0xD800 { i } else { i + 0x800 };
    char::from_u32(u as u32).unwrap()
}
/// the characters that have another form in upper or lower case
pub fn cased() -> &'static [char] {
    static C: std::sync::OnceLock<Vec<char>> = std::sync::OnceLock::new();
    C.get_or_init(|| (0..N_SCALARS).map(nth_scalar).filter(|c| !c.to_lowercase().eq([*c]) || !c.to_uppercase().eq([*c])).collect())
}
/// number of sequences of 1 to len of n symbols
pub fn n_sequences(n: u64, len: u32) -> u64 {
    (1..=len).map(|k| n.pow(k)).sum()
}
/// the i-th of them
pub fn nth_sequence(n: u64, mut i: u64) -> Vec<u64> {
    let mut len = 1;
    while i >= n.pow(len) {
        i -= n.pow(len);
        len += 1;
    }
    (0..len).map(|_| { let d = i % n; i /= n; d }).collect()
}
pub fn template(k: u64, c: char) -> String {
    match k {
        0 => format!("{c}"),
        1 => format!("1{c}2"),
        2 => format!("a{c}b"),
        3 => format!("7{c}"),
        _ => format!("a1{c} {c}{c}"),
    }
}
const BIG: &[(&str, usize)] = &[("a ", 1200), ("word", 40_000), ("1", 100_000), (" ", 100_000), ("日", 5000), ("1,a ", 8_250), ("1,", 33_000)];
pub fn text_item(text: String) -> Item {
    Item::Text { text, attrs: vec![], built: 0 }
}

// ------------------------------------------------------------ C02
/// the documented cutting and tagging rules, character by character
pub fn expected_tokens(text: &str) -> Vec<(String, TagK)> {
    let mut out = vec![];
    for seg in text.split_word_bounds() {
        if !seg.as_bytes()[0].is_ascii_digit() {
            out.push((seg.to_string(), tag_of(seg)));
            continue;
        }
        #[derive(PartialEq, Clone, Copy)]
        enum K {
            Digits,
            Letters,
            Other,
        }
        let kind = |g: &str| {
            if g.bytes().all(|b| (b'0'..=b'9').contains(&b)) {
                K::Digits
            } else if g.chars().all(|c| c.is_alphabetic()) {
                K::Letters
            } else {
                K::Other
            }
        };
        let gs: Vec<(&str, K)> = seg.graphemes(true).map(|g| (g, kind(g))).collect();
        let mut i = 0;
        while i < gs.len() {
            let k = gs[i].1;
            let mut j = i + 1;
            if k != K::Other {
                while j < gs.len() && gs[j].1 == k {
                    j += 1;
                }
            }
            let t: String = gs[i..j].iter().map(|g| g.0).collect();
            let tag = match k {
                K::Digits => TagK::NATN,
                K::Letters => TagK::WORD,
                K::Other if t.is_ascii() => TagK::PUNC,
                K::Other => tag_of(&t),
            };
            out.push((t, tag));
            i = j;
        }
    }
    out
}
fn tag_of(seg: &str) -> TagK {
    let cs: Vec<char> = seg.chars().collect();
    if cs.iter().all(|c| c.is_whitespace()) {
        TagK::SPACE
    } else if cs.len() == 1 && ",.!;:?'\"".contains(cs[0]) {
        TagK::PUNC
    } else if cs[0].is_alphabetic() && cs.iter().all(|c| c.is_alphabetic() || "'-–".contains(*c)) {
        TagK::WORD
    } else {
        TagK::SYMB
    }
}

pub struct C02;
/// representatives of the word-break, grapheme and tag classes
const REPS: &[char] = &[
    'a', 'Z', 'é', 'ß', 'æ', 'β', 'א', 'ء', 'क', 'ि', '\u{94d}', 'ไ', '日', 'カ', 'ー', '한', '\u{1100}', '\u{1161}', '0', '7', '٣', '５', '²', '½', 'Ⅷ', 'ª', ',', '.', ';', ':', '!', '?',
    '\'', '"', '’', '‘', '·', '٬', '＇', '-', '–', '—', '_', '‿', ' ', '\t', '\r', '\n', '\u{a0}', '\u{202f}', '\u{3000}', '\u{2028}', '$', '€', '@', '#', '(', '/', '\u{301}', '\u{200d}', '\u{fe0f}',
    '\u{20e3}', '\u{ad}', '\u{feff}', '\u{600}', '😀', '🏽', '🇺', '🇸', '☁', '©', '\u{0}', '\u{10ffff}', '\u{345}', 'ǅ',
];
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct TextCase {
    text: String,
}
impl Prop for C02 {
    const ID: &'static str = "C02";
    const RULE: &'static str = "the text becomes at least two tokens with at least two different tags, or holds a non-ASCII character";
    type Case = TextCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 400_000 } else { 50_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<TextCase> {
        prop_oneof![
            4 => wild_text(),
            3 => vec(proptest::sample::select(REPS), 1..14).prop_map(|v| v.into_iter().collect()),
            3 => (proptest::char::range('0', '9'), vec(proptest::sample::select(REPS), 1..8)).prop_map(|(d, v)| format!("{d}{}", v.into_iter().collect::<String>())),
            2 => vec(0x20u8..0x7f, 1..20).prop_map(|v| v.into_iter().map(|b| b as char).collect()),
        ]
        .prop_map(|text| TextCase { text })
        .boxed()
    }
    fn enum_len(&self, t: Tier) -> u64 {
        let r = REPS.len() as u64;
        N_SCALARS * 5 + r + r.pow(2) + r.pow(3) + if t == Tier::Thorough { r.pow(4) } else { 0 }
    }
    fn enum_case(&self, i: u64) -> TextCase {
        if i < N_SCALARS * 5 {
            return TextCase { text: template(i % 5, nth_scalar(i / 5)) };
        }
        let mut i = i - N_SCALARS * 5;
        let r = REPS.len() as u64;
        let mut len = 1;
        while i >= r.pow(len) {
            i -= r.pow(len);
            len += 1;
        }
        let text = (0..len)
            .map(|_| {
                let c = REPS[(i % r) as usize];
                i /= r;
                c
            })
            .collect();
        TextCase { text }
    }
    fn check(&self, c: &TextCase, ctx: &mut Ctx) -> Result<(), String> {
        let line = create_line_from_string(&c.text);
        let got: Vec<(String, TagK)> = text_toks(&line)
            .into_iter()
            .map(|t| match t {
                Tok::Text(s, k) => (s, k),
                Tok::Value => ("<value>".into(), TagK::SYMB),
            })
            .collect();
        let want = expected_tokens(&c.text);
        same_list(&format!("tokens of {:?}", c.text), &got, &want)?;
        // the tag is also what the line's attributes say
        let tags: Vec<TagK> = line.find(&x::attr::<TextTag>()).iter().map(|f| tagk(f.attr())).collect();
        let want_tags: Vec<TagK> = want.iter().map(|t| t.1).collect();
        same_list(&format!("tag attributes of {:?}", c.text), &tags, &want_tags)?;
        ctx.nontrivial_if((got.len() > 1 && got.iter().any(|g| g.1 != got[0].1)) || !c.text.is_ascii());
        ctx.label_if(got.iter().any(|t| t.1 == TagK::NATN), "number");
        ctx.label_if(c.text.split_word_bounds().any(|s| s.as_bytes()[0].is_ascii_digit() && !s.bytes().all(|b| b.is_ascii_digit())), "digit-led segment with other characters");
        ctx.label_if(!c.text.is_ascii(), "non-ascii");
        Ok(())
    }
}

// ------------------------------------------------------------ C03
pub struct C03;
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct PosCase {
    scene: Scene,
    m: M,
    /// build from the plain string of all texts instead
    plain: bool,
}
fn big_sizes(mut s: Scene, sizes: Vec<u64>) -> Scene {
    let mut it = sizes.into_iter();
    for i in &mut s.items {
        if let Item::Custom { size, .. } = i {
            if let Some(n) = it.next() {
                *size = n;
            }
        }
    }
    s
}
impl Prop for C03 {
    const ID: &'static str = "C03";
    const RULE: &'static str = "the line has at least two tokens and the matcher has a hit that does not start at position 0";
    type Case = PosCase;
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 800_000 } else { 40_000_000 }
    }
    fn strategy(&self) -> BoxedStrategy<PosCase> {
        let size = prop_oneof![3 => 0u64..4, 3 => 0u64..1000, 1 => 65_530u64..65_540, 1 => 4_294_967_290u64..4_294_967_300, 1 => 0u64..(1 << 50)];
        let plain = (any_text(12), vec(layer(6), 0..4)).prop_map(|(text, layers)| Scene { items: vec![Item::Text { text, attrs: vec![], built: 0 }], measure: Measure::Utf8, layers });
        prop_oneof![
            3 => (scene(gen::measure()), gen::mixed_matcher(), vec(size, 0..4)).prop_map(|(scene, m, sz)| PosCase { scene: big_sizes(scene, sz), m, plain: false }),
            2 => (plain, gen::mixed_matcher()).prop_map(|(scene, m)| PosCase { scene, m, plain: true }),
            1 => (wild_items(), gen::measure(), gen::leaf()).prop_map(|(items, measure, m)| PosCase { scene: Scene { items, measure, layers: vec![] }, m, plain: false }),
        ]
        .boxed()
    }
    fn enum_len(&self, _: Tier) -> u64 {
        N_SCALARS
    }
    fn enum_case(&self, i: u64) -> PosCase {
        let text = template(4, nth_scalar(i)) + "b";
        PosCase { scene: Scene { items: vec![text_item(text)], measure: [Measure::Utf8, Measure::Utf16, Measure::Chars, Measure::Weird][i as usize % 4], layers: vec![] }, m: M::Text, plain: i % 4 == 0 }
    }
    fn check(&self, c: &PosCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut bed = Bed::build(&c.scene.items, c.scene.measure)?;
        if c.plain {
            if let [Item::Text { text, .. }] = &c.scene.items[..] {
                bed.line = Some(create_line_from_string(text));
            }
        }
        for l in &c.scene.layers {
            bed.run_layer(l)?;
        }
        let Ok(want) = bed.m.find_by_full(&c.m) else { return Ok(()) };
        let line = bed.line();
        // token positions, seen through the text matcher and through the tags
        let texts: Vec<((usize, usize), String)> = line.find(&x::token_text()).iter().map(|f| (f.range(), f.attr().to_string())).collect();
        let want_texts: Vec<((usize, usize), String)> = bed
            .m
            .toks
            .iter()
            .zip(&bed.m.pos)
            .filter_map(|(t, p)| match t {
                Tok::Text(s, _) => Some((*p, s.clone())),
                Tok::Value => None,
            })
            .collect();
        same_list("positions of the text tokens", &texts, &want_texts)?;
        // the same, as printed
        for f in line.find(&x::token_text()).iter().take(8) {
            let (printed, (s, e)) = (format!("{f:?}"), f.range());
            if numbers(&printed).get(..2) != Some(&[s as u64, e as u64][..]) || !printed.contains(&format!("{:?}", f.attr())) {
                return fail(format!("a match at {s}..{e} of {:?} prints as {printed}", f.attr()));
            }
        }
        let marks: Vec<((usize, usize), usize)> = line.find(&x::attr::<Mark>()).iter().map(|f| (f.range(), f.attr().0)).collect();
        let want_marks: Vec<((usize, usize), usize)> =
            (0..bed.n()).filter(|i| bed.m.toks[*i] == Tok::Value && bed.locatable[*i]).map(|i| (bed.m.pos[i], bed.item_of[i])).collect();
        same_list("positions of the custom items", &marks, &want_marks)?;
        // matches of the random matcher
        let got: Vec<((usize, usize), Out)> = line.find(&Dyn(&c.m)).iter().map(|f| (f.range(), out(*f.attr()))).collect();
        let want_pos: Vec<((usize, usize), Out)> = want.iter().map(|((s, e), o)| ((bed.m.pos[*s].0, bed.m.pos[*e].1), o.clone())).collect();
        same_list(&format!("ranges found for {:?}", c.m), &got, &want_pos)?;
        if c.plain {
            if let [Item::Text { text, .. }] = &c.scene.items[..] {
                for (((s, e), _), (f, _)) in want.iter().zip(&got) {
                    let sl = text.get(f.0..f.1);
                    same(&format!("text[{}..{}]", f.0, f.1), &sl, &Some(bed.m.text(*s, *e).as_str()))?;
                }
                ctx.label("plain string");
            }
        }
        ctx.nontrivial_if(bed.n() > 1 && got.iter().any(|g| g.0 .0 > 0));
        ctx.label_if(got.iter().any(|g| g.0 .1 > u32::MAX as usize), "position over 2^32");
        ctx.label_if(want.iter().any(|w| w.0 .0 < w.0 .1), "match of several tokens");
        ctx.label_if(bed.m.pos.iter().any(|p| p.0 == p.1), "zero-size token");
        Ok(())
    }
}
