//! Generators. Everything is a proptest strategy so that cases shrink and depend on the seed only.
use crate::dict;
use crate::model::*;
use crate::real::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;

pub const WORDS: &[&str] = &[
    "a", "b", "x", "rain", "open", "the", "Paris", "don't", "peoples", "I", "New", "York", "slack", "Slack", "SLACK", "message",
    "should've", "umbrella", "Élan", "école", "straße", "STRASSE", "ΣΑΣ", "σας", "ИЛИ", "если", "naïve", "cafe\u{301}", "İstanbul",
    "\u{212A}iss", "ﬁne", "Ǆ", "ǅ", "한국", "שלום", "ש\"ס", "لا", "ل", "कि", "ไทย", "カタカナ", "日本", "ab1", "example.com", "a_b", "x2y", "can\u{2019}t",
];
pub const KEYWORDS: &[&str] = &["if", "If", "IF", "when", "When", "then", "Then", "THEN", "and", "And", "aNd", "si", "Si", "et", "alors"];
pub const NUMS: &[&str] = &[
    "0", "1", "2", "5", "10", "00", "007", "000", "123", "1000", "240", "25", "999999999", "18446744073709551616",
    "79228162514264337593543950335", "79228162514264337593543950336", "123456789012345678901234567890",
];
pub const PUNC: &[&str] = &[",", ".", "!", ";", ":", "?", "'", "\"", ",,", "...", "?!"];
pub const SPACES: &[&str] = &[" ", "  ", "\t", "\n", "\r\n", "\u{a0}", "\u{202f}", "\u{2009}", "\u{3000}", "   ", " \t", "\u{2028}"];
pub const SYMS: &[&str] = &[
    "$", "€", "#", "@", "%", "-", "–", "—", "_", "(", ")", "/", "+", "*", "&", "=", "“", "”", "’", "‘", "…", "٬", "²", "½", "Ⅷ", "٣", "𝟙", "５", "°", "™", "‿", "·",
];
pub const EMOJI: &[&str] = &[
    "😀", "🦶🏽", "👨‍👩‍👧", "🇺🇸", "🇺", "1️⃣", "#️⃣", "☁", "☁\u{fe0f}", "❤\u{fe0e}", "🏳️‍🌈", "👍🏿",
];
pub const ODD: &[&str] = &[
    "\u{301}", "\u{200d}", "\u{200b}", "\u{ad}", "\u{feff}", "\u{200f}", "\u{fe0f}", "\u{20e3}", "\u{0}", "\u{7}", "\u{1b}", "\u{85}", "\u{fffd}", "\u{10ffff}",
    "\u{600}", "\u{e0001}", "\u{1160}", "\u{115f}", "\u{2060}",
];

fn pool(p: &'static [&'static str]) -> BoxedStrategy<String> {
    select(p).prop_map(|s| s.to_string()).boxed()
}
pub fn any_piece() -> BoxedStrategy<String> {
    prop_oneof![
        6 => pool(WORDS), 2 => pool(KEYWORDS), 5 => pool(NUMS), 5 => pool(PUNC), 7 => pool(SPACES), 4 => pool(SYMS), 2 => pool(EMOJI), 2 => pool(ODD),
        3 => dict::word(),
        2 => any::<char>().prop_map(|c| c.to_string()),
        3 => (0x20u8..0x7f).prop_map(|c| (c as char).to_string()),
        1 => vec(any::<char>(), 1..4).prop_map(|v| v.into_iter().collect()),
    ]
    .boxed()
}
/// mild text: what an engine property needs, i.e. several tokens of several kinds
pub fn mild_piece() -> BoxedStrategy<String> {
    prop_oneof![
        5 => select(&["a", "b", "rain", "don't", "é", "if", "Then", "and"][..]).prop_map(|s| s.to_string()),
        3 => select(&["0", "12", "007"][..]).prop_map(|s| s.to_string()),
        4 => select(&[",", ".", "!", ";", "?"][..]).prop_map(|s| s.to_string()),
        4 => select(&[" ", "  ", "\t"][..]).prop_map(|s| s.to_string()),
        3 => select(&["$", "€", "😀", "日"][..]).prop_map(|s| s.to_string()),
        1 => dict::word(),
    ]
    .boxed()
}
pub fn text_of(p: BoxedStrategy<String>, max: usize) -> BoxedStrategy<String> {
    vec(p, 1..=max).prop_map(|v| v.concat()).boxed()
}
pub fn any_text(max: usize) -> BoxedStrategy<String> {
    text_of(any_piece(), max)
}

pub fn tag() -> impl Strategy<Value = TagK> {
    select(&[TagK::NATN, TagK::PUNC, TagK::SYMB, TagK::SPACE, TagK::WORD][..])
}
pub fn kw() -> impl Strategy<Value = KwK> {
    select(&[KwK::ConditionStart, KwK::Then, KwK::And][..])
}
pub fn chr() -> impl Strategy<Value = char> {
    select(&['.', ',', ' ', '$', 'a', '0', 'é', '\t', '日', '€'][..])
}
pub fn val_of(ty: Ty) -> BoxedStrategy<Val> {
    match ty {
        Ty::A => (0u8..3).prop_map(Val::A).boxed(),
        Ty::B => (0u8..2).prop_map(Val::B).boxed(),
        Ty::S => select(&["x", "y", ""][..]).prop_map(|s| Val::S(s.to_string())).boxed(),
        Ty::Ch => chr().prop_map(Val::Ch).boxed(),
        Ty::Tag => tag().prop_map(Val::Tag).boxed(),
        Ty::Kw => kw().prop_map(Val::Kw).boxed(),
        Ty::Z => Just(Val::Z).boxed(),
        Ty::P => (0u8..8).prop_map(Val::P).boxed(),
    }
}
pub fn ty() -> BoxedStrategy<Ty> {
    prop_oneof![6 => Just(Ty::A), 3 => Just(Ty::B), 1 => Just(Ty::S), 2 => Just(Ty::Ch), 2 => Just(Ty::Tag), 1 => Just(Ty::Kw), 1 => Just(Ty::Z), 2 => Just(Ty::P)].boxed()
}
pub fn val() -> BoxedStrategy<Val> {
    ty().prop_flat_map(val_of).boxed()
}

pub fn items(text: BoxedStrategy<String>, max: usize) -> BoxedStrategy<Vec<Item>> {
    vec(item(text), 1..=max).boxed()
}
pub fn item(text: BoxedStrategy<String>) -> BoxedStrategy<Item> {
    prop_oneof![
        4 => (text, attrs(), 0u8..4).prop_map(|(text, attrs, built)| Item::Text { text, attrs, built }),
        1 => (0u64..40, attrs(), 0u8..4, any::<bool>()).prop_map(|(size, attrs, built, bare)| Item::Custom { size, attrs, built, bare }),
    ]
    .boxed()
}
pub fn attrs() -> BoxedStrategy<Vec<Val>> {
    prop_oneof![3 => Just(vec![]), 2 => vec(val(), 1..4), 1 => ty().prop_flat_map(|t| vec(val_of(t), 1..4))].boxed()
}
/// items without attributes
pub fn plain_items(text: BoxedStrategy<String>, max: usize) -> BoxedStrategy<Vec<Item>> {
    vec(
        prop_oneof![
            4 => text.prop_map(|text| Item::Text { text, attrs: vec![], built: 0 }),
            1 => (0u64..40, any::<bool>()).prop_map(|(size, bare)| Item::Custom { size, attrs: vec![], built: 0, bare }),
        ],
        1..=max,
    )
    .boxed()
}
pub fn layer(max: usize) -> BoxedStrategy<Layer> {
    (ty(), any::<bool>())
        .prop_flat_map(move |(ty, finish_with)| {
            vec((any::<u16>(), any::<u16>(), val_of(ty)), 0..=max).prop_map(move |asg| Layer { ty, asg, finish_with })
        })
        .boxed()
}
/// A line with a history of assignments. Mostly short lines, so that spans collide, overlap and
/// nest; now and then a long one, a very long one, one with many layers, or one with many values
/// on few spans.
pub fn scene(measure: BoxedStrategy<Measure>) -> BoxedStrategy<Scene> {
    let short = (items(text_of(mild_piece(), 4), 3), vec(layer(5), 0..6));
    let wide = (items(text_of(any_piece(), 10), 4), vec(layer(8), 0..6));
    let long = (items(text_of(mild_piece(), 60), 4), vec(layer(40), 1..8));
    let layered = (items(text_of(mild_piece(), 3), 3), prop_oneof![1 => vec(layer(3), 8..40), 1 => dict::count(1, 40).prop_flat_map(|n| vec(layer(2), n))]);
    let big = if crate::guided::light() { stacked() } else { huge() };
    prop_oneof![
        320 => (short, measure.clone()),
        100 => (wide, measure.clone()),
        20 => (long, measure.clone()),
        10 => (layered, measure.clone()),
        12 => (stacked(), measure.clone()),
        5 => (fan(), measure.clone()),
        3 => (big, measure),
    ]
    .prop_map(|((items, layers), measure)| Scene { items, layers, measure })
    .boxed()
}
/// few tokens, up to hundreds of values of one or two types on few spans
pub fn stacked() -> BoxedStrategy<(Vec<Item>, Vec<Layer>)> {
    let l = |n: std::ops::Range<usize>| {
        ty().prop_flat_map(move |ty| vec((0u16..3, 0u16..3, val_of(ty)), n.clone()).prop_map(move |asg| Layer { ty, asg, finish_with: false }))
    };
    (items(text_of(mild_piece(), 3), 2), prop_oneof![4 => vec(l(5..40), 1..3), 2 => dict::count(1, 60).prop_flat_map(move |n| vec(l(n..n + 1), 1..3)), 1 => vec(l(60..300), 1..2), 1 => dict::count(60, 600).prop_flat_map(move |n| vec(l(n..n + 1), 1..2))]).boxed()
}
/// many different spans that start, or end, at one token
pub fn fan() -> BoxedStrategy<(Vec<Item>, Vec<Layer>)> {
    let n = if crate::guided::light() { (10usize..40).boxed() } else { prop_oneof![3 => 20usize..80, 1 => dict::count(10, 300)].boxed() };
    (n, select(&[",", "$", "a,", "- "][..]), prop_oneof![Just(0u16), Just(u16::MAX), any::<u16>()], vec(ty(), 1..3), any::<u16>())
        .prop_flat_map(|(n, p, pivot, tys, stride)| {
            let items = vec![Item::Text { text: p.repeat(n), attrs: vec![], built: 0 }];
            let layers: Vec<_> = tys
                .into_iter()
                .map(|ty| {
                    vec(val_of(ty), n).prop_map(move |vs| Layer { ty, asg: vs.into_iter().enumerate().map(|(k, v)| (if pivot == u16::MAX { n as u16 - 1 } else { pivot }, (k as u16).wrapping_mul(stride | 1), v)).collect(), finish_with: false })
                })
                .collect();
            (Just(items), layers)
        })
        .boxed()
}
/// hundreds or thousands of tokens
pub fn huge() -> BoxedStrategy<(Vec<Item>, Vec<Layer>)> {
    let text = prop_oneof![
        (vec(mild_piece(), 1..5), 60usize..400).prop_map(|(p, n)| p.concat().repeat(n)),
        vec(mild_piece(), 250..1200).prop_map(|v| v.concat()),
        (select(&["a ", ",", "1 ", "$", "a,"][..]), dict::count(30, 2500)).prop_map(|(p, n)| p.repeat(n)),
    ];
    (items(text.boxed(), 2), vec(layer(12), 1..6)).boxed()
}
pub fn unit_scene() -> BoxedStrategy<Scene> {
    scene(Just(Measure::One).boxed())
        .prop_map(|mut s| {
            for it in &mut s.items {
                if let Item::Custom { size, .. } = it {
                    *size = 1;
                }
            }
            s
        })
        .boxed()
}
pub fn measure() -> BoxedStrategy<Measure> {
    select(&[Measure::Utf8, Measure::Utf16, Measure::Chars, Measure::One, Measure::Zero, Measure::Weird][..]).boxed()
}

pub fn leaf() -> BoxedStrategy<M> {
    prop_oneof![
        5 => ty().prop_map(M::Attr),
        4 => val().prop_map(M::Eq),
        2 => ty().prop_flat_map(|t| prop_oneof![5 => vec(val_of(t), 0..4), 1 => vec(val_of(t), 4..24)].prop_map(move |v| M::HasAny(t, v))),
        1 => Just(M::Text),
        1 => Just(M::White),
    ]
    .boxed()
}
pub fn matcher() -> BoxedStrategy<M> {
    prop_oneof![9 => matcher_of(3, 12), 1 => matcher_of(7, 40)].boxed()
}
fn matcher_of(depth: u32, size: u32) -> BoxedStrategy<M> {
    leaf()
        .prop_recursive(depth, size, 3, |i| {
            prop_oneof![
                3 => (i.clone(), i.clone()).prop_map(|(a, b)| M::Seq2(Box::new([a, b]))),
                2 => (i.clone(), i.clone(), i.clone()).prop_map(|(a, b, c)| M::Seq3(Box::new([a, b, c]))),
                2 => (i.clone(), i.clone()).prop_map(|(a, b)| M::All2(Box::new([a, b]))),
                2 => (i.clone(), i.clone(), i.clone()).prop_map(|(a, b, c)| M::All3(Box::new([a, b, c]))),
                2 => (i.clone(), i.clone()).prop_map(|(a, b)| M::Any2(Box::new([a, b]))),
                2 => (i.clone(), i.clone(), i).prop_map(|(a, b, c)| M::Any3(Box::new([a, b, c]))),
            ]
        })
        .boxed()
}
/// leaves and combinations, in equal parts
pub fn mixed_matcher() -> BoxedStrategy<M> {
    prop_oneof![leaf(), matcher()].boxed()
}
pub fn is_compound(m: &M) -> bool {
    !matches!(m, M::Attr(_) | M::Eq(_) | M::HasAny(..) | M::Text | M::White)
}

const SUFFIXES: &[&str] = &["s", "'s", "\u{2019}s", "ed", "ing", "ly", "'", "es", "n't", "er", "-", "1", "_", "\u{301}", "\u{fe0f}", " ", ".", "e", "'ll", "-a", "\u{200d}", "\u{ad}", "\n", "\t", "\u{a0}", "\u{200b}"];
const PREFIXES: &[&str] = &["un", "re", "non-", "'", "l'", "d\u{2019}", "0", "_", "-", "#", "@", "\u{feff}", " ", "a", "O'", "\u{ad}", "\t", "\u{a0}"];
/// a word almost like the given one
pub fn mutated(w: BoxedStrategy<String>) -> BoxedStrategy<String> {
    (w.clone(), w, 0u8..10, any::<u8>())
        .prop_map(|(w, other, how, k)| {
            let mut c: Vec<char> = w.chars().collect();
            let at = k as usize % c.len().max(1);
            match how {
                0 | 1 => format!("{w}{}", SUFFIXES[k as usize % SUFFIXES.len()]),
                2 => format!("{}{w}", PREFIXES[k as usize % PREFIXES.len()]),
                3 if c.len() > 1 => c[..c.len() - 1].iter().collect(),
                4 if c.len() > 1 => c[1..].iter().collect(),
                5 if c.len() > 1 => {
                    c.remove(at);
                    c.into_iter().collect()
                }
                6 if !c.is_empty() => {
                    c.insert(at, c[at]);
                    c.into_iter().collect()
                }
                7 if c.len() > 1 => {
                    let j = (at + 1) % c.len();
                    c.swap(at, j);
                    c.into_iter().collect()
                }
                8 => format!("{w}{}{other}", ["-", "'", "", " ", "."][k as usize % 5]),
                _ => format!("{w}{w}"),
            }
        })
        .prop_map(|w| if w.is_empty() { "x".to_string() } else { w })
        .boxed()
}

/// a single word of any length up to a thousand letters or so
pub fn long_word() -> BoxedStrategy<String> {
    (select(&["a", "Ab", "é", "Ж", "ア", "n't", "straße"][..]), dict::count(10, 1200), any::<bool>())
        .prop_map(|(p, n, cut)| {
            let s = p.repeat(n / p.chars().count() + 1);
            if cut { s.chars().take(n).collect() } else { s }
        })
        .boxed()
}
