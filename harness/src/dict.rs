//! The fuzzing dictionary: the literals of the code under test, read from /repo's sources at the
//! start of a run. Nothing is judged by them; they only make inputs that the code itself names
//! (words, characters, lengths and counts) likely enough to be generated.
use proptest::prelude::*;
use proptest::sample::select;
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub words: Vec<String>,
    pub chars: Vec<char>,
    pub nums: Vec<usize>,
}

fn files(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        let name = p.file_name().map(|n| n.to_string_lossy().to_string()).unwrap_or_default();
        if p.is_dir() {
            if !matches!(name.as_str(), "target" | ".git" | "_archive" | "tests" | "examples" | "snapshots" | "benches") && !p.is_symlink() {
                files(&p, out);
            }
        } else if name.ends_with(".rs") && name != "tests.rs" {
            out.push(p);
        }
    }
}

fn escape(c: &[char], i: &mut usize) -> Option<char> {
    // at the character after the backslash
    let e = *c.get(*i)?;
    *i += 1;
    Some(match e {
        'n' => '\n',
        't' => '\t',
        'r' => '\r',
        '0' => '\0',
        'x' => {
            let s: String = c.get(*i..*i + 2)?.iter().collect();
            *i += 2;
            char::from_u32(u32::from_str_radix(&s, 16).ok()?)?
        }
        'u' => {
            let end = c[*i..].iter().position(|x| *x == '}')? + *i;
            let s: String = c.get(*i + 1..end)?.iter().filter(|x| **x != '_').collect();
            *i = end + 1;
            char::from_u32(u32::from_str_radix(&s, 16).ok()?)?
        }
        o => o,
    })
}

/// a rough lexer: comments, strings, raw strings, characters, whole numbers
pub fn literals(src: &str, words: &mut BTreeSet<String>, chars: &mut BTreeSet<char>, nums: &mut BTreeSet<usize>) {
    let src = src.split("#[cfg(test)]").next().unwrap_or("");
    let c: Vec<char> = src.chars().collect();
    let mut i = 0;
    while i < c.len() {
        let ident_before = i > 0 && (c[i - 1].is_alphanumeric() || c[i - 1] == '_');
        match c[i] {
            '/' if c.get(i + 1) == Some(&'/') => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '/' if c.get(i + 1) == Some(&'*') => {
                i += 2;
                while i < c.len() && !(c[i] == '*' && c.get(i + 1) == Some(&'/')) {
                    i += 1;
                }
                i += 2;
            }
            'r' if matches!(c.get(i + 1), Some('"' | '#')) && (!ident_before || c[i - 1] == 'b') => {
                let mut h = i + 1;
                while c.get(h) == Some(&'#') {
                    h += 1;
                }
                if c.get(h) != Some(&'"') {
                    i += 1;
                    continue;
                }
                let hashes = h - i - 1;
                let start = h + 1;
                let mut e = start;
                while e < c.len() && !(c[e] == '"' && c[e + 1..].iter().take(hashes).filter(|x| **x == '#').count() == hashes) {
                    e += 1;
                }
                words.insert(c[start..e.min(c.len())].iter().collect());
                i = e + 1 + hashes;
            }
            '"' => {
                i += 1;
                let mut s = String::new();
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' {
                        i += 1;
                        if c.get(i) == Some(&'\n') {
                            while i < c.len() && c[i].is_whitespace() {
                                i += 1;
                            }
                        } else if let Some(e) = escape(&c, &mut i) {
                            s.push(e);
                        } else {
                            break;
                        }
                    } else {
                        s.push(c[i]);
                        i += 1;
                    }
                }
                words.insert(s);
                i += 1;
            }
            '\'' => {
                if c.get(i + 1) == Some(&'\\') {
                    i += 2;
                    if let Some(e) = escape(&c, &mut i) {
                        chars.insert(e);
                    }
                    i += 1;
                } else if c.get(i + 2) == Some(&'\'') {
                    chars.insert(c[i + 1]);
                    i += 3;
                } else {
                    i += 1; // a lifetime
                }
            }
            d if d.is_ascii_digit() && !ident_before => {
                let start = i;
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
                let s: String = c[start..i].iter().filter(|x| **x != '_').collect();
                let s = s.to_lowercase();
                let n = if let Some(h) = s.strip_prefix("0x") {
                    let h: String = h.chars().take_while(|x| x.is_ascii_hexdigit()).collect();
                    usize::from_str_radix(&h, 16).ok()
                } else if let Some(b) = s.strip_prefix("0b") {
                    let b: String = b.chars().take_while(|x| matches!(x, '0' | '1')).collect();
                    usize::from_str_radix(&b, 2).ok()
                } else {
                    let d: String = s.chars().take_while(|x| x.is_ascii_digit()).collect();
                    d.parse().ok()
                };
                nums.extend(n);
            }
            _ => i += 1,
        }
    }
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut fs = vec![];
        files(Path::new("/repo"), &mut fs);
        let (mut words, mut chars, mut nums) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        for f in fs {
            if let Ok(s) = std::fs::read_to_string(f) {
                literals(&s, &mut words, &mut chars, &mut nums);
            }
        }
        words.retain(|w| !w.is_empty() && w.chars().count() <= 80);
        // powers of two are reached by shifts as well
        for n in nums.clone() {
            if (1..16).contains(&n) {
                nums.insert(1 << n);
            }
        }
        // a number may stand for a character
        for n in &nums {
            if *n >= 0x20 {
                chars.extend(char::from_u32(*n as u32));
            }
        }
        let mut d = Dict { words: words.into_iter().collect(), chars: chars.into_iter().collect(), nums: nums.into_iter().collect() };
        if d.words.is_empty() {
            d.words.push("a".into());
        }
        if d.chars.is_empty() {
            d.chars.push('a');
        }
        if d.nums.is_empty() {
            d.nums.push(1);
        }
        d
    })
}

pub fn word() -> BoxedStrategy<String> {
    let d = dict();
    prop_oneof![
        4 => select(d.words.clone()),
        1 => (select(d.words.clone()), any::<bool>()).prop_map(|(w, up)| if up { w.to_uppercase() } else { w.to_lowercase() }),
        2 => select(d.chars.clone()).prop_map(|c| c.to_string()),
        1 => select(d.nums.clone()).prop_map(|n| n.to_string()),
        1 => (select(d.words.clone()), select(d.words.clone())).prop_map(|(a, b)| a + &b),
        1 => (select(d.words.clone()), select(d.chars.clone()), any::<bool>()).prop_map(|(a, c, b)| if b { format!("{a}{c}") } else { format!("{c}{a}") }),
    ]
    .boxed()
}
pub fn chr() -> BoxedStrategy<char> {
    let d = dict();
    let mut v: BTreeSet<char> = d.chars.iter().copied().collect();
    v.extend(d.words.iter().filter(|w| w.chars().count() <= 4).flat_map(|w| w.chars()));
    select(v.into_iter().collect::<Vec<_>>()).boxed()
}
/// a count in lo..=hi that the code names, or one off it, or any
pub fn count(lo: usize, hi: usize) -> BoxedStrategy<usize> {
    let mut v: BTreeSet<usize> = dict().nums.iter().flat_map(|n| [n.saturating_sub(1), *n, n.saturating_add(1), n.saturating_add(2)]).filter(|n| (lo..=hi).contains(n)).collect();
    v.insert(lo);
    prop_oneof![1 => select(v.into_iter().collect::<Vec<_>>()), 1 => lo..=hi].boxed()
}

/// some constructors want words that live for ever
pub fn intern(s: &str) -> &'static str {
    thread_local!(static T: std::cell::RefCell<std::collections::HashSet<&'static str>> = Default::default());
    T.with(|t| {
        let mut t = t.borrow_mut();
        match t.get(s) {
            Some(k) => k,
            None => {
                let k: &'static str = Box::leak(s.to_string().into_boxed_str());
                t.insert(k);
                k
            }
        }
    })
}
