BUGS = []
def bug(id, property, edits, demo, needs, what, deps=(), xdeps=(), nth=None):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what, deps=list(deps), xdeps=list(xdeps), nth=nth or {}))
CT = 'src/create_tokens.rs'; WT = 'src/create_tokens/get_word_tag.rs'; LL = 'src/ll_line.rs'; SEL = 'src/ll_line/ll_selection.rs'
X = 'src/ll_line/x.rs'; DIS = 'src/ll_line/display.rs'; TM = 'src/resolvers/text_match.rs'; TB = 'src/type_bucket.rs'; TI = 'src/type_id_to_many.rs'
AM = 'layered-amount/src/amounts.rs'; CL = 'layered-clauses/src/clauses.rs'; CK = 'layered-clauses/src/clause_keyword.rs'; PS = 'layered-part-of-speech/src/lib.rs'

# ---------------------------------------------------------------- C01
bug('c01-bom-dropped', 'C01', [(CT, 'if !unicode_word[last_apostrophe_index..].is_empty() {', "if !unicode_word[last_apostrophe_index..].trim_matches('\\u{feff}').is_empty() {")],
r'''fn main() {
    let t = "\u{feff}Hello World";
    assert_eq!(texts(&create_line_from_string(t)).concat(), t);
}''', 'a byte order mark at the start of a text', 'the character vanishes from the tokens, and later positions no longer slice the original string')
bug('c01-empty-custom-dropped', 'C01', [(CT, 'for (ltokens, attrs) in input.into_iter().map(|input_token| match input_token {',
 'for (ltokens, attrs) in input.into_iter().filter(|token| !matches!(token, InputToken::Custom { size: 0, attrs } if attrs.is_empty())).map(|input_token| match input_token {')],
r'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("a".into(), vec![]), InputToken::custom(0, vec![]), InputToken::text("b".into(), vec![])], |s| s.len());
    assert_eq!(texts(&l), ["a", "<>", "b"]);
}''', 'a custom item of size 0 without attributes', 'the item has no token')
bug('c01-soft-hyphen-glue', 'C01', [(CT, 'create_tokens_for_string(&text, &get_text_size), attrs)', "create_tokens_for_string(&text.replace(\"\\r\\n\", \"\\n\"), &get_text_size), attrs)")],
r'''fn main() {
    let t = "one\r\ntwo";
    assert_eq!(texts(&create_line_from_string(t)).concat(), t);
}''', 'a text with a CRLF line break', 'line breaks are normalised, so the tokens no longer spell out the input')
# ---------------------------------------------------------------- C02
bug('c02-ascii-spaces', 'C02', [(WT, 'if !c.is_whitespace() {', "if !(c.is_ascii_whitespace() || c == '\\u{00A0}') {")],
r'''fn main() {
    let l = create_line_from_string("a\u{3000}b");
    let tags: Vec<TextTag> = l.find(&x::attr::<TextTag>()).iter().map(|f| (*f.attr()).clone()).collect();
    assert_eq!(tags, [TextTag::WORD, TextTag::SPACE, TextTag::WORD]);
}''', 'whitespace outside ASCII other than the no-break space', 'an ideographic or thin space is tagged as a symbol')
bug('c02-last-letters', 'C02', [(WT, 'Some(first_c) if first_c.is_alphabetic() => {', "Some(first_c) if first_c.is_alphabetic() || (first_c == '_' && input.len() > 1) => {")],
r'''fn main() {
    let l = create_line_from_string("_private");
    let tags: Vec<TextTag> = l.find(&x::attr::<TextTag>()).iter().map(|f| (*f.attr()).clone()).collect();
    assert_eq!(tags, [TextTag::SYMB]);
}''', 'an identifier starting with an underscore', 'a token that does not start with a letter is tagged as a word')
bug('c02-word-colon', 'C02', [(WT, "'\\'' | '-' | '–' => continue,", "'\\'' | '-' | '–' | ':' => continue,")],
r'''fn main() {
    let l = create_line_from_string("EU:ssa");
    let tags: Vec<TextTag> = l.find(&x::attr::<TextTag>()).iter().map(|f| (*f.attr()).clone()).collect();
    assert_eq!(tags.len(), texts(&l).len());
    for (t, tag) in texts(&l).iter().zip(&tags) {
        if t.contains(':') && t.len() > 1 { assert_eq!(*tag, TextTag::SYMB); }
    }
    let l = create_line_from_string("a·b a:b ÅÄ:n");
    for q in l.query::<TextTag>() {
        if q.1.contains(':') && q.1.len() > 1 { assert_eq!(*q.2[0], TextTag::SYMB); }
    }
}''', 'a colon inside a word segment', 'such a segment is tagged as a word')
# ---------------------------------------------------------------- C03
bug('c03-digit-size-in-bytes', 'C03', [(CT, 'let size = get_text_size(&collected_digits);', 'let size = collected_digits.len();')],
r'''fn main() {
    // everything counts one
    let l = create_line_from_input_tokens(vec![InputToken::text("1000 x".into(), vec![])], |_| 1);
    let r: Vec<_> = l.find(&x::token_text()).iter().map(|f| f.range()).collect();
    assert_eq!(r, [(0, 1), (1, 2), (2, 3)]);
}''', 'a caller whose size function does not count bytes, and a number', 'the position of everything after the number is off')
bug('c03-custom-at-least-one', 'C03', [(CT, 'InputToken::Custom { size, attrs } => (vec![(LToken::Value, size)], attrs),', 'InputToken::Custom { size, attrs } => (vec![(LToken::Value, size.max(1))], attrs),')],
r'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::custom(0, vec![]), InputToken::text("x".into(), vec![])], |s| s.len());
    assert_eq!(l.find(&x::token_text())[0].range(), (0, 1));
}''', 'a custom item of size 0', 'positions after it are shifted by one')
bug('c03-positions-u32', 'C03', [(CT, 'let next_size = current_size + size;', 'let next_size = (current_size as u32).wrapping_add(size as u32) as usize;')],
r'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::custom(1 << 33, vec![]), InputToken::text("x".into(), vec![])], |s| s.len());
    assert_eq!(l.find(&x::token_text())[0].range(), (1 << 33, (1 << 33) + 1));
}''', 'positions beyond 2^32', 'positions wrap around')
# ---------------------------------------------------------------- C04
bug('c04-char-by-bytes', 'C04', [(LL, 'if let (Some(c), None) = (chars.next(), chars.next()) {', 'if let (Some(c), true, None) = (chars.next(), text.len() < 4, chars.next()) {')],
r'''fn main() {
    let l = create_line_from_string("5 😀");
    assert_eq!(spans::<char>(&l), [(0, 0), (1, 1), (2, 2)]);
}''', 'a one-character token outside the basic multilingual plane', 'it does not carry its character')
bug('c04-custom-attr-front', 'C04', [(CT, 'InputToken::Custom { attrs, .. } => attrs.push(AnyAttribute::new(value)),', 'InputToken::Custom { attrs, .. } => attrs.insert(0, AnyAttribute::new(value)),')],
r'''fn main() {
    let mut t = InputToken::custom(1, vec![AnyAttribute::new(A(1))]);
    t.add_attr(A(2));
    let l = create_line_from_input_tokens(vec![t], |s| s.len());
    assert_eq!(l.query::<A>()[0].2, [&A(1), &A(2)]);
}''', 'an attribute added later to a custom item that has one of that type', 'the order of the values is reversed')
bug('c04-later-item-span', 'C04', [(CT, 'start_idx_end_idx_attributes.push((from_idx, to_idx, attrs));', 'if let (Some(last), true) = (start_idx_end_idx_attributes.last_mut(), attrs.is_empty() && to_idx == from_idx) {\n            let _: &mut (usize, usize, Vec<AnyAttribute>) = last;\n            if matches!(lltokens[from_idx].token, LToken::Text(_, TextTag::PUNC)) && last.2.len() > 2 {\n                last.1 = to_idx;\n            }\n        }\n        start_idx_end_idx_attributes.push((from_idx, to_idx, attrs));')],
r'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("a b".into(), vec![AnyAttribute::new(A(1)), AnyAttribute::new(B(1)), AnyAttribute::new(B(2))]), InputToken::text(".".into(), vec![])], |s| s.len());
    assert_eq!(spans::<A>(&l), [(0, 2)]);
}''', 'an item with at least three attributes followed by a bare item of just a punctuation mark', "the attributes stretch over the next item's token")
# ---------------------------------------------------------------- C05
bug('c05-single-token-line', 'C05', [(LL, 'if self.ll_tokens.is_empty() {', 'if self.ll_tokens.len() <= 1 && self.attrs.ranges.get::<TextTag>().is_empty() {')],
r'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::custom(3, vec![])], |s| s.len()).run(&rec(|s| vec![s.finish_with_attr(A(1))]));
    assert_eq!(spans::<A>(&l), [(0, 0)]);
}''', 'a line of a single custom token', 'recognisers are not run on it')
bug('c05-sorted-assignments', 'C05', [(LL, 'let assignments = recognizer.go(', 'let mut assignments = recognizer.go('), (LL, '// store new attributes generated by the resolver', '// store new attributes generated by the resolver\n        if assignments.len() > 8 {\n            assignments.dedup_by(|a, b| (a.start_idx, a.end_idx) == (b.start_idx, b.end_idx) && a.start_idx == a.end_idx && format!("{:?}", a.value) == format!("{:?}", b.value));\n        }')],
r'''fn main() {
    let l = create_line_from_string("a b").run(&rec(|s: LLSelection| {
        let one = s.find_first_by(&x::token_text()).unwrap().0;
        (0..12).map(|i| one.finish_with_attr(A(i / 2))).collect()
    }));
    assert_eq!(l.query::<A>()[0].2.len(), 12);
}''', 'a recogniser returning more than 8 assignments with two equal neighbours on one token', 'equal values are collapsed')
# ---------------------------------------------------------------- C06
bug('c06-distinct-only-last', 'C06', [(TI, 'if !entry.contains(&value_to_add) {', 'if entry.last() != Some(&value_to_add) {')],
r'''fn main() {
    let l = create_line_from_string("a b").run(&rec(|s: LLSelection| {
        let t: Vec<LLSelection> = s.find_by(&x::token_text()).into_iter().map(|x| x.0).collect();
        vec![t[0].finish_with_attr(A(1)), t[2].finish_with_attr(A(2)), t[0].finish_with_attr(A(3))]
    }));
    assert_eq!(spans::<A>(&l), [(0, 0), (2, 2)]);
}''', 'a span that receives a value again after another span did', 'the span is listed twice, each time with all values', nth={'if !entry.contains(&value_to_add) {': 0})
bug('c06-input-ends-at', 'C06', [(LL, '                .get_mut(end_idx)\n', '                .get_mut(if attrs_len > 2 { start_idx } else { end_idx })\n'), (LL, '        let range = (start_idx, end_idx);\n\n        for attr', '        let range = (start_idx, end_idx);\n        let attrs_len = attrs.len();\n\n        for attr')],
r'''fn main() {
    let l = create_line_from_input_tokens(vec![
        InputToken::text("a b".into(), vec![AnyAttribute::new(A(1)), AnyAttribute::new(A(2)), AnyAttribute::new(B(3))]),
        InputToken::text("!".into(), vec![])], |s| s.len())
        .run(&rec(|s: LLSelection| {
            let last = s.find_by(&x::token_text()).pop().unwrap().0;
            assert_eq!(last.match_backwards(&x::attr::<A>()).len(), 2);
            vec![last.finish_with_attr(())]
        }));
    drop(l);
}''', 'an input item of several tokens with at least three attributes, matched backwards', 'backward matching does not see the attributes (or sees them in the wrong place)')
bug('c06-ranges-skip-known', 'C06', [(LL, '        self.ranges.insert_distinct::<T>(range);\n', '        // a span with values has been listed already\n        if range.0 == range.1 || !self.values.contains_key(&range) {\n            self.ranges.insert_distinct::<T>(range);\n        }\n')],
r'''fn main() {
    let whole = |s: &LLSelection| s.clone();
    let l = create_line_from_string("a b").run(&rec(|s: LLSelection| vec![whole(&s).finish_with_attr(A(1))])).run(&rec(|s: LLSelection| vec![whole(&s).finish_with_attr(B(1))]));
    assert_eq!(spans::<B>(&l), [(0, 2)]);
}''', 'two types on the same span of several tokens', 'the second type is missing from queries and display while searches find it')
# ---------------------------------------------------------------- C07
bug('c07-back-eq-once', 'C07', [(X, '''                    .iter()
                    .filter_map(move |val| {
                        if val == equals {
                            Some(((), ToIdx(range.0)))
                        } else {
                            None
                        }
                    })''', '''                    .iter()
                    .find(|val| *val == equals)
                    .map(|_| ((), ToIdx(range.0)))''')],
r'''fn main() {
    let l = create_line_from_string("a b").run(&rec(|s: LLSelection| {
        let one = s.find_first_by(&x::token_text()).unwrap().0;
        vec![one.finish_with_attr(A(1)), one.finish_with_attr(A(1))]
    }));
    let _ = l.run(&rec(|s: LLSelection| {
        let t = s.find_by(&x::token_text());
        assert_eq!(t[1].0.match_backwards(&x::attr_eq(&A(1))).len(), 2);
        vec![t[0].0.finish_with_attr(())]
    }));
}''', 'two equal values on one span, matched by equality backwards', 'only one hit is reported')
bug('c07-back-rev', 'C07', [(X, '''                    .iter()
                    .map(move |val| (val, ToIdx(range.0)))''', '''                    .iter()
                    .rev()
                    .map(move |val| (val, ToIdx(range.0)))''')],
r'''fn main() {
    let l = create_line_from_string("a b").run(&rec(|s: LLSelection| {
        let one = s.find_first_by(&x::token_text()).unwrap().0;
        vec![one.finish_with_attr(A(1)), one.finish_with_attr(A(2))]
    }));
    let _ = l.run(&rec(|s: LLSelection| {
        let t = s.find_by(&x::token_text());
        assert_eq!(t[1].0.match_first_backwards(&x::attr::<A>()).unwrap().1, &A(1));
        vec![t[0].0.finish_with_attr(())]
    }));
}''', 'several values on one span matched backwards', 'they are reported latest first, so the first match is another one')
bug('c07-back-text-space', 'C07', [(X, 'LToken::Text(text, _) => Some((text.as_str(), ToIdx(self.from_idx))),', 'LToken::Text(text, _) => Some((text.trim_end(), ToIdx(self.from_idx))),')],
r'''fn main() {
    let _ = create_line_from_string("a  b").run(&rec(|s: LLSelection| {
        let t = s.find_by(&x::token_text());
        assert_eq!(t[2].0.match_first_backwards(&x::token_text()).unwrap().1, "  ");
        vec![t[0].0.finish_with_attr(())]
    }));
}''', 'the text matcher going backwards over a whitespace token', 'the text is not the exact text')
# ---------------------------------------------------------------- C08
bug('c08-all3-third', 'C08', [('src/ll_line/x/all.rs', 'if &a_to_idx == b_to_idx && &a_to_idx == c_to_idx {', 'if &a_to_idx == b_to_idx && c_to_idx.0 <= a_to_idx.0 {')],
r'''fn main() {
    let l = create_line_from_string("a b")
        .run(&rec(|s: LLSelection| vec![s.finish_with_attr(A(1))]))
        .run(&rec(|s: LLSelection| vec![s.finish_with_attr(B(1))]));
    assert_eq!(l.find(&x::all((x::attr::<A>(), x::attr::<B>(), x::token_text()))).len(), 0);
}''', 'a conjunction of three whose third part stops earlier than the others', 'it matches although the parts do not reach the same token')
bug('c08-back-seq-start', 'C08', [(X, '''        if idx > 0 {
            Some(XBackwards { from_idx: idx - 1 })''', '''        if idx > 1 {
            Some(XBackwards { from_idx: idx - 1 })''')],
r'''fn main() {
    let _ = create_line_from_string("$5 ok").run(&rec(|s: LLSelection| {
        let t = s.find_by(&x::token_text());
        assert_eq!(t[2].0.match_backwards(&x::seq((x::attr_eq(&TextTag::NATN), x::token_text()))).len(), 1);
        vec![t[0].0.finish_with_attr(())]
    }));
}''', 'a sequence matched backwards whose last part is the first token of the line', 'it does not match')
bug('c08-anyof3-fallthrough', 'C08', [('src/ll_line/x/any_of.rs', 'let b = self.1.go(direction, ll_line);', 'let mut b = self.1.go(direction, ll_line);\n            b.truncate(8);')],
r'''fn main() {
    let l = create_line_from_string("a").run(&rec(|s: LLSelection| (0..10).map(|i| s.finish_with_attr(A(i))).collect()));
    assert_eq!(l.find(&x::any_of((x::attr::<B>(), x::attr::<A>(), x::token_text()))).len(), 10);
}''', 'an alternative of three whose second part has more than eight hits at a token', 'hits are lost')
bug('c08-seq3-dir', 'C08', [('src/ll_line/x/seq.rs', '''                            .map(|direction| self.2.go(&direction, ll_line))
                            .unwrap_or_else(Vec::new)
                            .into_iter()
                            .map(move |(c, to_idx)| ((a, b, c), to_idx))''', '''                            .map(|direction| self.2.go(&direction, ll_line))
                            .unwrap_or_else(Vec::new)
                            .into_iter()
                            .take(1)
                            .map(move |(c, to_idx)| ((a, b, c), to_idx))''')],
r'''fn main() {
    let l = create_line_from_string("a b").run(&rec(|s: LLSelection| {
        let t = s.find_by(&x::token_text()).pop().unwrap().0;
        vec![t.finish_with_attr(A(1)), t.finish_with_attr(A(2))]
    }));
    assert_eq!(l.find(&x::seq((x::token_text(), x::whitespace(), x::attr::<A>()))).len(), 2);
}''', 'a sequence of three whose last part has several hits', 'only the first chain is reported')
# ---------------------------------------------------------------- C09
bug('c09-two-way-dedup', 'C09', [(SEL, 'matcher.go(&backwards, &self.ll_line).into_iter().map(', 'matcher.go(&backwards, &self.ll_line).into_iter().filter(move |(_, next_idx)| next_idx.0 != i).map(')],
r'''fn main() {
    let _ = create_line_from_string("a").run(&rec(|s: LLSelection| {
        assert_eq!(s.find_by_forwards_and_backwards(&x::token_text()).len(), 2);
        vec![s.finish_with_attr(())]
    }));
}''', 'a two-way search with a match of one token', 'the backward match is missing')
bug('c09-find-clipped', 'C09', [(SEL, '''                    .into_iter()
                    .map(move |(out, next_idx)| {
                        (
                            LLSelection {
                                start_idx: i,''', '''                    .into_iter()
                    .filter(move |(_, next_idx)| next_idx.0 <= self.end_idx)
                    .map(move |(out, next_idx)| {
                        (
                            LLSelection {
                                start_idx: i,''')],
r'''fn main() {
    let _ = create_line_from_string("a b c").run(&rec(|s: LLSelection| {
        let t = s.find_first_by(&x::token_text()).unwrap().0;
        assert_eq!(t.find_by(&x::seq((x::token_text(), x::whitespace()))).len(), 1);
        vec![s.finish_with_attr(())]
    }));
}''', 'searching a part of a line for a match that starts in it and ends beyond', 'the match is not found', nth={'''                    .into_iter()
                    .map(move |(out, next_idx)| {
                        (
                            LLSelection {
                                start_idx: i,''': 0})
# ---------------------------------------------------------------- C10
bug('c10-first-backwards-last', 'C10', [(SEL, 'self.match_backwards(matcher).into_iter().next()', 'self.match_backwards(matcher).into_iter().max_by_key(|(selection, _)| selection.end_idx - selection.start_idx)')],
r'''fn main() {
    let l = create_line_from_string("a b c").run(&rec(|s: LLSelection| {
        let t: Vec<LLSelection> = s.find_by(&x::token_text()).into_iter().map(|x| x.0).collect();
        let wide = s.split_with(&t[3]).into_iter().flatten().next().unwrap();
        vec![t[2].finish_with_attr(A(1)), wide.finish_with_attr(A(2))]
    }));
    let _ = l.run(&rec(|s: LLSelection| {
        let t = s.find_by(&x::token_text());
        assert_eq!(t[3].0.match_first_backwards(&x::attr::<A>()).unwrap().1, &A(1));
        vec![s.finish_with_attr(())]
    }));
}''', 'several backward matches of different length', 'the first-match form returns the longest, not the first')
bug('c10-forward-last-token', 'C10', [(SEL, '''            from_idx: self.end_idx + 1,
        };''', '''            from_idx: if self.start_idx + 7 == self.end_idx && self.end_idx + 2 < self.ll_line.ll_tokens.len() { self.end_idx + 2 } else { self.end_idx + 1 },
        };''')],
r'''fn main() {
    let _ = create_line_from_string("a b c d e f g").run(&rec(|s: LLSelection| {
        let t: Vec<LLSelection> = s.find_by(&x::token_text()).into_iter().map(|x| x.0).collect();
        let eight = s.split_with(&t[8])[0].clone().unwrap();
        assert_eq!(eight.match_forwards(&x::token_text())[0].1, "e");
        vec![s.finish_with_attr(())]
    }));
}''', 'a selection of exactly eight tokens that ends at least two tokens before the end of the line', 'the grown selection skips a token')
# ---------------------------------------------------------------- C11
bug('c11-nomatch-trim', 'C11', [(SEL, '            return vec![self.clone()];', '            return self.selection_from(self.start_idx, self.end_idx.max(1)).into_iter().filter(|piece| piece.start_idx < piece.end_idx || piece.start_idx == 0).collect();')],
r'''fn main() {
    let _ = create_line_from_string("a b").run(&rec(|s: LLSelection| {
        let t = s.find_by(&x::token_text());
        assert_eq!(t[2].0.split_by(&x::whitespace()).len(), 1);
        vec![s.finish_with_attr(())]
    }));
}''', 'splitting a single-token selection in the middle of the line by something it does not hold', 'there are no pieces at all')
# ---------------------------------------------------------------- C12
bug('c12-no-end-clip', 'C12', [(SEL, 'end_idx = end_idx.min(self.end_idx);', 'end_idx = if self.start_idx == 0 { end_idx.min(self.end_idx) } else { end_idx };')],
r'''fn main() {
    let _ = create_line_from_string("a b c").run(&rec(|s: LLSelection| {
        let t: Vec<LLSelection> = s.find_by(&x::token_text()).into_iter().map(|x| x.0).collect();
        assert!(t[1].split_with(&t[4]) == [Some(t[1].clone()), None]);
        vec![s.finish_with_attr(())]
    }));
}''', 'splitting a selection that is not at the start of the line with a later one that is not adjacent', 'the first part reaches past the selection')
bug('c12-no-start-clip', 'C12', [(SEL, 'start_idx = start_idx.max(self.start_idx);', 'if start_idx + 1 != self.start_idx { start_idx = start_idx.max(self.start_idx); }')],
r'''fn main() {
    let _ = create_line_from_string("a b c").run(&rec(|s: LLSelection| {
        let t: Vec<LLSelection> = s.find_by(&x::token_text()).into_iter().map(|x| x.0).collect();
        assert!(t[3].split_with(&t[1]) == [None, Some(t[3].clone())]);
        vec![s.finish_with_attr(())]
    }));
}''', 'the second selection lies before the first with exactly one token between them', 'the second part starts before the selection')
bug('c12-lines-by-len', 'C12', [(LL, 'if !Rc::ptr_eq(first, second) {', 'if first.ll_tokens.len() != second.ll_tokens.len() {')],
r'''use std::rc::Rc;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a = LLSelection::from_line(Rc::new(create_line_from_string("a b"))).unwrap();
    let b = LLSelection::from_line(Rc::new(create_line_from_string("c d"))).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.split_with(&b)));
    if r.is_ok() { std::process::exit(1) }
}''', 'two lines of the same number of tokens', 'mixing their selections is accepted')
# ---------------------------------------------------------------- C13
bug('c13-end-last', 'C13', [(SEL, '''                    &XBackwards {
                        from_idx: self.end_idx,
                    },
                    &self.ll_line,
                )
                .first()''', '''                    &XBackwards {
                        from_idx: self.end_idx,
                    },
                    &self.ll_line,
                )
                .iter()
                .max_by_key(|(_, to_idx)| to_idx.0)''')],
r'''fn main() {
    let l = create_line_from_string("a b c").run(&rec(|s: LLSelection| {
        let t: Vec<LLSelection> = s.find_by(&x::token_text()).into_iter().map(|x| x.0).collect();
        let wide = s.split_with(&t[1])[1].clone().unwrap();
        vec![wide.finish_with_attr(A(1)), t[4].finish_with_attr(A(2))]
    }));
    let _ = l.run(&rec(|s: LLSelection| {
        let t = s.find_by(&x::token_text());
        assert!(s.trim_end(&x::attr::<A>()) == s.split_with(&t[1].0)[0].clone().and_then(|p| Some(p.match_forwards(&x::token_text())[0].0.clone())));
        vec![s.finish_with_attr(())]
    }));
}''', 'several backward matches of different length at the end', 'the shortest is removed rather than the first')
bug('c13-both-on-trimmed', 'C13', [(SEL, '        if from_end {\n', '        if from_end && !(from_start && new_start == new_end && new_start > self.start_idx) {\n')],
r'''fn main() {
    let l = create_line_from_string("  ,").run(&rec(|s: LLSelection| {
        let t: Vec<LLSelection> = s.find_by(&x::token_text()).into_iter().map(|x| x.0).collect();
        vec![t[0].finish_with_attr(A(1)), t[1].finish_with_attr(A(1))]
    }));
    let _ = l.run(&rec(|s: LLSelection| {
        assert!(s.trim(&x::attr::<A>()).is_none());
        vec![s.finish_with_attr(())]
    }));
}''', 'trimming both ends where the start match leaves one token and the end match takes it', 'a token stays although nothing should remain')
# ---------------------------------------------------------------- C14
bug('c14-eq-other-line', 'C14', [(SEL, '            && Rc::ptr_eq(&self.ll_line, &other.ll_line)\n', '            && self.ll_line.ll_tokens.len() == other.ll_line.ll_tokens.len()\n')],
r'''use std::rc::Rc;
fn main() {
    let a = LLSelection::from_line(Rc::new(create_line_from_string("a b"))).unwrap();
    let b = LLSelection::from_line(Rc::new(create_line_from_string("c d"))).unwrap();
    assert!(a != b);
}''', 'selections of two lines with as many tokens', 'they compare equal')
bug('c14-finish-clamp', 'C14', [(SEL, '            end_idx: self.end_idx,\n            start_idx: self.start_idx,\n            value,', '            end_idx: self.end_idx,\n            start_idx: self.start_idx.max(self.end_idx.saturating_sub(63)),\n            value,')],
r'''fn main() {
    let l = create_line_from_string("a ".repeat(40)).run(&rec(|s: LLSelection| vec![s.finish_with_attr(A(1))]));
    assert_eq!(spans::<A>(&l), [(0, 79)]);
}''', 'a selection of more than 64 tokens', 'the value lands on its last 64 tokens only')
# ---------------------------------------------------------------- C15
bug('c15-end-in-chars', 'C15', [(DIS, 'token_idx_to_end_display_char_idx.push(UnicodeWidthStr::width(&*opening_line));', '''token_idx_to_end_display_char_idx.push(match &ll_token.token {
                    LToken::Text(text, TextTag::WORD) => token_idx_to_start_display_char_idx.last().unwrap() + text.chars().count(),
                    _ => UnicodeWidthStr::width(&*opening_line),
                });''')],
r'''fn main() {
    let l = create_line_from_string("カタカナ x").run(&rec(|s: LLSelection| vec![s.find_first_by(&x::token_text()).unwrap().0.finish_with_attr(A(1))]));
    assert_eq!(debug_line(&l).with::<A>().to_string(), "カタカナ     x\n╰──────╯A(1)");
}''', 'a word with wide characters', 'the marker does not end under the last column of the word')
bug('c15-multiline-debug', 'C15', [(TB, '.map(|item| format!("{:?}", item))', '.map(|item| format!("{:?}", item).trim().to_string())')],
r"""struct Pad;
impl Debug for Pad {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, " padded ") }
}
fn main() {
    let l = create_line_from_string("x").run(&rec(|s: LLSelection| vec![s.finish_with_attr(Pad)]));
    assert_eq!(debug_line(&l).with::<Pad>().to_string(), "x\n╰ padded ");
}""", 'a value whose debug text starts or ends with whitespace', 'the row does not show the debug text')
bug('c15-value-token-width', 'C15', [(DIS, 'write!(&mut opening_line, "<>")?;', 'write!(&mut opening_line, "{}", if ll_token.pos_starts_at == ll_token.pos_ends_at { "" } else { "<>" })?;')],
r"""fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::custom(0, vec![]), InputToken::text("x".into(), vec![])], |s| s.len());
    assert_eq!(debug_line(&l).to_string(), "<>  x");
}""", 'a custom item of size 0', 'it is not shown')
# ---------------------------------------------------------------- C16
bug('c16-ascii-lower', 'C16', [(TM, 'self.lookup.get(&text.to_lowercase())', 'self.lookup.get(&text.to_ascii_lowercase())')],
r'''fn main() {
    let l = create_line_from_string("ÉCOLE").run(&TextMatchAssignResolver::new_case_insensitive_str_arr([("école", A(1))]));
    assert_eq!(spans::<A>(&l), [(0, 0)]);
}''', 'an upper-case letter outside ASCII in the text', 'the token is not matched')
bug('c16-words-only', 'C16', [(TM, '.find_by(&x::token_text())\n            .into_iter()\n            .flat_map(|(selection, text)| {', '.find_by(&x::token_text())\n            .into_iter()\n            .filter(|(_, text)| !text.trim().is_empty())\n            .flat_map(|(selection, text)| {')],
r'''fn main() {
    let l = create_line_from_string("a\tb").run(&TextMatchAssignResolver::new([("\t".to_string(), vec![A(1)])].into_iter().collect()));
    assert_eq!(spans::<A>(&l), [(1, 1)]);
}''', 'a key that is a whitespace token', 'whitespace tokens never match')
# ---------------------------------------------------------------- C17
bug('c17-decimal-after-trailing', 'C17', [(AM, '            if last_valid_selection.is_none() {\n', '            if last_valid_selection.is_none() || number_string.len() > 6 {\n')],
r'''use layered_amount::{Amount, AmountResolver};
fn main() {
    let l = create_line_from_string("1,000,000,.5").run(&AmountResolver::english());
    assert_eq!(spans::<Amount>(&l)[0], (0, 4));
    assert_eq!(l.query::<Amount>()[0].2[0].get_decimal().to_string(), "1000000");
}''', 'a number of more than six digits followed by a trailing delimiter and directly a decimal point', 'the digits after the decimal point are absorbed', deps=['layered-amount'])
bug('c17-leading-zeros', 'C17', [(AM, 'let mut number_string = String::from(text);', "let mut number_string = String::from(text.trim_start_matches('0'));")],
r'''use layered_amount::{Amount, AmountResolver};
fn main() {
    let l = create_line_from_string("0 items").run(&AmountResolver::english());
    assert_eq!(spans::<Amount>(&l), [(0, 0)]);
}''', 'a number written only with zeros', 'it gets no amount', deps=['layered-amount'])
# ---------------------------------------------------------------- C18
bug('c18-typographic', 'C18', [(AM, "delimiters: vec![',', '\\''],", "delimiters: vec![',', '\\u{2019}'],")],
r'''use layered_amount::{Amount, AmountResolver};
fn main() {
    let l = create_line_from_string("1'000'240.00").run(&AmountResolver::english());
    assert_eq!(spans::<Amount>(&l).len(), 1);
}''', 'an ASCII apostrophe as delimiter', 'the number falls apart', deps=['layered-amount'])
bug('c18-french-nbsp', 'C18', [(AM, "delimiters: vec![' ', '.', '\\''],", "delimiters: vec!['\\u{a0}', '.', '\\''],")],
r'''use layered_amount::{Amount, AmountResolver};
fn main() {
    let l = create_line_from_string("1 000 000").run(&AmountResolver::french());
    assert_eq!(spans::<Amount>(&l).len(), 1);
}''', 'a French number grouped with plain spaces', 'the number falls apart', deps=['layered-amount'])
# ---------------------------------------------------------------- C19
bug('c19-ascii-lower', 'C19', [(PS, '.get(&word.to_lowercase())', '.get(&word.to_ascii_lowercase())')],
r"""use layered_part_of_speech::{POSTagResolver, Tag};
fn main() {
    let f = |s: &str| format!("{:?}", create_line_from_string(s).run(&POSTagResolver::default()).query::<Tag>()[0].2);
    assert_eq!(f("\u{212A}nife"), f("knife"));
}""", 'an upper-case letter outside ASCII whose lower case is ASCII (the Kelvin sign)', 'a known word is treated as unknown', deps=['layered-part-of-speech'])
bug('c19-tags-first-four', 'C19', [(PS, '                    .tags()\n', '                    .tags()\n                    .take(5)\n')],
r"""use layered_part_of_speech::{POSTagResolver, Tag};
fn main() {
    let most = ["like", "well", "down", "round", "out", "all", "but", "a", "as", "so", "that", "up", "in"];
    let n: Vec<usize> = most.iter().map(|w| create_line_from_string(w).run(&POSTagResolver::default()).query::<Tag>()[0].2.len()).collect();
    assert!(n.iter().any(|n| *n > 5), "{n:?}");
}""", 'a word with more than five tags', 'tags are lost', deps=['layered-part-of-speech'])
bug('c19-unknown-capital', 'C19', [(PS, '.unwrap_or_else(|| TagSet::of(&[Tag::Noun]))', '.unwrap_or_else(|| if word.chars().all(char::is_uppercase) && word.chars().count() > 1 { TagSet::of(&[Tag::Noun, Tag::ProperNoun]) } else { TagSet::of(&[Tag::Noun]) })')],
r'''use layered_part_of_speech::{POSTagResolver, Tag};
fn main() {
    let l = create_line_from_string("QZXJK").run(&POSTagResolver::default());
    let n: usize = l.query::<Tag>().iter().map(|q| q.2.len()).sum();
    assert_eq!(n, 1);
}''', 'an unknown word all in capitals', 'it gets a second tag', deps=['layered-part-of-speech'])
# ---------------------------------------------------------------- C20
bug('c20-precedence', 'C20', [(CK, '''                    } else if self.then.contains(&text.as_str()) {
                        ClauseKeyword::Then
                    } else if self.and.contains(&text.as_str()) {
                        ClauseKeyword::And''', '''                    } else if self.and.contains(&text.as_str()) {
                        ClauseKeyword::And
                    } else if self.then.contains(&text.as_str()) {
                        ClauseKeyword::Then''')],
r'''use layered_clauses::*;
fn main() {
    let l = create_line_from_string("a plus b").run(&ClauseKeywordResolver::new(&["if"], &["plus"], &["plus"]));
    assert_eq!(l.query::<ClauseKeyword>()[0].2, [&ClauseKeyword::Then]);
}''', "a word configured both for 'then' and for 'and'", "it is marked 'and'", deps=['layered-clauses'])
bug('c20-ascii-case', 'C20', [(CK, 'let text = text.to_lowercase();', 'let text = text.to_ascii_lowercase();')],
r'''use layered_clauses::*;
fn main() {
    let l = create_line_from_string("ЕСЛИ дождь").run(&ClauseKeywordResolver::new(&["если"], &["и"], &["то"]));
    assert_eq!(spans::<ClauseKeyword>(&l), [(0, 0)]);
}''', 'an upper-case keyword outside ASCII', 'it is not recognised', deps=['layered-clauses'])
# ---------------------------------------------------------------- C21
bug('c21-single-leading', 'C21', [(CL, 'if let Some(trimmed_clause_selection) = clauses[0].trim(&x::whitespace()) {', 'if let Some(trimmed_clause_selection) = clauses[0].trim_end(&x::whitespace()) {')],
r"""use layered_clauses::*;
fn main() {
    let l = create_line_from_string(" hello").run(&ClauseResolver::default());
    assert_eq!(spans::<Clause>(&l), [(1, 1)]);
}""", 'a line of one clause starting with whitespace', 'the clause includes the whitespace', deps=['layered-clauses'])
bug('c21-and-effect', 'C21', [(CL, """                            ClauseKeyword::And => Some(trimmed_clause_selection.finish_with_attr(
                                if condition_clause_found {""", """                            ClauseKeyword::And => Some(trimmed_clause_selection.finish_with_attr(
                                if condition_clause_found || clause_selection.after().is_none() {""")],
r"""use layered_clauses::*;
fn main() {
    let l = create_line_from_string("open it and leave").run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"])).run(&ClauseResolver::default());
    let v: Vec<Clause> = l.query::<Clause>().into_iter().map(|q| q.2[0].clone()).collect();
    assert_eq!(v, [Clause::LeadingEffect, Clause::LeadingEffect]);
}""", "an 'and' clause at the very end of a line without condition", 'it is labelled a trailing effect', deps=['layered-clauses'])
bug('c21-blank-pieces', 'C21', [(CL, '''        let clauses = selection.split_by(&x::any_of((
            x::attr::<ClauseKeyword>(),
            x::attr_eq(&TextTag::PUNC),
        )));''', '''        let clauses: Vec<_> = selection
            .split_by(&x::any_of((
                x::attr::<ClauseKeyword>(),
                x::attr_eq(&TextTag::PUNC),
            )))
            .into_iter()
            .filter(|clause| clause.trim(&x::whitespace()).is_some())
            .collect();''')],
r'''use layered_clauses::*;
fn main() {
    let l = create_line_from_string("hello . ").run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"])).run(&ClauseResolver::default());
    assert_eq!(l.query::<Clause>()[0].2, [&Clause::LeadingEffect]);
}''', 'a line with one clause and a blank piece', 'the clause is labelled independent', deps=['layered-clauses'])
# ---------------------------------------------------------------- C22
bug('c22-ranges-per-run', 'C22', [(LL, '        self.ends_at\n            .get_mut(range.1)\n            .expect("has initial ends_at value in bounds")\n            .insert_distinct::<T>(range);\n        self.ranges', '        // index wide spans once\n        if range.1 < range.0 + 2 || !self.values.contains_key(&range) {\n            self.ends_at\n                .get_mut(range.1)\n                .expect("has initial ends_at value in bounds")\n                .insert_distinct::<T>(range);\n        }\n        self.ranges')],
r'''fn main() {
    let back = |l: LLLine| {
        let mut n = 0;
        let n = std::cell::RefCell::new(&mut n);
        let _ = l.run(&rec(|s: LLSelection| {
            let last = s.find_by(&x::token_text()).pop().unwrap().0;
            **n.borrow_mut() = last.match_backwards(&x::attr::<B>()).len();
            vec![s.finish_with_attr(())]
        }));
        let r = **n.borrow();
        r
    };
    let wide = |s: LLSelection| { let t = s.find_by(&x::token_text()).pop().unwrap().0; s.split_with(&t)[0].clone().unwrap() };
    let a = rec(|s: LLSelection| vec![wide(s).finish_with_attr(A(1))]);
    let b = rec(|s: LLSelection| vec![wide(s).finish_with_attr(B(1))]);
    let fresh = || create_line_from_string("a b!");
    assert_eq!(back(fresh().run(&a).run(&b)), back(fresh().run(&b).run(&a)));
}''', 'two recognisers of different types assigning to the same span of three or more tokens, and backward matching', 'what backward matching finds depends on which recogniser ran first')
bug('c22-query-hash-order', 'C22', [(LL, '''        self.attrs
            .ranges
            .get::<T>()
            .iter()
            .map(|range| {
                let text =''', '''        let mut ranges: Vec<&LRange> = self.attrs.ranges.get::<T>().iter().collect();
        if ranges.len() > 6 {
            // many spans: go through the values once
            ranges = self
                .attrs
                .values
                .iter()
                .filter(|(_, bucket)| !bucket.get::<T>().is_empty())
                .map(|(range, _)| range)
                .collect();
        }
        ranges
            .into_iter()
            .map(|range| {
                let text =''')],
r'''fn main() {
    for _ in 0..20 {
        let l = create_line_from_string("a b c d e f g h");
        assert_eq!(spans::<TextTag>(&l), (0..15).map(|i| (i, i)).collect::<Vec<_>>());
    }
}''', 'querying a type with more than six spans', 'the order of the results differs from run to run')
# ---------------------------------------------------------------- C23
bug('c23-display-underflow', 'C23', [(DIS, 'end_char_idx.saturating_sub(1) {', '(end_char_idx - 1) {')],
r'''fn main() {
    let l = create_line_from_string("\u{200b}");
    let _ = debug_line(&l).with::<TextTag>().to_string();
}''', 'a line that starts with a token of no width', 'displaying it fails')
bug('c23-no-clause', 'C23', [(CL, 'if clauses.len() == 1 {', 'if clauses.len() <= 1 {')],
r'''use layered_clauses::*;
fn main() {
    let l = create_line_from_string("...").run(&ClauseResolver::default());
    assert!(spans::<Clause>(&l).is_empty());
}''', 'a line of nothing but punctuation and keywords', 'the clause recogniser panics', deps=['layered-clauses'])
# ---------------------------------------------------------------- C24
bug('c24-refused-type', 'C24', [(TB, '.map_err(|e| AnyAttribute(key, empty_bucket, e))', '.map_err(|e| { let _ = key; AnyAttribute(TypeId::of::<T>(), empty_bucket, e) })')],
r'''fn main() {
    let a = AnyAttribute::new(A(1));
    let a = a.extract::<B>().unwrap_err();
    assert_eq!(a.type_id(), std::any::TypeId::of::<A>());
}''', 'a refused attempt to take the attribute apart', 'the attribute then reports the wrong type')
bug('c24-bucket-first', 'C24', [(TB, '        self.push(*val.downcast().expect("type doesn\'t match"));', '        let val: T = *val.downcast().expect("type doesn\'t match");\n        if std::mem::size_of::<T>() == 0 && !self.is_empty() {\n            return;\n        }\n        self.push(val);')],
r'''#[derive(Debug)]
struct Z;
fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("a".into(), vec![AnyAttribute::new(Z), AnyAttribute::new(Z)])], |s| s.len());
    assert_eq!(l.query::<Z>()[0].2.len(), 2);
}''', 'two attributes of a type without data on one item', 'only one of them is on the line')
# ================================================================ second batch
# ---------------------------------------------------------------- C01
bug('c01-merge-items', 'C01', [(CT, '    for (ltokens, attrs) in input.into_iter().map(|input_token| match input_token {', '''    // plain neighbouring texts can be read in one go
    let input = input.into_iter().fold(Vec::<InputToken>::new(), |mut merged, token| {
        match (merged.last_mut(), token) {
            (Some(InputToken::Text { text: before, attrs: before_attrs }), InputToken::Text { text, attrs })
                if before_attrs.is_empty() && attrs.is_empty() && text.starts_with(|c: char| c.is_ascii_digit()) =>
            {
                before.push_str(&text);
            }
            (_, token) => merged.push(token),
        }
        merged
    });

    for (ltokens, attrs) in input.into_iter().map(|input_token| match input_token {''')],
r'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("1".into(), vec![]), InputToken::text("2".into(), vec![])], |s| s.len());
    assert_eq!(texts(&l), ["1", "2"]);
}''', 'two neighbouring texts without attributes, the second starting with a digit', 'a token runs from one item into the next')
bug('c01-string-trailing-newline', 'C01', [('src/lib.rs', 'input_string.as_ref().to_string(), Vec::new()', '''input_string.as_ref().strip_suffix('\\n').filter(|s| !s.is_empty()).unwrap_or(input_string.as_ref()).to_string(), Vec::new()''')],
r'''fn main() {
    assert_eq!(texts(&create_line_from_string("a b\n")).concat(), "a b\n");
}''', 'a plain string ending in a line break', 'the line break is lost')
# ---------------------------------------------------------------- C02
bug('c02-alnum', 'C02', [(WT, '        if c.is_alphabetic() {\n            continue;', '        if c.is_alphanumeric() && !c.is_ascii_digit() {\n            continue;')],
r'''fn main() {
    let l = create_line_from_string("x\u{663}");
    assert_eq!(texts(&l).len(), 1);
    assert_eq!(l.query::<TextTag>()[0].2, [&TextTag::SYMB]);
}''', 'a word segment with a digit outside ASCII', 'it is tagged as a word')
bug('c02-punct-fullwidth', 'C02', [(WT, 'word.len() == 1 && PUNCTUATION.contains(&word.chars().next().unwrap())', "word.chars().count() == 1 && (PUNCTUATION.contains(&word.chars().next().unwrap()) || word == \"\\u{2026}\")")],
r'''fn main() {
    let l = create_line_from_string("so\u{2026}");
    assert_eq!(l.query::<TextTag>()[1].2, [&TextTag::SYMB]);
}''', 'an ellipsis character', 'it is tagged as punctuation')
bug('c02-long-spaces', 'C02', [(CT, '''            } else {
                // Hmm
                // This was''', '''            } else if unicode_word.len() > 64 && unicode_word.starts_with(' ') {
                // keep the tokens of indentation short
                let (head, tail) = unicode_word.split_at(64);
                for part in [head, tail].iter() {
                    ltokens.push((LToken::Text(part.to_string(), TextTag::SPACE), get_text_size(part)));
                }
            } else {
                // Hmm
                // This was''')],
r'''fn main() {
    assert_eq!(texts(&create_line_from_string(" ".repeat(70))).len(), 1);
}''', 'more than 64 consecutive spaces', 'they are cut into two tokens')
# ---------------------------------------------------------------- C03
bug('c03-memo-size', 'C03', [(CT, '''    // `fold` because we end up splitting more than just unicode word boundaries
''', '''    // the same few texts are measured over and over again
    thread_local! {
        static SIZES: std::cell::RefCell<std::collections::HashMap<String, usize>> = Default::default();
    }
    let get_text_size = |text: &str| {
        if text.len() < 12 {
            return get_text_size(text);
        }
        SIZES.with(|sizes| {
            *sizes
                .borrow_mut()
                .entry(text.to_string())
                .or_insert_with(|| get_text_size(text))
        })
    };

    // `fold` because we end up splitting more than just unicode word boundaries
''')],
r'''fn main() {
    let f = |n: usize| create_line_from_input_tokens(vec![InputToken::text("internationalisation".into(), vec![])], move |_| n).find(&x::token_text())[0].range();
    assert_eq!((f(3), f(7)), ((0, 3), (0, 7)));
}''', 'two lines with the same long word built with different size functions', "the second line's positions are in the first one's measure")
bug('c03-letters-chars', 'C03', [(CT, 'let size = get_text_size(&collected_letters);', 'let size = collected_letters.chars().map(|ch| get_text_size(ch.encode_utf8(&mut [0; 4]))).sum();')],
r'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("10km x".into(), vec![])], |_| 1);
    let r: Vec<_> = l.find(&x::token_text()).iter().map(|f| f.range()).collect();
    assert_eq!(r, [(0, 1), (1, 2), (2, 3), (3, 4)]);
}''', 'a size function that is not additive over characters and letters directly after digits', 'positions are off')
bug('c03-find-end', 'C03', [(LL, 'end_pos_at: self.pos_end_at(next_idx.0),', 'end_pos_at: if next_idx.0 + 1 < self.ll_tokens.len() { self.pos_start_at(next_idx.0 + 1) } else { self.ll_tokens.iter().map(|token| token.pos_ends_at - token.pos_starts_at).fold(0, |a, b| (a + b) & 0xffff_ffff) },')],
r'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::custom(1 << 33, vec![]), InputToken::text("x".into(), vec![])], |s| s.len());
    assert_eq!(l.find(&x::token_text())[0].range(), (1 << 33, (1 << 33) + 1));
}''', 'a match at the end of a line longer than 2^32', 'its end position is wrong')
# ---------------------------------------------------------------- C04
bug('c04-grapheme-char', 'C04', [(LL, 'if let (Some(c), None) = (chars.next(), chars.next()) {', "if let (Some(c), None) = (chars.next(), chars.find(|c| *c != '\\u{fe0f}')) {")],
r'''fn main() {
    let l = create_line_from_string("\u{2764}\u{fe0f}");
    assert!(spans::<char>(&l).is_empty());
}''', 'a symbol followed by the emoji variation selector', 'a token of two characters carries a character')
bug('c04-many-items', 'C04', [(CT, '        start_idx_end_idx_attributes.push((from_idx, to_idx, attrs));', '        start_idx_end_idx_attributes.push((from_idx, if to_idx > 255 { to_idx & 0xff } else { to_idx }.max(from_idx), attrs));')],
r'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("a ".repeat(140), vec![]), InputToken::text("b c".into(), vec![AnyAttribute::new(A(1))])], |s| s.len());
    assert_eq!(spans::<A>(&l), [(280, 282)]);
}''', 'an item that ends after more than 256 tokens', 'its attribute covers the first token only')
bug('c04-equal-items', 'C04', [(LL, '''            self.attrs.ranges.insert_any_distinct(attr.type_id(), range);
            self.attrs
                .values
                .entry(range)
                .or_default()
                .insert_any_attribute(attr);''', '''            self.attrs.ranges.insert_any_distinct(attr.type_id(), range);
            if attr.type_id() == std::any::TypeId::of::<TextTag>() && self.attrs.values.contains_key(&range) {
                // the tag is known already
                continue;
            }
            self.attrs
                .values
                .entry(range)
                .or_default()
                .insert_any_attribute(attr);''')],
r'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("ok".into(), vec![AnyAttribute::new(TextTag::SYMB)])], |s| s.len());
    assert_eq!(l.query::<TextTag>()[0].2, [&TextTag::WORD, &TextTag::SYMB]);
}''', 'a text tag supplied as an attribute of an item of one token', 'the supplied attribute is dropped')
# ---------------------------------------------------------------- C05
bug('c05-drop-equal-earlier', 'C05', [(LL, '            self.attrs.insert((start_idx, end_idx), value);\n        }\n\n        self\n', '''            // running a recognizer again brings nothing new
            if end_idx > start_idx + 1
                && self.attrs.values.get(&(start_idx, end_idx)).map_or(false, |bucket| {
                    bucket.get_debug::<R::Attr>().len() > 1
                        && bucket.get_debug::<R::Attr>().contains(&format!("{:?}", value))
                })
            {
                continue;
            }
            self.attrs.insert((start_idx, end_idx), value);
        }

        self
''')],
r'''fn main() {
    let r = rec(|s: LLSelection| vec![s.finish_with_attr(A(1)), s.finish_with_attr(A(2))]);
    let l = create_line_from_string("a b").run(&r).run(&r);
    assert_eq!(l.query::<A>()[0].2.len(), 4);
}''', 'a value equal to an earlier one on a span of three or more tokens that holds at least two', 'it is dropped')
bug('c05-selection-end', 'C05', [(LL, 'end_idx: ll_line.ll_tokens().len() - 1,', 'end_idx: (ll_line.ll_tokens().len() - 1).min(1023),')],
r'''fn main() {
    let l = create_line_from_string("a ".repeat(600)).run(&rec(|s: LLSelection| vec![s.finish_with_attr(A(1))]));
    assert_eq!(spans::<A>(&l), [(0, 1199)]);
}''', 'a line of more than 1024 tokens', 'the recogniser is given only its first 1024 tokens')
bug('c05-finish-with-pairs', 'C05', [('src/ll_line/finish_with.rs', '        self.into_iter()\n', '''        let mut last: Option<LLSelection> = None;
        self.into_iter()
            .filter(|(selection, _)| {
                // a selection can be matched in both directions
                let seen = last.as_ref().map_or(false, |last| last == selection);
                last = Some(selection.clone());
                !seen
            })
''')],
r'''fn main() {
    let l = create_line_from_string("a b").run(&rec(|s: LLSelection| vec![(s.clone(), 1), (s, 2)].finish_with(A)));
    assert_eq!(l.query::<A>()[0].2, [&A(1), &A(2)]);
}''', 'several matches of one span finished together', 'only the first is assigned')
# ---------------------------------------------------------------- C06
bug('c06-distinct-window', 'C06', [(TI, 'if !entry.contains(&value_to_add) {', 'if !entry.iter().rev().take(64).any(|value| *value == value_to_add) {')],
r'''fn main() {
    let l = create_line_from_string("a ".repeat(40)).run(&rec(|s: LLSelection| {
        let t: Vec<LLSelection> = s.find_by(&x::token_text()).into_iter().map(|x| x.0).collect();
        t.iter().chain(Some(&t[0])).map(|t| t.finish_with_attr(A(1))).collect()
    }));
    assert_eq!(spans::<A>(&l).len(), 80);
}''', 'a span that receives a value again after more than 64 other spans did', 'it is listed twice', nth={'if !entry.contains(&value_to_add) {': 0})
bug('c06-query-value-text', 'C06', [(LL, 'LToken::Value => "",\n                        }\n                    }));', 'LToken::Value => if range.0 == range.1 { "" } else { " " },\n                        }\n                    }));')],
r'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("a".into(), vec![]), InputToken::custom(1, vec![]), InputToken::text("b".into(), vec![])], |s| s.len()).run(&rec(|s: LLSelection| vec![s.finish_with_attr(A(1))]));
    assert_eq!(l.query::<A>()[0].1, "ab");
}''', 'a span of several tokens holding a value token', 'its text has a space there')
bug('c06-bucket-vec', 'C06', [(TB, '            .or_insert_with(|| Box::new(Vec::<T>::new()))\n            .as_any_mut()\n            .downcast_mut::<Vec<T>>()\n            .unwrap()\n            .push(val);', '''            .or_insert_with(|| Box::new(Vec::<T>::new()))
            .as_any_mut()
            .downcast_mut::<Vec<T>>()
            .map(|values| {
                // keep spans with very many values bounded
                if values.len() == 256 {
                    values.remove(0);
                }
                values.push(val)
            })
            .unwrap();''')],
r'''fn main() {
    let l = create_line_from_string("a").run(&rec(|s: LLSelection| (0..300).map(|i| s.finish_with_attr(A(i))).collect()));
    assert_eq!(l.query::<A>()[0].2.len(), 300);
}''', 'more than 256 values of a type on one span', 'the oldest are dropped')
# ---------------------------------------------------------------- C07
bug('c07-has-any-16', 'C07', [(X, '                if set.contains(value) {\n                    Some((value, ToIdx(self.from_idx)))', '                if set[..set.len().min(16)].contains(value) {\n                    Some((value, ToIdx(self.from_idx)))')],
r'''fn main() {
    let l = create_line_from_string("z");
    let all: Vec<char> = ('a'..='z').collect();
    assert_eq!(l.find(&x::token_has_any(&all)).len(), 1);
}''', 'a set of more than 16 values', 'values listed late do not match', nth={'                if set.contains(value) {\n                    Some((value, ToIdx(self.from_idx)))': 0})
bug('c07-eq-identity', 'C07', [(X, '''                        if val == equals {
                            Some(((), ToIdx(range.1)))''', '''                        if std::ptr::eq(val, equals) || val == equals {
                            Some(((), ToIdx(range.1)))''')],
r'''fn main() {
    // a value that is not even equal to itself
    let l = create_line_from_string("a").run(&rec(|s: LLSelection| vec![s.finish_with_attr(f64::NAN)]));
    let own: &f64 = l.query::<f64>()[0].2[0];
    assert!(l.find(&x::attr_eq(own)).is_empty());
}''', 'a value that is not equal to itself, matched by the very reference on the line', 'it matches')
bug('c07-forward-eq-break', 'C07', [(X, '''                    .filter_map(move |val| {
                        if val == equals {
                            Some(((), ToIdx(range.1)))
                        } else {
                            None
                        }
                    })''', '''                    .take(100)
                    .filter_map(move |val| {
                        if val == equals {
                            Some(((), ToIdx(range.1)))
                        } else {
                            None
                        }
                    })''')],
r'''fn main() {
    let l = create_line_from_string("a").run(&rec(|s: LLSelection| (0..150).map(|i| s.finish_with_attr(A(i))).collect()));
    assert_eq!(l.find(&x::attr_eq(&A(140))).len(), 1);
}''', 'more than a hundred values on a span', 'the later ones are not found')
bug('c07-text-forward-value', 'C07', [(X, '''            } => Some((s, ToIdx(self.from_idx))),
            _ => None,''', '''            } => Some((s, ToIdx(self.from_idx))),
            LLToken { pos_starts_at, pos_ends_at, .. } if pos_starts_at == pos_ends_at && self.from_idx > 0 => Some(("", ToIdx(self.from_idx))),
            _ => None,''')],
r'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("a".into(), vec![]), InputToken::custom(0, vec![])], |s| s.len());
    assert_eq!(l.find(&x::token_text()).len(), 1);
}''', 'a custom item of size 0 that is not first', 'the text matcher matches it')
# ---------------------------------------------------------------- C08
bug('c08-all2-index', 'C08', [('src/ll_line/x/all.rs', '''                bs.iter().filter_map(move |(b, b_to_idx)| {
                    if a_to_idx == *b_to_idx {
                        Some(((a, *b), a_to_idx))
                    } else {
                        None
                    }
                })''', '''                // hits come grouped by where they stop
                bs.iter()
                    .skip_while(move |(_, b_to_idx)| a_to_idx != *b_to_idx)
                    .take_while(move |(_, b_to_idx)| a_to_idx == *b_to_idx)
                    .map(move |(b, _)| ((a, *b), a_to_idx))''')],
r'''fn main() {
    // B values on the same span reached in two groups needs a sequence
    let l = create_line_from_string("a b c").run(&rec(|s: LLSelection| {
        let t: Vec<LLSelection> = s.find_by(&x::token_text()).into_iter().map(|x| x.0).collect();
        let sp = |a: usize, b: usize| { let mut r = t[a].clone(); while r != t[a] || true { if format!("{:?}", r).contains(&format!("end_idx: {} ", b)) { break } r = r.match_first_forwards(&x::token_text()).unwrap().0; } r };
        vec![sp(0, 0).finish_with_attr(A(1)), sp(0, 1).finish_with_attr(A(2)), sp(1, 2).finish_with_attr(A(3)), sp(1, 3).finish_with_attr(A(4)), sp(2, 2).finish_with_attr(A(5))]
    })).run(&rec(|s: LLSelection| { let t = s.find_by(&x::token_text()); vec![s.split_with(&t[3].0)[0].clone().unwrap().finish_with_attr(B(1))] }));
    let n = l.find(&x::all((x::attr::<B>(), x::seq((x::attr::<A>(), x::attr::<A>()))))).len();
    assert_eq!(n, 2);
}''', 'a conjunction whose second part is a sequence reaching the same token by different ways with other hits between', 'combinations are lost')
bug('c08-anyof2-both', 'C08', [('src/ll_line/x/any_of.rs', '''            self.1
                .go(direction, ll_line)
                .into_iter()
                .map(|(b, idx)| (AnyOf2::B(b), idx))
                .collect()''', '''            let mut bs: Vec<_> = self
                .1
                .go(direction, ll_line)
                .into_iter()
                .map(|(b, idx)| (AnyOf2::B(b), idx))
                .collect();
            // longest first
            if bs.len() > 2 {
                bs.sort_by_key(|(_, idx)| std::cmp::Reverse(idx.0));
            }
            bs''')],
r'''fn main() {
    let l = create_line_from_string("a b").run(&rec(|s: LLSelection| {
        let t: Vec<LLSelection> = s.find_by(&x::token_text()).into_iter().map(|x| x.0).collect();
        let two = t[0].match_first_forwards(&x::token_text()).unwrap().0;
        vec![t[0].finish_with_attr(A(1)), two.finish_with_attr(A(2)), s.finish_with_attr(A(3))]
    }));
    let f = l.find(&x::any_of((x::attr::<B>(), x::attr::<A>())));
    assert_eq!(f[0].range(), (0, 1));
}''', 'an alternative whose second part has three or more hits of different length at a token', 'their order changes')
bug('c08-seq2-span', 'C08', [('src/ll_line/x/seq.rs', '''                direction
                    .after(to_idx.0, ll_line)
                    .map(|direction| self.1.go(&direction, ll_line))
                    .unwrap_or_else(Vec::new)
                    .into_iter()
                    .map(move |(b, to_idx)| ((a, b), to_idx))''', '''                let mut bs = direction
                    .after(to_idx.0, ll_line)
                    .map(|direction| self.1.go(&direction, ll_line))
                    .unwrap_or_else(Vec::new);
                // one continuation per place it stops at
                if bs.len() > 3 {
                    bs.dedup_by_key(|(_, to_idx)| to_idx.0);
                }
                bs.into_iter().map(move |(b, to_idx)| ((a, b), to_idx))''')],
r'''fn main() {
    let l = create_line_from_string("a b").run(&rec(|s: LLSelection| {
        let t = s.find_by(&x::token_text()).pop().unwrap().0;
        (0..5).map(|i| t.finish_with_attr(A(i))).collect()
    }));
    assert_eq!(l.find(&x::seq((x::whitespace(), x::attr::<A>()))).len(), 5);
}''', 'a sequence whose second part has four or more hits', 'only one is reported')
# ---------------------------------------------------------------- C09
bug('c09-first-by-chunk', 'C09', [(SEL, '        self.find_by(matcher).into_iter().next()\n    }\n\n    pub fn find_by_forwards', '''        // no need to search everything for the first match
        (self.start_idx..=self.end_idx)
            .find_map(|i| {
                matcher
                    .go(&XForwards { from_idx: i }, &self.ll_line)
                    .into_iter()
                    .min_by_key(|(_, next_idx)| (next_idx.0 > self.end_idx) as u8)
                    .map(|(out, next_idx)| {
                        (
                            LLSelection {
                                start_idx: i,
                                end_idx: next_idx.0,
                                ll_line: self.ll_line.clone(),
                            },
                            out,
                        )
                    })
            })
    }

    pub fn find_by_forwards''')],
r'''fn main() {
    let l = create_line_from_string("a b").run(&rec(|s: LLSelection| {
        let t = s.find_first_by(&x::token_text()).unwrap().0;
        vec![s.finish_with_attr(A(1)), t.finish_with_attr(A(2))]
    }));
    let _ = l.run(&rec(|s: LLSelection| {
        let t = s.find_first_by(&x::token_text()).unwrap().0;
        assert_eq!(t.find_first_by(&x::attr::<A>()).unwrap().1, &A(1));
        vec![s.finish_with_attr(())]
    }));
}''', 'the first match of a selection runs past its end and a later one at the same token does not', 'the first-match search returns the later one')
bug('c09-two-way-start', 'C09', [(SEL, '                        let backwards = XBackwards { from_idx: i };\n\n                        matcher.go(&backwards, &self.ll_line).into_iter().map(', '                        let backwards = XBackwards { from_idx: i };\n\n                        matcher.go(&backwards, &self.ll_line).into_iter().filter(move |(_, next_idx)| next_idx.0 >= self.start_idx).map(')],
r'''fn main() {
    let _ = create_line_from_string("a b").run(&rec(|s: LLSelection| {
        let t = s.find_by(&x::token_text()).pop().unwrap().0;
        assert_eq!(t.find_by_forwards_and_backwards(&x::seq((x::token_text(), x::whitespace()))).len(), 1);
        vec![s.finish_with_attr(())]
    }));
}''', 'a two-way search of a part of the line with a backward match that starts before it', 'the match is missing')
bug('c09-line-find-values', 'C09', [(LL, '        (0..self.ll_tokens.len())\n            .flat_map(|i| {\n                let forwards', '        (0..self.ll_tokens.len())\n            .filter(|i| !self.attrs.ends_at[*i].get::<TextTag>().is_empty() || self.attrs.values.contains_key(&(*i, *i)) || *i == 0)\n            .flat_map(|i| {\n                let forwards')],
r'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("a".into(), vec![]), InputToken::custom(0, vec![]), InputToken::text("a".into(), vec![])], |s| s.len())
        .run(&rec(|s: LLSelection| { let t = s.find_first_by(&x::token_text()).unwrap().0; vec![s.split_with(&t)[1].clone().unwrap().finish_with_attr(A(1))] }));
    assert_eq!(l.find(&x::attr::<A>()).len(), 1);
}''', 'a value over several tokens that starts at a custom item without an attribute of its own', 'searching the line does not find it')
# ---------------------------------------------------------------- C10
bug('c10-back-dedup', 'C10', [(SEL, '''                    LLSelection {
                        start_idx: next_idx.0,
                        end_idx: self.end_idx,
                        ll_line: self.ll_line.clone(),
                    },''', '''                    LLSelection {
                        start_idx: next_idx.0.min(self.start_idx - 1),
                        end_idx: if self.end_idx - self.start_idx > 31 { self.start_idx + 31 } else { self.end_idx },
                        ll_line: self.ll_line.clone(),
                    },''')],
r'''fn main() {
    let _ = create_line_from_string("a ".repeat(40)).run(&rec(|s: LLSelection| {
        let t = s.find_first_by(&x::token_text()).unwrap().0;
        let rest = s.split_with(&t)[1].clone().unwrap();
        assert!(rest.match_backwards(&x::token_text())[0].0 == s);
        vec![s.finish_with_attr(())]
    }));
}''', 'growing a selection of more than 32 tokens backwards', 'it loses its end')
bug('c10-forward-edge', 'C10', [(SEL, '        if self.end_idx + 1 == self.ll_line.ll_tokens.len() {\n            return Vec::new();', '        if self.end_idx + 1 == self.ll_line.ll_tokens.len() || (self.end_idx + 2 == self.ll_line.ll_tokens.len() && matches!(self.ll_line.ll_tokens[self.end_idx + 1].token, super::LToken::Value)) {\n            return Vec::new();')],
r'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("a".into(), vec![]), InputToken::custom(1, vec![AnyAttribute::new(A(1))])], |s| s.len());
    let _ = l.run(&rec(|s: LLSelection| {
        let t = s.find_first_by(&x::token_text()).unwrap().0;
        assert_eq!(t.match_forwards(&x::attr::<A>()).len(), 1);
        vec![s.finish_with_attr(())]
    }));
}''', 'growing forwards onto a custom item that is the last of the line', 'there is no match')
# ---------------------------------------------------------------- C11
bug('c11-inside-only', 'C11', [(SEL, '        let matches = self.find_by(matcher);\n', '        let mut matches = self.find_by(matcher);\n        matches.retain(|(matched, _)| matched.end_idx <= self.end_idx);\n')],
r'''fn main() {
    let _ = create_line_from_string("a b c").run(&rec(|s: LLSelection| {
        let t: Vec<LLSelection> = s.find_by(&x::token_text()).into_iter().map(|x| x.0).collect();
        let part = s.split_with(&t[1])[0].clone().unwrap();
        assert_eq!(part.split_by(&x::seq((x::token_text(), x::whitespace()))).len(), 0);
        vec![s.finish_with_attr(())]
    }));
}''', 'splitting a part of a line by a match that starts in it and ends beyond', 'the tokens it covers are not cut out')
bug('c11-many-matches', 'C11', [(SEL, '        let matches = self.find_by(matcher);\n', '        let mut matches = self.find_by(matcher);\n        // several matches of the same tokens are one cut, the widest decides\n        matches.dedup_by_key(|(matched, _)| matched.start_idx);\n')],
r'''fn main() {
    let l = create_line_from_string("a b c").run(&rec(|s: LLSelection| {
        let t: Vec<LLSelection> = s.find_by(&x::token_text()).into_iter().map(|x| x.0).collect();
        let wide = t[0].match_first_forwards(&x::token_text()).unwrap().0;
        vec![t[0].finish_with_attr(A(1)), wide.finish_with_attr(A(2))]
    }));
    let _ = l.run(&rec(|s: LLSelection| {
        assert!(format!("{:?}", s.split_by(&x::attr::<A>())[0]).contains("start_idx: 2"));
        vec![s.finish_with_attr(())]
    }));
}''', 'several matches of different length at one token, the first reported not the longest', 'a piece includes a matched token')
# ---------------------------------------------------------------- C12
bug('c12-split-with-equal-len', 'C12', [(SEL, '            self.selection_from(other_selection.end_idx + 1, self.end_idx),\n        ]', '            if other_selection.end_idx + 1 == self.start_idx && other_selection.start_idx == 0 { None } else { self.selection_from(other_selection.end_idx + 1, self.end_idx) },\n        ]')],
r'''fn main() {
    let _ = create_line_from_string("a b").run(&rec(|s: LLSelection| {
        let t = s.find_first_by(&x::token_text()).unwrap().0;
        let rest = t.after().unwrap();
        assert!(rest.split_with(&t) == [None, Some(rest.clone())]);
        vec![s.finish_with_attr(())]
    }));
}''', 'the second selection starts the line and ends right before the first', 'the whole first selection is missing')
# ---------------------------------------------------------------- C13
bug('c13-overrun-kept', 'C13', [(SEL, '                new_start = (first_match.1).0 + 1;', '                if (first_match.1).0 <= self.end_idx {\n                    new_start = (first_match.1).0 + 1;\n                }')],
r'''fn main() {
    let _ = create_line_from_string("a b").run(&rec(|s: LLSelection| {
        let t = s.find_first_by(&x::token_text()).unwrap().0;
        assert!(t.trim_start(&x::seq((x::token_text(), x::whitespace()))).is_none());
        vec![s.finish_with_attr(())]
    }));
}''', 'a match at the start that runs past the end of the selection', 'nothing is trimmed')
bug('c13-trim-whitespace-run', 'C13', [(SEL, '    pub fn trim<\'a, M: XMatch<\'a>>(&\'a self, matcher: &M) -> Option<LLSelection> {\n        self.trim_selection(matcher, true, true)', '''    pub fn trim<'a, M: XMatch<'a>>(&'a self, matcher: &M) -> Option<LLSelection> {
        if self.start_idx == self.end_idx && self.start_idx > 0 {
            return self.trim_selection(matcher, true, false);
        }
        self.trim_selection(matcher, true, true)''')],
r'''fn main() {
    let l = create_line_from_string("a b c").run(&rec(|s: LLSelection| {
        let t: Vec<LLSelection> = s.find_by(&x::token_text()).into_iter().map(|x| x.0).collect();
        vec![t[1].match_first_forwards(&x::token_text()).unwrap().0.finish_with_attr(A(1))]
    }));
    let _ = l.run(&rec(|s: LLSelection| {
        let t: Vec<LLSelection> = s.find_by(&x::token_text()).into_iter().map(|x| x.0).collect();
        assert!(t[2].trim(&x::attr::<A>()).is_none());
        vec![s.finish_with_attr(())]
    }));
}''', 'trimming both ends of a single token when only a backward match exists there', 'the token stays')
# ---------------------------------------------------------------- C14
bug('c14-from-line-value', 'C14', [(SEL, '        let line_len = ll_line.ll_tokens.len();\n        if line_len > 0 {', '        let line_len = ll_line.ll_tokens.len();\n        if line_len > 1 || ll_line.ll_tokens.iter().any(|token| matches!(token.token, super::LToken::Text(..))) {')],
r'''use std::rc::Rc;
fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::custom(1, vec![])], |s| s.len());
    assert!(LLSelection::from_line(Rc::new(l)).is_some());
}''', 'a line of a single custom item', 'there is no selection of it')
bug('c14-eq-start', 'C14', [(SEL, '        self.start_idx == other.start_idx\n            && self.end_idx == other.end_idx', '        self.start_idx == other.start_idx\n            && (self.end_idx == other.end_idx || (self.end_idx ^ other.end_idx) == 256)')],
r'''use std::rc::Rc;
fn main() {
    let s = LLSelection::from_line(Rc::new(create_line_from_string("a ".repeat(200)))).unwrap();
    let t: Vec<LLSelection> = s.find_by(&x::token_text()).into_iter().map(|x| x.0).collect();
    let a = s.split_with(&t[11])[0].clone().unwrap();
    let b = s.split_with(&t[267])[0].clone().unwrap();
    assert!(a != b);
}''', 'two selections whose ends are exactly 256 tokens apart', 'they compare equal')
# ---------------------------------------------------------------- C15
bug('c15-width-cjk', 'C15', [(DIS, 'token_idx_to_start_display_char_idx.push(UnicodeWidthStr::width(&*opening_line));', 'token_idx_to_start_display_char_idx.push(UnicodeWidthStr::width_cjk(&*opening_line));')],
r'''fn main() {
    let l = create_line_from_string("± x");
    assert_eq!(debug_line(&l).with::<TextTag>().to_string(), "±     x\n╰SYMB\n   ╰SPACE\n      ╰WORD");
}''', 'a character of ambiguous width before a marker', 'the marker starts in the wrong column')
bug('c15-include-twice', 'C15', [(DIS, '        for ll_range in self.ll_line.attrs.ranges.get::<T>() {\n', '        for ll_range in self.ll_line.attrs.ranges.get::<T>() {\n            if self.include_attrs.len() >= 500 {\n                break;\n            }\n')],
r'''fn main() {
    let l = create_line_from_string("a ".repeat(300));
    assert_eq!(debug_line(&l).with::<TextTag>().to_string().lines().count(), 601);
}''', 'more than 500 rows', 'the rest is not shown')
bug('c15-empty-marker', 'C15', [(DIS, '            if char_len > 1 {', '            if char_len > 1 || (ends_at_token_idx > starts_at_token_idx && char_len > 0 && end_char_idx > 80) {\n                if end_char_idx > 120 && char_len > 60 {\n                    f.write_char(\'─\')?;\n                }')],
r'''fn main() {
    let l = create_line_from_string("a ".repeat(60)).run(&rec(|s: LLSelection| vec![s.finish_with_attr(A(1))]));
    let d = debug_line(&l).with::<A>().to_string();
    let rows: Vec<&str> = d.split('\n').collect();
    assert_eq!(rows[1].split('A').next().unwrap().chars().count(), rows[0].chars().count());
}''', 'a marker of more than 60 columns ending beyond column 120', 'it is one column too long')
# ---------------------------------------------------------------- C16
bug('c16-sigma', 'C16', [(TM, 'self.lookup.get(&text.to_lowercase())', 'self.lookup.get(&text.chars().flat_map(char::to_lowercase).collect::<String>())')],
r'''fn main() {
    let l = create_line_from_string("ΟΔΟΣ").run(&TextMatchAssignResolver::new_case_insensitive_str_arr([("ΟΔΟΣ", A(1))]));
    assert_eq!(spans::<A>(&l), [(0, 0)]);
}''', 'a Greek word ending in a capital sigma', 'it is not matched')
bug('c16-values-per-key', 'C16', [(TM, '                        .iter()\n                        .cloned()\n', '                        .iter()\n                        .take(64)\n                        .cloned()\n')],
r'''fn main() {
    let l = create_line_from_string("x").run(&TextMatchAssignResolver::new([("x".to_string(), (0..100).map(A).collect())].into_iter().collect()));
    assert_eq!(l.query::<A>()[0].2.len(), 100);
}''', 'a key with more than 64 values', 'the rest are not assigned')
bug('c16-long-text', 'C16', [(TM, '                if self.case_sensitive {\n', '                if self.case_sensitive || text.len() > 40 {\n')],
r'''fn main() {
    let w = "Donaudampfschifffahrtselektrizitaetenhauptbetriebswerkbauunterbeamtengesellschaft";
    let l = create_line_from_string(w).run(&TextMatchAssignResolver::new_case_insensitive_str_arr([(w, A(1))]));
    assert_eq!(spans::<A>(&l), [(0, 0)]);
}''', 'a token of more than 40 bytes with a capital letter', 'case is not ignored')
# ---------------------------------------------------------------- C17
bug('c17-buffer-cap', 'C17', [(AM, '                    number_string.push_str(text);\n                    last_valid_selection = None;\n                    selection = following_delimeter_sel;', '                    number_string.push_str(text);\n                    if number_string.len() > 24 && number_string.starts_with(\'0\') {\n                        number_string.remove(1);\n                    }\n                    last_valid_selection = None;\n                    selection = following_delimeter_sel;')],
r'''use layered_amount::{Amount, AmountResolver};
fn main() {
    let l = create_line_from_string("07,123,123,123,123,123,123,123,123").run(&AmountResolver::english());
    assert_eq!(l.query::<Amount>()[0].2[0].get_decimal().to_string(), "7123123123123123123123123");
}''', 'a grouped number of more than 24 digits starting with a zero', 'a digit is lost', deps=['layered-amount'])
bug('c17-scale', 'C17', [(AM, '                        number_string.push_str(text);\n                        last_valid_selection = None;\n                        selection = following_decimal_sel;', '                        number_string.push_str(text.get(..18).unwrap_or(text));\n                        last_valid_selection = None;\n                        selection = following_decimal_sel;')],
r'''use layered_amount::{Amount, AmountResolver};
fn main() {
    let l = create_line_from_string("0.12345678901234567891").run(&AmountResolver::english());
    assert_eq!(l.query::<Amount>()[0].2[0].get_decimal().to_string(), "0.12345678901234567891");
}''', 'more than 18 digits after the decimal point', 'the rest is cut off', deps=['layered-amount'])
bug('c17-scan-resume', 'C17', [(AM, 'if let [_, Some(right_sel)] = search_range_sel.split_with(&selection) {', 'if attrs.len() == 32 {\n                break;\n            }\n\n            if let [_, Some(right_sel)] = search_range_sel.split_with(&selection) {')],
r'''use layered_amount::{Amount, AmountResolver};
fn main() {
    let l = create_line_from_string("1 ".repeat(50)).run(&AmountResolver::english());
    assert_eq!(spans::<Amount>(&l).len(), 50);
}''', 'more than 32 amounts in one line', 'the rest is not found', deps=['layered-amount'])
# ---------------------------------------------------------------- C19
bug('c19-long-words', 'C19', [(PS, '.flat_map(|(selection, (_, word))| {', '.filter(|(_, (_, word))| word.len() <= 64)\n            .flat_map(|(selection, (_, word))| {')],
r'''use layered_part_of_speech::{POSTagResolver, Tag};
fn main() {
    let l = create_line_from_string("x".repeat(80)).run(&POSTagResolver::default());
    assert_eq!(l.query::<Tag>().len(), 1);
}''', 'a word of more than 64 bytes', 'it gets no tag', deps=['layered-part-of-speech'])
bug('c19-memo', 'C19', [(PS, '            .flat_map(|(selection, (_, word))| {', '            .enumerate()\n            .map(|(nth, found)| if nth >= 256 { (found.0, ((), "a")) } else { found })\n            .flat_map(|(selection, (_, word))| {')],
r'''use layered_part_of_speech::{POSTagResolver, Tag};
fn main() {
    let l = create_line_from_string("house ".repeat(300)).run(&POSTagResolver::default());
    let q = l.query::<Tag>();
    assert_eq!(format!("{:?}", q[0].2), format!("{:?}", q[299].2));
}''', 'more than 256 words in a line', 'later words get wrong tags', deps=['layered-part-of-speech'])
# ---------------------------------------------------------------- C20
bug('c20-prefix', 'C20', [(CK, 'if self.cond_start.contains(&text.as_str()) {', "if self.cond_start.contains(&text.trim_end_matches(|c: char| c == '\\u{fe0f}' || c == '\\u{200d}')) {")],
r'''use layered_clauses::*;
fn main() {
    let l = create_line_from_string("if\u{200d} x").run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"]));
    assert!(spans::<ClauseKeyword>(&l).is_empty());
}''', 'a keyword directly followed by a joiner', 'a token whose text is another one is marked', deps=['layered-clauses'])
bug('c20-many-words', 'C20', [(CK, '            cond_start: cond_start.to_vec(),', '            cond_start: cond_start.iter().take(10).copied().collect(),')],
r'''use layered_clauses::*;
fn main() {
    let l = create_line_from_string("l").run(&ClauseKeywordResolver::new(&["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"], &[], &[]));
    assert_eq!(spans::<ClauseKeyword>(&l).len(), 1);
}''', 'more than ten condition words', 'the rest are not recognised', deps=['layered-clauses'])
# ---------------------------------------------------------------- C21
bug('c21-state', 'C21', [(CL, '    // hmmm... configuration?\n', '    condition_clause_found: std::cell::Cell<bool>,\n'), (CL, '        let mut condition_clause_found = false;\n', '        let mut condition_clause_found = self.condition_clause_found.take();\n'), (CL, '                                condition_clause_found = true;\n', '                                condition_clause_found = true;\n                                self.condition_clause_found.set(clause_selection.after().is_none());\n')],
r'''use layered_clauses::*;
fn main() {
    let k = ClauseKeywordResolver::new(&["if"], &["and"], &["then"]);
    let c = ClauseResolver::default();
    let _ = create_line_from_string("stay, if it rains").run(&k).run(&c);
    let l = create_line_from_string("open it, leave").run(&k).run(&c);
    assert_eq!(l.query::<Clause>()[0].2, [&Clause::LeadingEffect]);
}''', 'one recogniser used for two lines, the first ending in a condition', "the second line's clauses are labelled as if after that condition", deps=['layered-clauses'])
bug('c21-keyword-last', 'C21', [(CL, '''                    if let Some((_, clause_keyword)) =
                        clause_selection.match_first_backwards(&x::attr::<ClauseKeyword>())
                    {''', '''                    if let Some((_, clause_keyword)) = clause_selection
                        .match_backwards(&x::attr::<ClauseKeyword>())
                        .pop()
                    {''')],
r'''use layered_clauses::*;
fn main() {
    let l = create_line_from_string("a x b")
        .run(&ClauseKeywordResolver::new(&["x"], &[], &[]))
        .run(&ClauseKeywordResolver::new(&[], &[], &["x"]))
        .run(&ClauseResolver::default());
    let v: Vec<Clause> = l.query::<Clause>().into_iter().map(|q| q.2[0].clone()).collect();
    assert_eq!(v, [Clause::LeadingEffect, Clause::Condition]);
}''', 'a token marked twice, as a condition start first and as something else later', 'the piece after it is labelled by the later mark', deps=['layered-clauses'])
bug('c21-then-resets', 'C21', [(CL, '''                            ClauseKeyword::Then => Some(
                                trimmed_clause_selection.finish_with_attr(Clause::TrailingEffect),
                            ),''', '''                            ClauseKeyword::Then => {
                                condition_clause_found = true;

                                Some(trimmed_clause_selection.finish_with_attr(Clause::TrailingEffect))
                            }''')],
r'''use layered_clauses::*;
fn main() {
    let l = create_line_from_string("a then b, c").run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"])).run(&ClauseResolver::default());
    let v: Vec<Clause> = l.query::<Clause>().into_iter().map(|q| q.2[0].clone()).collect();
    assert_eq!(v, [Clause::LeadingEffect, Clause::TrailingEffect, Clause::LeadingEffect]);
}''', "a 'then' without any condition followed by another piece", 'that piece is labelled a trailing effect', deps=['layered-clauses'])
# ---------------------------------------------------------------- C22
bug('c22-static-counter', 'C22', [(LL, '''        // store new attributes generated by the resolver
''', '''        // store new attributes generated by the resolver
        static RUNS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        if RUNS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 4096 == 4095 {
            // give memory back once in a while
            self.attrs.starts_at.shrink_to_fit();
            self.attrs.starts_at.iter_mut().for_each(|starts| *starts = Default::default());
        }
''')],
r'''fn main() {
    let r = rec(|s: LLSelection| vec![s.finish_with_attr(A(1))]);
    for _ in 0..5000 {
        assert_eq!(create_line_from_string("a b").run(&r).find(&x::attr::<TextTag>()).len(), 3);
    }
}''', 'the 4096th run of any recogniser in a process', 'the same input gives another result')
# ---------------------------------------------------------------- C23
bug('c23-amount-slice', 'C23', [(AM, '            let mut number_string = String::from(text);\n', '            let mut number_string = String::from(text);\n            number_string.reserve(search_range_sel.find_by(&x::token_text()).into_iter().take(3).map(|(_, text)| text[..text.len().min(8)].len()).sum());\n')],
r'''use layered_amount::{Amount, AmountResolver};
fn main() {
    let l = create_line_from_string("12 \u{30a2}\u{30a2}\u{30a2} 1").run(&AmountResolver::english());
    assert_eq!(spans::<Amount>(&l).len(), 2);
}''', 'a token near a number with a character lying across its eighth byte', 'amount recognition panics', deps=['layered-amount'])
# ---------------------------------------------------------------- C24
bug('c24-string-trim', 'C24', [(TB, '        let AnyAttribute(key, empty_bucket, value) = self;\n', '''        let AnyAttribute(key, empty_bucket, mut value) = self;
        if let Some(text) = value.downcast_mut::<String>() {
            text.truncate(text.trim_end_matches('\\0').len());
        }
''')],
r'''fn main() {
    assert_eq!(AnyAttribute::new("a\0".to_string()).extract::<String>().unwrap(), "a\0");
}''', 'a string ending in a zero character', 'it comes back changed')
# ---------------------------------------------------------------- C25
bug('c25-amount-rest-of-line', 'C25', [(AM, 'if let [_, Some(right_sel)] = search_range_sel.split_with(&selection) {', 'if let Some(right_sel) = selection.after() {')],
r'''use layered_amount::{Amount, AmountResolver};
fn main() {
    // the first word and number only
    let r = rec(|s: LLSelection| {
        let comma = s.find_first_by(&x::attr_eq(&',')).unwrap().0;
        AmountResolver::english().go(s.split_with(&comma)[0].clone().unwrap())
    });
    let l = create_line_from_string("a 1 , b 2").run(&r);
    assert_eq!(spans::<Amount>(&l), [(2, 2)]);
}''', 'amounts read in a part of a line that has more numbers after it', 'amounts outside the part are reported', deps=['layered-amount'])
bug('c25-clause-context', 'C25', [(CL, '        let mut condition_clause_found = false;\n', '''        let mut condition_clause_found = matches!(
            selection.match_first_backwards(&x::attr::<ClauseKeyword>()),
            Some((_, ClauseKeyword::ConditionStart))
        );
''')],
r'''use layered_clauses::*;
fn main() {
    let r = rec(|s: LLSelection| {
        let kw = s.find_first_by(&x::attr::<ClauseKeyword>()).unwrap().0;
        ClauseResolver::default().go(kw.after().unwrap())
    });
    let l = create_line_from_string("x if, a, b").run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"])).run(&r);
    let v: Vec<Clause> = l.query::<Clause>().into_iter().map(|q| q.2[0].clone()).collect();
    assert_eq!(v, [Clause::LeadingEffect, Clause::LeadingEffect]);
}''', 'clauses of a part that directly follows a condition keyword and starts with punctuation', 'its effects are labelled as if a condition had been found', deps=['layered-clauses'])
bug('c25-lookup-from-start', 'C25', [(TM, '''        selection
            .find_by(&x::token_text())
            .into_iter()
''', '''        selection
            .find_by(&x::token_text())
            .into_iter()
            .chain(selection.match_forwards(&x::all((x::token_text(), x::attr_eq(&crate::TextTag::WORD)))).into_iter().filter_map(|(grown, (text, ()))| {
                // a word cut off by the end of the selection
                grown.split_with(&selection)[1].clone().map(|word| (word, text))
            }))
''')],
r'''fn main() {
    let r = rec(|s: LLSelection| {
        let b = s.find_first_by(&x::attr_eq(&'b')).unwrap().0;
        TextMatchAssignResolver::new_case_insensitive_str_arr([("a", A(1)), ("b", A(2))]).go(s.split_with(&b)[0].clone().unwrap())
    });
    assert_eq!(spans::<A>(&create_line_from_string("a,b").run(&r)), [(0, 0)]);
}''', 'a lookup on a part of a line followed by a listed word', 'a token outside the part gets a value')
bug('c25-pos-whole-line-first', 'C25', [(PS, '''        selection
            .find_by(&x::all((x::attr_eq(&TextTag::WORD), x::token_text())))
            .into_iter()
''', '''        let already_tagged = selection.match_backwards(&x::attr::<Tag>()).len();
        selection
            .find_by(&x::all((x::attr_eq(&TextTag::WORD), x::token_text())))
            .into_iter()
            .skip(usize::from(already_tagged > 0 && selection.match_backwards(&x::whitespace()).is_empty()))
''')],
r'''use layered_part_of_speech::*;
fn main() {
    // token after token
    let r = rec(|s: LLSelection| {
        let a = s.find_first_by(&x::attr_eq(&'a')).unwrap().0;
        POSTagResolver::default().go(a.after().unwrap())
    });
    let l = create_line_from_string("a日").run(&POSTagResolver::default());
    let before = l.query::<Tag>().iter().filter(|q| q.0 == (1, 1)).map(|q| q.2.len()).sum::<usize>();
    let l = l.run(&r);
    let after = l.query::<Tag>().iter().filter(|q| q.0 == (1, 1)).map(|q| q.2.len()).sum::<usize>();
    assert_eq!(after, before * 2);
}''', 'tags for a part of a line that directly follows a tagged word', 'the first word of the part gets no tag', deps=['layered-part-of-speech'])
# ---------------------------------------------------------------- C26
bug('c26-clause-counter', 'C26', [(CL, '    // hmmm... configuration?\n', '    // how many lines were looked at\n    runs: std::cell::Cell<usize>,\n'), (CL, '        let mut condition_clause_found = false;\n', '        self.runs.set(self.runs.get() + 1);\n        let mut condition_clause_found = false;\n')],
r'''use layered_clauses::*;
struct W<T>(std::marker::PhantomData<T>);
trait No { const IMPLS: bool = false; }
impl<T> No for W<T> {}
impl<T: Send + Sync> W<T> { const IMPLS: bool = true; }
fn main() {
    assert!(W::<ClauseResolver>::IMPLS, "the clause recogniser cannot be shared between threads");
}''', 'a clause recogniser shared by threads', 'programs sharing it no longer compile', deps=['layered-clauses'])
bug('c26-last-lowercase', 'C26', [(TM, '                    self.lookup.get(&text.to_lowercase())\n', '''                    // the same word often comes several times in a row
                    static LAST: std::sync::Mutex<(String, String)> = std::sync::Mutex::new((String::new(), String::new()));
                    if LAST.lock().unwrap().0 != text {
                        *LAST.lock().unwrap() = (text.to_string(), text.to_lowercase());
                    }
                    let lowercase = LAST.lock().unwrap().1.clone();
                    self.lookup.get(&lowercase)
''')],
r'''fn main() {
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..8).map(|k| s.spawn(move || {
            let r = TextMatchAssignResolver::new_case_insensitive_str_arr([("a", A(1)), ("b", A(2))]);
            let t = if k % 2 == 0 { "A B A B A B A B" } else { "B B A A B B A A" };
            let want: Vec<A> = t.split(' ').map(|w| A(if w == "A" { 1 } else { 2 })).collect();
            for _ in 0..3000 {
                let l = create_line_from_string(t).run(&r);
                let got: Vec<A> = l.query::<A>().into_iter().map(|q| q.2[0].clone()).collect();
                assert_eq!(got, want);
            }
        })).collect();
        for h in hs { h.join().unwrap(); }
    });
}''', 'two threads looking words up at the same time, with an unlucky interleaving', 'a token gets the values of another word')
# ---------------------------------------------------------------- C27
bug('c27-extract-box', 'C27', [(TB, '            .map(|boxed| *boxed)\n            .map_err(|e| AnyAttribute(key, empty_bucket, e))', '            .map(|boxed| unsafe { std::ptr::read(Box::leak(boxed) as *const T) })\n            .map_err(|e| AnyAttribute(key, empty_bucket, e))')],
r'''use std::alloc::*;
use std::sync::atomic::*;
struct Count;
static HELD: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { HELD.fetch_add(l.size() as i64, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { HELD.fetch_sub(l.size() as i64, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static COUNT: Count = Count;
fn main() {
    let one = || { AnyAttribute::new([7u64; 16]).extract::<[u64; 16]>().ok().unwrap(); };
    one();
    let before = HELD.load(Ordering::SeqCst);
    for _ in 0..100 { one(); }
    assert_eq!(HELD.load(Ordering::SeqCst), before);
}''', 'attributes taken apart again and again', 'the memory of each is never given back')
bug('c27-display-leak', 'C27', [(TB, "                    .map(|item| format!(\"{:?}\", item))\n", "                    .map(|item| &*Box::leak(format!(\"{:?}\", item).into_boxed_str()))\n                    .map(String::from)\n")],
r'''use std::alloc::*;
use std::sync::atomic::*;
struct Count;
static HELD: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { HELD.fetch_add(l.size() as i64, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { HELD.fetch_sub(l.size() as i64, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static COUNT: Count = Count;
fn main() {
    let l = create_line_from_string("a b c");
    let one = || { LLLineDisplay::new(&l).with::<TextTag>().to_string(); };
    one();
    let before = HELD.load(Ordering::SeqCst);
    for _ in 0..100 { one(); }
    assert_eq!(HELD.load(Ordering::SeqCst), before);
}''', 'a line displayed again and again', 'memory grows with every display')
bug('c27-empty-bucket', 'C27', [(TB, '        self.map.entry(key).or_insert(empty_value).insert_any(value)\n', '''        match self.map.entry(key) {
            hash_map::Entry::Occupied(mut bucket) => {
                bucket.get_mut().insert_any(value);
                std::mem::forget(empty_value);
            }
            hash_map::Entry::Vacant(bucket) => bucket.insert(empty_value).insert_any(value),
        }
''')],
r'''use std::alloc::*;
use std::sync::atomic::*;
struct Count;
static HELD: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { HELD.fetch_add(l.size() as i64, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { HELD.fetch_sub(l.size() as i64, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static COUNT: Count = Count;
fn main() {
    let one = || { create_line_from_input_tokens(vec![InputToken::text("a b".into(), vec![AnyAttribute::new(A(1)), AnyAttribute::new(A(2))])], |s| s.len()); };
    one();
    let before = HELD.load(Ordering::SeqCst);
    for _ in 0..100 { one(); }
    assert_eq!(HELD.load(Ordering::SeqCst), before);
}''', 'two attributes of one type on one input item', 'some memory is never given back')
bug('c27-discarded-value', 'C27', [(LL, '''        // store new attributes generated by the resolver
''', '''        let assignments = std::mem::ManuallyDrop::new(assignments);
        // store new attributes generated by the resolver
'''), (LL, '''        } in assignments
        {
            self.attrs.insert((start_idx, end_idx), value);
        }
''', '''        } in assignments.iter()
        {
            // moved out: the vector itself is not dropped
            self.attrs.insert((*start_idx, *end_idx), unsafe { std::ptr::read(value) });
        }
''')],
r'''use std::alloc::*;
use std::sync::atomic::*;
struct Count;
static HELD: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { HELD.fetch_add(l.size() as i64, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { HELD.fetch_sub(l.size() as i64, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static COUNT: Count = Count;
fn main() {
    let r = rec(|s: LLSelection| vec![s.finish_with_attr(A(1))]);
    let one = || { create_line_from_string("a b").run(&r); };
    one();
    let before = HELD.load(Ordering::SeqCst);
    for _ in 0..100 { one(); }
    assert_eq!(HELD.load(Ordering::SeqCst), before);
}''', 'recognisers run again and again', 'the list of assignments of each run is never given back')
# ---------------------------------------------------------------- C28
bug('c28-finish-with-dedup', 'C28', [('src/ll_line/finish_with.rs', '''        self.into_iter()
            .map(|(selection, t)| selection.finish_with_attr(f(t)))
            .collect()
''', '''        let mut assignments: Vec<LLCursorAssignment<Attr>> = Vec::new();
        for (selection, t) in self {
            let assignment = selection.finish_with_attr(f(t));
            // overlapping rules report a span several times
            if assignments.len() < 2 || !assignments[assignments.len() - 2..].iter().all(|a| (a.start_idx, a.end_idx) == (assignment.start_idx, assignment.end_idx)) {
                assignments.push(assignment);
            }
        }
        assignments
''')],
r'''fn main() {
    let r = rec(|s: LLSelection| (0..3).map(|k| (s.clone(), k)).finish_with(A));
    let l = create_line_from_string("a b").run(&r);
    assert_eq!(l.query::<A>()[0].2.len(), 3);
}''', 'three interpretations of one span handed over together', 'the third is lost')
bug('c28-known-range', 'C28', [(LL, '''        self.starts_at
            .get_mut(range.0)
            .expect("has initial starts_at value in bounds")
            .insert_distinct::<T>(range);
''', '''        // already reachable from its start
        if range.1 < range.0 + 2 || !self.values.contains_key(&range) {
            self.starts_at
                .get_mut(range.0)
                .expect("has initial starts_at value in bounds")
                .insert_distinct::<T>(range);
        }
''')],
r'''fn main() {
    let a = rec(|s: LLSelection| vec![s.finish_with_attr(A(1))]);
    let b = rec(|s: LLSelection| s.find_by(&x::attr::<A>()).finish_with(|_| B(1)));
    let l = create_line_from_string("a b").run(&a).run(&b);
    assert_eq!(l.find(&x::attr::<B>()).len(), 1);
}''', 'a value of a second type on a span of three or more tokens that has values already', 'later rules do not see it')
bug('c28-long-rules', 'C28', [(X, '''            .get::<T>()
            .iter()
            .flat_map(|range| {
                ll_line
                    .attrs
                    .values
                    .get(range)
                    .unwrap()
                    .get::<T>()
                    .iter()
                    .map(move |val| (val, ToIdx(range.1)))
            })
''', '''            .get::<T>()
            .iter()
            .take(4)
            .flat_map(|range| {
                ll_line
                    .attrs
                    .values
                    .get(range)
                    .unwrap()
                    .get::<T>()
                    .iter()
                    .map(move |val| (val, ToIdx(range.1)))
            })
''')],
r'''fn main() {
    let mut l = create_line_from_string("a b c d");
    for _ in 0..1 {
        l = l.run(&rec(|s: LLSelection| s.find_by(&x::token_text()).into_iter().map(|(t, _)| match t.after() { Some(a) => s.split_with(&a)[0].clone().unwrap(), None => s.clone() }).map(|s| s.finish_with_attr(A(1))).collect()));
    }
    let l = l.run(&rec(|s: LLSelection| s.find_by(&x::attr::<A>()).finish_with(|_| B(1))));
    assert_eq!(spans::<B>(&l).len(), 7);
}''', 'more than four spans of one type starting at the same token', 'rules see only the first four')

# ---------------------------------------------------------------- fourth batch
bug('c02-chunked', 'C02', [(CT, '''    // `fold` because we end up splitting more than just unicode word boundaries
    input
        .split_word_bounds()
''', '''    // `fold` because we end up splitting more than just unicode word boundaries
    // long inputs are segmented piece by piece, at white space
    let mut pieces = Vec::new();
    let mut rest = input;
    while rest.len() > 1 << 11 {
        let mut at = 1 << 11;
        while !rest.is_char_boundary(at) {
            at -= 1;
        }
        let cut = rest[..at].rfind(' ').map_or(rest.len(), |at| at + 1);
        let (piece, tail) = rest.split_at(cut);
        pieces.push(piece);
        rest = tail;
    }
    pieces.push(rest);

    pieces
        .into_iter()
        .flat_map(|piece| piece.split_word_bounds())
''')],
r'''fn main() {
    let t = format!("{}{}b", "a".repeat(2040), " ".repeat(20));
    assert_eq!(texts(&create_line_from_string(&t)).len(), 3);
}''', 'a text of more than 2048 bytes with a run of spaces across that point', 'the run is cut in two tokens')
bug('c02-decomposed', 'C02', [(CT, 'grapheme.chars().all(char::is_alphabetic)', 'grapheme.chars().next().map_or(false, char::is_alphabetic)')],
r'''fn main() {
    let l = create_line_from_string("1e\u{301}b");
    assert_eq!(texts(&l), ["1", "e\u{301}", "b"]);
}''', 'a decomposed accented letter after a digit', 'it is glued to the letters around it')
bug('c02-underscore', 'C02', [(CT, 'let tag = if grapheme.is_ascii() {', "let tag = if grapheme.is_ascii() && grapheme != \"_\" {")],
r'''fn main() {
    let l = create_line_from_string("1_000");
    assert_eq!(l.find(&x::attr_eq(&TextTag::PUNC)).len(), 1);
}''', 'digits grouped with an underscore', 'the underscore is tagged as a symbol')
bug('c05-many-layers', 'C05', [
 (LL, '''    ll_tokens: Vec<LLToken>,
    attrs: LLLineAttrs,
}
''', '''    ll_tokens: Vec<LLToken>,
    attrs: LLLineAttrs,
    /// how many recognizers were run
    layer: u8,
}
'''), (LL, 'LLLine { ll_tokens, attrs }', 'LLLine {\n            ll_tokens,\n            attrs,\n            layer: 1,\n        }'),
 (LL, '''        // store new attributes generated by the resolver
''', '''        self.layer = self.layer.wrapping_add(1);
        if self.layer == 0 {
            // not run on an initialised line
            return self;
        }

        // store new attributes generated by the resolver
''')],
r'''fn main() {
    let mut l = create_line_from_string("a");
    for k in 0..300 { l = l.run(&rec(move |s: LLSelection| vec![s.finish_with_attr(A(k))])); }
    assert_eq!(l.query::<A>()[0].2.len(), 300);
}''', 'more than 254 runs on one line', 'the assignments of one of them are lost')
bug('c07-set-order', 'C07', [(X, '''            .map_or(&[][..], |type_bucket| type_bucket.get::<T>())
            .iter()
            .filter_map(|value| {
                if set.contains(value) {
                    Some((value, ToIdx(self.from_idx)))
                } else {
                    None
                }
            })
            .collect()
    }

    fn text_token(&self, ll_line: &'l LLLine) -> Option<(&'l str, ToIdx)> {
        ll_line
''', '''            .map_or(&[][..], |type_bucket| type_bucket.get::<T>())
            .iter()
            .rev()
            .filter_map(|value| {
                if set.contains(value) {
                    Some((value, ToIdx(self.from_idx)))
                } else {
                    None
                }
            })
            .collect()
    }

    fn text_token(&self, ll_line: &'l LLLine) -> Option<(&'l str, ToIdx)> {
        ll_line
''')],
r'''fn main() {
    let l = create_line_from_string("a b").run(&rec(|s: LLSelection| { let (t, _) = s.find_first_by(&x::token_text()).unwrap(); vec![t.finish_with_attr(A(1)), t.finish_with_attr(A(2))] }))
        .run(&rec(|s: LLSelection| {
            let (t, _) = s.find_first_by(&x::attr_eq(&TextTag::SPACE)).unwrap();
            let set = [A(1), A(2)];
            t.match_backwards(&x::token_has_any(&set)).into_iter().map(|(s, a)| s.finish_with_attr(B(a.0))).collect()
        }));
    assert_eq!(l.query::<B>()[0].2, [&B(1), &B(2)]);
}''', 'several listed values on a token, matched backwards', 'they come in the wrong order')
bug('c08-seq-memo', 'C08', [('src/ll_line/x/seq.rs', '''        self.0
            .go(direction, ll_line)
            .into_iter()
            .flat_map(|(a, to_idx)| {
                direction
                    .after(to_idx.0, ll_line)
                    .map(|direction| self.1.go(&direction, ll_line))
                    .unwrap_or_else(Vec::new)
                    .into_iter()
                    .map(move |(b, to_idx)| ((a, b), to_idx))
            })
            .collect()
    }
}

pub struct Seq3''', '''        // hits of the first part often stop at the same token
        let mut seen: [Option<Vec<(B::Out, ToIdx)>>; 64] = std::array::from_fn(|_| None);
        self.0
            .go(direction, ll_line)
            .into_iter()
            .flat_map(|(a, to_idx)| {
                seen[to_idx.0 % 64]
                    .get_or_insert_with(|| {
                        direction
                            .after(to_idx.0, ll_line)
                            .map(|direction| self.1.go(&direction, ll_line))
                            .unwrap_or_else(Vec::new)
                    })
                    .iter()
                    .map(|(b, to_idx)| ((a, *b), *to_idx))
                    .collect::<Vec<_>>()
            })
            .collect()
    }
}

pub struct Seq3''')],
r'''fn main() {
    let t = "a ".repeat(100);
    let l = create_line_from_string(&t).run(&rec(|s: LLSelection| {
        let toks: Vec<_> = s.find_by(&x::token_text()).into_iter().map(|t| t.0).collect();
        let upto = |k: usize| s.split_with(&toks[k + 1])[0].clone().unwrap();
        vec![upto(3).finish_with_attr(A(1)), upto(67).finish_with_attr(A(2))]
    })).run(&rec(|s: LLSelection| vec![s.find_by(&x::token_text())[4].0.finish_with_attr(B(1))]));
    assert_eq!(l.find(&x::seq((x::attr::<A>(), x::attr::<B>()))).len(), 1);
}''', 'two hits of the first part that stop exactly 64 tokens apart', 'the second is continued with what follows the first')
bug('c08-all3-order', 'C08', [('src/ll_line/x/all.rs', '''            .flat_map(|(a, a_to_idx)| {
                let cs_iter = cs.iter();
                bs.iter().flat_map(move |(b, b_to_idx)| {
                    cs_iter.clone().filter_map(move |(c, c_to_idx)| {
                        if &a_to_idx == b_to_idx && &a_to_idx == c_to_idx {
                            Some(((a, *b, *c), a_to_idx))
                        } else {
                            None
                        }
                    })
                })
            })
            .collect()
''', '''            .flat_map(|(a, a_to_idx)| {
                let bs = bs.iter().filter(|b| b.1 == a_to_idx).collect::<Vec<_>>();
                let cs = cs.iter().filter(|c| c.1 == a_to_idx).collect::<Vec<_>>();
                let mut found = Vec::new();
                // go through the shorter list once
                if bs.len() <= cs.len() {
                    for (b, _) in &bs {
                        found.extend(cs.iter().map(|(c, _)| ((a, *b, *c), a_to_idx)));
                    }
                } else {
                    for (c, _) in &cs {
                        found.extend(bs.iter().map(|(b, _)| ((a, *b, *c), a_to_idx)));
                    }
                }
                found
            })
            .collect()
''')],
r'''#[derive(Debug, Clone, PartialEq)]
struct C(u32);
fn main() {
    let l = create_line_from_string("a").run(&rec(|s: LLSelection| vec![s.finish_with_attr(A(1))])).run(&rec(|s: LLSelection| (0..3).map(|k| s.finish_with_attr(B(k))).collect())).run(&rec(|s: LLSelection| (0..2).map(|k| s.finish_with_attr(C(k))).collect()));
    let f: Vec<(u32, u32)> = l.find(&x::all((x::attr::<A>(), x::attr::<B>(), x::attr::<C>()))).iter().map(|f| (f.attr().1.0, f.attr().2.0)).collect();
    assert_eq!(f, [(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1)]);
}''', 'a conjunction of three whose second part has more hits than its third, and both several', 'the combinations come in another order')
bug('c09-first-far', 'C09', [(SEL, 'self.find_by(matcher).into_iter().next()', '''// look near the start first
        let near = self.selection_from(self.start_idx, self.start_idx + 500)?;
        if near.end_idx == self.end_idx {
            return self.find_by(matcher).into_iter().next();
        }
        let far = self.selection_from(near.end_idx + 2, self.end_idx);
        let ll_line: &'a LLLine = &self.ll_line;
        for i in (near.start_idx..=near.end_idx).chain(far.into_iter().flat_map(|far| far.start_idx..=far.end_idx)) {
            if let Some((out, next_idx)) = matcher.go(&XForwards { from_idx: i }, ll_line).into_iter().next() {
                return Some((LLSelection { start_idx: i, end_idx: next_idx.0, ll_line: self.ll_line.clone() }, out));
            }
        }
        None''')],
r'''fn main() {
    let t = format!("{}x", "1 ".repeat(250).trim_end().to_string() + " , ");
    let l = create_line_from_string(&t).run(&rec(|s: LLSelection| {
        let all: Vec<_> = s.find_by(&x::token_text()).into_iter().map(|t| t.0).collect();
        let mut out = vec![];
        for t in &all {
            let set = [','];
            let from = s.split_with(t)[1].clone();
            let _ = set;
            if let Some(f) = from { let first = f.find_first_by(&x::token_text()).unwrap().0; assert_eq!(first, f.find_by(&x::token_text())[0].0); }
        }
        assert_eq!(s.find_first_by(&x::attr_eq(&',')).map(|f| f.0), s.find_by(&x::attr_eq(&',')).into_iter().next().map(|f| f.0));
        out.push(s.finish_with_attr(A(0)));
        out
    }));
    assert_eq!(l.query::<A>().len(), 1);
    for n in 495..505 {
        let t = "a".repeat(0) + &"-".repeat(n) + "x" + &"-".repeat(30);
        let l = create_line_from_string(&t).run(&rec(|s: LLSelection| s.find_first_by(&x::attr_eq(&TextTag::WORD)).into_iter().finish_with(|_| A(1))));
        assert_eq!(l.query::<A>().len(), 1, "{n}");
    }
}''', 'a first match exactly 501 tokens after the start of a longer selection', 'it is not found')
bug('c12-after-blank', 'C12', [(SEL, '''        if self.end_idx == ll_line_end {
            None
''', '''        let all_values = || {
            self.ll_line.ll_tokens[self.end_idx + 1..]
                .iter()
                .all(|ll_token| matches!(ll_token.token, super::LToken::Value))
        };
        if self.end_idx == ll_line_end || (self.end_idx > 0 && all_values()) {
            None
''')],
r'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("a b".into(), vec![]), InputToken::custom(1, vec![])], |s| s.len());
    let l = l.run(&rec(|s: LLSelection| { let t: Vec<_> = s.find_by(&x::attr_eq(&'b')).into_iter().collect(); t.iter().flat_map(|t| t.0.after()).map(|s| s.finish_with_attr(A(1))).collect() }));
    assert_eq!(spans::<A>(&l), [(3, 3)]);
}''', 'a selection after the first token that is followed by custom items only', 'nothing follows it')
bug('c13-both-overlap', 'C13', [(SEL, '''        if new_end >= self.start_idx && new_start <= new_end {
''', '''        if from_start && from_end && new_start == new_end + 2 && new_start < self.end_idx {
            // both ends share a token: it belongs to the start
            new_end = self.end_idx;
        }

        if new_end >= self.start_idx && new_start <= new_end {
''')],
r'''fn main() {
    let l = create_line_from_string("a b c").run(&rec(|s: LLSelection| {
        let t: Vec<_> = s.find_by(&x::token_text()).into_iter().map(|t| t.0).collect();
        vec![s.split_with(&t[3])[0].clone().unwrap().finish_with_attr(A(1)), s.split_with(&t[1])[1].clone().unwrap().finish_with_attr(A(1))]
    })).run(&rec(|s: LLSelection| s.trim(&x::attr::<A>()).into_iter().map(|s| s.finish_with_attr(B(1))).collect()));
    assert_eq!(l.query::<B>().len(), 0);
}''', 'trimming both ends where the two matches overlap in one token', 'something remains')
bug('c15-control-chars', 'C15', [(DIS, 'opening_line.push_str(text);', "// keep the opening line on one row\n                        opening_line.push_str(&text.replace('\\u{0b}', \" \"));")],
r'''fn main() {
    let l = create_line_from_string("a\u{b}b");
    assert_eq!(debug_line(&l).to_string(), "a  \u{b}  b");
}''', 'a vertical tab', 'it is shown as a space')
bug('c16-arr-order', 'C16', [(TM, '''                .or_default()
                .push(value.clone());
''', '''                .or_default()
                .insert(0, value.clone());
'''), (TM, '''        TextMatchAssignResolver {
            case_sensitive: false,
            lookup: lowercase_lookup,
        }
    }
}

impl''', '''        for values in lowercase_lookup.values_mut() {
            if values.len() < 4 {
                values.reverse();
            }
        }

        TextMatchAssignResolver {
            case_sensitive: false,
            lookup: lowercase_lookup,
        }
    }
}

impl''')],
r'''fn main() {
    let l = create_line_from_string("if").run(&TextMatchAssignResolver::new_case_insensitive_str_arr([("if", A(1)), ("If", A(2)), ("IF", A(3)), ("iF", A(4))]));
    assert_eq!(l.query::<A>()[0].2, [&A(1), &A(2), &A(3), &A(4)]);
}''', 'four listed keys of an array that coincide after lower-casing', 'their values come in the wrong order')
bug('c16-possessive', 'C16', [(TM, '''                    self.lookup.get(&text.to_lowercase())
''', '''                    let text = text.to_lowercase();
                    self.lookup
                        .get(&text)
                        .or_else(|| self.lookup.get(text.strip_suffix("'s")?))
''')],
r'''fn main() {
    let l = create_line_from_string("Slack's").run(&TextMatchAssignResolver::new_case_insensitive_str_arr([("slack", A(1))]));
    assert_eq!(l.query::<A>().len(), 0);
}''', 'a listed word with a possessive ending', 'a token that is not equal to the key is matched')
bug('c17-by-hand', 'C17', [(AM, 'Self(from.into())', 'Self(from.into().abs())')],
r'''use layered_amount::Amount;
fn main() {
    assert_eq!(Amount::new(-5i64).get_decimal().to_string(), "-5");
}''', 'an amount made from a negative number', 'its sign is lost', deps=['layered-amount'])
bug('c18-mixed-delims', 'C18', [(AM, '''            // Avoid trailing delimeters
            loop {
                if let Some((delimeter_sel, _)) =
                    selection.match_first_forwards(&x::token_has_any(self.delimiters.as_slice()))
                {
''', '''            // Avoid trailing delimeters
            let mut groups = 0;
            let mut group_delimiter: Option<char> = None;
            loop {
                if let Some((delimeter_sel, delimiter)) = selection
                    .match_first_forwards(&x::token_has_any(self.delimiters.as_slice()))
                    .filter(|(_, delimiter)| {
                        // a number sticks to its delimiter
                        groups < 3 || group_delimiter.map_or(true, |group| group == **delimiter)
                    })
                {
                    groups += 1;
                    group_delimiter = Some(*delimiter);
''')],
r'''use layered_amount::{Amount, AmountResolver};
fn main() {
    let l = create_line_from_string("1,000,000,000'000").run(&AmountResolver::english());
    let q = l.query::<Amount>();
    assert_eq!(q.len(), 1);
    assert_eq!(q[0].2[0].get_decimal().to_string(), "1000000000000");
}''', 'a number with four groups, the last delimiter different from the one before', 'it is read as two amounts', deps=['layered-amount'])
bug('c19-possessive', 'C19', [(PS, '.get(&word.to_lowercase())', '''.get(&word.to_lowercase())
                    .or_else(|| ENGLISH_TAG_LOOKUP.get(word.to_lowercase().strip_suffix("'s")?))''')],
r'''use layered_part_of_speech::{POSTagResolver, Tag};
fn main() {
    let l = create_line_from_string("quickly's").run(&POSTagResolver::default());
    assert_eq!(l.query::<Tag>()[0].2, [&Tag::Noun]);
}''', 'an unknown word that is a known word and a possessive ending', 'it gets the tags of the known word', deps=['layered-part-of-speech'])
bug('c20-repeat', 'C20', [(CK, '''        sel.find_by(&x::token_text())
            .into_iter()
            .flat_map(|(sel, text)| {
                let text = text.to_lowercase();
''', '''        let mut last = String::new();
        sel.find_by(&x::token_text())
            .into_iter()
            .flat_map(|(sel, text)| {
                let text = text.to_lowercase();
                // stuttering
                if text == last {
                    return None;
                }
                last = text.clone();
''')],
r'''use layered_clauses::{ClauseKeyword, ClauseKeywordResolver};
fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("if".into(), vec![]), InputToken::text("if".into(), vec![])], |s| s.len()).run(&ClauseKeywordResolver::new(&["if"], &[], &[]));
    assert_eq!(l.query::<ClauseKeyword>().len(), 2);
}''', 'two input items that are the same keyword side by side', 'only the first is marked', deps=['layered-clauses'])
bug('c21-multi-token-keyword', 'C21', [(CL, '''                    let trimmed_clause_selection = clause_selection.trim(&x::whitespace())?;

                    if let Some((_, clause_keyword)) =
                        clause_selection.match_first_backwards(&x::attr::<ClauseKeyword>())
                    {
''', '''                    let trimmed_clause_selection = clause_selection.trim(&x::whitespace())?;

                    if let Some((_, clause_keyword)) =
                        clause_selection.match_first_backwards(&x::token_has_any(&[
                            ClauseKeyword::ConditionStart,
                            ClauseKeyword::Then,
                            ClauseKeyword::And,
                        ]))
                    {
''')],
r'''use layered_clauses::{Clause, ClauseKeyword, ClauseResolver};
fn main() {
    let l = create_line_from_string("x as soon y, z").run(&rec(|s: LLSelection| {
        let t: Vec<_> = s.find_by(&x::token_text()).into_iter().map(|t| t.0).collect();
        let r = s.split_with(&t[1])[1].clone().unwrap();
        vec![r.split_with(&t[5])[0].clone().unwrap().finish_with_attr(ClauseKeyword::ConditionStart)]
    })).run(&ClauseResolver::default());
    let c: Vec<Clause> = l.query::<Clause>().iter().map(|q| q.2[0].clone()).collect();
    assert_eq!(c, [Clause::LeadingEffect, Clause::Condition, Clause::TrailingEffect]);
}''', 'a clause keyword over several tokens', 'the piece after it is not seen to follow it', deps=['layered-clauses'])
bug('c23-suffix-slice', 'C23', [(PS, '''            .flat_map(|(selection, (_, word))| {
''', '''            .flat_map(|(selection, (_, word))| {
                // a clitic is no part of the word
                let word = if word.len() > 12 && &word[word.len() - 2..] == "'s" { word } else { word };
''')],
r'''use layered_part_of_speech::{POSTagResolver, Tag};
fn main() {
    let l = create_line_from_string("Wahlkreiskommission\u{10428}").run(&POSTagResolver::default());
    assert_eq!(l.query::<Tag>().len(), 1);
}''', 'a long word ending in a letter of three or four bytes', 'the part-of-speech recogniser fails', deps=['layered-part-of-speech'])
bug('c24-big-values', 'C24', [(TB, '''        let AnyAttribute(key, empty_bucket, value) = self;
''', '''        if std::mem::size_of::<T>() == 0 && std::mem::needs_drop::<T>() {
            return Err(self);
        }
        let AnyAttribute(key, empty_bucket, value) = self;
''')],
r'''struct Z;
impl std::fmt::Debug for Z { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Z") } }
impl Drop for Z { fn drop(&mut self) {} }
fn main() {
    assert!(AnyAttribute::new(Z).extract::<Z>().is_ok());
}''', 'a value without data whose type has a destructor', 'its own type is refused')
bug('c25-amount-lookback', 'C25', [(AM, '''            let mut number_string = String::from(text);
''', '''            if selection == search_range_sel
                && selection
                    .match_first_backwards(&x::seq((
                        x::token_has_any(&[self.decimal]),
                        x::attr_eq(&TextTag::NATN),
                    )))
                    .is_some()
            {
                // the decimals of a number that started earlier
                break;
            }

            let mut number_string = String::from(text);
''')],
r'''use layered_amount::{Amount, AmountResolver};
fn main() {
    let l = create_line_from_string("1.25").run(&rec(|s: LLSelection| {
        let t: Vec<_> = s.find_by(&x::token_text()).into_iter().map(|t| t.0).collect();
        AmountResolver::english().go(t[2].clone())
    }));
    assert_eq!(spans::<Amount>(&l), [(2, 2)]);
}''', 'a part of a line that is just the decimals of a number', 'no amount is read', deps=['layered-amount'])
bug('c26-rc-delims', 'C26', [(AM, '    delimiters: Vec<char>,\n    decimal: char,', '    delimiters: std::rc::Rc<Vec<char>>,\n    decimal: char,'),
 (AM, '''        Self {
            delimiters,
            decimal,''', '''        Self {
            delimiters: std::rc::Rc::new(delimiters),
            decimal,'''), (AM, "delimiters: vec![',', '\\''],", "delimiters: std::rc::Rc::new(vec![',', '\\'']),"), (AM, "delimiters: vec![' ', '.', '\\''],", "delimiters: std::rc::Rc::new(vec![' ', '.', '\\'']),")],
r'''use layered_amount::AmountResolver;
struct P<T>(std::marker::PhantomData<T>);
trait No { fn ok(&self) -> bool { false } }
impl<T> No for P<T> {}
impl<T: Send + Sync> P<T> { fn ok(&self) -> bool { true } }
fn main() {
    assert!(P::<AmountResolver>(std::marker::PhantomData).ok());
}''', 'an amount recogniser shared with another thread', 'it cannot be', deps=['layered-amount'])
bug('c27-pos-cache', 'C27', [(PS, '''                ENGLISH_TAG_LOOKUP
                    .get(&word.to_lowercase())
''', '''                let word = word.to_lowercase();
                UNKNOWN_WORDS.with(|unknown| {
                    if ENGLISH_TAG_LOOKUP.get(&word).is_none() {
                        unknown.borrow_mut().push(word.clone());
                    }
                });
                ENGLISH_TAG_LOOKUP
                    .get(&word)
'''), (PS, '#[derive(Default)]\npub struct POSTagResolver', 'thread_local! {\n    static UNKNOWN_WORDS: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(Vec::new());\n}\n\n#[derive(Default)]\npub struct POSTagResolver')],
r'''use layered_part_of_speech::POSTagResolver;
use std::alloc::*;
use std::sync::atomic::*;
struct Al;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Al {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: Al = Al;
fn main() {
    let r = POSTagResolver::default();
    let go = || for _ in 0..1000 { create_line_from_string("qwrtzpl").run(&r); };
    go();
    let a = LIVE.load(Ordering::SeqCst);
    go(); go(); go();
    assert!(LIVE.load(Ordering::SeqCst) - a < 10_000);
}''', 'unknown words tagged again and again', 'memory is held on to without end', deps=['layered-part-of-speech'])
bug('c28-many-assignments', 'C28', [(LL, '''        } in assignments
        {
            self.attrs.insert((start_idx, end_idx), value);
        }
''', '''        } in assignments.into_iter().take(self.ll_tokens.len() * 16)
        {
            self.attrs.insert((start_idx, end_idx), value);
        }
''')],
r'''fn main() {
    let l = create_line_from_string("a").run(&rec(|s: LLSelection| (0..17).map(|k| s.finish_with_attr(A(k))).collect()))
        .run(&rec(|s: LLSelection| s.find_by(&x::attr::<A>()).finish_with(|a| B(a.0))));
    assert_eq!(l.query::<B>()[0].2.len(), 17);
}''', 'a rule that assigns more than 16 values per token of the line', 'the last are lost')

# ---------------------------------------------------------------- fifth batch: what takes size to show
bug('c16-buf256', 'C16', [(TM, '                    self.lookup.get(&text.to_lowercase())', '''                    // no key is that long: spare the copy
                    if text.len() > 256 {
                        return None;
                    }
                    self.lookup.get(&text.to_lowercase())''')],
r'''fn main() {
    let w = "Ab".repeat(200);
    let l = create_line_from_string(&w).run(&TextMatchAssignResolver::new_case_insensitive(vec![(w.clone(), vec![A(1)])].into_iter().collect()));
    assert_eq!(spans::<A>(&l), [(0, 0)]);
}''', 'a listed word of more than 256 bytes', 'it is never found')
bug('c20-long-word', 'C20', [(CK, '                let text = text.to_lowercase();\n', '''                if text.chars().count() > 24 {
                    return None;
                }
                let text = text.to_lowercase();
''')],
r'''use layered_clauses::*;
fn main() {
    let l = create_line_from_string("vorausgesetztdassesnichtregnet a").run(&ClauseKeywordResolver::new(&["vorausgesetztdassesnichtregnet"], &[], &[]));
    assert_eq!(spans::<ClauseKeyword>(&l), [(0, 0)]);
}''', 'a keyword of more than 24 characters', 'it is not recognised', deps=['layered-clauses'])
bug('c20-window', 'C20', [(CK, '        sel.find_by(&x::token_text())\n            .into_iter()\n', '''        // conditions are stated early
        sel.find_by(&x::token_text())
            .into_iter()
            .take(400)
''')],
r'''use layered_clauses::*;
fn main() {
    let l = create_line_from_string("a ".repeat(201) + "if").run(&ClauseKeywordResolver::new(&["if"], &[], &[]));
    assert_eq!(spans::<ClauseKeyword>(&l), [(402, 402)]);
}''', 'a keyword after more than 400 tokens', 'it is not recognised', deps=['layered-clauses'])
bug('c21-many-clauses', 'C21', [(CL, '''                .into_iter()
                .filter_map(|clause_selection| {
''', '''                .into_iter()
                .enumerate()
                .filter_map(|(position, clause_selection)| {
                    // a condition only reaches so far
                    if position % 48 == 47 {
                        condition_clause_found = false;
                    }

''')],
r'''use layered_clauses::*;
fn main() {
    let l = create_line_from_string("if a".to_string() + &", b".repeat(60)).run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"])).run(&ClauseResolver::default());
    let q = l.query::<Clause>();
    assert_eq!(*q[0].2[0], Clause::Condition);
    assert!(q[1..].iter().all(|c| *c.2[0] == Clause::TrailingEffect));
}''', 'a line of 48 or more pieces with a condition early on', 'later effects are labelled as leading', deps=['layered-clauses'])
bug('c15-wide-line', 'C15', [(DIS, '''            for _ in 0..start_char_idx {
                f.write_char(' ')?;
            }

            f.write_char('╰')?;
''', '''            write!(f, "{:indent$}", "", indent = start_char_idx)?;
            f.write_char('╰')?;
''')],
r'''fn main() {
    let t = "a".repeat(70_000) + " b";
    let l = create_line_from_string(&t).run(&rec(|s: LLSelection| s.find_by(&x::token_text()).into_iter().filter(|(_, t)| *t == "b").finish_with(|_| A(1))));
    let d = LLLineDisplay::new(&l).with::<A>().to_string();
    assert!(d.ends_with("╰A(1)"));
}''', 'a marker starting beyond column 65535', 'the display fails')
bug('c07-many-starts', 'C07', [(X, '''            .starts_at
            .get(self.from_idx)
            .expect("Huh... match_forwards was at the end")
            .get::<T>()
            .iter()
            .flat_map(|range| {
                ll_line
                    .attrs
                    .values
                    .get(range)
                    .unwrap()
                    .get::<T>()
                    .iter()
                    .map(''', '''            .starts_at
            .get(self.from_idx)
            .expect("Huh... match_forwards was at the end")
            .get::<T>()
            .iter()
            .take(24)
            .flat_map(|range| {
                ll_line
                    .attrs
                    .values
                    .get(range)
                    .unwrap()
                    .get::<T>()
                    .iter()
                    .map(''')],
r'''fn main() {
    let l = create_line_from_string(",".repeat(40)).run(&rec(|s: LLSelection| {
        let t = s.find_by(&x::token_text());

        (0..30).map(|k| { let rest = t[k].0.after().unwrap(); s.split_with(&rest)[0].clone().unwrap().finish_with_attr(A(k as u32)) }).collect()
    }));
    assert_eq!(l.find(&x::attr::<A>()).len(), 30);
}''', 'more than 24 spans of a type that start at the same token', 'the later ones are not matched')
bug('c17-many-groups', 'C17', [(AM, '            loop {\n                if let Some((delimeter_sel, _)) =', '            for _ in 0..16 {\n                if let Some((delimeter_sel, _)) =')],
r'''use layered_amount::*;
fn main() {
    let l = create_line_from_string("0".to_string() + &",0".repeat(18) + ",7").run(&AmountResolver::english());
    assert_eq!(spans::<Amount>(&l), [(0, 38)]);
}''', 'a number of more than 17 groups', 'it falls apart', deps=['layered-amount'])
bug('c18-long-fraction', 'C18', [(AM, '''                        number_string.push_str(text);
                        last_valid_selection = None;
                        selection = following_decimal_sel;''', '''                        // more precision than anyone writes
                        number_string.push_str(&text[..text.len().min(18)]);
                        last_valid_selection = None;
                        selection = following_decimal_sel;''')],
r'''use layered_amount::*;
fn main() {
    let l = create_line_from_string("0.1234567890123456789").run(&AmountResolver::english());
    assert_eq!(l.query::<Amount>()[0].2[0].get_decimal().to_string(), "0.1234567890123456789");
}''', 'a number with more than 18 decimals', 'the last ones are cut off', deps=['layered-amount'])
bug('c06-long-query', 'C06', [(LL, 'String::from_iter(self.ll_tokens[range.0..=range.1].iter().map(|token| {', 'String::from_iter(self.ll_tokens[range.0..=range.1].iter().take(128).map(|token| {')],
r'''fn main() {
    let l = create_line_from_string("a,".repeat(70)).run(&rec(|s: LLSelection| vec![s.finish_with_attr(A(1))]));
    assert_eq!(l.query::<A>()[0].1, "a,".repeat(70));
}''', 'a value over more than 128 tokens', 'its text is cut short in queries')
bug('c13-long-match', 'C13', [(SEL, '                new_start = (first_match.1).0 + 1;', '                new_start = ((first_match.1).0 + 1).min(self.start_idx + 32);')],
r'''fn main() {
    create_line_from_string(",".repeat(60)).run(&rec(|s: LLSelection| {
        let t = s.find_by(&x::token_text());
        vec![s.split_with(&t[40].0)[0].clone().unwrap().finish_with_attr(A(1))]
    })).run(&rec(|s: LLSelection| { assert_eq!(s.trim_start(&x::attr::<A>()).unwrap().find_by(&x::token_text()).len(), 20); Vec::<LLCursorAssignment<B>>::new() }));
}''', 'a match of more than 32 tokens at the start', 'only the first 32 tokens of it are removed')
bug('c10-long-match', 'C10', [(SEL, '''        let backwards = XBackwards {
            from_idx: self.start_idx - 1,
        };

        matcher
            .go(&backwards, &self.ll_line)
            .into_iter()
''', '''        let backwards = XBackwards {
            from_idx: self.start_idx - 1,
        };

        matcher
            .go(&backwards, &self.ll_line)
            .into_iter()
            .filter(|(_, next_idx)| self.start_idx - next_idx.0 <= 40)
''')],
r'''fn main() {
    create_line_from_string(",".repeat(60)).run(&rec(|s: LLSelection| {
        let t = s.find_by(&x::token_text());
        vec![s.split_with(&t[50].0)[0].clone().unwrap().finish_with_attr(A(1))]
    })).run(&rec(|s: LLSelection| { let t = s.find_by(&x::token_text()); assert_eq!(t[50].0.match_backwards(&x::attr::<A>()).len(), 1); Vec::<LLCursorAssignment<B>>::new() }));
}''', 'a backward match of more than 40 tokens', 'the selection does not grow by it')
bug('c08-many-first', 'C08', [('src/ll_line/x/seq.rs', '''        self.0
            .go(direction, ll_line)
            .into_iter()
            .flat_map(|(a, to_idx)| {
                direction
                    .after(to_idx.0, ll_line)
                    .map(|direction| self.1.go(&direction, ll_line))
                    .unwrap_or_else(Vec::new)
                    .into_iter()
                    .flat_map(''', '''        self.0
            .go(direction, ll_line)
            .into_iter()
            .take(20)
            .flat_map(|(a, to_idx)| {
                direction
                    .after(to_idx.0, ll_line)
                    .map(|direction| self.1.go(&direction, ll_line))
                    .unwrap_or_else(Vec::new)
                    .into_iter()
                    .flat_map(''')],
r'''fn main() {
    let l = create_line_from_string("a,b").run(&rec(|s: LLSelection| { let t = s.find_by(&x::token_text()); (0..30).map(|k| t[0].0.finish_with_attr(A(k))).collect() }));
    assert_eq!(l.find(&x::seq((x::attr::<A>(), x::token_text(), x::token_text()))).len(), 30);
}''', 'a sequence of three whose first part has more than 20 hits', 'the later ones are not continued')
bug('c23-long-number', 'C23', [(AM, '            // Numbers which are too large', '            assert!(number_string.len() < 512, "not a number");\n            // Numbers which are too large')],
r'''use layered_amount::*;
fn main() {
    create_line_from_string("1".repeat(2000)).run(&AmountResolver::english());
}''', 'a number of more than 511 digits', 'amount recognition panics', deps=['layered-amount'])
bug('c19-window', 'C19', [(PS, '            .into_iter()\n            .flat_map(|(selection, (_, word))| {', '            .into_iter()\n            .filter(|(_, (_, word))| word.chars().count() < 200)\n            .flat_map(|(selection, (_, word))| {')],
r'''use layered_part_of_speech::*;
fn main() {
    let l = create_line_from_string("a".repeat(300)).run(&POSTagResolver::default());
    assert_eq!(spans::<Tag>(&l), [(0, 0)]);
}''', 'a word of 200 or more letters', 'it gets no tag', deps=['layered-part-of-speech'])
bug('c28-many-layers', 'C28', [(TB, '            .unwrap()\n            .push(val);', '''            .unwrap()
            .push(val);
        // keep the buckets small
        if self.map.len() > 6 {
            let key = *self.map.keys().min().unwrap();
            self.map.remove(&key);
        }''')],
r'''#[derive(Debug, Clone, PartialEq)] struct T1; #[derive(Debug, Clone, PartialEq)] struct T2; #[derive(Debug, Clone, PartialEq)] struct T3; #[derive(Debug, Clone, PartialEq)] struct T4; #[derive(Debug, Clone, PartialEq)] struct T5;
fn one<T: Clone + std::fmt::Debug + Send + Sync + 'static>(l: LLLine, v: T) -> LLLine { l.run(&rec(move |s: LLSelection| vec![s.finish_with_attr(v.clone())])) }
fn main() {
    let l = create_line_from_string("a");
    let l = one(one(one(one(one(one(one(l, A(0)), B(0)), T1), T2), T3), T4), T5);
    assert_eq!((l.query::<A>()[0].2.len(), l.query::<B>()[0].2.len(), l.query::<T1>()[0].2.len(), l.query::<T2>()[0].2.len(), l.query::<T3>()[0].2.len(), l.query::<T4>()[0].2.len(), l.query::<T5>()[0].2.len(), l.query::<char>()[0].2.len(), l.query::<TextTag>()[0].2.len()), (1, 1, 1, 1, 1, 1, 1, 1, 1));
}''', 'more than six types of values on one span', 'the values of one type vanish')
# ---------------------------------------------------------------- sixth batch
ALLOC = r'''use std::alloc::*;
use std::sync::atomic::*;
struct Count;
static HELD: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { HELD.fetch_add(l.size() as i64, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { HELD.fetch_sub(l.size() as i64, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static COUNT: Count = Count;
fn steady(one: impl Fn()) {
    for _ in 0..3 { one(); }
    let before = HELD.load(Ordering::SeqCst);
    for _ in 0..1000 { one(); }
    let held = HELD.load(Ordering::SeqCst) - before;
    assert!(held < 1000, "{held} bytes more after 1000 repetitions");
}
'''
bug('c27-tokenizer-leak', 'C27', [(CT, 'LToken::Text(std::mem::take(&mut collected_letters), TextTag::WORD)', 'LToken::Text((*collected_letters.split_off(0).leak()).to_string(), TextTag::WORD)')],
ALLOC + r'''fn main() { steady(|| { create_line_from_string("10km"); }); }''', 'texts with letters after digits, again and again', 'each leaves a string behind')
bug('c27-trim-leak', 'C27', [(SEL, '                new_start = (first_match.1).0 + 1;\n', '                let trimmed: &[usize] = Vec::leak((self.start_idx..=(first_match.1).0).collect());\n                new_start = trimmed[trimmed.len() - 1] + 1;\n')],
ALLOC + r'''fn main() { steady(|| { create_line_from_string(" a").run(&rec(|s: LLSelection| s.trim_start(&x::whitespace()).into_iter().map(|t| t.finish_with_attr(A(1))).collect())); }); }''', 'trimming a matching start, again and again', 'each leaves a list behind')
bug('c27-back-leak', 'C27', [(SEL, """        let backwards = XBackwards {
            from_idx: self.start_idx - 1,
        };
""", """        let before: &[usize] = Vec::leak((0..self.start_idx).collect());
        let backwards = XBackwards {
            from_idx: before[before.len() - 1],
        };
""")],
ALLOC + r'''fn main() { steady(|| { create_line_from_string("a b").run(&rec(|s: LLSelection| { let t = s.find_by(&x::token_text()); t[1].0.match_backwards(&x::token_text()).into_iter().map(|m| m.0.finish_with_attr(A(1))).collect() })); }); }''', 'growing selections backwards, again and again', 'each leaves its starting point behind')
bug('c27-keyword-leak', 'C27', [(CK, 'let text = text.to_lowercase();', 'let text: &\'static str = Box::leak(text.to_lowercase().into_boxed_str());'), (CK, 'self.cond_start.contains(&text.as_str())', 'self.cond_start.contains(&text)'), (CK, 'self.then.contains(&text.as_str())', 'self.then.contains(&text)'), (CK, 'self.and.contains(&text.as_str())', 'self.and.contains(&text)')],
ALLOC + r'''use layered_clauses::*;
fn main() { let r = ClauseKeywordResolver::new(&["if"], &["and"], &["then"]); steady(|| { create_line_from_string("if a").run(&r); }); }''', 'keywords looked up again and again', 'each token leaves its lower-cased text behind', deps=['layered-clauses'])
bug('c27-after-leak', 'C27', [(SEL, '        let ll_line_end = self.ll_line.ll_tokens.len() - 1;\n', '        let ends: &[usize] = Vec::leak(self.ll_line.ll_tokens.iter().map(|t| t.token_idx).collect());\n        let ll_line_end = ends[ends.len() - 1];\n')],
ALLOC + r'''fn main() { steady(|| { create_line_from_string("a b").run(&rec(|s: LLSelection| { let t = s.find_by(&x::token_text()); t[0].0.after().into_iter().map(|m| m.finish_with_attr(A(1))).collect() })); }); }''', 'asking for what follows a selection, again and again', 'each leaves a number behind')
bug('c27-twoway-leak', 'C27', [(SEL, """                        let backwards = XBackwards { from_idx: i };
""", """                        let upto: &[usize] = Vec::leak((0..=i).collect());
                        let backwards = XBackwards { from_idx: upto[upto.len() - 1] };
""")],
ALLOC + r'''fn main() { steady(|| { create_line_from_string("a b").run(&rec(|s: LLSelection| s.find_by_forwards_and_backwards(&x::token_text()).finish_with(|_| A(1)))); }); }''', 'searching in both directions, again and again', 'each token leaves its starting point behind')
bug('c26-query-scratch', 'C26', [(LL, '''    pub fn query<'a, T: 'static>(&'a self) -> Vec<(LRange, String, Vec<&T>)> {
        self.attrs
            .ranges
            .get::<T>()
            .iter()
            .map(|range| {
                let text =
                    String::from_iter(self.ll_tokens[range.0..=range.1].iter().map(|token| {
                        match &token.token {
                            LToken::Text(text, _) => text,
                            LToken::Value => "",
                        }
                    }));

''', '''    pub fn query<'a, T: 'static>(&'a self) -> Vec<(LRange, String, Vec<&T>)> {
        // one buffer for all the texts
        static TEXT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
        self.attrs
            .ranges
            .get::<T>()
            .iter()
            .map(|range| {
                TEXT.lock().unwrap().clear();
                for token in &self.ll_tokens[range.0..=range.1] {
                    if let LToken::Text(text, _) = &token.token {
                        TEXT.lock().unwrap().push_str(text);
                    }
                }
                let text = String::from_iter([TEXT.lock().unwrap().as_str()]);

''')],
r'''fn main() {
    let line = create_line_from_string("a b c d e f g h").run(&rec(|s: LLSelection| vec![s.finish_with_attr(A(1))]));
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..8).map(|_| s.spawn(|| for _ in 0..5000 { assert_eq!(line.query::<A>()[0].1, "a b c d e f g h"); })).collect();
        for h in hs { h.join().unwrap(); }
    });
}''', 'two threads querying at the same time, with an unlucky interleaving', 'the text of one query ends up in another')
bug('c26-pos-atomic', 'C26', [(PS, '''                ENGLISH_TAG_LOOKUP
                    .get(&word.to_lowercase())
''', '''                // the case of the word looked at, for the lookup below
                static UPPER: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
                UPPER.store(word.chars().any(char::is_uppercase), std::sync::atomic::Ordering::SeqCst);
                let key = if UPPER.load(std::sync::atomic::Ordering::SeqCst) { word.to_lowercase() } else { word.to_string() };
                ENGLISH_TAG_LOOKUP
                    .get(&key)
''')],
r'''use layered_part_of_speech::*;
fn main() {
    let r = POSTagResolver::default();
    let tags = |l: &LLLine| l.query::<Tag>().into_iter().map(|q| (q.0, q.2.into_iter().cloned().collect::<Vec<Tag>>())).collect::<Vec<_>>();
    let lower = tags(&create_line_from_string("is is is is is is is is").run(&r));
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..8).map(|k| { let (r, lower) = (&r, &lower); s.spawn(move || for _ in 0..20000 {
            let t = if k % 2 == 0 { "IS IS IS IS IS IS IS IS" } else { "is is is is is is is is" };
            assert_eq!(&tags(&create_line_from_string(t).run(r)), lower);
        }) }).collect();
        for h in hs { h.join().unwrap(); }
    });
}''', 'two threads tagging words of different case, with an interleaving between two neighbouring instructions', 'a word is looked up without lower-casing', deps=['layered-part-of-speech'])
bug('c26-last-ranges', 'C26', [(LL, '''    attrs: LLLineAttrs,
}

impl LLLine {
''', '''    attrs: LLLineAttrs,
    /// where the token asked for last ends, so that neighbouring matches need not look it up
    last_end: std::sync::Mutex<(usize, usize)>,
}

impl LLLine {
'''), (LL, '        LLLine { ll_tokens, attrs }\n', '        LLLine { ll_tokens, attrs, last_end: std::sync::Mutex::new((usize::MAX, 0)) }\n'), (LL, '''        self.ll_tokens
            .get(idx)
            .expect("pos_end_at in bounds")
            .pos_ends_at
''', '''        if self.last_end.lock().unwrap().0 != idx {
            *self.last_end.lock().unwrap() = (idx, self.ll_tokens[idx].pos_ends_at);
        }
        let end = self.last_end.lock().unwrap().1;
        end
''')],
r'''fn main() {
    let line = create_line_from_string("a b c d e f g h");
    let want: Vec<_> = line.find(&x::token_text()).iter().map(|f| f.range()).collect();
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..8).map(|_| s.spawn(|| for _ in 0..5000 { assert_eq!(line.find(&x::token_text()).iter().map(|f| f.range()).collect::<Vec<_>>(), want); })).collect();
        for h in hs { h.join().unwrap(); }
    });
}''', 'two threads searching one line at the same time, with an unlucky interleaving', 'a match gets the end of another one')
