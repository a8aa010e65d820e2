#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=None)))

p("C01", "Tokenising any input is total and lossless",
  "Any sequence of non-empty texts (any Unicode, any length) and custom items becomes a line without failing: reading the text tokens produced for a text in order gives that text back exactly, no text token is empty, and every custom item is exactly one value token in its place. Tokens never cross from one input item into the next, so the tokens of a line are the tokens of each item taken alone, one after the other. The plain-string and the deprecated entry points build the same line as the general one.",
  ["inputs"], "every sequence of non-empty Unicode texts and custom items",
  "tests tokenise about 30 fixed, almost pure ASCII sentences; the property is over all Unicode strings and item sequences",
  ["src/create_tokens.rs", "src/lib.rs"],
  [("segmentation fold that pushes every piece", "src/create_tokens.rs create_tokens_for_string"), ("per item append", "src/create_tokens.rs create_line_from_input_tokens")],
  ["LLLine::ll_tokens", "LLToken::get_token"])
p("C02", "Token boundaries and text tags follow the documented rules",
  "A text is cut at every Unicode (UAX #29) word boundary; a segment starting with an ASCII digit is further cut into runs of ASCII digits, runs of letters, and single other characters (graphemes); and it is cut nowhere else. A token of ASCII digits is a natural number, one made of whitespace is a space, one of , . ! ; : ? ' \" is punctuation (as is any other ASCII character cut out of a digit-led segment), one that starts with a letter and holds only letters, apostrophes and dashes is a word, and everything else is a symbol.",
  ["inputs"], "every non-empty Unicode text",
  "two snapshot tests and a dozen classifier assertions; the rule quantifies over every string and every Unicode character",
  ["src/create_tokens.rs", "src/create_tokens/get_word_tag.rs", "src/ll_line.rs"],
  [("word bounds + digit splitting", "src/create_tokens.rs create_tokens_for_string"), ("tag classifier", "src/create_tokens/get_word_tag.rs")],
  ["LLLine::ll_tokens", "LToken::Text"])
p("C03", "Positions are exact, contiguous and in the caller's own measure",
  "Whatever size function the caller supplies, the first token starts at position 0, each token ends at its start plus the size of its text (or the declared size of a custom item), and the next token starts there. Every match reported by searching a whole line carries, and shows in its debug text, the start position of its first token and the end position of its last token. For a line built from a plain string the measure is the UTF-8 length, so every reported range slices the original string to the text of the matched tokens.",
  ["inputs", "configurations"], "every input sequence, every size function (including zero-sized and non-additive ones), every match",
  "tests print positions once, for one ASCII sentence and one measure",
  ["src/create_tokens.rs", "src/ll_line.rs", "src/lib.rs"],
  [("running size", "src/create_tokens.rs create_line_from_input_tokens"), ("index to position", "src/ll_line.rs pos_start_at/pos_end_at/find")],
  ["LLLine::find", "LLLineFind::range", "Debug of LLToken"])
p("C04", "A fresh line carries exactly its tags, characters and input attributes",
  "Before any recogniser runs, each text token carries its text tag, each text token of exactly one character also carries that character, and value tokens carry neither. Every attribute supplied with an input item (at construction or added to it later) spans exactly all tokens of that item, and several attributes of one item, of equal or different types, are all kept in the order given. The line carries nothing else.",
  ["inputs"], "every input sequence with any number and types of attributes",
  "two snapshot tests with at most two attributes on one item",
  ["src/ll_line.rs", "src/create_tokens.rs", "src/type_bucket.rs"],
  [("LLLine::new initial inserts", "src/ll_line.rs"), ("add_any_attrs", "src/ll_line.rs")],
  ["LLLine::query", "LLLine::find"])
p("C05", "Running a recogniser adds exactly its assignments and changes nothing else",
  "A recogniser is given one selection covering the whole line, in which it sees every value of every earlier layer. Afterwards the line holds exactly what it held before plus every value the recogniser returned, each over exactly the tokens of the selection it was finished from; equal values and several values on the same span are all kept. Tokens, positions and the values of earlier layers, their order included, are untouched, and on a line without tokens the recogniser is not consulted at all.",
  ["histories", "inputs"], "every sequence of recogniser runs with any assignments over any spans",
  "tests run at most three fixed recognisers on fixed sentences and look at one type at a time",
  ["src/ll_line.rs", "src/ll_line/finish_with.rs", "src/type_id_to_many.rs", "src/type_bucket.rs"],
  [("LLLine::run", "src/ll_line.rs"), ("LLLineAttrs::insert", "src/ll_line.rs"), ("FinishWith", "src/ll_line/finish_with.rs")],
  ["LLLine::query", "LLLine::find", "LLLineDisplay"],
  [("attrs", "spans by type, by start, by end, and values by span", "src/ll_line.rs LLLineAttrs")])
p("C06", "All views of a line agree on which values sit on which spans",
  "After any history of runs, querying a type lists each span that carries values of it exactly once, in the order the spans first received one, with the exact text of its tokens (value tokens read as empty) and all its values in assignment order. Searching the line for the type forwards, matching it backwards from any token, querying it and displaying it all report the same values on the same spans, with the same multiplicity. Values of one type never appear under another type.",
  ["histories", "inputs"], "every history of assignments over every line, every attribute type",
  "tests never compare two views of one line; the line keeps four separate indexes that must stay in step for every history",
  ["src/ll_line.rs", "src/ll_line/x.rs", "src/ll_line/display.rs", "src/type_id_to_many.rs", "src/type_bucket.rs"],
  [("four indexes updated together", "src/ll_line.rs LLLineAttrs::insert, add_any_attrs"), ("distinct insertion", "src/type_id_to_many.rs")],
  ["LLLine::query", "LLLine::find", "LLSelection::match_backwards", "LLLineDisplay"])
p("C07", "Basic matchers report exactly the attributes adjoining a position",
  "Forwards, the attribute matcher reports every value of its type whose span starts at the position, and the equality matcher one hit per equal such value; backwards the same for spans ending there; each hit reaches exactly the other end of its span. The any-of-values matcher looks only at values on that one token, in both directions, and the text matcher yields a text token's exact text and never a value token; none of them fails on a token carrying no attributes. Hits come in the order spans first received a value of the type and, within a span, in assignment order.",
  ["inputs", "histories"], "every line, every set of overlapping, nested and repeated spans, every position, both directions",
  "tests only use single-token attributes and never a value token; direction symmetry with overlapping spans is untested",
  ["src/ll_line/x.rs", "src/ll_line/x/attr.rs", "src/ll_line/x/attr_eq.rs", "src/ll_line/x/token_has_any.rs", "src/ll_line/x/token_text.rs", "src/ll_line/x/functions.rs"],
  [("XForwards / XBackwards", "src/ll_line/x.rs")],
  ["LLSelection::match_forwards", "LLSelection::match_backwards", "LLLine::find"])
p("C08", "Sequence, conjunction and alternative matchers compose exactly",
  "At any position and in either direction: a sequence matches every chain of hits in which each part continues exactly where the previous hit stopped (read outwards from the position, never past the line's end); a conjunction matches every combination of hits of its parts that reach the same token; an alternative yields all hits of its first part that has any and tags them with that part. Nothing else matches, each combination is reported once per combination of hits with its parts in written order, earlier parts varying slowest, and this holds for matchers nested in any way.",
  ["inputs", "programs"], "every nesting of matchers over every line, both directions",
  "tests use five fixed two-part matchers; the three-part ones and any nesting are never run",
  ["src/ll_line/x/seq.rs", "src/ll_line/x/all.rs", "src/ll_line/x/any_of.rs", "src/ll_line/x.rs"],
  [("Seq2/Seq3", "src/ll_line/x/seq.rs"), ("All2/All3", "src/ll_line/x/all.rs"), ("AnyOf2/AnyOf3", "src/ll_line/x/any_of.rs")],
  ["LLSelection::find_by", "LLSelection::match_forwards", "LLSelection::match_backwards"])
p("C09", "Searching a selection or line finds every match, once, in order",
  "Searching a selection returns every match that starts at one of its tokens (a match may extend past the selection's end), ordered by starting token and then in matcher order, each as the selection of exactly the matched tokens; searching the whole line returns the same list as searching a selection of the whole line. The first-match search returns precisely the first of that list or nothing. The two-way search returns, token by token, the forward matches starting there followed by the backward matches ending there.",
  ["inputs", "programs"], "every line, selection and matcher",
  "tests only search the whole line with three matchers; sub-selections, overlapping matches and the two-way search order are not covered",
  ["src/ll_line/ll_selection.rs", "src/ll_line.rs"],
  [("find_by, find_first_by, find_by_forwards_and_backwards", "src/ll_line/ll_selection.rs"), ("LLLine::find", "src/ll_line.rs")],
  ["LLSelection::find_by", "LLSelection::find_first_by", "LLSelection::find_by_forwards_and_backwards", "LLLine::find"])
p("C10", "Growing a selection extends it by exactly the adjoining matches",
  "Matching forwards from a selection returns one grown selection for every match that starts at the token right after it, keeping its start and ending where the match ends; matching backwards mirrors this on the token right before it. The first-match forms return the first of that list. At the edge of the line there is no match, and the original selection is never changed.",
  ["inputs", "programs"], "every line, selection and matcher, including selections at the edges",
  "tests grow from single tokens with two matchers only",
  ["src/ll_line/ll_selection.rs"],
  [("match_forwards / match_backwards and their first forms", "src/ll_line/ll_selection.rs")],
  ["LLSelection::match_forwards", "LLSelection::match_backwards", "LLSelection::match_first_forwards", "LLSelection::match_first_backwards"])
p("C11", "Splitting by a matcher yields the maximal unmatched runs",
  "Splitting a selection by a matcher returns, from left to right, exactly the maximal runs of its tokens that are covered by no match starting inside the selection. The pieces are non-empty, disjoint and inside the selection, however the matches overlap, nest, repeat or run past its end. With no match the selection comes back whole, and when matches cover everything there are no pieces.",
  ["inputs", "programs"], "every line, selection and matcher, with overlapping and nested matches",
  "the test splits whole lines on single-token, non-overlapping matches only",
  ["src/ll_line/ll_selection.rs"], [("split_by", "src/ll_line/ll_selection.rs")], ["LLSelection::split_by"])
p("C12", "Splitting with another selection, and what follows, partition the line",
  "Splitting a selection with another one of the same line returns the part of the first lying before the second and the part lying after it, each absent exactly when it would be empty, whatever the two overlap like. The remainder after a selection is everything from the token following it to the end of the line, and is absent exactly when the selection reaches the end. Mixing selections of two different lines is refused.",
  ["inputs"], "every pair of selections of every line",
  "neither operation has a direct test (the source says: unit test this thoroughly)",
  ["src/ll_line/ll_selection.rs", "src/ll_line.rs"],
  [("split_with, after, selection_from", "src/ll_line/ll_selection.rs"), ("assert_ll_lines_equals", "src/ll_line.rs")],
  ["LLSelection::split_with", "LLSelection::after"])
p("C13", "Trimming removes one match per requested end and nothing else",
  "Trimming the start removes the first reported match that starts at the selection's first token, trimming the end removes the first reported backward match that ends at its last token, and trimming both does both, judged on the original selection. Without a match an end stays as it is. The result lies inside the selection, and is absent exactly when nothing remains.",
  ["inputs", "programs"], "every line, selection and matcher, including ones whose match covers or overruns the selection",
  "tests trim five whole lines with one single-token matcher that never matches everything",
  ["src/ll_line/ll_selection.rs"], [("trim_selection", "src/ll_line/ll_selection.rs")], ["LLSelection::trim", "LLSelection::trim_start", "LLSelection::trim_end"])
p("C14", "Every selection reachable by any history of operations is valid",
  "Starting from the whole line, any sequence of find, split, grow, trim, after and split-with operations only ever yields non-empty selections of existing tokens of that same line, equal to those of a plain interval model of the operations. A selection of a line exists exactly when the line has tokens, and two selections are equal exactly when they are of the same line and cover the same tokens. Finishing such a selection with a value always assigns it to exactly those tokens. Its debug text names its first and last token.",
  ["histories", "programs"], "every history of selection operations over every line",
  "tests apply at most two operations in a row",
  ["src/ll_line/ll_selection.rs", "src/ll_line.rs"],
  [("all LLSelection operations", "src/ll_line/ll_selection.rs")],
  ["LLSelection", "LLSelection::finish_with_attr", "LLSelection::from_line"])
p("C15", "The display shows every included value under exactly its span",
  "The first row shows the tokens in order separated by two spaces, value tokens as <>. Then, for each included type in the order included, and for each span in first-assignment order, each value gets one row, latest value first: a marker starting in the display column of the span's first token and, when the span is wider than one column, ending in the last column of its last token, followed by the value's debug text. Columns are terminal display widths, so wide, zero-width and combining characters stay aligned, and displaying never fails.",
  ["inputs", "histories"], "every line, any values and spans, any sequence of included types",
  "about 40 snapshots, nearly all ASCII with one value per span",
  ["src/ll_line/display.rs"], [("LLLineDisplay fmt, include", "src/ll_line/display.rs"), ("get_debug", "src/type_bucket.rs")], ["LLLineDisplay", "debug_line"])
p("C16", "Text lookup assigns every configured value to every matching token",
  "The text lookup recogniser assigns to each text token all values listed under a key equal to the token's text, in listed order, and to no other token. In the case-insensitive forms key and text are compared after lower-casing both (for any script), and keys that coincide after lower-casing all contribute their values. Keys that span several tokens and value tokens never match.",
  ["inputs", "configurations"], "every line and every lookup table",
  "one test with four ASCII keys",
  ["src/resolvers/text_match.rs"], [("TextMatchAssignResolver", "src/resolvers/text_match.rs")], ["LLLine::query after run"])
p("C17", "Amounts are read exactly, greedily and without overlap",
  "Scanning left to right, an amount starts at the first remaining natural-number token, absorbs further natural-number tokens as long as each follows exactly one delimiter token, then at most one decimal point with a natural-number token after it; the scan resumes after what was consumed (a trailing delimiter or decimal point is consumed but not part of the amount). Its span is exactly those tokens and its value is exactly the decimal number written by the digits with the delimiters dropped. Amounts never overlap, every natural-number token falls in exactly one unless its number is too large to represent (then it gets none), and no text makes recognition fail. An amount made from a number by hand gives exactly that number back.",
  ["inputs", "configurations"], "every line, every set of single-character non-digit delimiters and decimal point",
  "three sentences with two configurations",
  ["layered-amount/src/amounts.rs"], [("AmountResolver::go", "layered-amount/src/amounts.rs")], ["LLLine::query::<Amount>"])
p("C18", "The amount presets read numbers the way their documentation says",
  "The English preset treats comma and apostrophe as delimiters and the period as decimal point; the French preset treats space, period and apostrophe as delimiters and the comma as decimal point. Any number, however grouped with those delimiters, is read by its preset as one amount of exactly that value, and the examples in the presets' documentation give the documented values.",
  ["inputs", "configurations"], "every number and every grouping of it, both presets",
  "no test uses either preset",
  ["layered-amount/src/amounts.rs"], [("AmountResolver::english, AmountResolver::french", "layered-amount/src/amounts.rs")], ["LLLine::query::<Amount>"])
p("C19", "Part-of-speech tags are complete for words and absent elsewhere",
  "Every word token receives exactly the set of tags the English dictionary lists for its lower-cased text, each once, or only the noun tag when the dictionary does not know it. Tokens that are not words receive no tag. The tag lands on exactly that token.",
  ["inputs"], "every line",
  "two sentences",
  ["layered-part-of-speech/src/lib.rs"], [("POSTagResolver::go", "layered-part-of-speech/src/lib.rs")], ["LLLine::query::<Tag>"])
p("C20", "Clause keywords are recognised exactly, in any letter case",
  "A text token is marked as condition start, 'then' or 'and' exactly when its lower-cased text is one of the (lower-case) words configured for that role; when a word is configured for several roles condition start wins over 'then', and 'then' over 'and'. Each such token gets exactly one mark and no other token gets any.",
  ["inputs", "configurations"], "every line and every keyword configuration",
  "nine sentences with two configurations",
  ["layered-clauses/src/clause_keyword.rs"], [("ClauseKeywordResolver::go", "layered-clauses/src/clause_keyword.rs")], ["LLLine::query::<ClauseKeyword>"])
p("C21", "Every clause of a line is labelled once, with the documented role",
  "A line is cut at its clause keywords and punctuation; each piece left gets exactly one clause, spanning the piece without one whitespace token at each end, and pieces with nothing but that get none. If there is a single piece it is a condition when a condition-start keyword directly precedes it and independent otherwise. If there are several (blank ones counted), a piece directly after a condition-start keyword is a condition, one directly after 'then' a trailing effect, and any other a trailing effect if a condition came before it and a leading effect if not.",
  ["inputs", "configurations"], "every line and every placement of keywords (single- or multi-token) and punctuation",
  "nine sentences",
  ["layered-clauses/src/clauses.rs"], [("ClauseResolver::go", "layered-clauses/src/clauses.rs")], ["LLLine::query::<Clause>"])
p("C22", "Results are deterministic and independent layers commute",
  "Building the same input and running the same recognisers always gives the same tokens, positions, query results, matches and display, in the same order. Recognisers that do not read each other's results can be run in any order, with or without the others, without changing a single span or value that any of them produces.",
  ["inputs", "schedules", "configurations"], "every line, every order of independent recognisers, every hash seed",
  "each test runs one fixed pipeline once",
  ["src/ll_line.rs", "src/type_bucket.rs", "src/type_id_to_many.rs", "src/resolvers/text_match.rs", "layered-amount/src/amounts.rs", "layered-clauses/src/clauses.rs", "layered-part-of-speech/src/lib.rs"],
  [("ordered vectors under hash maps keyed by type", "src/type_id_to_many.rs, src/type_bucket.rs")], ["LLLine::query", "LLLine::find", "LLLineDisplay"])
p("C23", "No text makes the shipped recognisers or the display fail",
  "For any sequence of non-empty texts and custom items, running all shipped recognisers in any order and any number of times and displaying everything they produced completes without failing. Everything they report lies inside the line, and amounts and clauses of one run never overlap one another.",
  ["inputs", "histories", "configurations"], "every input sequence, every order and repetition of the shipped recognisers",
  "fixed sentences with well-behaved numbers and no custom items",
  ["src/create_tokens.rs", "src/ll_line.rs", "src/ll_line/ll_selection.rs", "src/ll_line/x.rs", "layered-amount/src/amounts.rs", "layered-clauses/src/clauses.rs", "layered-part-of-speech/src/lib.rs"],
  [("absence of reachable panics", "whole pipeline")], ["LLLine::run", "LLLineDisplay"])
p("C24", "A boxed attribute gives back exactly the value that was put in",
  "Taking a prepared attribute apart with its own type returns the value that was put in; with any other type it is refused and the attribute comes back intact, usable for another attempt or as an input attribute. The type it reports is the type of the value. Attributes handed over on input items come out of the line equal to what was put in.",
  ["inputs", "histories"], "every value and every sequence of extraction attempts",
  "no test extracts an attribute",
  ["src/type_bucket.rs", "src/create_tokens.rs"], [("AnyAttribute::new/extract/type_id", "src/type_bucket.rs"), ("InputToken::add_attr", "src/create_tokens.rs")], ["AnyAttribute::extract", "LLLine::query"])

p("C25", "Recognisers give the same answers on a part of a line",
  "A shipped recogniser applied to a selection of part of a line (as a user's own recogniser does by calling it on a sub-selection) judges that part alone. The recognisers that look at single tokens (text lookup, part of speech, clause keywords) give each token of the part exactly what they give it on the whole line, and no other token anything. Amounts start only at tokens of the part and are then read to their end by the usual rule, even past the end of the part, reading on from there within the part. Clauses are those of the part taken for itself: cut at the keywords and punctuation starting in it, one clause per piece as on a whole line, where a keyword directly before the part still counts as directly preceding its first piece.",
  ["inputs", "configurations", "programs"], "every line, every part of it, every shipped recogniser",
  "no test runs a recogniser on anything but a whole line",
  ["src/resolvers/text_match.rs", "layered-amount/src/amounts.rs", "layered-clauses/src/clauses.rs", "layered-clauses/src/clause_keyword.rs", "layered-part-of-speech/src/lib.rs", "src/ll_line/ll_selection.rs"],
  [("Resolver::go on a selection", "src/ll_line.rs"), ("AmountResolver::go search range", "layered-amount/src/amounts.rs"), ("ClauseResolver::go", "layered-clauses/src/clauses.rs")], ["Resolver::go", "LLLine::query"])
p("C26", "Lines and recognisers can be used from several threads at once",
  "A line, the values of the shipped types and the shipped recognisers can be moved to and shared with other threads. Threads that use the same recogniser objects on lines of their own at the same time, a line handed from thread to thread between runs, and one line read by several threads at once give exactly the results of doing it all on one thread.",
  ["schedules", "inputs"], "every interleaving of threads sharing recognisers or reading one line",
  "every test is single-threaded",
  ["src/ll_line.rs", "src/type_bucket.rs", "src/type_id_to_many.rs", "src/resolvers/text_match.rs", "layered-amount/src/amounts.rs", "layered-clauses/src/clauses.rs", "layered-clauses/src/clause_keyword.rs", "layered-part-of-speech/src/lib.rs"],
  [("Send + Sync bounds on attributes and buckets", "src/type_bucket.rs, src/ll_line.rs Resolver::Attr"), ("recognisers without interior mutability", "layered-*/src")], ["LLLine::run", "LLLine::query", "LLLine::find", "LLLineDisplay"])
p("C27", "A line owns its values: kept while it lives, released once with it",
  "Every value put on a line, as an input attribute or by a recogniser, stays alive unchanged as long as the line does and is released exactly once when the line is dropped; no run, search, selection, split, display or refused extraction drops, duplicates or keeps one. Extracting a prepared attribute hands its value over, a text lookup places fresh copies and releases its own with itself, assignments a recogniser discards are released at once, and no selection keeps the line after it is gone. Building, running, reading and dropping lines again and again does not hold on to more and more memory.",
  ["histories", "inputs"], "every history of building, running, searching, displaying and dropping",
  "no test observes when values are dropped",
  ["src/type_bucket.rs", "src/ll_line.rs", "src/ll_line/ll_selection.rs", "src/resolvers/text_match.rs"],
  [("Rc::try_unwrap after a run", "src/ll_line.rs LLLine::run"), ("AnyAttribute, TypeBucket", "src/type_bucket.rs")], ["Drop of attribute values", "memory held"])
p("C28", "Layers build on each other: a rule sees exactly what came before it",
  "Running recognisers one after the other, each of which turns the matches of some pattern over the whole line into new values, gives exactly what reading the rules in order over the text says: a rule matches all values left by the input and by the rules before it, whatever their type, span or number (several interpretations of one span included), nothing it assigns is visible to itself during its own run, and everything it assigns is visible to the next.",
  ["programs", "inputs", "histories"], "every cascade of rules over every line",
  "tests stack at most three fixed recognisers",
  ["src/ll_line.rs", "src/ll_line/ll_selection.rs", "src/ll_line/x.rs", "src/ll_line/finish_with.rs"],
  [("LLLine::run", "src/ll_line.rs"), ("find_by + finish_with", "src/ll_line/ll_selection.rs, src/ll_line/finish_with.rs")], ["LLLine::query after a cascade of runs"])

with open(OUT, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
