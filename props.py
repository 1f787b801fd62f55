"""What decides each property: contract units (with the functions whose contracts carry it),
bounded stand-ins, assumptions."""
STR = 'contracts of std string functions (contains/starts_with/replace/trim/format of plain values) are assumed, see contracts/vl.rs'
ITER = 'iterator chains (`for`, map, zip, skip, enumerate, rev, chain) are read as the sequences they yield (eager model in contracts/vl.rs); Cow/Bow/Arc/Box are read as their contents'
HEAP = 'RefCell and Mutex cells are read as slots of an explicit heap passed along (borrow conflicts and poisoning are not modelled)'
HMAP = 'std HashMap (get/insert/remove/entry) is assumed to be a map over key values'
SHEETEQ = 'equality, hash and clone of sheets follow their value (property C14, unit `ast`)'
SYN = 'syn, proc_macro2 and quote are assumed: token types are opaque values with a text, a derived clone is an equal value, itertools coalesce is its documented fold'
TOKS = 'syn parse buffers are read as positions in a sequence of token trees (contracts/tokens.ov): peek/parse of a single token, fork, and the macros braced!/bracketed!/parenthesized! have their documented effect, a generic `parse::<T>()` has the contract proved for the Parse implementation of T, and a group that is not read to its end makes the whole parse fail; the parse functions are proved for accepted inputs (that every valid input is accepted is covered by the bounded stand-in), their termination is not proved'
NOM = 'nom is read as plain code by the extractor (its combinators after their documented bodies); the primitive parsers (tag, is_not, take_while, alpha1, ...) have assumed contracts in contracts/nom.ov; error positions and messages are dropped'
TMPL = 'the meaning of each code template (`quote!` text) is written down by hand in contracts/output.ov (ev_*) and keyed by the exact template text; an unknown template leaves its function to the bounded stand-in'
PROPS = {
 'C01': dict(
    units=[('render', ['Selector::write_style', 'Block::cond_str', 'StringFragment::write_style', 'StyleContext::with_block_condition', 'Block::write_style'], [])],
    harness=[('core', 'C01')],
    bounded='every selector of up to 3 pieces from a 19-piece alphabet with/without class; random lists of up to 4 selectors of up to 5 pieces, 3 nestings, 7 class names',
    rule='distinct (selector list, class, nesting) triples with at least one selector',
    assumptions=[STR, ITER]),
 'C02': dict(
    units=[('render', ['*'], ['Selector::write_style', 'Block::cond_str'])],
    harness=[('core', 'C02')],
    bounded='random sheets, nesting depth up to 6, up to 14 inner nodes, read back line by line',
    rule='distinct (sheet, class) pairs with more than one declaration or @keyframes mark',
    assumptions=[STR, ITER, 'AtomicBool is a sequential cell (StyleContext is not shared across threads by the renderer)', 'a missing `mut` on the shared context is dropped by the extraction; a write through it is then rejected']),
 'C10': dict(
    units=[('manager', ['StyleKey::*', 'StyleId::*', 'StyleContent::id', 'StyleContent::key', 'StyleContent::get_style_str', 'StyleContent::manager', 'StyleRegistry::register', 'StyleRegistry::get', 'StyleManager::prefix', 'StyleManager::new', 'StyleManager::builder', 'StyleManager::clone', 'StyleManager::downgrade',
        'StyleManager::get_or_register_style#registered', 'StyleManagerBuilder::*', 'Style::create*', 'Style::new*', 'Style::id', 'Style::get_*', 'GlobalStyle::create*', 'GlobalStyle::new*', 'GlobalStyle::id', 'GlobalStyle::get_*', 'StyleSource::*'], [])],
    harness=[('lib', 'C10')],
    bounded='random histories of 3-22 creations and unregistrations over 1-3 managers, 17 style sheets, 7 prefixes, given as text, sheet or differently owned sheet',
    rule='distinct histories in which at least two styles were registered',
    assumptions=[HEAP, HMAP, SHEETEQ, 'identifiers of different entries differ: left to the random part (checked in the bounded stand-in only)', 'StyleManager::default (thread-local) is trusted to give the one manager of the thread']),
 'C11': dict(
    units=[('manager', ['StyleContent::unregister', 'StyleContent::manager', 'StyleRegistry::unregister', 'StyleManager::unregister_style', 'WeakStyleManager::*', 'StyleManager::downgrade', 'StyleManager::get_or_register_style#registered', 'Style::unregister', 'GlobalStyle::unregister'], [])],
    harness=[('lib', 'C11')],
    bounded='random histories of 3-22 creations, unregistrations (also through stale handles) and manager drops over 1-3 managers',
    rule='distinct histories in which at least two styles were registered',
    assumptions=[HEAP, HMAP, SHEETEQ, 'a weak reference upgrades to its target while that is alive and to nothing afterwards (std contract)']),
 'C12': dict(
    units=[('manager', ['StyleData::*', 'StaticReader::*', 'render_static', 'StyleManager::style_data', 'StyleManagerBuilder::writer', 'StyleManager::get_or_register_style#recorded', 'StyleContent::get_style_str', 'StyleContent::id', 'StyleKey::clone', 'StyleId::clone'], [])],
    harness=[('lib', 'C12')],
    bounded='random histories of 3-22 creations and unregistrations over 1-3 recording managers, markup and JSON identifiers compared with a log',
    rule='distinct histories in which at least two styles were registered',
    assumptions=[HEAP, HMAP, 'html_escape::encode_style is an assumed function of the text (its result is compared with an independent encoder in the bounded stand-in)', 'a Mutex is never poisoned and fmt::Write appends']),
 'C13': dict(
    units=[('manager', ['StyleManager::load_style_data', 'StyleManager::get_or_register_style#registered', 'StyleManager::downgrade', 'StyleKey::*', 'StyleId::clone', 'StyleId::eq', 'StyleRegistry::get', 'StaticReader::read_style_data'], [])],
    harness=[('lib', 'C13')],
    bounded='random server histories of up to 5 styles, taken over directly or through JSON, loaded once or twice, 17 style sheets, 7 prefixes',
    rule='distinct (server history, client history) pairs with at least two styles',
    assumptions=[HEAP, HMAP, SHEETEQ, 'serde: serialising and deserialising a record gives the record back (assumed in the proof, exercised through JSON in the bounded stand-in)']),
 'C03': dict(
    units=[('parser', ['*'], [])],
    harness=[('core', 'C03')],
    bounded='random style texts up to nesting depth 3 with blanks, comments, strings, interpolations and non-ASCII text in every position, mutations of them, 60 fixed texts and their mutations, and random sequences of up to 8 of 39 tokens, against an independent reading',
    rule='distinct texts that are accepted and hold at least one declaration, block or rule',
    assumptions=[NOM, ITER, '`str::trim` is an uninterpreted function of the text', 'nesting deep enough to exhaust the stack is not considered (recursion is proved to terminate)']),
 'C04': dict(
    units=[('ast', ['Sheet::from_str'], [])],
    harness=[('core', 'C04')],
    bounded='about 750 (thorough 4000) texts close to each other, random histories of up to 30000 parses compared with the answer of a fresh process per text, 60000 (400000) one-declaration texts, four threads',
    rule='parse requests after at least one other',
    assumptions=[HEAP, HMAP, 'the parser is a function of its text (it has no state; property C03)', 'Lazy::new(Arc::default) starts with an empty map (lemma_empty_cache: then the invariant holds)', SHEETEQ + ': here Sheet::clone is under contract']),
 'C14': dict(
    units=[('ast', ['*'], ['Sheet::from_str'])],
    harness=[('core', 'C14')],
    bounded='random sheets up to depth 5, each owned in two random ways, against themselves and a mutation, and all pairs of their parts',
    rule='distinct pairs of values',
    assumptions=['std equality, hash and clone of slices, Vec, String, Box, Cow and Arc are element-wise/contents-wise (assumed contracts of the unit); the derives are read as their documented expansion', ITER]),
 'C06': dict(
    units=[('output', ['ExpressionKind::*', 'ReifyContext::*', 'TS::into_token_stream_', 'Expr::into_token_stream_', 'VIter::cow_vec_tokens_any', 'OutputCowString::from*']
        + [f'Output{x}::into_token_stream#is Some' for x in ('CowString', 'Fragment', 'Selector', 'Attribute', 'Rule', 'Block', 'RuleBlockContent', 'ScopeContent', 'Sheet')], [])],
    harness=[('mac', 'inline'), ('mac', 'literal'), ('mac', 'real')],
    secs={'quick': 4, 'thorough': 90},
    bounded='random sheets in both macro syntaxes, nesting depth up to 5, with interpolations of literals, names, calls, blocks and caller macros in every position; the emitted code is interpreted, and about 120 (thorough 480) invocations per round are compiled and run by the real compiler under two sets of caller values',
    rule='distinct macro inputs with at least one declaration',
    assumptions=[SYN, TMPL, ITER]),
 'C07': dict(
    units=[('output', ['*'], ['ExpressionKind::*', 'ReifyContext::*'])],
    harness=[('mac', 'inline'), ('mac', 'literal'), ('mac', 'real')],
    secs={'quick': 4, 'thorough': 90},
    bounded='random sheets in both macro syntaxes, nesting depth up to 5; the emitted code is interpreted and compared with an independent reading of the input, and about 120 (thorough 480) invocations per round are compiled by the real compiler in a module that shadows common names',
    rule='distinct macro inputs with at least one declaration',
    assumptions=[SYN, TMPL, ITER]),
 'C05': dict(
    units=[('literal', ['*'], [])],
    harness=[('mac', 'literal'), ('mac', 'real')],
    secs={'quick': 4, 'thorough': 90},
    bounded='random literal sheets of up to 4 items with interpolations, escapes and stray `$`/braces in every position, and random argument lists (also with a missing, unused or repeated name); the emitted code is interpreted, and about 120 (thorough 480) invocations per round are compiled and run',
    rule='distinct macro inputs with at least one interpolation',
    assumptions=[SYN, ITER, HMAP, NOM, 'litrs reads the value of a string literal token; `Sheet::from_str` is a function of the text (C04)', 'abort! ends the expansion with a compile error', 'OutputSheet::into_token_stream is used under the contract that property C07 proves']),
 'C08': dict(
    units=[('tokens', ['*'], []), ('output', ['CssIdent::*', 'PreservedToken::*', 'OutputFragment::*'], []), ('inline', ['*'], ['fragment_spacing', 'ComponentValue::to_output_fragments', 'BlockKind::*', 'OutputFragment::from_*', 'InterpolatedExpression::*'])],
    harness=[('mac', 'inline'), ('mac', 'real')],
    secs={'quick': 4, 'thorough': 90},
    bounded='random style sheets in inline syntax, nesting depth up to 5: what the macro read, reports and emits is compared with an independent reading of the token stream',
    rule='distinct macro inputs with at least one declaration',
    assumptions=[SYN, TMPL, ITER, TOKS, 'termination of the recursion over the style tree is not proved (the tree is finite)']),
 'C09': dict(
    units=[('spacing', ['*'], []), ('tokens', ['CssIdent::*', 'IdentPart::*', 'PreservedToken::*', 'InterpolatedExpression::*', 'SimpleBlock::*', 'FunctionToken::*', 'ComponentValue::*', 'ComponentValueStream::*'], []), ('output', ['CssIdent::*', 'PreservedToken::*', 'OutputFragment::*'], []), ('inline', ['fragment_spacing', 'ComponentValue::to_output_fragments', 'BlockKind::*', 'OutputFragment::from_*', 'InterpolatedExpression::*', 'CssAttribute::into_output', 'CssAtRule::condition_output', 'CssBlockQualifier::into_output'], [])],
    harness=[('mac', 'inline'), ('mac', 'spacing')],
    secs={'quick': 4, 'thorough': 60},
    bounded='random sequences of up to 8 items and random spacers; random style sheets in inline syntax compared with an independent spacing rule',
    rule='distinct inputs with at least two pieces',
    assumptions=[SYN, TOKS, ITER, 'a spacing function is stateless (the one closure passed is `fragment_spacing`), and collect/extend run an iterator to its first None', 'termination of the recursion over component values is not proved']),
}
