TODO = 'check under construction'
PS += [
P('C01', 'Selectors are scoped by one fixed rule',
  'When a sheet is rendered with a class name, every selector (the concatenation of its text fragments) is written as: each `&` and then each `:root` replaced by `.class` if the selector contains `&` or `:root`; otherwise `.class` directly followed by the selector if it starts with `:`, and `.class`, one space and the selector in all other cases. Without a class name, `&` becomes `:root` and every other selector is written unchanged. The selectors of a block are joined by `, ` in their order, and a block without selectors stands for the enclosing selector, else `.class`, else `:root`.',
  ['inputs'], 'for every selector text, every division of it into fragments, every selector list and every class name, scoped or global',
  'tests render a dozen fixed selectors of one fragment each; the rule has to hold for every text, fragment split and list.',
  [C + 'ast/selector.rs', C + 'ast/block.rs', C + 'ast/context.rs', C + 'ast/str_frag.rs'],
  [('selector rendering', C + 'ast/selector.rs'), ('selector list of a block', C + 'ast/block.rs'), ('default selector', C + 'ast/context.rs')]),
P('C02', 'Rendered text holds every declaration once, under exactly its own conditions',
  'Rendering a sheet gives text of lines `condition {`, `}` and `key: value;` (indented four spaces per open condition) whose braces are balanced and whose declarations are exactly those of the sheet, each once and in source order. Each declaration stands inside exactly the conditions that enclose it in the sheet, at-rule conditions outermost first and then its innermost selector; no condition is opened twice around it, left open, or applied to a declaration it does not enclose. A `@keyframes` rule is opened even when it contains no declaration.',
  ['inputs'], 'for every sheet of any size, nesting depth and shape, and every class name',
  'tests compare a handful of fixed sheets; which conditions must be closed and reopened depends on the whole nesting history of the sheet.',
  [C + 'ast/context.rs', C + 'ast/block.rs', C + 'ast/rule.rs', C + 'ast/rule_block_content.rs', C + 'ast/scope_content.rs', C + 'ast/sheet.rs', C + 'ast/style_attr.rs', C + 'ast/to_style_str.rs'],
  [('stack of open conditions', C + 'ast/context.rs'), ('recursive rendering', C + 'ast/rule.rs, ' + C + 'ast/block.rs')]),
P('C10', 'A registry answers equal requests with one instance, touching nothing else',
  'Within one style manager, requesting a style (scoped or global) whose kind, prefix and sheet equal those of a registered style returns that registered instance, unchanged, and changes no registry. Any other request registers exactly one new entry, in that manager only: its identifier is the prefix, `-` (scoped) or `-global-` (global) and a random part no other style has, its text is the rendering of exactly that sheet (scoped by that identifier, or unscoped for a global style), and it belongs to that manager. Scoped styles take the given prefix or the prefix of the manager; global styles take the prefix of the manager. No request alters, replaces or removes the entry of another key or of another manager.',
  ['inputs', 'histories'], 'for every history of requests and unregistrations, over any number of managers, prefixes and sheets, given as text or as sheets',
  'tests make two or three styles; identity and isolation have to hold after every history and for every combination of kind, prefix, sheet and manager.',
  [S + 'manager/mod.rs', S + 'manager/key.rs', S + 'manager/registry.rs', S + 'manager/content.rs', S + 'style.rs', S + 'global_style.rs', S + 'style_src.rs', S + 'utils.rs'],
  [('lookup or registration', S + 'manager/mod.rs'), ('identifiers and keys', S + 'manager/key.rs'), ('entry points', S + 'style.rs, ' + S + 'global_style.rs')]),
P('C11', 'Unregistering removes exactly the style it is called on',
  'Calling `unregister` on a style removes the entry with the kind, prefix and sheet of that style from the manager that created it and nothing else: every other entry of that manager and every entry of every other manager stays as it was, and the next equal request registers a new entry. When that manager no longer exists, or the entry is already gone, it changes nothing and does not fail. Existing handles keep their identifier and text.',
  ['histories'], 'for every history of creations, repeated unregistrations and manager drops over any number of managers',
  'tests unregister one style of one manager once; the frame condition speaks about every other entry of every manager after every history.',
  [S + 'manager/content.rs', S + 'manager/registry.rs', S + 'manager/mod.rs', S + 'style.rs', S + 'global_style.rs'],
  [('removal by key', S + 'manager/registry.rs'), ('weak manager reference', S + 'manager/mod.rs')]),
P('C12', 'Server-side records hold every style once, in order, with its class and text',
  'A manager built with a static writer records each style at the moment it registers it, once, in registration order, with its key, identifier and text; a request answered from the registry records nothing, and a manager without writer, or another manager, never adds to the records. The paired reader returns exactly these records, and their markup is, for each record in order, `<style data-style="IDENTIFIER">`, the text escaped for a style element, `</style>`.',
  ['histories', 'inputs'], 'for every history of requests and unregistrations over any number of managers with and without writers',
  'tests render one or two styles; completeness, order and absence of duplicates have to hold for every history.',
  [S + 'manager/ssr.rs', S + 'manager/mod.rs'],
  [('recording on registration', S + 'manager/mod.rs'), ('writer, reader and markup', S + 'manager/ssr.rs')]),
P('C13', 'Hydration reproduces the server identities',
  'Loading server style data into a manager makes each recorded style available there under its recorded identifier: a later equal request (same kind, prefix and sheet) returns an instance with exactly the identifier and text that the server produced, also after the data went through serialisation. Loading neither alters nor removes existing entries nor adds entries for unrecorded styles, touches no other manager, and may be repeated; loaded entries belong to the loading manager. If an existing entry has a different identifier for a recorded style, loading panics instead of continuing.',
  ['inputs', 'histories'], 'for every set of records (scoped and global), every prior registry content and every order of later requests',
  'tests load one fixed record set; identity has to hold for every sheet, kind, prefix and order.',
  [S + 'manager/mod.rs', S + 'manager/key.rs', S + 'manager/content.rs', C + 'ast/sheet.rs'],
  [('load_style_data', S + 'manager/mod.rs'), ('serialised form', C + 'ast/sheet.rs, ' + C + 'bow.rs')]),
P('C04', 'The parse cache is transparent',
  'Parsing a text into a sheet answers what the parser answers for exactly that text in a process that has parsed nothing before: the same sheet value, or an error. The answer never depends on which other texts were parsed earlier, how often, in what order, with what outcome, or from which thread; texts that differ in any character do not share an answer.',
  ['inputs', 'histories'], 'for every text and every history of earlier parses, from any thread',
  'tests parse a few texts once each in one process; transparency is about every history and every pair of texts.',
  [C + 'ast/sheet.rs'],
  [('cached FromStr for Sheet', C + 'ast/sheet.rs')]),
P('C14', 'Equality, hash and clone of sheets depend on the value only',
  'Two sheets, or two of their parts (scopes, blocks, rules, declarations, selectors, fragments), are equal exactly if they have the same structure and the same texts in the same order, however each part is owned (borrowed or boxed, static or heap). Equal values feed the same input to every hasher, and a clone equals its original. `Bow` compares, hashes, clones and dereferences as the value it points to, and the constructors and conversions of sheets, rules, selectors and fragments keep exactly the value they are given.',
  ['inputs'], 'for every pair of sheets and every choice of ownership of every part of them',
  'style identity, the registry and hydration are keyed by sheets, but tests compare only a few sheets, mostly owned in one way; equality and hash must agree for every pair and every ownership.',
  [C + 'bow.rs', C + 'ast/sheet.rs', C + 'ast/scope_content.rs', C + 'ast/block.rs', C + 'ast/rule.rs', C + 'ast/rule_block_content.rs', C + 'ast/selector.rs', C + 'ast/style_attr.rs', C + 'ast/str_frag.rs'],
  [('clone-on-write pointer', C + 'bow.rs'), ('derived comparisons of the tree', C + 'ast/sheet.rs, ' + C + 'ast/block.rs, ' + C + 'ast/rule.rs')]),
P('C06', 'Interpolated expressions are evaluated afresh at the place of the macro call',
  'In the code a macro expands to, an interpolated expression or format argument that is not a literal stands only where the local variables of the macro call are visible and code runs each time the call is executed: never inside a constant or a static initialiser. Only sheets all of whose interpolations are literals are built once and shared. So every execution of the call evaluates its interpolations again, in the scope of the call, and gives a sheet with their current values; and no input makes a macro emit code that the compiler refuses because an expression stands in a constant or static.',
  ['inputs'], 'for every sheet a macro accepts, with interpolations of any kind in any position and at any nesting depth',
  'tests expand a dozen sheets; whether a part may be emitted as a constant depends on everything nested below it, for every shape of the sheet.',
  [M + 'output/context.rs', M + 'output/mod.rs', M + 'output/maybe_static.rs', M + 'output/cow_str.rs', M + 'output/str_frag.rs', M + 'output/block.rs', M + 'output/rule.rs', M + 'output/rule_block_content.rs', M + 'output/scope_content.rs', M + 'output/selector.rs', M + 'output/style_attr.rs', M + 'output/sheet.rs'],
  [('level bookkeeping', M + 'output/context.rs'), ('constant or owned lists', M + 'output/maybe_static.rs'), ('constant or boxed rules', M + 'output/rule_block_content.rs'), ('static sheet', M + 'output/sheet.rs')]),
P('C07', 'The code a macro expands to builds exactly the sheet the macro has read',
  'Evaluating the expression that `sheet!` expands to gives a sheet with the rules, blocks, selectors, at-rule conditions and declarations the macro read, each once, in source order and at the same nesting, where each selector, condition, property name and value has as its text the concatenation of its pieces: literal text unchanged, identifiers without `r#`, and interpolations as their `Display` text. Merging neighbouring text pieces and choosing constant or owned forms does not change this value. The names the expansion uses cannot be captured by names in the scope of the call. `css!`, `style!`, `global_style!` and `use_style!` make a style source, style, global style or hook call of that same sheet.',
  ['inputs'], 'for every sheet the macro has read, of any size, shape and mix of text pieces and interpolations',
  'tests compare a handful of expansions; losing or reordering a part can depend on piece kinds, on merging, and on the constant or owned form chosen for an enclosing part.',
  [M + 'output/block.rs', M + 'output/cow_str.rs', M + 'output/maybe_static.rs', M + 'output/rule.rs', M + 'output/rule_block_content.rs', M + 'output/scope_content.rs', M + 'output/selector.rs', M + 'output/sheet.rs', M + 'output/str_frag.rs', M + 'output/style_attr.rs', M + 'inline/css_ident.rs', M + 'inline/component_value/preserved_token.rs', M + 'css.rs', M + 'style.rs', M + 'global_style.rs', M + 'use_style.rs'],
  [('tree to code', M + 'output/'), ('merging text pieces', M + 'output/str_frag.rs'), ('wrappers', M + 'css.rs, ' + M + 'style.rs, ' + M + 'global_style.rs')]),
]
PS += [
P('C08', 'The inline macros read every part of the style tree once, at its place',
  'When an inline macro accepts its input, the sheet it emits holds every declaration, nested block and at-rule of the input once, in source order and at the same nesting. A declaration has the written property name and its whole value up to the semicolon; the selectors of a block are its prelude divided at the commas outside brackets; the condition of an at-rule is `@`, its name, one space and its prelude. Declarations next to each other outside any selector (at the top level, or directly in a top-level at-rule) form one block without selectors, at their place between the neighbouring blocks and rules; inside a block they stay where they are. If the tree holds an invalid token in a value or selector, an unsupported at-rule or a block nested in a block, the macro reports these errors and emits no sheet; otherwise it reports none.',
  ['inputs'], 'for every style tree of any size, order, nesting and mix of declarations, blocks and at-rules',
  'tests expand a handful of fixed sheets; a declaration lost, moved to another block or an error swallowed depends on the order of neighbours and on nesting.',
  [M + 'inline/mod.rs', M + 'inline/parse/root.rs', M + 'inline/parse/scope.rs', M + 'inline/parse/rule.rs', M + 'inline/parse/block.rs', M + 'inline/parse/qualifier.rs', M + 'inline/parse/attribute.rs', M + 'inline/parse/mod.rs', M + 'inline/component_value/mod.rs', M + 'inline/css_ident.rs'],
  [('grouping of loose declarations', M + 'inline/parse/root.rs, ' + M + 'inline/parse/scope.rs'), ('selector list', M + 'inline/parse/qualifier.rs'), ('at-rules', M + 'inline/parse/rule.rs'), ('error collection', M + 'inline/parse/mod.rs, ' + M + 'inline/mod.rs')]),
P('C09', 'The inline macros insert spaces by one fixed rule',
  'In the inline macros, the text of a selector, an at-rule prelude or a declaration value is the concatenation of the texts of its tokens in source order (with every bracket and function call closed where it was opened), with exactly one space between two neighbouring tokens if the left one is an identifier, a literal, a closing bracket, `*` or `&` and the right one is an identifier, a literal, `*` or `#`, and nothing between any other two. Around an interpolation no space is inserted. Spaces of the macro input have no influence.',
  ['inputs'], 'for every sequence and nesting of tokens, functions, brackets and interpolations',
  'tests check some ten token sequences; the adapter keeps state over a whole sequence, and the rule speaks about all pairs of token kinds across bracket boundaries.',
  [M + 'spacing_iterator.rs', M + 'inline/parse/mod.rs', M + 'inline/component_value/mod.rs', M + 'inline/component_value/simple_block.rs', M + 'inline/component_value/function_token.rs', M + 'inline/parse/attribute.rs', M + 'inline/parse/qualifier.rs', M + 'inline/parse/rule.rs'],
  [('spacing rule', M + 'inline/parse/mod.rs'), ('spacing adapter', M + 'spacing_iterator.rs'), ('token order', M + 'inline/component_value/mod.rs')]),
]
PS += [
P('C15', 'Yew components and hooks use the manager of their context',
  'A style made through `use_style` or the `Global` component is created in the style manager provided by the nearest `ManagerProvider` (the default manager without one), follows changes of its source, and a `Global` style is unregistered when its component goes away or its sheet changes.',
  ['histories', 'schedules'], 'for every component tree and every sequence of renders and property changes',
  'tests render one or two components once.',
  [S + 'yew/global.rs', S + 'yew/hooks.rs', S + 'yew/provider.rs'], [('component life cycle', S + 'yew/')],
  na='The guarantee speaks about component life cycles run by the scheduler and renderer of yew (external, dynamically dispatched callbacks in browser or SSR runtime); no function of this repository has a contract that could state it, and yew internals are outside the reach of the verifier.'),
P('C16', 'A registered style is mounted in the document exactly while it is registered',
  'In a browser, each style of a manager has exactly one `<style data-style=IDENTIFIER>` element in the container of the manager from registration to unregistration, with its text, placed as the builder was told.',
  ['histories'], 'for every history of registrations and unregistrations over any number of managers and containers',
  'tests cannot run the browser code natively.',
  [S + 'manager/mod.rs', S + 'manager/content.rs'], [('mount and unmount', S + 'manager/mod.rs')],
  na='The code is cfg(target_arch = "wasm32") over web_sys DOM handles: the target does not compile in this sandbox, and every contract of it would be an assumption about the browser rather than an obligation on the code.'),
P('C17', 'Rendered text is a valid style sheet of the parser',
  'The text rendered for any sheet the parser or the macros produced parses again, so the debug check of `Style::new` never fires on an accepted sheet.',
  ['inputs'], 'for every accepted sheet',
  'tests parse back a few fixed sheets.',
  [C + 'parser.rs', C + 'ast/sheet.rs'], [('debug re-parse', S + 'manager/content.rs')],
  na='Relates the renderer to the whole nom grammar, which is built from closures of an external combinator library the verifier does not accept; a contract for it would have to be assumed, which would assume the property.'),
]
PS += [
P('C05', 'The literal macros put every named argument exactly at its place',
  'For a call `sheet!("text", name = expr, ...)` (also `css!`, `style!`, ... with a string literal) that is accepted, the emitted code denotes the sheet the parser reads from the literal, with the same rules, blocks, selectors and declarations in the same order and nesting, in which each `${ name }` in a selector, an at-rule condition or a property value is replaced by the text of the argument of that name, each `$${` by `${`, and every other character is kept. The call is refused at compile time exactly when the literal is not a string literal or does not parse, an interpolation is malformed or names no argument, the argument list is not a comma-separated list of `name = tokens`, a name is given twice, or an argument is not used.',
  ['inputs'], 'for every literal, every number and placement of interpolations and escapes, and every argument list',
  'tests expand a dozen literals with at most a few interpolations; where a piece of text or an argument lands, and whether an unused or repeated argument is noticed, depends on the whole literal and list.',
  [M + 'literal/mod.rs', M + 'literal/argument.rs', M + 'literal/fstring.rs', M + 'literal/to_output_with_args.rs', M + 'output/str_frag.rs'],
  [('argument list', M + 'literal/mod.rs'), ('interpolated text', M + 'literal/fstring.rs'), ('substitution', M + 'literal/to_output_with_args.rs')]),
]
PS += [
P('C03', 'Style texts are read completely, by one fixed grammar',
  'Parsing a style text either reads the whole of it or refuses it; nothing in it is silently lost, repeated, moved or changed. A text is read as a sequence of items, each taken as the first of these that fits: declarations outside of braces (every one ended by `;`); a block, that is a selector list followed by braces with declarations and at-rules; an at-rule `@media`, `@supports` or `@container`, keyword, blank, condition and braces holding items (inside a block or a keyframe: declarations and at-rules); `@keyframes`, keyword, blank, name and braces holding keyframes. Declarations are `name: value` separated by `;`; inside braces the last `;` may be missing and bodies may be empty. The sheet holds exactly the items, declarations and selectors of the text, in its order and at its nesting. Whitespace and complete comments around items, names, values, selectors, conditions, `:`, `;` and braces are dropped; what a name, value, selector or condition holds inside is kept unchanged, blanks trimmed at both ends. A value ends at `;` or `}` (and cannot contain `{`), a selector at `,` or `{`, a condition at `{`, except inside a double-quoted string (in values and selectors; a backslash escapes the next character) or an interpolation `${name}`. A value also ends at a comment, unless it stands directly behind a string or interpolation. A stray or unclosed brace or string, a `$` that begins no interpolation, or any rest that fits no item, refuses the text.',
  ['inputs'], 'for every text, of any length and nesting depth',
  'tests parse a dozen fixed sheets; which characters end a value, a selector or a comment and which rest is left over depends on every combination of tokens.',
  [C + 'parser.rs', C + 'ast/sheet.rs'],
  [('declarations, selectors, strings, comments', C + 'parser.rs'), ('blocks, at-rules and keyframes', C + 'parser.rs'), ('whole input consumed', C + 'parser.rs')]),
]
