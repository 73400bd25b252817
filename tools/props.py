R = lambda *a: [T + x for x in a]
SYN = "syntax/metadata.rs"
WHY_GRAM = "The tests assert FIRST, FOLLOW or an error message for a few dozen fixed grammars; the statement is over all grammars, and the fixed ones miss interactions of nullable symbols, recursion and order."
WHY_PARSE = "The tests parse a few fixed strings per node type; the statement is over every input, and inputs that fail in the middle, end early or mix valid and invalid text are hardly sampled."

prop("C01", "FIRST sets are the least solution of the grammar",
 "For every grammar, the FIRST set the library computes for each symbol contains exactly the terminals that can start a string the symbol derives, and the empty word exactly when the symbol can derive the empty string. Recursion and nullable symbols do not change that.",
 ["programs"], "All grammars over the library's token-set representation: any sequences and unions, recursive or not.",
 WHY_GRAM, R("syntax/first/builder.rs", "syntax/first/set.rs", "syntax/term_set.rs", "syntax/lit_set.rs", SYN),
 [("fixpoint over collected FIRST relations", T + "syntax/first/builder.rs"), ("token set union with epsilon", T + "syntax/first/set.rs")],
 "c01", [1], [shapes("c01", "quick"), shapes("c01", "thorough")], GOUT)
prop("C02", "FOLLOW sets are the least solution of the grammar",
 "For every grammar, the FOLLOW set the library computes for each symbol contains exactly the terminals that can come right after that symbol in a derivation from the root, and the end of input exactly when the symbol can end the source. Nullable symbols in between are looked through.",
 ["programs"], "All grammars over the library's token-set representation.",
 WHY_GRAM, R("syntax/follow/builder.rs", "syntax/follow/set.rs", "syntax/first/set.rs", SYN),
 [("FOLLOW relations and their fixpoint", T + "syntax/follow/builder.rs")],
 "c02", [1], [shapes("c02", "quick"), shapes("c02", "thorough")], GOUT)
prop("C03", "A grammar is accepted exactly when it is LL(1)",
 "Using a grammar succeeds exactly when it is LL(1): no left recursion, no two alternatives that can start with the same terminal or both be empty, and no optional symbol followed by something it could start with. When it is rejected, the error it gives is a defect the grammar really has, naming the symbols really involved.",
 ["programs"], "All grammars made of sequences and unions.",
 WHY_GRAM, R(SYN, "syntax/error.rs", "syntax/first/set.rs", "syntax/follow/set.rs", "tp_impl/tuple.rs"),
 [("left recursion search", T + "syntax/metadata.rs"), ("FIRST/FIRST and FIRST/FOLLOW conflict checks", T + "syntax/metadata.rs")],
 "c03", [1, 2], [shapes("c03", "quick"), shapes("c03", "thorough")], GOUT)
prop("C04", "The alternative picked is the one the next token calls for",
 "For every accepted grammar, every union and every next token or end of input, the library picks the alternative that can start with that token; when there is none, the nullable alternative if there is one, and no alternative otherwise. The order in which alternatives are declared does not matter.",
 ["programs", "inputs"], "All accepted grammars, and for each union every next token and the end of the input.",
 WHY_GRAM, R("syntax/jump.rs", SYN),
 [("jump table of a union", T + "syntax/jump.rs")],
 "c04", [1, 2, 3],
 [shapes("c04", "quick") + "; and the derived union of 22 alternatives of harness/src/bin/c04.rs, every source of 0 to 5 bytes of three alphabets of 9 to 10 bytes",
  shapes("c04", "thorough") + "; and the derived union of 22 alternatives of harness/src/bin/c04.rs, every source of 0 to 6 bytes of three alphabets of 9 to 10 bytes"], GOUT)
prop("C05", "Parsing without errors means the grammar derives the input",
 "When parsing reports no errors, the tokens consumed are a sentence of the grammar and the leaves of the tree are those tokens in order; and every input the grammar derives in full is parsed without errors and consumed to its end. The tree is the one a predictive (LL(1)) parser builds.",
 ["inputs"], "All token sequences, for grammars with sequences, unions, options, lists, separated lists, recovery, presence flags and recursion.",
 WHY_PARSE, R("parser/parser_impl.rs", "syntax/jump.rs", "syntax/term_set.rs", "tp_impl/option.rs", "tp_impl/iter.rs", "tp_impl/split.rs", "tp_impl/punct.rs", "tp_impl/tuple.rs", "tp_impl/recover.rs") + [M + "syntax.rs"],
 [("derived parse functions", M + "syntax.rs"), ("token matching", T + "parser/parser_impl.rs"), ("jump tables", T + "syntax/jump.rs")],
 "c05", [1, 2, 3],
 [parses("c05", "quick") + "; unions and lists of 22 literals and types (lexicon LC of harness/src/lexing.rs) over texts of up to 4 bytes from three alphabets; terminals that are roots themselves, and literals with a space at an end, over texts of up to 5 bytes (7 in a sequence of them)", parses("c05", "thorough") + "; unions and lists of 22 literals and types (lexicon LC of harness/src/lexing.rs) over texts of up to 6 bytes from three alphabets; terminals that are roots themselves, and literals with a space at an end, over texts of up to 7 bytes (10 in a sequence of them)"],
 OUT + "; looping lists (C15), which are no context-free construct", assumptions=["derivability is decided by an independent context-free membership test (harness/src/gram.rs)"])
prop("C06", "Parsing any text ends, without a panic",
 "For a grammar that is accepted, parsing any text at all comes to an end without a panic, a crash or unbounded memory. It gives a tree or at least one error, stops between two characters, and every error lies inside the source, splits no character, and has a message.",
 ["inputs"], "All texts.",
 "The tests parse a few dozen short ASCII texts.", R("parser/parser_impl.rs", "parser/info.rs", "syntax/error.rs", "syntax/term_set.rs", "tp_impl/iter.rs", "tp_impl/split.rs", "tp_impl/punct.rs", "tp_impl/recover.rs", "tp_impl/string.rs", "lex/lexer.rs", "lex/span.rs"),
 [("slices of the source", T + "lex/span.rs"), ("loops over the input", T + "tp_impl/iter.rs"), ("token loop", T + "lex/lexer.rs")],
 "c06", [1, 2],
 ["8 grammars over 2 lexicons, parsed twice in a row: every text of 0 to 3 characters, any Unicode characters; 2 of them also with every text of 0 to 7..8 bytes of 7 alphabets of 5 to 8 bytes, and of 0 to 5 of 7 short texts with characters of 1 to 4 bytes; 4 of them with long texts: 0 to 1 of 7 to 11 short texts (characters of 1 to 4 bytes, invalid text, tokens), then 0 to 2 of them repeated 25 times, then 0 to 1 more; at most 30 million instructions a path",
  "8 grammars over 2 lexicons, parsed twice in a row: every text of 0 to 4 characters, any Unicode characters; 2 of them also with every text of 0 to 8..9 bytes of 7 alphabets of 5 to 8 bytes, and of 0 to 6 of 7 short texts with characters of 1 to 4 bytes; 4 of them with long texts: 0 to 2 of 7 to 11 short texts (characters of 1 to 4 bytes, invalid text, tokens), then 0 to 2 of them repeated 90 times, then 0 to 1 more; at most 30 million instructions a path"])
prop("C07", "Failure is always explained, at the right place",
 "Whenever no tree is produced at least one error is recorded, and every error's span and expected set are those of the documented rules: the token in the way (or the end of the last one) and exactly the tokens that would have been accepted there. No error is recorded that does not correspond to a real mismatch.",
 ["inputs"], "All sources, valid or not.",
 WHY_PARSE, R("parser/parser_impl.rs", "parser/info.rs", "syntax/error.rs", "tp_impl/recover.rs", "tp_impl/split.rs", "tp_impl/punct.rs", "tp_impl/iter.rs", "tp_impl/option.rs"),
 [("errors pushed where a token is refused", T + "parser/parser_impl.rs"), ("expected sets", T + "syntax/term_set.rs")],
 "c07", [1, 2, 3],
 [parses("c07", "quick"), parses("c07", "thorough")])
prop("C08", "Every token of the source is accounted for",
 "Up to where parsing stopped, every token of the source is recorded exactly once, in order, as consumed or, when its kind has no terminals, as extracted, and every character that is no token is recorded as invalid source. Nothing is lost or invented, whichever way parsing succeeds, recovers or fails.",
 ["inputs"], "All sources, and parsing once or twice in a row.",
 WHY_PARSE, R("parser/parser_impl.rs", "parser/info.rs", "lex/lexer.rs", "lex/vec.rs"),
 [("consumption and extraction of tokens", T + "parser/parser_impl.rs"), ("lexer buffer", T + "lex/lexer.rs")],
 "c08", [1, 2, 3],
 [parses("c08", "quick"), parses("c08", "thorough")])
prop("C09", "The source is cut into tokens by longest match",
 "From the start of the source on, the lexer gives the longest token that any rule of the lexicon matches there, of the type of that rule, a literal before a pattern of the same length. Ignored text is skipped. Where no rule matches, the characters that no rule could use are reported as invalid, those next to each other as one span. A token type that has no terminals is extracted. No token or invalid span is empty, out of order or splits a character.",
 ["inputs"], "All sources, for lexicons with overlapping literals and patterns, ignored text, extracted types and non-ASCII text.",
 "The tests lex a few fixed strings with fixed lexicons.", R("lex/lexer.rs", "lex/token.rs", "lex/vec.rs", "lex/mod.rs") + [M + "lexicon.rs"],
 [("token loop over the generated lexer", T + "lex/lexer.rs"), ("rules of the generated lexer", M + "lexicon.rs")],
 "c09", [1, 2],
 ["3 lexicons (harness/src/lexing.rs); every source of 0 to 3..4 characters, any Unicode characters; every source of 0 to 5..9 bytes of 12 alphabets of 5 to 10 bytes made for overlapping rules; long sources over 5 to 12 bytes of 0 to 1 bytes, then 0 to 2 bytes repeated 33 (65) times, then 0 to 1 bytes; for two of them 65600 ignored characters, then 0 to 3 bytes",
  "3 lexicons; every source of 0 to 4..6 characters, any Unicode characters; every source of 0 to 7..11 bytes of 12 alphabets of 5 to 10 bytes; long sources over 5 to 12 bytes of 0 to 1..2 bytes, then 0 to 2 bytes repeated 65..130 times, then 0 to 1..2 bytes; for two of them 65600 ignored characters, then 0 to 4 bytes"],
 OUT + "; patterns that repeat multi-byte character classes, where the code generated by the logos dependency splits characters")
prop("C10", "Spans nest, are ordered and are real",
 "In every tree, every node's span lies inside the source and inside its parent's span, siblings do not overlap and are in source order, and every terminal with text spans exactly one consumed token. This holds for trees with errors too.",
 ["inputs"], "All sources for which a tree is produced.",
 WHY_PARSE, R("lex/span.rs", "tp_impl/option.rs", "tp_impl/iter.rs", "tp_impl/split.rs", "tp_impl/punct.rs", "tp_impl/recover.rs", "tp_impl/tuple.rs", "parser/parser_impl.rs") + [M + "to_span.rs"],
 [("span joining of composite nodes", T + "tp_impl"), ("derived spans", M + "to_span.rs")],
 "c10", [1, 2, 3],
 [parses("c10", "quick"), parses("c10", "thorough")])
prop("C11", "Optional nodes are present exactly when their first token is",
 "An optional node (or presence flag) is attempted exactly when the next token can start it; when it is not, it is absent, nothing is consumed and nothing is reported. When it is attempted and fails, the documented rule holds: it counts as absent, the error is reported, and parsing goes on.",
 ["inputs"], "All sources, for options of terminals, sequences, unions and lists, alone, in runs and nested.",
 WHY_PARSE, R("tp_impl/option.rs"),
 [("option parsing", T + "tp_impl/option.rs")],
 "c11", [1, 2, 3],
 [parses("c11", "quick"), parses("c11", "thorough")])
prop("C12", "Lists take every element there is, and no more",
 "A list takes one element after another for as long as the next token can start one, in order, and stops at the first token that cannot; a non-empty list requires the first. When an element fails in the middle, the elements before it are kept and the error is reported, as documented.",
 ["inputs"], "All sources, for lists of terminals, sequences, unions and lists.",
 WHY_PARSE, R("tp_impl/iter.rs"),
 [("list parsing", T + "tp_impl/iter.rs")],
 "c12", [1, 2, 3],
 [parses("c12", "quick"), parses("c12", "thorough")])
prop("C13", "Separated lists alternate elements and separators",
 "A separated list holds its elements and separators in source order and alternating; only the kind that allows a trailing separator accepts one. Tokens after a separator that cannot start an element are skipped, with one error, up to one that can, the next separator, or what can follow the list; everything parsed before is kept.",
 ["inputs"], "All sources, for both kinds of separated list with long, optional and nested elements and separators.",
 WHY_PARSE, R("tp_impl/split.rs", "tp_impl/punct.rs"),
 [("separated list without trailing separator", T + "tp_impl/split.rs"), ("with trailing separator", T + "tp_impl/punct.rs")],
 "c13", [1, 2, 3],
 [parses("c13", "quick"), parses("c13", "thorough")])
prop("C14", "Recovery resumes right after the synchronisation point",
 "When a recovering node fails, everything up to the next token that starts the synchronisation point is skipped, that is parsed, and parsing resumes right after it; exactly one error is added for the failure. When there is no such token the node fails with an error and the whole rest of the input is consumed.",
 ["inputs"], "All sources, for recovery in sequences, lists and nested in itself.",
 WHY_PARSE, R("tp_impl/recover.rs", "parser/parser_impl.rs"),
 [("skipping to the synchronisation token", T + "tp_impl/recover.rs")],
 "c14", [1, 2, 3],
 [parses("c14", "quick"), parses("c14", "thorough")])
prop("C15", "A loop parses element after element to the end of the input",
 "A looping list always consumes the whole input: it parses elements until no token is left, and when an element cannot be parsed it reports that, skips on to a token that can start one, and goes on. It always ends.",
 ["inputs"], "All sources, for loops of sequences, unions and recovering elements.",
 WHY_PARSE, R("tp_impl/iter.rs", "parser/parser_impl.rs"),
 [("loop to the end of input", T + "tp_impl/iter.rs")],
 "c15", [1, 2, 3],
 [parses("c15", "quick"), parses("c15", "thorough")])
prop("C16", "A missing literal is made up only where the next token can follow it",
 "Asked for a literal, the parser takes the next token exactly when it is that literal. Otherwise, when the next token (or the end of the input) is one that can follow, an empty token of the type is made up right after the last one, with one error naming the literal, and nothing is consumed; in every other case that is refused with one error and nothing is consumed.",
 ["inputs", "histories"], "All token streams, literals and sets of what can follow.",
 WHY_PARSE, R("parser/parser_impl.rs", "syntax/follow/set.rs", "syntax/term_set.rs"),
 [("token insertion", T + "parser/parser_impl.rs")],
 "c16", [1],
 ["every source of 0 to 3 bytes of abcdA0123+*(); (with #, space, ! and ? or with quoted words), up to 2 tokens skipped, each of 6 literals, each of 64 sets of what can follow; two literals in a row for sources of 0 to 2 bytes",
  "every source of 0 to 4 bytes of abcdA0123+*(); (with #, space, ! and ? or with quoted words), up to 3 tokens skipped, each of 6 literals, each of 64 sets of what can follow; two literals in a row for sources of 0 to 3 bytes"])
prop("C17", "Tokens carry exactly the semantic types the tree gives them",
 "After a parse without errors, a token has a semantic type exactly when a field or variant with that type in the tree spans the token. After any parse, it has exactly the types given by the nodes that were completed around it, and no other.",
 ["inputs"], "All sources, for semantic types on fields, variants, recursive, optional, repeated and recovering nodes.",
 "The tests check three fixed inputs.", R("parser/parser_impl.rs", "lex/vec.rs", "lex/set.rs") + [M + "syntax.rs"],
 [("types applied to the tokens of a span", T + "parser/parser_impl.rs"), ("attribute expansion", M + "syntax.rs")],
 "c17", [1, 2, 3],
 [parses("c17", "quick", "grammars of harness/src/bin/c17.rs"), parses("c17", "thorough", "grammars of harness/src/bin/c17.rs")])
prop("C18", "Token queries by span give exactly the tokens they describe",
 "For tokens in source order, asking for the tokens overlapping a span gives exactly those with text inside it; asking for those inside a span gives exactly those wholly inside; the positional searches and the runs ending or beginning at a position give exactly the tokens described. Adding a semantic type to a span changes exactly the tokens inside it.",
 ["inputs"], "All lists of tokens in source order, all spans and all positions.",
 "The tests query one or two fixed token lists; the binary searches have boundary cases at every token start and end.", R("lex/vec.rs", "lex/span.rs", "lex/token.rs", "lex/set.rs"),
 [("binary searches over token starts and ends", T + "lex/vec.rs"), ("slices and bounds of a span", T + "lex/vec.rs")],
 "c18", [1, 2, 3],
 ["up to 3 tokens (queries), 4 (runs), 2 (semantic types, two applications), with any 12-bit starts, lengths and span; up to 1, 2 and 1 tokens with any 64-bit ones; 20 (runs: 40) tokens at fixed places with spans from any 8-bit start and of 9 lengths, and runs which one of them ends",
  "up to 5 tokens (queries), 6 (runs), 3 (semantic types, two applications), with any 12-bit starts, lengths and span; up to 2, 3 and 1 tokens with any 64-bit ones; 36 (runs: 63) tokens at fixed places with spans from any 8-bit start and of 10 lengths, and runs which one of them ends"])
prop("C19", "Token sets and token maps hold exactly what was put in them",
 "For lexicons of every size up to the documented maximum, every token type is distinct, a set contains exactly the types added and not removed (insert, remove, union, contains, contains_all, equality, iteration in order), and a map keeps one separate item for each type.",
 ["inputs", "programs"], "All sets and types, for lexicons of 1 to 128 types.",
 "The tests use lexicons of a few types; the storage changes with the size and large sizes are never used.", R("lex/set.rs", "lex/map.rs", "lex/lexicon.rs") + [M + "lexicon.rs"],
 [("bit sets", T + "lex/set.rs"), ("bit, id and next of a derived type", M + "lexicon.rs"), ("maps", T + "lex/map.rs")],
 "c19", [1],
 ["lexicons of 1, 2, 7, 8, 9, 16, 17, 32, 33, 64, 65, 127 and 128 types; every set, pair of sets and type for the operations; iteration over every set of up to 9 types, and over sets of at most two types for the others; maps with two writes",
  "lexicons of 1, 2, 7, 8, 9, 16, 17, 32, 33, 64, 65, 127 and 128 types; every set, pair of sets and type for the operations; iteration over every set of up to 17 types, and over sets of at most two types for the others; maps with two writes"])
prop("C20", "Sets of terminals behave as sets",
 "The sets that FIRST, FOLLOW and conflicts are computed with are sets of terminals, where a terminal is a literal or a whole token type: union, intersection, insertion, removal, clearing, membership, equality and listing give exactly the members, an operation tells whether it changed the set, the empty word and the end of input are kept apart as documented, and a jump table finds the entry of the literal or else of its type.",
 ["inputs", "histories"], "All sets, pairs of sets, operations and texts looked up.",
 "The tests check a few dozen fixed sets.", R("syntax/lit_set.rs", "syntax/term_set.rs", "syntax/first/set.rs", "syntax/follow/set.rs", "syntax/jump.rs"),
 [("literal sets with a universal set", T + "syntax/lit_set.rs"), ("sets of terminals with an empty symbol", T + "syntax/term_set.rs"), ("look-up by literal, type or empty symbol", T + "syntax/jump.rs")],
 "c20", [1],
 ["all pairs of literal sets over 4 literals and the universal set, with every operation; all pairs of terminal sets over 3 literals, 2 universal types and the empty symbol; from every such set, every history of 2 operations; every text of 0 to 3 ASCII characters looked up; jump tables with up to 3 entries",
  "all pairs of literal sets over 4 literals and the universal set, with every operation; all pairs of terminal sets over 3 literals, 2 universal types and the empty symbol; from every such set, every history of 4 operations; every text of 0 to 3 ASCII characters looked up; jump tables with up to 3 entries"],
 "Serialisation of the sets; token types beyond two; texts beyond ASCII")
prop("C21", "A span stands for exactly its part of the source",
 "The text of a span is the source from its start to its end, clipped to the source, borrowed and never a panic for a span that is reversed, empty or outside. The text and source of a token are those of its span. A reference, tuple, token, terminal or derived node has the span from its first to its last part. Spans, tokens and sources are equal exactly when their parts are.",
 ["inputs"], "All 64-bit positions, and all short sources.",
 "The tests check a dozen fixed spans.", R("lex/span.rs", "lex/token.rs") + [M + "to_span.rs"],
 [("slicing", T + "lex/span.rs"), ("derived spans", M + "to_span.rs")],
 "c21", [1],
 ["every pair of 64-bit positions on every ASCII source of 0 to 4 bytes; every pair of positions between the characters of every source of 0 to 3 characters of 1 to 4 bytes; 5 spans of any 64-bit positions for tuples, tokens and derived types; shown spans up to 14",
  "every pair of 64-bit positions on every ASCII source of 0 to 8 bytes; every pair of positions between the characters of every source of 0 to 4 characters of 1 to 4 bytes; 5 spans of any 64-bit positions for tuples, tokens and derived types; shown spans up to 119"],
 OUT + "; positions inside a character of several bytes")
prop("C22", "The order in which a grammar is written does not change it",
 "Declaring the alternatives of every union, or the rules, in another order changes neither whether the grammar is accepted, nor any FIRST or FOLLOW set, nor which alternative a token selects; the order the compiler gives type ids changes none of these, nor the error reported.",
 ["programs"], "All grammars made of sequences and unions; the alternatives turned by one and reversed, the rules given forwards and backwards, type ids in three orders.",
 WHY_GRAM, R(SYN, "syntax/first/builder.rs", "syntax/follow/builder.rs", "syntax/jump.rs"),
 [("order-independent fixpoints", T + "syntax/first/builder.rs"), ("order-independent tables", T + "syntax/jump.rs")],
 "c22", [1, 2], [shapes("c22", "quick"), shapes("c22", "thorough")], GOUT)
prop("C23", "The stream of tokens behaves as a stream",
 "Whatever the order of peeking, consuming, asking for types and literals, and asking for spans and the remaining text: peeking does not change anything, consuming gives every token once and in order, a token is only taken when it fits, positions are those of the next and of the last token, and what is recorded is exactly what was consumed.",
 ["inputs", "histories"], "All sources and histories of operations.",
 "The tests never mix these operations.", R("parser/parser_impl.rs", "parser/info.rs", "lex/lexer.rs", "lex/vec.rs"),
 [("one token of lookahead", T + "parser/parser_impl.rs")],
 "c23", [1],
 ["every history of 3 of 9 operations on every source of 0 to 3 bytes of abcdA0123+*(); with #, space, ! and ?; every history of 4 on every source of 0 to 4 bytes of a, space, # and ?",
  "every history of 4 of 9 operations on every source of 0 to 3 bytes of abcdA0123+*(); with #, space, ! and ?; every history of 5 on every source of 0 to 5 bytes of a, space, # and ?"])
prop("C24", "Parsing again continues where the last parse stopped",
 "After one parse, a second parse with the same parser starts exactly at the first token the first one did not consume, and its tree, errors and consumed tokens are those of parsing the rest of the source. The record of tokens and errors only grows.",
 ["inputs", "histories"], "All sources, and two parses in a row.",
 "The tests parse once per parser.", R("parser/parser_impl.rs", "lex/lexer.rs"),
 [("token buffer kept between parses", T + "parser/parser_impl.rs")],
 "c24", [1, 2, 3],
 [parses("c24", "quick"), parses("c24", "thorough")])
prop("C25", "A tree can be compared, copied, shown and walked for what it is",
 "Two parsed trees of one type are equal, and look the same in debug output, when and only when they have the same nodes, spans and texts. A copy is equal to the original. Every way to look into a node (its fields, by index, iteration by value, by reference or by mutable reference, the value taken out of it) gives the same content in the order of the source. Parsing from the root type gives what parsing with a fresh parser gives.",
 ["inputs"], "All pairs of sources, for trees with separated lists, lists, loops, optional nodes, recovery and texts.",
 "The tests compare a few fixed trees to expected ones.", R("tp_impl/split.rs", "tp_impl/punct.rs", "tp_impl/iter.rs", "tp_impl/node.rs", "tp_impl/option.rs", "tp_impl/string.rs", "tp_impl/recover.rs", "parser/tree.rs"),
 [("iteration over separated lists", T + "tp_impl/split.rs"), ("access to the value of a node", T + "tp_impl/node.rs"), ("parsing from the root", T + "parser/tree.rs")],
 "c25", [1, 2, 3],
 ["6 grammars (harness/src/bin/c25.rs); every source of 0 to 4..7 bytes of alphabets of 5 to 8 bytes, with every source that one byte replaced, added or removed makes of it",
  "6 grammars (harness/src/bin/c25.rs); every source of 0 to 5..9 bytes of alphabets of 5 to 8 bytes, with every source that one byte replaced, added or removed makes of it, and of 0 to 3..7 bytes with every source that two such changes make of it"])
prop("C26", "What is ignored or extracted between tokens does not change the tree",
 "Putting ignored text or extracted tokens between the tokens of a source, anywhere, gives the same tree, the same errors and the same consumed tokens, at the corresponding places, and parsing stops at the same token.",
 ["inputs"], "All pairs of sources that differ only in what is between the tokens.",
 "The tests do not compare parses.", R("parser/parser_impl.rs", "lex/lexer.rs", "tp_impl/recover.rs", "tp_impl/split.rs", "tp_impl/punct.rs", "tp_impl/iter.rs", "tp_impl/option.rs"),
 [("extraction", T + "parser/parser_impl.rs"), ("spans of absent nodes", T + "tp_impl/option.rs")],
 "c26", [1, 2],
 ["18 grammars; every source of 0 to 4 tokens, with one of 4 gaps at each place; every source of 0 to 3 tokens, with every choice of nothing, a space or an extracted token at all places",
  "18 grammars; every source of 0 to 5 tokens, with one of 4 gaps at each place; every source of 0 to 4 tokens, with every choice of nothing, a space or an extracted token at all places"])
prop("C27", "Text and value nodes hold the text, or value, of what they span",
 "A text node holds exactly the source it spans, with the gaps and separators inside; a value node holds the value of exactly that text, or the conversion's error when the text is no value. They parse like the node they wrap.",
 ["inputs"], "All sources, for texts and numbers of every length within the bounds.",
 "The tests check two fixed values.", R("tp_impl/string.rs", "tp_impl/node.rs", "lex/span.rs"),
 [("text and conversion of nodes", T + "tp_impl/string.rs")],
 "c27", [1, 2, 3],
 ["4 grammars; every source of 0 to 5..6 bytes of eight alphabets of 5 to 12 bytes after a fixed beginning; " + parses("c27", "quick"),
  "4 grammars; every source of 0 to 7..8 bytes of eight alphabets of 7 to 14 bytes after a fixed beginning; " + parses("c27", "thorough")])
prop("C28", "Serialised values say what the values are",
 "With the default serde feature, a span is serialised as its start and end and a token set as its bits, and each is read back as the same value; a token map is serialised as its items, one for each type in order; a set of literals as exactly its literals or as any; a set of terminals, FIRST set and FOLLOW set as this for each type and whether the empty symbol is in it; and an error with its span, its kind, and the text or set it carries.",
 ["inputs"], "All spans, sets, maps and errors.",
 "The tests serialise nothing.", R("lex/span.rs", "lex/set.rs", "lex/map.rs", "syntax/lit_set.rs", "syntax/term_set.rs", "syntax/first/set.rs", "syntax/follow/set.rs", "syntax/error.rs"),
 [("serialisation of maps", T + "lex/map.rs"), ("serialisation of literal sets", T + "syntax/lit_set.rs"), ("serialisation of errors", T + "syntax/error.rs")],
 "c28", [1],
 ["every span; every set and every map with two writes over lexicons of 1, 7, 8, 9, 16, 17, 32, 33, 64, 65 and 128 types; every literal set over 4 literals and the universal set; every set of terminals over 3 types with 4, 3 and 2 literals or all of them, and the empty symbol; every kind of error with every span and sets of 1 or 2 terminals",
  "every span; every set and every map with two writes over lexicons of 1, 7, 8, 9, 16, 17, 32, 33, 64, 65 and 128 types; every literal set over 4 literals and the universal set; every set of terminals over 3 types with 4, 3 and 2 literals or all of them, and the empty symbol; every kind of error with every span and sets of 1 or 2 terminals"],
 OUT + "; particular formats such as JSON", assumptions=["values are serialised into and read back from a self-describing tree of the harness (harness/src/ser.rs)"])
prop("C29", "Messages name exactly what is expected",
 "The message of an error about what is expected names each terminal that would have been accepted, a whole type by its name and a literal by its text, and no other; the message about unexpected text quotes exactly that text.",
 ["inputs"], "All sources with errors.",
 "The tests check the messages of a few fixed errors.", R("syntax/error.rs", "syntax/term_set.rs", "syntax/first/set.rs", "tp_impl/split.rs", "tp_impl/recover.rs"),
 [("listing of a set", T + "syntax/term_set.rs"), ("messages", T + "syntax/error.rs")],
 "c29", [1, 2, 3, 4, 5],
 ["every run of up to 9 token types with every run of 26 literals of one more type; unexpected text of 0 to 39 of one of 6 characters (1 to 4 bytes); " + parses("c29", "quick"),
  "every run of up to 33 token types with every run of 26 literals of one more type; unexpected text of 0 to 119 of one of 6 characters (1 to 4 bytes); " + parses("c29", "thorough")])
prop("C31", "Malformed lexicons and grammars are refused at compile time",
 "A derive on an ill-formed lexicon or syntax type (unknown attributes, literals the rule does not match, wrong shapes) does not compile, and a well-formed one does.",
 ["programs"], "All programs.",
 "The compile-time tests cover a list of fixed programs.", [M + "lexicon.rs", M + "syntax.rs"], [("attribute checks", M + "lexicon.rs")],
 na="The input is a Rust program and the code under test runs inside the compiler as a procedural macro over token streams of unbounded shape (proc_macro API, syn, regex): a symbolic program cannot be fed to it, and a fixed list of programs would be sampling.")
prop("C32", "Concurrent first use of a grammar is safe",
 "When several threads use a grammar for the first time at once, each sees the complete tables.",
 ["schedules"], "All interleavings of the first uses.",
 "The tests do not race first uses.", R(SYN, "syntax/ast.rs"), [("once-initialised static", M + "root.rs")],
 na="The guarantee is that of the standard library's one-time initialisation (std::sync::OnceLock and its futex-based Once): there is no concurrent code of this project to encode, and std's synchronisation is outside the executor's sequential semantics.")
