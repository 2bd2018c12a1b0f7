D="domain/"
p("A01","Hash codecs round-trip and comparison is exact equality",
"A hash rendered to bytes or to its hexadecimal string and read back through the adapter is the same hash. Two hashes compare equal exactly when all their bytes are equal. Reading data that is not already a hash yields the SHA-512 digest of exactly that data, and malformed hexadecimal is rejected with an error. Several pieces are read as their bytes one after the other, and no data of the caller is changed by reading it.",
["inputs"],"every 64-byte hash value, every byte string of 0..70 bytes, every text of 0..5 bytes, hexadecimal texts of 62..66 bytes of data, up to 3 pieces of up to 3 or of 32..33 bytes; data of 100 to 5000 bytes of which three are arbitrary, in pieces of 1, 7, 64 and 100 bytes",
"The hash package has no tests; equality and codecs range over 2^512 values, and a comparison that skips a byte agrees on almost every sample.",
[D+"hash/adapter.go",D+"hash/hash.go"],[("FromBytes, FromMultiBytes, FromString",D+"hash/adapter.go"),("Compare, Bytes, String",D+"hash/hash.go")],["hash.Adapter","hash.Hash"])
p("A02","A hashtree is a binding Merkle tree over all its blocks",
"A hashtree can be built from any list of data blocks, leaves the caller's list untouched, pads it to a power of two, and exposes every block in input order through its leaves. Its root is the digest over the concatenated child digests at every level, so that changing any block, or the order of different blocks, changes the root. Every node exposes exactly the blocks below it, however often the tree is looked at. The length and height it reports are those of the padded tree, whose missing blocks are empty and which has at least two leaves.",
["inputs","configurations"],"every list of 0..17 (thorough: 33) two-byte blocks, of up to 3 (thorough: 5) blocks of 0, 1, 3, 63, 64 or 65 bytes, every pair of lists of up to 5 (thorough: 9) blocks; lists of 40 to 100 (thorough: 257) blocks of 2, 64 or 300 bytes of which one is arbitrary",
"The tests build a handful of trees from random blocks; a tree that drops, repeats or swaps leaves only for particular sizes or equal siblings passes them.",
[D+"hashtree/block.go",D+"hashtree/hashtree.go",D+"hashtree/leaf.go",D+"hashtree/leaves.go",D+"hashtree/parentleaf.go",D+"hashtree/compact.go"],
[("padding to a power of two",D+"hashtree/block.go"),("bottom-up construction",D+"hashtree/leaves.go"),("compact form",D+"hashtree/hashtree.go")],["hashtree.Builder","HashTree.Head, Parent, Compact, Length, Height","Leaf.Head, Parent, Leaves"])
p("A03","Order puts shuffled blocks back in the order of the hashtree",
"Given the blocks of a hashtree in any order, Order returns exactly these blocks, each as often as it was given to the tree, in the tree's own order. Blocks that are missing are left out, and the order of the others is kept. A list that holds data that is not in the tree, or not as often, is refused with an error.",
["inputs","histories"],"every permutation of up to 6 (thorough: 7) blocks with arbitrary equalities between them, every foreign list of up to 3 (thorough: 4) blocks; lists of 8 to 33 (thorough: 70) blocks that arrive in 5 orders",
"The tests shuffle one random list of distinct blocks; repeated and empty blocks, missing blocks and foreign blocks are never tried.",
[D+"hashtree/hashtree.go",D+"hashtree/block.go"],[("Order",D+"hashtree/hashtree.go")],["HashTree.Order"])
p("B01","Genesis units and the genesis are valid, complete and bound by their hash",
"A genesis unit content is built exactly when it has a positive amount, a non-empty nonce and an activation time that is not before its creation time; a unit exactly when it has content and owner; a genesis exactly when it has units, fees (zero is allowed) and a creation time that none of its units predates. What was given is what the accessors return, and a builder restarted with Create forgets everything given before. Two values of the same kind have the same hash exactly when all their fields, down to the nanosecond of their times, are the same, whatever characters the nonce holds.",
["inputs"],"every amount, every nonce of up to 3 bytes, every time between 2001 and 2242, every lists of up to 3 units",
"The package has no tests; hash collisions between differently split fields need a search over pairs of inputs.",
[D+"genesis/builder.go",D+"genesis/unit_builder.go",D+"genesis/units_builder.go",D+"genesis/unitcontent_builder.go",D+"genesis/genesis.go",D+"genesis/unit.go",D+"genesis/unitcontent.go"],
[("Now: mandatory fields and times",D+"genesis/unitcontent_builder.go"),("units not older than the genesis",D+"genesis/builder.go"),("hash over all fields",D+"genesis/unitcontent_builder.go")],["genesis builders","Hash() of the built values"])
p("B02","Owner rings respect their size limits and are bound by their hash",
"A ring is built exactly when a list of hashes is given whose size is at least the configured minimum and at most the configured maximum; it keeps its members in order and leaves the caller's list untouched. Rings differing in any member or in the order of the members have different hashes, and equal rings have equal hashes. The same binding holds for a list of rings, which is refused when it is empty.",
["inputs","configurations"],"every minimum and maximum, every list of up to 5 hashes; rings and lists of 9 to 260 members",
"The package has no tests; the limits and the hashes range over all sizes and values.",
[D+"rings/ring_builder.go",D+"rings/builder.go",D+"rings/ring.go"],[("size limits",D+"rings/ring_builder.go"),("hash over the members",D+"rings/ring_builder.go")],["rings.RingBuilder","rings.Builder"])
p("B03","Transactions are complete and their hash binds their whole ancestry",
"A transaction content is built exactly when owner, amount, origin, external hash and creation time are given, and a transaction exactly when content and authorization are; an origin is exactly one of a genesis unit and a transaction and carries the hash of that one. What was given is what the accessors return. Two contents, transactions or lists of transactions have the same hash exactly when all their fields are the same (creation times in whole seconds), so changing any ancestor of a transfer changes its hash.",
["inputs","histories"],"every hash, every time between 2001 and 2242, authorizations of up to 3 bytes, lists of up to 3 transactions, chains of 4 transfers; chains of 30 transfers",
"The package has no tests; binding is a statement about every pair of values.",
[D+"transactions/content_builder.go",D+"transactions/transaction_builder.go",D+"transactions/origin_builder.go",D+"transactions/origin.go",D+"transactions/builder.go"],
[("hash over all fields",D+"transactions/content_builder.go"),("origin kinds",D+"transactions/origin.go")],["transactions builders","Hash() of the built values"])
p("B04","Secrets, receipts and private transactions are complete and bound by their hash",
"A secret is built exactly when it has a positive amount, a non-empty nonce and a public transaction (origin and sides are optional and reported exactly when given); a receipt exactly when it has a secret and a signature; a private transaction exactly when it has a private key and a receipt. What was given is what the accessors return, and a builder restarted with Create forgets everything given before. Two values of the same kind, or two lists of them, have the same hash exactly when all their parts are the same, whatever characters the nonce holds.",
["inputs"],"every amount, nonces of up to 3 bytes optionally followed by a hash, every hash, texts of up to 3 bytes, lists of up to 3; long nonces that differ in one place",
"The packages have no tests; a hash that ignores or runs together fields is only visible over pairs of inputs.",
[D+"transactions/secrets/secret_builder.go",D+"transactions/secrets/builder.go",D+"receipts/builder.go",D+"transactions/privates/private_builder.go",D+"transactions/privates/builder.go"],
[("hash over all parts",D+"transactions/secrets/secret_builder.go"),("hash of a receipt",D+"receipts/builder.go"),("hash of a private transaction",D+"transactions/privates/private_builder.go")],["secrets, receipts and privates builders"])
p("B05","Blocks and chains are complete and the head binds the whole history",
"A block is built exactly when it has a positive height, fees, transactions and a creation time (a previous block is optional), a chain exactly when it has an identifier, a root and a creation time (a head is optional); the accessors return what was given. Two blocks, or two chains, have the same hash exactly when all their fields are the same (creation times in whole seconds). When the transactions of any block in a history change, the hash of the last block changes.",
["inputs","histories"],"every height and hash, every time between 2001 and 2242, histories of 5 blocks; histories of 40 blocks",
"The package has no tests; binding a whole history is a statement about every pair of histories.",
[D+"chains/block_builder.go",D+"chains/builder.go",D+"chains/block.go",D+"chains/chain.go"],[("hash over all fields",D+"chains/block_builder.go"),("hash of a chain",D+"chains/builder.go")],["chains builders","Hash() of the built values"])
p("B06","Identities and private genesis units keep exactly what they are given",
"An identity is built exactly when it has a non-empty name and transactions; the genesis, and the incoming and the outgoing transactions, are optional and reported exactly when given. A private genesis unit is built exactly when it has a unit and a private key, and its hash, like that of a list of them, identifies all its parts. A builder restarted with Create forgets everything given before.",
["inputs","histories"],"every combination of given and missing parts, every hash, names and keys of up to 3 bytes, lists of up to 3",
"The packages have no tests; a builder that leaks state between uses fails only for particular sequences of calls.",
[D+"identities/builder.go",D+"identities/transactions_builder.go",D+"identities/identity.go",D+"identities/transactions.go",D+"genesis/privates/private_builder.go",D+"genesis/privates/builder.go"],
[("optional parts",D+"identities/transactions_builder.go"),("hash of a private unit",D+"genesis/privates/private_builder.go")],["identities builders","genesis privates builders"])
p("C01","Peer addresses round-trip between parts and text",
"A peer is built from a non-empty host and a port, or from a text that holds the configured delimiter exactly once, after a non-empty host and before a port in decimal digits; every other text is refused with an error. The text of a peer is its host, the delimiter and its port, and reading it back gives the same host and port. A list of peers is refused when empty and keeps its members in order.",
["inputs","configurations"],"every port (quick: below 100000), hosts of up to 3 bytes, texts of up to 7 characters, delimiters of up to 2 characters; long hosts, and lists of up to 260 peers",
"The package has no tests; malformed texts and extreme ports are endless.",
[D+"peers/peer_builder.go",D+"peers/peer.go",D+"peers/builder.go"],[("reading a text",D+"peers/peer_builder.go"),("writing a text",D+"peers/peer.go")],["peers.PeerBuilder","Peer.String"])
p("D01","Cardinalities accept exactly the amounts their text says",
"A cardinality text is `?`, `+`, `*`, an exact positive amount `{n}`, or a range `{min,}` or `{min,max}` with the minimum at most the maximum, and every malformed or unsatisfiable text between braces is refused with an error. The cardinality read from a text accepts an amount exactly when the text says so, and one built with the builders when it lies between its inclusive bounds. Writing a cardinality as text and reading it back gives a cardinality that accepts the same amounts.",
["inputs"],"every text of up to 5 (thorough: 7) characters, every amount, minimum and maximum (written: up to 4 digits); numbers of 8 to 18 digits of which one is arbitrary, and larger ones",
"The package has no tests; bounds range over all numbers, and an off-by-one at one bound or a text misread in one position passes any sample.",
["domain/languages/lexers/cardinality/adapter.go","domain/languages/lexers/cardinality/cardinality.go","domain/languages/lexers/cardinality/specific.go","domain/languages/lexers/cardinality/range.go"],
[("reading","domain/languages/lexers/cardinality/adapter.go"),("acceptance","domain/languages/lexers/cardinality/cardinality.go")],["cardinality adapters","Cardinality.IsValid"])
L="domain/languages/lexers/"
C=L+"containers/"
p("E01","Patterns recognise groups, options and series as their script says",
"A group matches at the leftmost position where one of its options (characters or quoted texts) occurs, with its longest option there, and what follows the match is the remaining content. A pattern starts at the leftmost match of its first choice and follows its choices in order: a series matches its groups one right after the other, a reversed series takes the characters up to the next occurrence of its first group (none when it is right there, or all there are when it is not found), the discovered texts are consecutive parts of the content, each with the group or reversed series it was discovered by, their amount is that of the characters discovered (which the questions about an amount, a minimum and a range are answered by), and an incomplete series names the group it expects next; among several patterns the one found earliest wins, the first one among equals. Scripts that are malformed or refer to unknown groups or series are refused with an error.",
["inputs"],"scripts of the shipped and of generated shapes, group options of up to 2 characters, contents of up to 4 (thorough: 6) characters; groups of up to 17 options, runs of 40 characters, series of up to 6 groups and 7 choices, scripts of up to 12 declarations",
"The tests try a few contents per pattern; the position, the longest option and the remainder depend on every character of the content.",
[C+"patterns/adapter.go",C+"patterns/group.go",C+"patterns/pattern.go",C+"patterns/patterns.go",C+"patterns/serie.go"],
[("reading scripts",C+"patterns/adapter.go"),("matching",C+"patterns/pattern.go")],["patterns.Adapter","Patterns and Groups matching"])
p("E02","Rules are read as the constants and patterns their text declares",
"A rules text is a sequence of declarations `NAME: \"constant\";` and `NAME: [pattern names]cardinality;`, read in order with exactly the written name, constant (an escaped quotation mark stands for a quotation mark), patterns and cardinality. Names declared twice, unknown patterns, missing cardinalities and declarations without a body are refused with an error, and no text makes reading panic. A rule is found by its name, and an unknown name is an error.",
["inputs"],"names of up to 3 characters, constants of up to 4 characters, bodies of up to 4 arbitrary characters, up to 3 rules; up to 17 rules with long names and constants",
"The tests read two rule texts; characters with a meaning of their own, repeated names and truncated declarations are never tried.",
[C+"rules/adapter.go",C+"rules/rule.go",C+"rules/rules.go"],[("reading rules",C+"rules/adapter.go"),("lookup",C+"rules/rules.go")],["rules.Adapter","Rules.Find"])
p("E03","Tokens are read as the lines, elements and tests their text declares",
"A token text is a sequence of declarations `name: line | line;`, optionally with forbidden lines after `---:` and test texts after `+++ :` separated by `###`, and is read with exactly these names, lines and texts in order. A line is read as exactly its instructions in order: rules and tokens with their cardinality, token references also with their specifiers between `->` and `<-`, and channel switches `#`. Unknown rules, tokens declared twice, empty lines and incomplete parts are refused with an error.",
["inputs"],"names of 1 or 2 characters, lines of up to 3 arbitrary instructions, up to 2 lines and 2 forbidden lines, up to 3 test texts of up to 2 characters, up to 3 tokens; up to 12 tokens of 12 lines of 9 instructions, and up to 20 test texts",
"The tests read one large script; combinations of cardinalities, specifiers and channel switches are only tried in the order in which that script has them.",
[C+"tokens/adapter.go",C+"tokens/token.go",C+"tokens/line.go",C+"tokens/element.go",C+"tokens/tokens.go"],[("reading tokens",C+"tokens/adapter.go"),("lookup",C+"tokens/tokens.go")],["tokens.Adapter","Tokens.Find"])
p("E04","References between token files are read as written",
"A text with `include name \"rules;tokens\"` (or `\"rules;tokens;channels\"`), `reference local name.token` and `replace name.token local` lines is read as exactly these references and replacements, in order, each with its local token, its referenced token and the paths of its include. A link to an include that is not declared, and an include without a rules and a tokens path or with more than three paths, is refused with an error, without panicking. Links are found by their local token and by their include with the referenced token, and by nothing else.",
["inputs"],"names of 1 or 2 characters, up to 2 includes, 1 or 2 links of each kind, path lists of up to 6 characters; up to 14 links and includes with long names and paths",
"The tests read two texts with one include used; undeclared includes, path counts and lookups of absent names are not tried.",
[L+"references/adapter.go",L+"references/references.go",L+"references/links/links.go",L+"references/links/builder.go",L+"paths/builder.go"],[("reading",L+"references/adapter.go"),("lookup",L+"references/links/links.go")],["references.Adapter","links.Links","paths.Builder"])
A="domain/languages/lexers/asts/"
p("F01","Scripts are read exactly as the lines of their grammar say",
"A script is accepted exactly when the root token matches at its start: a token matches by the line that reads the most text (the first one among equals, and at least one character) of those whose elements all match in order, each a number of times its cardinality (and its specifiers) accepts, read greedily and without going back, unless one of its forbidden lines matches there. Text that matches a channel is skipped before every rule while channels are switched on, and channels never change what is read otherwise. The tree holds, in order, exactly the rules and tokens read, with the number of the line chosen and the exact text of every rule, and reading ends for every grammar, also for recursive tokens.",
["inputs","configurations"],"13 families of grammars with arbitrary cardinalities, lines, nesting, specifiers, forbidden lines, patterns, recursion and channels; scripts of up to 4 (thorough: 5) arbitrary characters; and 8 families of large scripts (12 and more repetitions, nesting up to 9, lines of 36 elements, 12 lines, 13 tokens, long runs of white space and of patterns) with an arbitrary character put in",
"The tests read one script per grammar; whether a token is read depends on the script, on the grammar and on the state left by the lines tried before.",
[A+"tokens/adapter.go",A+"tokens/tokenresult.go",A+"adapter.go",A+"paths/adapter.go",A+"results/adapter.go"],[("lines, cardinalities, forbidden lines and channels",A+"tokens/adapter.go"),("from matches to a tree",A+"adapter.go"),("rules in the script",A+"results/adapter.go")],["asts.Adapter.ToAST","AST.Success"])
p("F02","Refused scripts are reported with the mistake of the line read the farthest",
"A script that is not accepted is reported as one mistake, of exactly one kind: no match, a forbidden line that matched, a specifier or a cardinality that is not respected, an element expected at the end of the script, or text before the next rule. It is the mistake of the line of the root token of which the most elements were reached (the first one among equals); its index, line and column are those of the end of the text read before it, it names the rule at fault or the token whose line failed, and the amount, the amount asked for, the name and amount of the specifier, the expected element or the offending text it carries are those found there. A script that is accepted has no mistake.",
["inputs","configurations"],"the families of grammars of F01; scripts of up to 4 (thorough: 5) arbitrary characters; and the large scripts of F01",
"The tests look at the mistakes of a few scripts; positions depend on everything read before, across nested tokens.",
[A+"mistakes/adapter.go",A+"tokens/adapter.go"],[("building mistakes and their position",A+"mistakes/adapter.go"),("elements expected next",A+"tokens/adapter.go")],["AST.Mistake"])
p("F03","Reading a script depends on nothing but the grammar and the script",
"An adapter gives the same tree or mistake for a script whether or not it read other scripts before. The result does not depend on the order in which maps are walked, and so is the same in every run. This holds also where text before the script is legal.",
["inputs","histories","schedules"],"5 grammars with nesting, recursion and overlapping channels; two scripts of up to 4 arbitrary characters each; every order of the maps walked; and the large scripts of F01",
"The tests read one script per adapter; state left behind and random map order show only in particular histories and runs.",
[A+"adapter.go",A+"tokens/adapter.go",A+"paths/adapter.go"],[("state of an adapter",A+"tokens/adapter.go")],["asts.Adapter.ToAST"])
p("F04","Text around a script is refused or left out as the adapter was told",
"Where no prefix is legal, a script is accepted only when its first rule is found at its very start. Where a prefix is legal, the text before a script of a single rule (which may be repeated) is left out of what is read and kept apart as its prefix; a script without the rule is refused. Where a suffix is legal, what follows the script is left out of what is read.",
["inputs","configurations"],"3 grammars, every combination of legal and illegal prefix and suffix, scripts of up to 8 and suffixes of up to 3 arbitrary characters; prefixes and suffixes of 40 characters; rules repeated up to 5 times, with and without a channel",
"The tests try one prefix and one suffix; what is kept apart depends on where the rule is found in the script.",
[A+"adapter.go",A+"adapter_builder.go",A+"results/adapter.go"],[("legal prefix",A+"tokens/adapter.go"),("text before and after a rule",A+"results/adapter.go")],["asts.AdapterBuilder.CanContainPrefix, CanContainSuffix","asts.Adapter.ToAST"])
p("F05","The record of a reading says what was read and why it failed",
"The record of every attempt to read a script, accepted or not, agrees with itself and with the script. A token, line, match or result of it is valid exactly when all its parts are (cardinalities and specifiers are respected, no forbidden line matches, no element is missing), nothing follows a part that failed, and an element is skipped only when it failed and may be missing. The text of every valid part is that of its parts in order and stands in the script where that part was tried, which is the input it reports; amounts, and the answers about an exact amount, a minimum and a range, are the number of parts. The record can be asked everything, whatever the script.",
["inputs","configurations"],"the families of grammars of F01; scripts of up to 4 (thorough: 5) arbitrary characters; amounts and ranges of 0..3; and the large scripts of F01",
"The tests look at the records of a few scripts that are accepted; records of failures have other shapes, and a bound that is off by one shows only where the amount is the bound.",
[A+"tokens/adapter.go",A+"tokens/blockmatch.go",A+"tokens/match.go",A+"tokens/matches.go",A+"tokens/tokenresultmatches.go",A+"tokens/specifier.go"],[("building records",A+"tokens/adapter.go"),("validity, text and input of a record",A+"tokens/matches.go")],["asts/tokens.AdapterBuilder, Adapter","Token, LineMatch, BlockMatch, TokenResult and the others"])
p("G01","The tests written with a token are executed as readings of that token",
"Executing the tests of a grammar gives, in order, one suite for every token that has tests, named after the token, with one line per test in order, numbered from zero. A line is successful exactly when the grammar reads the text of the test with that token as its root, where tokens that are declared elsewhere are read as the declaration fetched for them and replaced tokens as their replacement. A grammar that refers to a token that is declared nowhere is refused with an error.",
["inputs","configurations"],"a grammar of 3 tokens and 2 tokens declared elsewhere, with and without channels, every combination of tokens with tests, test texts of up to 4 (thorough: 5) arbitrary characters; up to 20 tests in one token",
"The tests execute one suite where everything succeeds; a test that is skipped, that fails, or that is read with the wrong declaration goes unnoticed.",
[L+"suites/application.go",L+"suites/builder.go",L+"suites/line_builder.go",L+"suites/application_builder.go"],[("executing tests",L+"suites/application.go")],["suites.Application.Execute"])
p("H01","The tree of a script holds exactly what was read, in order",
"The tree made of a script that was read has for every token its name, the exact text it read, and one node for each element of its chosen line, which holds in order each occurrence of that element with its text and, for tokens, its own tree. Making a tree does not depend on the trees made before, nor on the order in which maps are walked. Looking for a name finds a node of that name exactly when there is one, and one of the tree itself before any further down.",
["inputs","histories","schedules"],"6 families of grammars (tokens that read the same text, recursion, channels, repeated elements, patterns), scripts of up to 5 arbitrary characters, every order of the maps walked while looking for a name; and the large scripts of F01",
"The tests make the tree of one script; tokens that read equal texts, repeated elements and the order of maps only show in particular scripts and runs.",
[L+"roots/adapter.go",L+"roots/nodes.go",L+"roots/root.go",L+"roots/containers.go"],[("from what was read to a tree",L+"roots/adapter.go"),("looking for a name",L+"roots/nodes.go")],["roots.Adapter.ToRoot","Root.Scan, Nodes.Scan"])
AP="applications/languages/parsers/"
p("H02","The first event that accepts an element gives its value",
"Executing a tree calls the events registered for the name of its root, in order and with that root, until one succeeds, and the value of that one is the result; it is an error when none is registered or none gives a value. Triggering an element finds the node of that name (one of the tree itself before any further down) and gives one value per occurrence, in order: the text of a rule, and for a token the value of the first of its events that succeeds for it. An absent element, and an occurrence of a token that all its events refuse, is an error.",
["inputs","configurations"],"up to 3 events per name, each failing or giving a value, one or several results or nothing, up to 3 occurrences, each a rule or a token, of arbitrary texts, direct or nested; up to 30 occurrences, 9 events and nesting of 8",
"The tests register one event per name that succeeds; which event decides, and what becomes of several results, is never tried.",
[AP+"manager.go",AP+"application.go",AP+"manager_builder.go",AP+"result_builder.go",AP+"result.go"],[("events in order",AP+"manager.go")],["parsers.Manager.Execute, Trigger","parsers.Application.Execute"])
p("H03","Grammars given as texts read scripts, with included and replaced tokens",
"A script given with its grammar as texts is read exactly as that grammar says; a token that refers to a token of an included file is read as that file declares it, with the tokens, rules and patterns of that file, to any depth, and a replaced token of that file as the token that replaces it. What an application read before changes nothing. A root token, file, referenced token or replacement that is absent is an error, and the content says whether text before the script is legal.",
["inputs","histories","configurations"],"5 families of grammars written as texts, included files of 3 tokens and a file included by one that is included, scripts of up to 3 (thorough: 4) arbitrary characters, one use of the application before; the large scripts of F01, up to 9 files that each include the next and up to 14 included files",
"The tests read one script per grammar with a new application; includes that are replaced, nested includes and applications that are used twice are not tried.",
["applications/languages/lexers/application.go",L+"references/adapter.go",A+"paths/adapter.go"],[("includes and replacements","applications/languages/lexers/application.go")],["lexers.Application.AST, Root, Tests, Path"])
B="domain/languages/scripts/base/parsers/"
p("I01","Program elements of the base language are complete and of one kind",
"Every program element of the base language is built exactly when its mandatory parts and, where it has alternatives, at least one of them are given; it is of exactly one kind, one of those given, and reports exactly the parts it was given. A list of elements is refused when empty and keeps its members in order. A builder restarted with Create forgets everything given before.",
["inputs","histories"],"every combination of given and missing parts of all the element builders, one or two alternatives given, lists of up to 3 members and of 5, 11 and 33, names of up to 2 bytes, all type flags, one use of the builder before",
"The tests never call most builders directly; an element that accepts two alternatives or forgets one is only built from particular programs.",
[B+"value_builder.go",B+"type_builder.go",B+"assignment_builder.go",B+"instruction_builder.go",B+"forstatement_builder.go",B+"slice_builder.go",B+"program_builder.go"],[("alternatives of a value",B+"value_builder.go"),("alternatives of an instruction",B+"instruction_builder.go")],["the builders of scripts/base/parsers"])
p("I02","Programs of the base language mean what their tree says",
"The events of the base language turn the tree of a program into exactly the program it writes: every instruction, assignment, operation, list, slice, declaration and call, with its names, types, directions, operators and values, in order. Integers are worth the digits written, with their sign, and are refused exactly when they do not fit the bits of the language, as are trees that hold a value that is refused. The result depends on nothing but the tree, and in particular not on the order in which maps are walked.",
["inputs","programs"],"trees of every element of the grammar with arbitrary digits, names and texts, integers of up to 4 digits and at the limits of 8, 16, 32 and 64 bits, lists of up to 2 members and of 5 and 12, nesting up to 4, two orders of the maps",
"The tests check that particular scripts give no error, not what they give; swapped operands, dropped members and wrong limits pass them.",
[B+"helper.go",B+"sdk.go",B+"value_builder.go"],[("events of the language",B+"helper.go")],["parsers.NewEvents: a program from a tree"])
p("I03","Programs of the shipped language are read as what they say",
"A program written in the language of the repository (its patterns, rules, tokens and channels in domain/languages/scripts/resources/base) is read by its grammar, and made by its events into exactly the program it writes: its header variables with their direction, type, name, key and whether they are optional, and its instructions in their order (assignments, declarations, conditions, loops, calls to log, directions and increments), with the names, types, operators, operations, lists, slices, appended and fetched elements written. The words true and false are values, not names. Numbers are worth their digits, names are kept, and a text holds every character between its quotation marks, blanks and comment signs too. Blanks and comments between elements, whether of one line or of several, empty or not, change nothing.",
["inputs","programs"],"every construct of the language with up to 2 members and one level of nested operations (thorough: 2), names of 2 or 3 letters, of any letter and starting with any word of the language, numbers of 1 or 2 digits, texts and comments of up to 2 characters below 128, up to 2 blanks between elements, up to 2 instructions and 2 header variables; programs and lists of 5 and 8 members, and names, numbers, texts, comments and blanks of up to 120 characters (numbers: 18)",
"The tests check that some scripts are accepted and count their instructions; a line moved in the grammar gives another program to scripts that stay accepted.",
["domain/languages/scripts/resources/base/tokens.alex","domain/languages/scripts/resources/base/rules.alex","domain/languages/scripts/resources/base/patterns.alex","domain/languages/scripts/resources/base/channels.alex",B+"helper.go"],[("grammar of the language","domain/languages/scripts/resources/base/tokens.alex")],["asts.Adapter.ToAST and parsers.Application with the shipped grammar: a program from a text"])
p("L01","Grammars, scripts and paths given to the lexer are complete and kept",
"A content is built exactly when it has a text, a container exactly when it has patterns, rules and tokens, a path resource exactly when it has a container and a root token, and so on for every resource: exactly when its mandatory parts are given. What was given is what the accessors return, and optional parts (channels, references, legal prefixes and suffixes) are reported exactly when given. A builder restarted with Create forgets everything given before.",
["inputs","histories"],"every combination of given and missing parts, texts of up to 3 bytes, lists of up to 3 members, one use of the builder before; lists of up to 20 members",
"The packages have no tests of their own; a builder that leaks state between uses fails only for particular sequences of calls.",
[L+"contents/builder.go",L+"resources/containers/builder.go",L+"resources/multiples/builder.go",L+"resources/paths/builder.go",L+"resources/singles/builder.go",L+"paths/builder.go"],[("mandatory parts",L+"resources/containers/builder.go")],["contents.Builder","containers.Builder","multiples.Builder","resources paths.Builder","singles.Builder","paths.Builder"])
S="domain/cryptography/keys/signature/"
p("J01","A signature gives the public key of its signer for its message only",
"A signature of a message verifies and gives, for that message, exactly the public key of the private key that signed it; for any other message it gives another public key, and signatures of different keys or messages differ. Private keys, public keys and signatures written as text and read back are the same ones and keep working together. A text that is not exactly that of a key or of a signature (cut, extended, doubled, with foreign characters) is refused with an error and never a panic.",
["inputs"],"every pair of generated keys, messages of up to 2 (thorough: 4) bytes, texts of up to 4 (thorough: 6) bytes and 8 kinds of damage to each part; long messages",
"The tests sign one sentence with one random key; damaged texts and pairs of messages and keys are endless.",
[S+"privatekey.go",S+"signature.go",S+"adapter.go",S+"publickey.go",S+"privatekey_adapter.go",S+"publickey_adapter.go",S+"helper.go"],[("signing",S+"privatekey.go"),("public key of a signature",S+"signature.go"),("texts of scalars and points",S+"helper.go")],["signature.PrivateKey.Sign","Signature.PublicKey, Verify, String","the adapters"])
p("J02","A ring signature verifies for its message and comes from a member of the ring",
"A message signed by any member of a ring is verified for that message and for no other, also when the signature is written as text and read back; somebody who is not in the ring cannot sign for it. A signature of which a key, a scalar or their order is changed, or that comes from nothing but the text of a signature without keys or scalars, is refused or not verified. Verification with hashes succeeds exactly with the hashes of the members of the ring in their order, and malformed texts are refused without a panic.",
["inputs","configurations"],"rings of 1..4 keys, every signer, messages of up to 3 bytes, 14 kinds of changes at every position; rings of up to 17 keys",
"The tests sign one sentence in one ring of random keys; tampered, truncated and empty rings are never tried.",
[S+"privatekey.go",S+"ringsignature.go",S+"ringsignature_adapter.go",S+"helper.go"],[("ring signing",S+"privatekey.go"),("ring verification",S+"ringsignature.go"),("text of a ring signature",S+"ringsignature_adapter.go")],["PrivateKey.RingSign","RingSignature.Verify, String","RingSignatureAdapter"])
p("J03","What a key signs never gives the key away",
"From any two signatures of one key, of any kind (plain or ring), for any messages and any rings, the private key cannot be computed: no secret number of one signature is used again for another one or published by it. No published scalar, point or text is the private key or one of its secret numbers.",
["histories","inputs"],"every pair of signatures (plain or ring) of one key, messages of up to 3 bytes, rings of up to 3 keys with the signer at every place; rings of up to 8 keys",
"A reused secret number produces perfectly valid signatures, so no functional test can notice it; it takes a pair of signatures and an equation between them.",
[S+"privatekey.go",S+"helper.go"],[("secret numbers of signatures",S+"helper.go"),("secret numbers of ring signatures",S+"privatekey.go")],["PrivateKey.Sign","PrivateKey.RingSign"])
p("J04","A ring signature does not tell who made it",
"A ring signature shows the ring exactly as it was given to the signer, in that order, with one number for each member and one challenge. The numbers of its members differ from one another. Two ring signatures share no number, whether they are by two members of the ring, by one member for two messages, or by one member in two rings, so that no comparison of signatures tells the place of a signer.",
["inputs","histories"],"rings of up to 5 keys with the signer at every place, pairs of signatures in rings of up to 4 keys, messages of up to 3 bytes, rings that differ in a member, the number of members or their order; rings of up to 17 keys",
"Signatures that give their maker away verify like all others; finding it takes pairs of signatures and every place of the signer.",
[S+"privatekey.go",S+"ringsignature.go",S+"helper.go"],[("RingSign",S+"privatekey.go"),("text of a ring signature",S+"ringsignature.go")],["PrivateKey.RingSign","RingSignature.String, Ring"])
Y="domain/cryptography/"
p("K01","What is encrypted with a password is read back with that password only",
"Decrypting an encrypted message with the password it was encrypted with gives exactly that message, whether the password was given as bytes or as text, and the message of the caller is left as it was. Encrypting twice never uses the same initial vector or the same key stream, and another password does not give the message. A text that is no encrypted message (damaged or too short) is refused with an error, and a password is mandatory and forgotten by Create.",
["inputs"],"passwords of up to 3 bytes, messages of up to 49 bytes, texts of up to 5 bytes and raw data of up to 15 bytes; messages of 64 to 130 bytes and passwords of up to 100 bytes",
"The package has no tests; lengths around the size of a block and short data need every length, and reused vectors are invisible to a round trip.",
[Y+"encryption.go",Y+"builder.go",Y+"sdk.go"],[("Encrypt, Decrypt",Y+"encryption.go"),("password",Y+"builder.go")],["encryption.NewEncryption","encryption.Builder","Encryption.Encrypt, Decrypt"])
Z="domain/cryptography/keys/encryption/"
p("K02","What is encrypted for a public key is read with its private key only",
"A message encrypted for a public key is read back exactly with the private key it belongs to and refused by any other key; data that is no such message is refused. Private and public keys written as bytes or as text and read back are the same keys and work together, also when one adapter reads several keys, and damaged data is refused with an error. The hash of a public key is that of its bytes, keys are mandatory, and a builder restarted with Create forgets them.",
["inputs","histories"],"pairs of generated keys, messages of up to 62 bytes, 5 kinds of damage to every encoding, raw data of up to 3 bytes, texts of up to 5 bytes",
"The package has no tests; mixing up the keys of several uses only fails for particular sequences of calls.",
[Z+"adapter.go",Z+"builder.go",Z+"privatekey.go",Z+"publickey.go",Z+"publickey_adapter.go",Z+"publickey_builder.go",Z+"factory.go"],[("encryption and decryption",Z+"privatekey.go"),("keys from bytes",Z+"adapter.go"),("public keys from bytes",Z+"publickey_adapter.go")],["encryption.Factory, Adapter, Builder","PublicKeyAdapter, PublicKeyBuilder","PrivateKey.Decrypt","PublicKey.Encrypt"])
