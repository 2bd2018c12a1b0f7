# Per property: how it is decided (what is executed, against what oracle) and what lies outside.
D={}
D["A01"]="The codecs and Compare run on symbolic 64-byte values and on texts of every length in the bounds; the oracle is the input itself. SHA-512 is a collision-free function (see Models)."
D["A02"]="The builder runs on lists of symbolic blocks; the oracle is a Merkle tree written in the harness from the statement, compared node by node through Parent/Left/Right, BlockLeaves and Compact. Binding is checked with two symbolic lists: equal heads imply equal padded lists."
D["A03"]="Every permutation is a sequence of symbolic choices, every equality between blocks is symbolic; Order must return the blocks in the order the tree was built from. Missing and foreign blocks are generated the same way."
D["B01"]="Each builder is run with every combination of given and missing parts and symbolic amounts, nonces and times (seconds and nanoseconds), after an earlier use and Create or without; hashes of two symbolic values are equal exactly when their fields are."
D["B02"]="Rings of symbolic size limits and members; pairs of rings for the binding. The hashtree underneath is the real code."
D["B03"]="As B01, for contents, origins, transactions and lists; HChain builds two chains of transfers with the real builders and asserts that the hash of the last one separates them."
D["B04"]="As B01, for secrets, receipts and private transactions."
D["B05"]="As B01, for blocks and chains; HHistory builds two symbolic histories of blocks."
D["B06"]="As B01, for identities, incoming/outgoing transactions and private genesis units."
D["C01"]="Texts are symbolic bytes; the oracle is a reader of `host DELIMITER port` written in the harness. strconv is executed from its source, so the decimal port is decided by the solver."
D["D01"]="Texts are symbolic over the alphabet of cardinalities (every byte elsewhere in the thorough tier); the oracle reads the text as the statement says and both are asked about a symbolic amount."
D["E01"]="Scripts of groups, series and patterns are built from symbolic choices, contents are symbolic; the oracle is a leftmost/longest matcher in the harness. Regular expressions of the adapters are executed by the engine's own backtracking matcher over symbolic bytes with Go's leftmost-first semantics (regex.go), compiled from the pattern the code passes to regexp."
D["E02"]="Texts of rules with symbolic constants (quotation marks, escapes, number signs, white space) and bodies; the oracle is what the harness wrote."
D["E03"]="Token texts generated from symbolic lines; the built lines, elements, cardinalities, specifiers, switches and suites are compared one by one."
D["E04"]="As E03 for references, replacements, includes and paths."
D["F01"]="A reference reader written from the statement (harness/hx/gm/gm.go, about 250 lines) reads the same symbolic script as the real adapter, for 15 families of grammars (symbolic cardinalities, nested and recursive tokens, forbidden lines, specifiers, patterns, channels, channel switches, overlapping channels, any two lines over three elements). The whole tree is compared: names, chosen lines, texts, amounts, inputs and suffixes of rules."
D["F02"]="The reference reader also computes the mistake; kind, index, line, column, path and the data of the mistake are compared on the same families."
D["F03"]="The whole result (tree or mistake) is rendered as a text and compared between an adapter with a history and a fresh one, and between two orders of iteration over every map of the run (the engine owns the order)."
D["F04"]="Prefixes and suffixes are symbolic; three harnesses hold the known findings of this property, the others state what does hold. One builder makes all adapters, after one where both are legal."
D["F05"]="The whole record is walked by the harness, which computes validity, texts, inputs and amounts of every part from its own parts and compares them with what the record says, and the root with the reference reader."
D["G01"]="Suites are executed by the real application and each line is compared with the reference reader on the text of the test."
D["H01"]="Trees are made from ASTs the real adapter read from symbolic scripts; every node, container and text is compared with the AST, Scan and Fetch with a search in the harness, under two map orders."
D["H02"]="Managers run over trees with symbolic events (which succeed, which refuse); calls are recorded and compared with the statement."
D["H03"]="Grammars are written as texts (the harness has a printer from the grammar builder), files are virtual; the result is compared with the reference reader on the grammar where the includes and replacements were carried out by the harness."
D["I01"]="Every builder with every combination of parts and alternatives, on stand-in elements of which only the identity counts; values with symbolic numbers."
D["I02"]="The event of every element of the language is run on a tree built for it, with symbolic digits, names and operators; the program it gives is compared with what the tree says."
D["I03"]="The shipped grammar is loaded from /repo by the real adapters (once, in the initialisation of the harness); the trees I02 generates are written as text with symbolic choices of constructs, and with symbolic characters in names, numbers, texts, comments and blanks; the text is read, made a tree and a program by the real code, and compared with what was written. Where the grammar reads one text in two ways (a name alone is a list or an operation) the texts are limited to the one the grammar lists first."
D["L01"]="As I01, for the resources given to the lexer."
D["J01"]="Keys, nonces and hashed numbers are symbolic scalars; every step of the arithmetic is a polynomial identity decided by the solver over the reals (see Models)."
D["J02"]="As J01, for rings of up to 3 keys; tampering replaces one key, scalar or their order. The texts are built and parsed by the real code."
D["J03"]="For two signatures of a key the published scalars are polynomials in the secret numbers; the solver looks for a linear combination that gives the key: no unknown may cancel between them, and no scalar may be the key or a nonce."
D["J04"]="As J02, for pairs of signatures: the texts are parsed by the harness and every two numbers compared as polynomials. What a signature reveals in another way than by repeating a number or by its form lies outside."
D["K01"]="The real CFB code and the real adapters run on symbolic messages and passwords; AES is an uninterpreted permutation per key, random bytes are fresh variables."
D["K02"]="Keys are opaque numbers; what is encrypted, encoded and decoded is followed through the real code."
