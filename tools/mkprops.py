"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
L = 'lambeq/'
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None,
      hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over.split(), 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': [L + f for f in files.split()],
            'mechanism': [{'name': n, 'where': L + w} for n, w in mech],
            **({'state': [{'name': a, 'meaning': b} for a, b in state]}
               if state else {}),
            'observe_at': observe, 'hook_needed': hook}})


p('P01', 'Grammatical types form a free pregroup',
  'Types compose associatively with the empty type as unit, taking the left and right adjoint are mutually inverse, adjoints of a compound are the adjoints of its parts in reverse order, and rotating by a then b equals rotating by a+b. '
  'Indexing, slicing, iterating, inserting, replacing, repeating and the over/under operators agree with doing the same on the flat sequence of (name, winding number) pairs, and out-of-range positions are refused. '
  'Two types are equal exactly when those sequences are equal; equal types hash alike, and distinct types print differently.',
  'inputs', 'All atomic and compound types of any length and winding number, in every category, and all sequences of type operations on them.',
  'The tests compare a dozen hand-written types of length at most 3; the laws quantify over all types, winding numbers (odd and even, negative) and operation sequences.',
  'backend/grammar.py backend/tensor.py backend/quantum.py',
  [('Ty/Dim tensor, rotate, replace, insert, slicing, equality and hash', 'backend/grammar.py:Ty'),
   ('Dim product and unit removal', 'backend/tensor.py:Dim')],
  ['results of public Ty/Dim/quantum.Ty operations'])

p('P02', 'Every diagram the API builds is well typed; ill-typed ones are refused',
  'Any diagram obtained from boxes by sequential or parallel composition, identity, slicing, dagger, rotation, transposition, currying, permuting wires, spiders, caps, cups, swaps or from a list of words and morphisms is well typed: its first layer starts at its domain, each layer starts where the previous ended, and the last ends at its codomain; its domain and codomain are those the operation promises. '
  'An attempt to compose ends that do not match, to make a cup or cap of non-adjoint types, or to apply a permutation that is not one, raises an error instead of returning a diagram. '
  'None of these operations alters the diagrams it was given, and equality, hashing and iteration of diagrams agree with their layers.',
  'inputs programs', 'All boxes, types and winding numbers, and all finite programs of diagram-building operations, including ill-typed ones.',
  'Tests check the layers of a few fixed small diagrams; compositions of operations (e.g. rotate after permute, slice of a transposed diagram) are never sampled together and ill-typed operands only at a handful of sites.',
  'backend/grammar.py',
  [('Diagram/Layer composition, rotation, dagger, slicing, cups/caps/permutation/curry builders', 'backend/grammar.py:Diagram'),
   ('Box, Cap, Cup, Swap, Spider, Word, Daggered', 'backend/grammar.py')],
  ['every Diagram object constructed while the workload runs (constructor hook in the harness)', 'exceptions raised for ill-typed requests'])

p('P03', 'Diagram operations have their categorical meaning',
  'Interpreting each box as an arbitrary linear map, sequential composition denotes composition, parallel composition denotes tensor product, dagger denotes the conjugate transpose, and swaps, permutations, spiders, cups and caps denote the corresponding structural maps. '
  'Left and right transposition are mutually inverse and bend wires as cups and caps say, currying keeps the map up to bending the curried wires, and rotation mirrors the picture once per step and is invertible. '
  'So two ways of building the same map always denote the same tensor.',
  'inputs programs', 'All interpretations of boxes as tensors (arbitrary dimensions, complex entries) and all diagram-building programs.',
  'The tests compare syntax (layers) on fixed diagrams, never the denoted tensor; a builder that permutes two wires of equal type, or bends the wrong wire, leaves the types correct and passes.',
  'backend/grammar.py',
  [('builders', 'backend/grammar.py:Diagram'), ('dagger/rotate', 'backend/grammar.py:Box')],
  ['layers of the diagrams produced, evaluated by an independent tensor semantics'])

p('P04', 'Functors preserve structure, refuse ill-typed images, and are pure',
  'Applying a functor to a diagram gives a diagram from the image of its domain to the image of its codomain, and commutes with identity, composition, parallel composition, dagger, adjoints, cups, caps, swaps and spiders. '
  'If the arrow mapping gives a box an image whose type is not the image of the box type, every application to that box raises an error, however often it is repeated. '
  'Results do not depend on what the functor was applied to before or on what callers did to earlier results, and the diagrams passed in are unchanged.',
  'inputs histories programs', 'All functors (object and arrow maps, well-typed or not), all diagrams, and all sequences of applications of one functor object.',
  'Tests apply a few functors once to fixed diagrams; caching makes the result depend on call history, which no test varies, and structure preservation quantifies over all diagrams.',
  'backend/grammar.py',
  [('Functor.__call__, ob/ar caches, type check of images', 'backend/grammar.py:Functor'),
   ('apply_functor of each entity', 'backend/grammar.py')],
  ['outputs and exceptions of functor applications across call histories'],
  state=[('functor object and arrow caches', 'images remembered per functor object')])

p('P05', 'Types, boxes, diagrams and frames survive serialisation and copying',
  'Encoding any type, box, word, frame or diagram of the grammar category to JSON (as a dictionary or through JSON text) and decoding it gives an equal object with equal hash, domain, codomain and layers, including daggered, rotated and nested ones. '
  'Pickling, copying and deep-copying likewise give an equal object of the same kind. '
  'Encoding and decoding alter neither the object nor the data passed in.',
  'inputs', 'All types, boxes, structural boxes, frames and diagrams, through JSON, pickle, copy and deepcopy in any sequence.',
  'The tests round-trip one example of each entity; combinations (daggered words, frames holding boxes, rotated boxes inside frames) are not covered, and those are what parsers and rewriters produce.',
  'backend/grammar.py core/utils.py',
  [('to_json/from_json', 'backend/grammar.py'), ('fast_deepcopy', 'core/utils.py')],
  ['equality, hash, type of decoded objects'])

p('P06', 'Normal forms straighten wires without changing type or meaning',
  'Computing the normal form of a pregroup diagram, or removing its snakes, terminates and returns a diagram of the same domain and codomain that denotes the same linear map under every interpretation of its boxes. '
  'It contains the same words and boxes (up to rotation), no removable snake, and at most as many cups and caps as before; normalising again gives the same diagram. '
  'Interchanging moves only the box asked for, past boxes it is not joined to, and refuses otherwise. The diagram passed in is unchanged.',
  'inputs programs', 'All diagrams built from words, boxes, cups, caps, swaps and spiders, in particular those with many nested or interleaved snakes.',
  'Tests compare three or four fixed diagrams; the rewriting is a sequence of interchanges whose order depends on the diagram, and errors show up as a silently wrong meaning or non-termination on diagrams not sampled.',
  'backend/snake_removal.py backend/grammar.py',
  [('find/follow/unsnake/interchange', 'backend/snake_removal.py'), ('Diagram.pregroup_normal_form, remove_snakes', 'backend/grammar.py')],
  ['result layers, denoted tensor before/after, layer and box counts'])

p('P07', 'Box-level rewriting keeps types, word order and untouched boxes',
  'Applying a rewriter with any set of built-in rules yields a diagram with the same domain and codomain, every box matched by a rule is replaced and every other box is kept unchanged in its place, and a diagram with no match is returned equal to the input. '
  'The documented effect of each rule holds: auxiliaries, connectors, determiners, post- and pre-adverbs, relative pronouns and coordinations become the stated wirings, currying keeps the box\'s map up to bending wires, and unknown-word and UNK rules replace exactly the words they promise. '
  'Applying a rewriter does not alter its input or its rules.',
  'inputs configurations', 'All sentence diagrams (any words, types, windings), all subsets and orders of the rules and their options.',
  'Tests apply each rule to one or two fixed sentences; combinations of rules, rotated or daggered words, case differences and non-matching words with matching types are not sampled.',
  'rewrite/base.py',
  [('Rewriter, RewriteRule matches/rewrite and the rule classes', 'rewrite/base.py')],
  ['diagrams before and after, denoted tensors for the map-preserving rules'])

p('P08', 'Diagram-level rewriting keeps the meaning or the promised shape',
  'Removing cups from a sentence diagram keeps the words and yields a diagram that denotes the same map as the original when each word bent to an effect denotes the transpose of its state, and leaves fewer (or equal) post-selections. '
  'Removing swaps from a pregroup-form sentence diagram (words, then cups and swaps; other diagrams may be refused with ValueError) yields a swap-free diagram with the same codomain in which the words\' texts, read left to right, are those of the input (words left without wires are merged into a neighbour); unifying codomains gives every diagram the requested codomain by adding exactly one box to those that lack it and leaves others equal. '
  'None of the rewriters fails otherwise on a grammatical sentence diagram or alters its input.',
  'inputs', 'All pregroup sentence diagrams (any number of words, cup nestings, swaps, codomains).',
  'Tests use a few hand-made sentences per rewriter; bookkeeping of offsets over deleted words and morphisms matters only on longer, unusual cup/swap patterns.',
  'rewrite/rewrite_diagram.py',
  [('RemoveCupsRewriter, RemoveSwapsRewriter, UnifyCodomainRewriter, DiagramRewriter', 'rewrite/rewrite_diagram.py')],
  ['diagrams before and after', 'denoted tensors'])

p('P09', 'CCG categories parse and print faithfully',
  'Printing any CCG category and parsing the text gives the same category, also with redundant brackets and with features (part of the atomic name); `X[conj]` denotes X\\X, and unbracketed chained slashes such as a/b/c are refused. '
  'Text that is not a category is refused with the documented parse error, never with another exception and never by returning some category. '
  'Results, arguments, slicing, replacing and conversion of a category to a grammatical type agree with its structure, and equality matches structure.',
  'inputs', 'All categories built from atoms, slashes and conjunctions, and all strings over the category alphabet.',
  'Tests parse a short list of categories and two or three bad strings; round-tripping and rejection quantify over all of them.',
  'text2diagram/ccg_type.py',
  [('CCGType.parse/to_string/replace/biclosed2lambeq conversion', 'text2diagram/ccg_type.py')],
  ['return values and exceptions of parsing and printing'])

p('P10', 'CCG derivations become well-typed diagrams that keep their words',
  'For every valid CCG derivation, the rule inferred for each step accepts exactly that step, and conversion to a diagram (planar or not, with or without rules collapsed) gives a diagram from the empty type to the type of the root category whose words are the derivation\'s words, each once, with their categories\' types unless a unary or conjunction rule changes them; they are in sentence order unless planarity forces crossed compositions to move them, and their wires are joined as the rules say. '
  'Applying a rule to a wrong number of inputs, or applying one that has no diagram, raises the documented error. '
  'Encoding a derivation to JSON and back gives an equal derivation with the same diagram.',
  'inputs', 'All CCG derivations over all rules (application, composition, generalised and crossed composition, type raising, conjunction, punctuation, unary).',
  'Tests convert a dozen fixed trees; every combination of rule, direction, argument arity and nesting is a separate code path in the conversion.',
  'text2diagram/ccg_rule.py text2diagram/ccg_tree.py text2diagram/ccg_type.py',
  [('CCGRule.infer_rule/apply/check_match', 'text2diagram/ccg_rule.py'), ('CCGTree.to_diagram/to_json/from_json/deriv', 'text2diagram/ccg_tree.py')],
  ['diagrams and trees produced'])

p('P11', 'CCGbank files are read faithfully',
  'Reading a section in CCGbank format yields, for each entry, the derivation written there: same words in order, same categories and tree shape, under the right identifier. '
  'A malformed or truncated entry raises the documented error, or, when errors are suppressed, yields nothing for that entry and does not disturb any other entry. ',
  'inputs fault_sequences', 'All derivation files, with corruption (deletion, truncation, garbling) at any position.',
  'Tests read one small fixture; faults at arbitrary positions and unusual tokens (brackets, slashes, unicode) are not sampled.',
  'text2diagram/ccgbank_parser.py',
  [('CCGBankParser.section2trees_gen, sentence2tree, _build_ccgtree', 'text2diagram/ccgbank_parser.py')],
  ['trees and exceptions yielded'])

p('P12', 'The CCG chart parser returns valid derivations of exactly its input',
  'For any supertag scores, every parse returned covers exactly the input words in order, each leaf category is among those supplied for that word, every step is a licensed combinatory or unary rule, and its root is an allowed root category. '
  'The best parse returned has the highest score of the parses returned, and its score is the sum of its parts; scores and results do not depend on earlier sentences parsed by the same parser. '
  'Where nothing is pruned, every kind of step is taken where it is licensed, and a sentence with a derivation by application and harmonic composition gets a parse of that category that scores at least as well. '
  'Converting it to a derivation keeps words, categories and shape.',
  'inputs histories', 'All sentences, supertag distributions and parser settings, and all histories of use of one parser object.',
  'The tests parse two sentences with one fixed grammar; the space of charts is unbounded.',
  'bobcat/parser.py bobcat/rules.py bobcat/tree.py bobcat/lexicon.py bobcat/grammar.py text2diagram/model_based_reader/bobcat_parser.py',
  [('ChartParser.__call__, Chart, ParseTree', 'bobcat/parser.py'), ('Rules.combine', 'bobcat/rules.py'), ('BobcatParser._build_ccgtree', 'text2diagram/model_based_reader/bobcat_parser.py')],
  ['parse trees returned and their scores'])

p('P13', 'Linear, spider and tree readers keep all words and the promised shape',
  'For any non-empty sentence, the cups, stairs, spiders and bag-of-words readers and every tree-reader mode produce a well-typed diagram from the empty type to the sentence type whose words are exactly the tokens of the sentence, in order, each used once. '
  'The composition has the documented shape (chain of cups, one merging box per further word, one spider, one box per derivation step named by mode). '
  'Wrongly typed input (text where tokens are announced or the reverse, non-string tokens) is refused with a ValueError.',
  'inputs configurations', 'All sentences (including repeated, unicode, punctuation-only tokens and one-word sentences), tokenised or not, in all reader modes.',
  'Tests use two or three fixed sentences and do not vary length, tokens or mode together.',
  'text2diagram/linear_reader.py text2diagram/spiders_reader.py text2diagram/tree_reader.py text2diagram/base.py',
  [('LinearReader, SpidersReader, TreeReader', 'text2diagram/')],
  ['diagrams returned'])

p('P14', 'Batch parsing stays aligned and isolates failing sentences',
  'Converting a list of sentences gives a list of the same length in which entry i is what converting sentence i alone gives. '
  'With error suppression, entries for failing or blank sentences are None and all others are unaffected; without it, the first failure raises the documented error. '
  'Tokenised and untokenised inputs of the same words agree, and inputs are not altered.',
  'inputs fault_sequences configurations', 'All lists of sentences with failing, blank or duplicate entries at any positions, in every reader and parser that takes batches.',
  'Tests use batches of one or two sentences; positions of failures within a batch are not enumerated.',
  'text2diagram/base.py text2diagram/ccg_parser.py text2diagram/model_based_reader/base.py text2diagram/model_based_reader/bobcat_parser.py text2diagram/model_based_reader/oncilla_parser.py text2diagram/ccgbank_parser.py text2diagram/web_parser.py',
  [('CCGParser.sentences2trees/sentences2diagrams', 'text2diagram/ccg_parser.py'), ('ModelBasedReader.validate_sentence_batch', 'text2diagram/model_based_reader/base.py')],
  ['lists returned by batch methods'])

p('P15', 'Pregroup trees and pregroup diagrams convert into each other faithfully',
  'Converting a pregroup tree to a diagram gives a well-typed diagram whose words are the tree\'s tokens in sentence order, whose words have the types the tree dictates and whose codomain is the root\'s type; converting a diagram made this way back gives the same tree. '
  'The tree of the pregroup diagram of any other parse (words, then cups, caps and swaps, its outputs on one word) has that word as its root and relates exactly the words that the diagram connects. '
  'Tree queries and edits (removing self-cycles, breaking cycles, merging nodes) and rebuilding a tree from its words, types and heads keep the tokens and relations they are meant to keep and do not lose nodes; two trees are equal exactly when they have the same words, positions, types and heads. '
  'A pregroup diagram created from words and a list of cups and swaps applies exactly these to these words. '
  'Head assignments that are not trees give ValueError (heads out of range, words heading themselves) or trees holding every token, never an endless loop.',
  'inputs', 'All pregroup trees: any shapes, types, word orders, projective or crossing, with repeated words.',
  'Tests use about a dozen hand-made trees; conversion depends on relative positions of children and heads, an exponential space.',
  'text2diagram/pregroup_tree.py text2diagram/pregroup_tree_converter.py backend/grammar.py',
  [('PregroupTreeNode', 'text2diagram/pregroup_tree.py'), ('generate_tree', 'text2diagram/pregroup_tree_converter.py'), ('Diagram.create_pregroup_diagram, Diagram.is_pregroup', 'backend/grammar.py')],
  ['trees and diagrams'])

p('P16', 'Oncilla decodes any model scores into one rooted tree over the words',
  'Whatever scores the network gives, every word gets the type its first piece scores highest and exactly one head: another word of the sentence or the root, never itself and never a position outside the sentence; exactly one word is attached to the root. '
  'If the highest-scoring admissible heads have exactly one root they are the heads; otherwise the word with the highest root score is the root and every other word takes its best head that is not the root. Scores of special tokens, of later pieces of a word and of positions beyond the sentence have no influence. '
  'If these heads form a tree, the diagram returned is the diagram of that tree, with exactly the words of the sentence in order (a final full stop is dropped); if they contain a cycle, the sentence fails with OncillaParseError (None when suppressed). Sentences of a batch do not influence each other.',
  'inputs', 'All score matrices (ties, extreme and adversarial values, cycles), sentence lengths and word-piece splits.',
  'The only tests run a few sentences through fixed weights; decoding must be right for every score matrix.',
  'oncilla/parser.py text2diagram/model_based_reader/oncilla_parser.py',
  [('_sentence2pred, _get_parent_preds_with_forced_root, restrict_parent_options', 'oncilla/parser.py'), ('sentences2diagrams', 'text2diagram/model_based_reader/oncilla_parser.py')],
  ['head/type assignments decoded'])

p('P17', 'Circuit ansätze are well-typed functors with consistent parameters',
  'For every diagram, object map, layer count and option, each circuit ansatz yields a circuit whose domain and codomain have the qubit counts the object map dictates (bits where discarding/measuring is asked), built of valid gates on existing qubits. '
  'The same word or box with the same domain and codomain always gets the same parameters and different words, or one word at different types, never share any; the number of parameters is that of the documented template, and adjoint types use the same number of qubits. '
  'With parameters substituted the circuit evaluates to a (sub)normalised state or map.',
  'inputs configurations', 'All diagrams, object maps (including zero qubits), layers and ansatz classes.',
  'Tests compare fixed words and small maps; parameter naming and counts depend on widths, layers and winding numbers that are not sampled together.',
  'ansatz/circuit.py ansatz/base.py',
  [('CircuitAnsatz and IQP, Sim4, Sim9, Sim14, Sim15, StronglyEntangling', 'ansatz/circuit.py')],
  ['circuits and their symbols'])

p('P18', 'Tensor ansätze give tensors of the dictated shape and keep the meaning map',
  'For every diagram and object map, each tensor ansatz yields a tensor diagram whose domain and codomain dimensions are those the object map dictates for each wire, with one parameter block per word and type and of matching size. '
  'Word occurrences with equal name and type share parameters and different words never do (in the plain tensor ansatz, neither does one word at two types); the matrix-product and spider ansätze bound every tensor by the configured bond dimension or order without changing the outer shape. ',
  'inputs configurations', 'All diagrams, dimensions (including one), bond dimensions and maximum orders.',
  'Tests check a handful of types and bond dimensions; splitting depends on type lengths and positions relative to the maximum order.',
  'ansatz/tensor.py ansatz/base.py',
  [('TensorAnsatz, MPSAnsatz, SpiderAnsatz', 'ansatz/tensor.py')],
  ['tensor diagrams, their boxes, symbols and evaluated shape'])

p('P19', 'Circuit evaluation agrees with quantum mechanics',
  'Evaluating any circuit of the built-in gates, controlled gates (at any distance, control order and nesting), kets, bras, scalars, swaps, measurements, encodings, discards and bits, and boxes with given entries (amplitudes, or maps of mixed states), gives the amplitudes, or the classical distribution / density matrix for mixed circuits, that quantum mechanics prescribes. '
  'The dagger denotes the adjoint, parametrised gates follow their documented angle convention, and a circuit classified as pure gives the same statistics when evaluated as mixed. '
  'Expanding controlled or rotated gates and converting between the builder and diagram forms never changes the map or alters the input circuit.',
  'inputs programs', 'All circuits up to the memory limit, with arbitrary parameters and control distances.',
  'Tests evaluate single gates and a few fixed circuits against stored arrays; wire bookkeeping across layers (swaps, mixed wires, controls at negative distance) is not sampled.',
  'backend/quantum.py backend/tensor.py',
  [('gate arrays, Controlled, to_tn, eval, is_mixed, dagger', 'backend/quantum.py')],
  ['arrays returned by evaluation, compared with an independent state-vector/density-matrix simulator'])

p('P20', 'Tensor diagram evaluation is contraction',
  'Evaluating any tensor diagram gives the tensor obtained by contracting its boxes along its wires, with result shape domain followed by codomain, for any dimensions including one, daggered and rotated boxes, cups, caps, swaps and spiders with any number of legs. '
  'The result does not depend on the contraction order or contractor chosen, on the numerical backend, or on previous evaluations. '
  'Composition and parallel composition evaluate to the composition and tensor product of the results.',
  'inputs programs configurations', 'All tensor diagrams, dimensions, dtypes, backends and contraction orders.',
  'Tests evaluate a few fixed diagrams with dimension 2; asymmetric dimensions, wide spiders, disconnected parts and self-contractions are not sampled.',
  'backend/tensor.py backend/numerical_backend.py training/tn_path_optimizer.py',
  [('Diagram.eval/to_tn, Box, Spider, Cup, Cap, Swap', 'backend/tensor.py')],
  ['arrays returned by evaluation'])

p('P21', 'Translation to and from pytket keeps the measured distribution',
  'For any circuit that can be exported, running the exported pytket circuit and applying its recorded post-selection, scaling and post-processing gives the same outcome distribution as evaluating the original circuit; importing it back gives a circuit with that distribution too. '
  'Circuits that cannot be represented are refused with an error rather than translated to something else. ',
  'inputs programs', 'All circuits of kets, gates, controlled gates, swaps, post-selections, discards, measurements and scalars, in any order on any wires.',
  'Tests translate a few fixed circuits; the correspondence of qubits, bits and post-selected positions only breaks for interleaved preparations, swaps and measurements.',
  'backend/converters/tk.py backend/quantum.py',
  [('to_tk, from_tk, Circuit.get_counts', 'backend/converters/tk.py'), ('Diagram.to_tk/from_tk/eval(backend)', 'backend/quantum.py')],
  ['distributions computed from exported circuits by an exact simulator'])

p('P22', 'Translation to PennyLane keeps the state or distribution',
  'For any circuit that can be exported, evaluating the PennyLane form with given parameter values gives the same (normalised, post-selected) amplitudes or probabilities as the native evaluation of the circuit with those values, for pure and mixed circuits. '
  'Gradients with respect to the parameters agree with finite differences of the native evaluation, and unsupported circuits are refused with an error.',
  'inputs programs', 'All exportable circuits, parameter assignments and output modes.',
  'Tests compare a few fixed sentence circuits at fixed weights; daggered gates, repeated scalars, scaled parameters and post-selection patterns are not sampled.',
  'backend/pennylane.py training/pennylane_model.py',
  [('to_pennylane, extract_ops_from_tk, PennyLaneCircuit.eval', 'backend/pennylane.py')],
  ['tensors returned by the PennyLane circuit'])

p('P23', 'DisCoPy conversion round-trips',
  'Converting any grammar, tensor or quantum diagram that DisCoPy can express to DisCoPy and back gives an equal diagram, and converting types and boxes likewise; diagrams of unrotated boxes that DisCoPy evaluates keep their value there. '
  'What cannot be expressed is refused with an error rather than changed.',
  'inputs programs', 'All types, boxes and diagrams in the three categories.',
  'Tests convert a fixed list of examples.',
  'backend/converters/discopy.py',
  [('to_discopy/from_discopy', 'backend/converters/discopy.py')],
  ['converted objects'])

p('P24', 'Parameters are tracked and substituted exactly',
  'The free symbols reported for a box or diagram are exactly the parameters its value depends on syntactically, each once and without scale; substituting values for all of them leaves none. '
  'Substitution commutes with every diagram operation and with evaluation: scaled and negated parameters, daggers and controlled gates included. '
  'Substituting does not alter the original diagram, and symbols with equal names but different sizes are told apart.',
  'inputs programs', 'All symbolic tensor diagrams and circuits, all parameter orders and values.',
  'Tests substitute into a few single-gate circuits.',
  'backend/symbol.py backend/tensor.py backend/quantum.py',
  [('Symbol', 'backend/symbol.py'), ('free_symbols, lambdify', 'backend/tensor.py'), ('Parametrized.lambdify', 'backend/quantum.py')],
  ['free symbols and substituted diagrams, evaluated'])

p('P25', 'Datasets deliver every example exactly once per epoch, paired with its label',
  'Iterating a dataset yields every example exactly once together with its own target, in batches of the requested size except possibly the last, whether or not shuffling is on. '
  'Shuffling reorders and does nothing else, leaves the caller\'s lists alone, and is reproducible from the random seed; without shuffling the order is the original one. '
  'Inputs and targets of different length are refused, and the number of batches reported is the number delivered.',
  'inputs histories configurations', 'All dataset sizes, batch sizes (zero, larger than the data), shuffling flags and sequences of epochs.',
  'Tests use one three-element dataset.',
  'training/dataset.py',
  [('Dataset.__iter__/__getitem__/shuffle_data', 'training/dataset.py')],
  ['event log of the (example, target) pairs delivered'])

p('P26', 'A crash while saving never loses the previous checkpoint',
  'If the process dies, or the disk fills, at any point while a checkpoint is written over an earlier one, the file afterwards loads as either the complete earlier or the complete new checkpoint. '
  'A successfully saved checkpoint loads with equal contents; loading a file that is missing, cut short or no checkpoint at all raises an error and changes nothing. ',
  'crash_points fault_sequences inputs', 'Every prefix of the file-system operations of a save, every failing operation, and every checkpoint content.',
  'Tests save and load once without faults; a crash point cannot be sampled by a unit test.',
  'training/checkpoint.py',
  [('Checkpoint.to_file/from_file', 'training/checkpoint.py')],
  ['files left on disk after every injected crash, recorded file-system operations'],
  state=[('checkpoint file', 'the on-disk pickle')])

p('P27', 'Saved models load back to the same model',
  'Saving a model and loading it, in the same or a fresh process and from a file or a checkpoint, gives a model with the same symbols, weights and predictions; saving does not change the model. '
  'Weights stay attached to their symbols whatever the order in which diagrams introduced them, and a model that has no weight for a symbol of a diagram refuses to predict it.',
  'inputs histories', 'All models (numeric, torch, quantum torch, shot-based, hybrid), all sets of diagrams and orders of them, and all histories of initialise/save/load/predict.',
  'Tests save and load one tiny model of each kind.',
  'training/model.py training/quantum_model.py training/numpy_model.py training/pytorch_model.py training/pytorch_quantum_model.py training/tket_model.py training/pennylane_model.py',
  [('Model.from_diagrams/save/load, _load_checkpoint', 'training/model.py')],
  ['weights, symbols and predictions before and after'])

p('P28', 'Resumed training continues exactly where it stopped',
  'Training for a+b epochs in one go, and training for a epochs, stopping or crashing, and resuming from the saved checkpoint for the rest, give the same weights, losses, metrics and epoch counts, for every trainer and optimiser. '
  'The best model kept is the one with the best monitored value over the whole history, across resumption, and early stopping stops exactly when the monitored value has not improved for the given number of evaluations. '
  'Logged losses and metrics have one entry per epoch or evaluation step, what is reported on the way is what was recorded, and equal seeds give equal runs.',
  'histories crash_points configurations', 'All training configurations and interruption points, for numeric and torch trainers.',
  'Tests resume once at one point with a fixed configuration and compare lengths, not values.',
  'training/trainer.py training/quantum_trainer.py training/pytorch_trainer.py training/checkpoint.py',
  [('Trainer.fit/save_checkpoint/load_training_checkpoint', 'training/trainer.py'), ('QuantumTrainer', 'training/quantum_trainer.py'), ('PytorchTrainer', 'training/pytorch_trainer.py')],
  ['weights, losses, best-model files, epoch counters'])

p('P29', 'Optimisers compute their documented updates and respect bounds',
  'Every SPSA, Rotosolve and Nelder-Mead step changes the model weights exactly as the documented update rule says given the losses it observed and its random draws; SPSA leaves the weights of symbols that do not occur in the batch alone, and SPSA and Nelder-Mead evaluate and keep weights only within the bounds they are given. '
  'Rotosolve\'s update minimises the loss along the coordinate for sinusoidal losses, and Nelder-Mead\'s best loss never increases over its simplex history. '
  'Saving and restoring the optimiser\'s state continues the same sequence of updates.',
  'inputs histories', 'All objective functions, weight vectors, bounds, hyper-parameters and step histories.',
  'Tests run a few steps on a fixed toy loss and compare with stored values.',
  'training/optimizer.py training/spsa_optimizer.py training/rotosolve_optimizer.py training/nelder_mead_optimizer.py',
  [('SPSAOptimizer.backward/step', 'training/spsa_optimizer.py'), ('RotosolveOptimizer.backward', 'training/rotosolve_optimizer.py'), ('NelderMeadOptimizer.backward', 'training/nelder_mead_optimizer.py')],
  ['weights and recorded loss evaluations'])

p('P30', 'All model backends predict what the diagram evaluates to',
  'For the same diagrams and weights, the numeric, torch, quantum-torch, hybrid and (with exact simulation) shot-based models give the prediction obtained by substituting the weights into the diagram and evaluating it directly, normalised as documented: quantum outputs are probability distributions. '
  'Predictions do not depend on batch composition or order, just-in-time compilation, or earlier predictions, and the diagrams passed in are not altered.',
  'inputs histories configurations', 'All diagrams, weight vectors, model classes and settings, and call histories.',
  'Tests check shapes or one value; equality across backends and histories is not tested.',
  'training/numpy_model.py training/pytorch_model.py training/pytorch_quantum_model.py training/tket_model.py training/pennylane_model.py training/quantum_model.py',
  [('get_diagram_output/forward of each model', 'training/')],
  ['model outputs compared with an independent evaluation'])

p('P31', 'Loss functions equal their definitions',
  'Each loss returns, for every prediction and target array of its domain and either numerical backend, the value of its mathematical definition, finite even at the extremes (probabilities of exactly zero or one). '
  'It is non-negative, minimal when predictions match targets, unaffected by reordering examples, and refuses arrays of mismatched shape; differentiable backends give the true gradient.',
  'inputs', 'All prediction/target arrays including boundary values, and both backends.',
  'Tests check one or two arrays per loss.',
  'training/loss.py',
  [('CrossEntropyLoss, BinaryCrossEntropyLoss, MSELoss', 'training/loss.py')],
  ['loss values compared with a high-precision definition'])

p('P32', 'Cached contraction paths never change results',
  'Evaluating with a cached contraction path gives the same value as without, for any sequence of diagrams, including ones that share a structure but differ in values, and for any cache contents reloaded from disk. '
  'A cache file that is missing, empty, cut short by a crash while it was saved, or otherwise unreadable does not break evaluation; paths that were saved completely, to the file or with a checkpoint, are found again after reload without a new search.',
  'histories fault_sequences inputs', 'All histories of evaluations sharing one optimiser and one cache file, with crashes and write failures while the file is saved.',
  'Tests cache one network once.',
  'training/tn_path_optimizer.py backend/tensor.py',
  [('TnPathOptimizer, CachedTnPathOptimizer, ordered_nodes_contractor', 'training/tn_path_optimizer.py')],
  ['contracted values, cache file contents'])

p('P33', 'Switching the numerical backend is scoped and leak-free',
  'Inside a temporary switch of numerical backend the chosen one is active, and after leaving it, normally or by exception and at any nesting, exactly the one before is active again. '
  'The switches that models and trainers make for themselves are scoped in the same way, whether their call succeeds or fails. '
  'A diagram evaluates to the same numbers in every backend that can contract it.',
  'histories fault_sequences inputs', 'All nestings and sequences of switches in one thread, with exceptions at any depth.',
  'Tests switch once.',
  'backend/numerical_backend.py',
  [('set_backend/backend/get_backend/tensornetwork switching', 'backend/numerical_backend.py')],
  ['active backend after each event'],
  state=[('backend stack', 'active numerical backends')])

p('P34', 'Drawings show every box and wire of the diagram',
  'Drawing any grammar or quantum diagram, frame or pregroup sentence, as Matplotlib image or TikZ, alone, in an equation or in an animation, succeeds, labels every visible box and word as often as it occurs, joins each wire\'s ends at the ports the diagram joins, in order, labels exactly the types it should, and does not alter the diagram; TikZ uses only styles that are defined. '
  'Text rendering of a pregroup sentence is unambiguous: the cups and swaps drawn connect the types, under their words, that the diagram connects. Non-pregroup diagrams are refused by the pregroup and text drawing.',
  'inputs', 'All diagrams, sentences and rendering options (boxes keep their size, so scaling down is not covered).',
  'Tests compare a few images and strings.',
  'backend/drawing/drawing.py backend/drawing/drawable.py backend/drawing/text_printer.py backend/drawing/tikz_backend.py backend/drawing/mat_backend.py',
  [('DrawableDiagram.from_diagram', 'backend/drawing/drawable.py'), ('PregroupTextPrinter', 'backend/drawing/text_printer.py')],
  ['drawables, rendered text, TikZ source'])

p('P35', 'The command line gives the same result as the library call',
  'For every sensible combination of input (text, file, prompt), mode, reader, parser, rewrite rules, ansatz, and output format, the command line writes, for each input sentence in order, exactly what the corresponding library calls give, to the place asked for and nowhere else; where the library call fails, so does the command line. '
  'Arguments stored to a file and loaded again reproduce the run, explicit arguments take precedence over stored ones, and invalid combinations are refused without writing output.',
  'inputs configurations', 'All argument combinations valid and invalid, and all inputs.',
  'Tests run a couple of dozen fixed command lines and mostly check that files exist.',
  'cli.py',
  [('ArgumentParser, pipeline modules', 'cli.py')],
  ['files and standard output written'])

p('P36', 'Model download never installs wrong or partial data',
  'If the download fails, is cut short or is corrupted at any point, the model directory afterwards holds either the previous complete model or nothing usable, and either an error is raised or the previous complete model goes on being used, with a message unless the server could not be reached; a model whose checksum or version does not match is never used silently. '
  'A complete download installs exactly the archive\'s files with the version recorded, and an up-to-date local model is used without downloading again.',
  'fault_sequences crash_points histories', 'All fault positions in the network and file operations, corrupted contents, and server answers.',
  'Tests mock two or three answers; faults at every operation are not enumerated.',
  'text2diagram/model_based_reader/model_downloader.py text2diagram/model_based_reader/base.py',
  [('ModelDownloader.download_model', 'text2diagram/model_based_reader/model_downloader.py'), ('ModelBasedReader._prepare_model_artifacts', 'text2diagram/model_based_reader/base.py')],
  ['files in the model directory, exceptions and warnings after each injected fault'])

p('P37', 'Frames nest, compose and map under functors consistently',
  'A frame keeps its components in order with their types, reports their number and a nesting order one above that of its deepest component (wherever in a component a frame occurs), and composes and tensors like a box of its own type. '
  'Rotating a frame by a then b equals rotating by a+b and mirrors the order of its components once per step; dagger is an involution that daggers each component; a functor that maps frames componentwise commutes with both. '
  'Equality and hashing depend exactly on name, winding, types and components.',
  'inputs programs', 'All frames with any components (boxes, words, diagrams, frames) and nestings.',
  'Tests use a few one-level frames.',
  'backend/grammar.py',
  [('Frame, DaggeredFrame', 'backend/grammar.py')],
  ['frames and their images'])

p('P38', 'Discourse circuits keep all nouns and sentences in order',
  'Reading a text as a discourse circuit gives a well-typed diagram with one noun state and one wire per distinct entity (as given by the coreference clusters) mentioned in the sentences, named by its first mention and in order of first mention; every sentence is applied in text order, to exactly the wires of the entities it mentions (joined by spiders where it mentions one twice), as the nested frames (or, in sandwich mode, the labelled boxes between and around the parts) that its pregroup tree prescribes. '
  'Pruning nouns by word, or entities mentioned fewer than `min_noun_freq` times, removes every mention of exactly those entities; a subjectless sentence gets a nameless noun of its own. '
  'Rewriting pregroup trees with simplification rules merges exactly the matching parent-child chains (up to the maximal depth, joining the words as asked), and keeps all other nodes, their order, indices and parent links, without altering the tree given. '
  'Coreference resolvers return all tokens of all sentences, the clusters of the model by position, and each noun on its own.',
  'inputs', 'All texts, coreference clusters and parses.',
  'Tests read a few short texts with mocked resolvers.',
  'experimental/discocirc/reader.py experimental/discocirc/pregroup_tree_rewriter.py experimental/discocirc/coref_resolver.py',
  [('DisCoCircReader.text2circuit', 'experimental/discocirc/reader.py'), ('TreeRewriter', 'experimental/discocirc/pregroup_tree_rewriter.py')],
  ['circuits and trees produced'])

p('P39', "Bobcat's tagger reports the model's own best scores to the parser",
  'For every word of a sentence the tagger returns the supertags the model scores best, and for every span of words the categories it scores best other than the label for no constituent, each with its log-probability, in descending order, as many as `top_k` asks for (0: all) and no worse than the threshold, relative to the best score or absolute, allows. '
  'Words and spans are those of the sentence itself: batch size, padding, the other sentences of the batch, words of several word pieces, earlier calls and options of earlier calls make no difference. '
  'The parser is given exactly these words, supertags and spans, under the options the parser was created with; invalid options are refused. '
  'Spans and their numbers correspond one to one, whatever was asked before.',
  'inputs configurations histories', 'All model weights and scores (ties, extremes), sentences, batches, options and call histories.',
  'Tests compare the output of a stub model with fixed numbers; misaligned words or spans after padding, word pieces or a larger earlier sentence would still give plausible parses.',
  'bobcat/tagger.py text2diagram/model_based_reader/bobcat_parser.py',
  [('Tagger.parse, BertForChartClassification.forward, chart spans', 'bobcat/tagger.py'), ('BobcatParser._initialise_model, _prepare_sentence', 'text2diagram/model_based_reader/bobcat_parser.py')],
  ['TaggerOutput of real (tiny, random) and stub models', 'the Sentence objects handed to the chart parser'])

p('P40', 'Tokenising loses nothing and treats each sentence on its own',
  'Splitting a text into sentences gives stretches of the text, in order, which together hold every character other than white space exactly once, and which end where the sentences do. '
  'The tokens of a sentence, in order, hold every character other than white space exactly once, none is empty or holds white space, and they are those of the language model for the sentence with runs of white space made one blank. '
  'A batch, in whatever form it is given, gives for each sentence in order what the sentence gives alone, whatever was tokenised before. '
  'The language model asked for is loaded, and downloaded just when it is not there.',
  'inputs histories', 'All texts, kinds of white space and batches, and all calls before.',
  'Tests tokenise three short sentences.',
  'tokeniser/spacy_tokeniser.py tokeniser/base.py core/utils.py',
  [('SpacyTokeniser.split_sentences, tokenise_sentences', 'tokeniser/spacy_tokeniser.py'), ('get_spacy_tokeniser', 'core/utils.py')],
  ['sentences and tokens returned', 'calls that load or download a model'])

p('P41', 'What passes between lambeq and depccg is passed on faithfully',
  'The depccg parser is given exactly the words of the sentences, in order, under the model, device, root categories, annotator, unary rules and further options asked for (or the defaults of the language), and unknown languages and levels of verbosity are refused. '
  'The best derivation it returns for each sentence comes back as a CCG tree with the same words, the same children in order, the same categories without their features (a category lambeq has no type for raises an error), and the rule of each step: type raising by its direction, other unary steps as unary, generalised compositions by what they combine. '
  'A sentence depccg fails on raises an error or, if suppressed, gives None in its place.',
  'inputs configurations', 'All derivations, batches and options.',
  'depccg is not installed where the tests run, so those of its parser do not run; they parse one sentence.',
  'text2diagram/depccg_parser.py',
  [('DepCCGParser.__init__, sentences2trees, _build_ccgtree, _to_biclosed', 'text2diagram/depccg_parser.py')],
  ['calls received by a stand-in for the depccg package', 'trees returned'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
