"""The properties (source of properties.jsonl; see tools/gen.py)."""
SPA = 'r_u_sure/parsing/pseudo_parser/stack_parser.py'
UTI = 'r_u_sure/parsing/pseudo_parser/utilities.py'
SFP = 'r_u_sure/parsing/sequence_from_pseudo_parse.py'
SUB = 'r_u_sure/parsing/subtokenizer.py'
TRN = 'r_u_sure/tree_structure/transforms.py'
SNH = 'r_u_sure/tree_structure/sequence_node_helpers.py'
SN = 'r_u_sure/tree_structure/sequence_nodes.py'
PSN = 'r_u_sure/tree_structure/packed_sequence_nodes.py'
TPA = 'r_u_sure/tree_structure/token_prob_align.py'
REN = 'r_u_sure/rendering/rendering.py'
SVG = 'r_u_sure/rendering/svg_renderer.py'
GSD = 'r_u_sure/decision_diagrams/gated_state_dag.py'
PKD = 'r_u_sure/decision_diagrams/packed_dags.py'
SOL = 'r_u_sure/decision_diagrams/consistent_path_dual_solver.py'
RDE = 'r_u_sure/edit_distance_utility/region_decisions.py'
CON = 'r_u_sure/edit_distance_utility/constraint_dags.py'
EDD = 'r_u_sure/edit_distance_utility/edit_dags.py'
URW = 'r_u_sure/wrappers/uncertainty_regions_wrapper.py'
EDW = 'r_u_sure/wrappers/edit_distance_wrapper_base.py'
PSD = 'r_u_sure/edit_distance_utility/part_selection_dags.py'
WBA = 'r_u_sure/wrappers/wrapper_base.py'
PTW = 'r_u_sure/wrappers/prefix_truncation_wrapper.py'
CSW = 'r_u_sure/wrappers/call_sequence_wrapper.py'

PROPS = []


def P(pid, title, statement, over, text, why, *mech):
  files = []
  for f, _ in mech:
    if f not in files:
      files.append(f)
  assert len(title) <= 80, title
  PROPS.append(dict(
      id=pid, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[
          dict(name=n, where=f'{f}:{n}') for f, n in mech],
                   hook_needed=None)))


P('P01', 'Tokenising and parsing source text is lossless and total',
  'Parsing any text in any supported language finishes without an error, and '
  'concatenating the token values (leaving out the error-correcting brackets '
  'and the zero-width indentation marks the parser adds) gives back exactly '
  'the original text. The token values and token types always have the same '
  'length, and encoding a text and decoding it returns the text unchanged.',
  ['inputs', 'configurations'],
  'every text (unbalanced, empty, any unicode) and every supported language',
  'The tests parse a few dozen snippets; the guarantee is about every string, '
  'including unterminated strings and comments, odd line endings and empty '
  'input.',
  (SPA, 'RegexCodec.encode'), (SPA, 'RegexCodec.decode_token'),
  (SPA, 'PseudoParser.pseudo_parse'),
  (SPA, 'PseudoParser.parse_and_maybe_preprocess'))

P('P02', 'A parse tree partitions its tokens without gaps or overlap',
  'In every tree the parser builds, each node covers a contiguous token range, '
  'the children of a node cover that range in order without gap or overlap, '
  'and every bracket node starts and ends with a matching pair of brackets '
  '(or the indentation marks that stand for one). The validity check on token '
  'ranges accepts exactly such trees.',
  ['inputs', 'configurations'],
  'every text in every supported language, and every hand-made tree',
  'The tests compare a few trees literally; nesting depth and bracket '
  'interleavings are unbounded.',
  (SPA, 'stack_based_bracket_match'), (SPA, 'valid_parse_ranges'))

P('P03', 'Error correction balances brackets and adds nothing else',
  'For every sequence of tokens and types, the openers put in front and the '
  'closers put behind make it properly nested, where a closer that meets an '
  'open bracket of another kind counts as plain text: one opener in front for '
  'every closer that finds no bracket open, one closer behind for every '
  'bracket left open, and no more. The parser reports exactly these counts and '
  'adds nothing to input that is already balanced.',
  ['inputs'],
  'every token sequence over every set of bracket pairs',
  'The tests try a handful of bracket strings; the claim is about every '
  'interleaving of bracket kinds.',
  (SPA, 'error_correcting_prefix_and_suffix'),
  (SPA, 'PseudoParser.pseudo_parse'))

P('P04', 'Indentation marks follow the indentation of python code',
  'For any python text, the indentation marks the parser inserts have no width '
  '(the remaining tokens are the input tokens in order), they are balanced, '
  'and the nesting they describe follows the leading whitespace of the logical '
  'lines: every logical line that is not blank sits as many levels deep as its '
  'leading whitespace divided by the indent width. Blank lines and line breaks '
  'inside brackets neither open nor close levels.',
  ['inputs'],
  'every python text, well-formed or not',
  'Indentation depends on the whole history of lines; tests try a few '
  'layouts.',
  (SPA, 'python_indent_dedent_desugar'))

P('P05', 'Splitting a parse tree into statements only regroups nodes',
  'Splitting statements at separators changes neither the tokens nor their '
  'order nor the range of any node that existed before: it only puts '
  'consecutive siblings under new statement nodes, one per separator, and '
  'leaves what lies inside unsplittable brackets alone. The tree given to it '
  'is left unmodified.',
  ['inputs', 'configurations'],
  'every parse tree and every configuration of separators',
  'The tests split a few trees; separators at either end, adjacent separators '
  'and nested blocks combine without bound.',
  (SPA, 'split_parse'), (SPA, 'Node.copy'))

P('P06', 'Converting a parse tree to a suggestion tree keeps all the text',
  'Converting a parse tree to nested sequence nodes yields a tree whose '
  'rendered text is exactly the parsed text; nodes of the requested kinds '
  '(whitespace by default) become decorations, nodes of the kinds to be '
  'subdivided (string literals by default) become groups of subtokens, every '
  'other leaf becomes a token and every other node a group of its converted '
  'children. A parse tree that would lose or repeat text is rejected with an '
  'error.',
  ['inputs', 'configurations'],
  'every text in every language and every choice of node kinds and options',
  'The tests compare three literal trees.',
  (SFP, 'pseudo_parse_node_to_nested_sequence_node'),
  (SFP, 'subtokenize_token'))

P('P07', 'Subtoken splitting is lossless and follows the documented rule',
  'Splitting a text into subtokens gives pieces that concatenate to exactly '
  'the text, none of them empty, with boundaries exactly where the documented '
  'rule puts them (camel case, letters versus digits, underscores, spaces '
  'and punctuation).',
  ['inputs'], 'every text, including non-ASCII letters and digits',
  'There is no test of the splitter itself; the claim is about every string.',
  (SUB, 'code_to_tokens_simple_lossless'), (SFP, 'subtokenize_token'))

P('P08', 'Adding decision markers never changes content; stripping undoes it',
  'Inserting region options or early exits into a suggestion tree, in any '
  'combination, leaves the tokens, decorations, groups and their order exactly '
  'as they were, and removing the decision markers from the result gives back '
  'the original tree. The rendered text is the same before and after.',
  ['inputs', 'histories'],
  'every tree, every node filter and option, and every sequence of insertions',
  'The tests check a few literal trees; nesting and combination of insertions '
  'is unbounded.',
  (TRN, 'strip_decision_nodes'), (TRN, 'insert_early_exit'),
  (TRN, 'insert_region_options_around_subsequences'),
  (TRN, 'insert_region_options_around_single_nodes'))

P('P09', 'Decision markers appear exactly where the chosen policy allows',
  'Early-exit markers are placed after every token and group (inside groups '
  'only when allowed, at the start only when allowed) and nowhere else; region '
  'start and end markers surround exactly the nodes accepted by the filter, '
  'with empty-region options exactly when allowed; single-node regions wrap '
  'every token and group, and only those, in a scope of their own.',
  ['inputs', 'configurations'],
  'every tree, filter and option combination',
  'The tests compare a few literal outputs per policy.',
  (TRN, 'insert_early_exit'),
  (TRN, 'insert_region_options_around_subsequences'),
  (TRN, 'insert_region_options_around_single_nodes'))

P('P10', 'Cutting off a prefix keeps exactly the remaining text',
  'Truncating a suggestion tree at a character offset yields a tree whose '
  'text is exactly the original text from that offset on, which keeps the '
  'nesting of everything that remains and only ever shortens the one token or '
  'decoration the offset falls into. Markers and groups that lie entirely '
  'before the cut are dropped, and everything after the cut is kept '
  'unchanged.',
  ['inputs'], 'every tree and every offset',
  'Offsets at token, decoration and group boundaries multiply with nesting; '
  'the tests sample a few.',
  (TRN, 'truncate_prefix_at_offset'))

P('P11', 'Flattening removes grouping only',
  'Flattening all groups gives the leaves of the tree in order and no group; '
  'flattening singleton groups merges exactly the groups whose only child is a '
  'group or token into that child and records every collapsed type, outermost '
  'first, so that the original tree can be told from the result.',
  ['inputs'], 'every tree', 'The tests check a few literal trees.',
  (TRN, 'flatten_groups'), (TRN, 'flatten_singleton_groups'))

P('P12', 'Tree queries agree with the tree',
  'The depth of a tree is one more than its number of nested group levels, '
  'walking it visits every node exactly once in order, each with the path '
  'that leads to it, the rendered text is the concatenation of all tokens and '
  'decorations, and the debug rendering contains every token, decoration, '
  'group and marker in order.',
  ['inputs'], 'every tree', 'The tests check a few literal trees.',
  (SNH, 'compute_depth'), (SNH, 'walk_with_paths'),
  (SNH, 'render_text_contents'), (SNH, 'render_debug'))

P('P13', 'Truncation points are in range and mean what they say',
  'A truncation point computed for a text and cursor lies between the cursor '
  'and the end of the text and is the end of the enclosing block, the '
  'following statement or the docstring, as documented; when there is none, '
  'the documented fallback or none is returned and never an error. The inferred indent width is the '
  'largest candidate that divides every indentation that opens a level, '
  'whatever the order of the candidates, and docstring positions point at '
  'docstrings that directly follow a function signature and are indented one '
  'level deeper.',
  ['inputs', 'configurations'],
  'every text, cursor position, language and set of separators',
  'The tests use a few snippets with one cursor each.',
  (UTI, 'infer_match_pair_truncation_index'),
  (UTI, 'infer_split_truncation_index'),
  (UTI, 'infer_python_spaces_per_indent'),
  (UTI, 'infer_truncation_with_fallbacks'),
  (UTI, 'infer_truncation_pydocstring'),
  (UTI, 'find_python_function_docstrings'))

P('P14', 'Drawings stay within their bounds and show text literally',
  'The bounding-box operations obey box geometry (edges, centre, union is the '
  'smallest enclosing box), every item drawn extends the recorded bounds so '
  'that it is inside them and labels lie on the side of their point that was '
  'asked for, and any text given to the SVG renderer appears in the output '
  'literally, escaped, so that it can never change the markup.',
  ['inputs', 'histories'],
  'every sequence of drawing calls, coordinates and label texts',
  'Nothing tests the renderer.',
  (REN, 'BoundingBox'), (REN, 'to_bounded_irrational'), (SVG, 'SVGRenderer'))

P('P15', 'Packing a tree and unpacking it returns the same tree',
  'For every tree, unpacking the packed form gives an equal tree; the packed '
  'preorder traversal lists every node once in order, parents, offsets and '
  'subsequence lookups agree with the tree, node paths and node ids convert '
  'into each other, the in-order traversal visits every leaf once and every '
  'group once before and once after its children, and the text rendered from '
  'the packed form is the text of the tree.',
  ['inputs'], 'every tree of sequence nodes',
  'Packing is index arithmetic over arbitrarily nested trees; nothing in the '
  'stable tests exercises it.',
  (PSN, 'pack'), (PSN, 'unpack'), (PSN, 'in_order_traversal'),
  (PSN, 'render_text_contents_of_node'), (PSN, 'node_id_from_node_path'))

P('P16', 'Log probabilities go to the tokens their model tokens overlap',
  'For every way of cutting the text of a suggestion into model tokens with '
  'log probabilities, each suggestion token is assigned the sum of the log '
  'probabilities of the model tokens that overlap it, in order (a model token '
  'that straddles a boundary counts in full on both sides; the text of '
  'decorations is passed over). Text that does not agree with the model '
  'tokens is an error, as is model text left over when all of it must be '
  'consumed, and the HTML view shows every model token literally, escaped.',
  ['inputs'], 'every suggestion tree and every segmentation of its text into '
  'model tokens',
  'The segmentations of the same text are unboundedly many; the tests fix '
  'one.',
  (TPA, 'align_token_log_probs'), (TPA, 'SpanProbHelper'),
  (TPA, 'render_tokens_and_log_probs_to_html'))

P('P17', 'Building and pruning a decision DAG keeps exactly its paths',
  'Edges can only be added in an order in which no edge enters a state that '
  'already has outgoing edges (anything else raises ValueError), a finished '
  'DAG holds exactly the edges that were added, and pruning keeps exactly the '
  'edges that lie on a path of finite cost from the initial to the final '
  'state, in the same order, whether or not states are rewritten to integers '
  '(distinct states get distinct integers). If there is no such path, an '
  'error is raised.',
  ['inputs', 'histories'], 'every sequence of added edges',
  'The number of DAG shapes is unbounded, and these functions have no test '
  'that runs without numba.',
  (GSD, 'partial_state_dag_add_edge'), (GSD, 'partial_state_dag_finish'),
  (GSD, 'compute_reachable_states'), (GSD, 'prune_to_reachable'),
  (GSD, 'prune_unreachable_and_rewrite_states'))

P('P18', 'Packed DAGs report exact minimal costs and marginals',
  'For every pruned DAG whose paths decide each variable at most once in key '
  'order, the packed form has exactly the same paths, and under any penalties '
  'on variable values the minimal cost, the minimal cost for every value of '
  'every variable (with the missing value for variables a path does not '
  'decide) and the best path under given decisions equal those of an '
  'enumeration of all paths, whatever strategy or history of updates was '
  'used. A DAG that decides variables out of order is rejected.',
  ['inputs', 'histories'], 'every such DAG, penalties and update history',
  'It is dynamic programming with cached prefix and suffix tables; staleness '
  'depends on the history of calls, and nothing in the stable tests runs it.',
  (PKD, 'make_specialized_fn__convert_dag_to_packed'), (PKD, 'update_prefixes_up_to'),
  (PKD, 'update_suffixes_up_to'), (PKD, 'compute_min_marginals_for_variable'),
  (PKD, 'constrained_best_path'), (PKD, 'scale_packed_dag_costs'))

P('P19', 'The dual solver never claims more than is true',
  'For every system of DAGs that share decisions, the dual bound reported by '
  'the sweeps never exceeds the least total cost of any consistent '
  'assignment and never gets worse, sweeping changes no consistent '
  'assignment\'s total cost, a greedily extracted assignment is consistent '
  'across all DAGs with exactly the reported cost, and reported solutions '
  'are as good as their bound when the solver says so. Constraints and clones '
  'affect only the system they were applied to.',
  ['inputs', 'histories'], 'every system, weights and number of sweeps',
  'Soundness of a bound is a claim over all assignments; tests check a few '
  'instances with numba only.',
  (SOL, 'solve_system_with_sweeps'), (SOL, 'greedy_extract'),
  (SOL, 'make_system'), (SOL, 'constrain_system'), (SOL, 'clone_system'))

P('P20', 'Extracted regions are exactly what was decided',
  'For every prototype and assignment of decisions, the extracted sequence '
  'lists every token and decoration up to the chosen early exit in order and '
  'marks exactly those between a start decided true and the end decided true, '
  'with a marker for an empty region; the HTML view contains the same '
  'characters, escaped, with exactly the same ones highlighted.',
  ['inputs'], 'every prototype tree and every consistent assignment',
  'The combinations of nesting and decisions are unbounded.',
  (RDE, 'extract_sequence_with_regions'), (RDE, 'render_regions_to_html'))

P('P21', 'Derived costs break even exactly at the effective precision',
  'For every effective precision p and edit sensitivity s between 0 and 1 and '
  'every start-editing cost, the derived parameters make the expected utility '
  'of a token of any length that is correct with probability p the same '
  'inside and outside a low-confidence region; with s below 1 high confidence '
  'is better above p and low confidence below p, and edits in low confidence '
  'cost s times as much. Node utilities are the per-character parameters '
  'times the length of the token.',
  ['inputs', 'configurations'], 'every p, s, cost and token length',
  'It is an identity over real numbers; tests never check it.',
  (URW, 'derive_uncertainty_region_costs'),
  (EDD, 'token_node_utility_from_parameters'))

P('P22', 'The constraint DAG admits exactly the well-nested regions',
  'For every prototype, the paths of the constraint DAG are exactly the '
  'decisions in which a region that is opened in a sequence is closed in the '
  'same sequence, everything inside a group that lies in a region is in the '
  'region and opens or closes none, tokens and groups are marked as inside '
  'exactly when they are, and an early exit may be taken anywhere; all of '
  'them cost nothing.',
  ['inputs'], 'every prototype tree with any region and exit markers',
  'The number of decisions is exponential in the tree; the tests need numba '
  'and compare a few pictures.',
  (CON, 'make_constraint_dag_builder'), (CON, 'pack_dag'))

P('P23', 'The edit DAG gives the least edit cost for every decision',
  'For every prototype, target and cost parameters, and for every set of '
  'region and exit decisions, the cheapest path of the edit DAG with these '
  'decisions costs exactly as much as the cheapest way to turn the prototype '
  'into the target (keeping equal tokens, matching groups of the same type '
  'recursively, deleting at the price of the confidence at that place, '
  'inserting, paying once whenever editing starts and once per region). The '
  'edit script, summary metrics and HTML of a solution account for every '
  'prototype token and every target token once and add up to its cost.',
  ['inputs', 'configurations'],
  'every pair of trees, all costs and all decisions',
  'The claim is about a minimum over exponentially many edit scripts.',
  (EDD, 'make_edit_dag_builder'), (EDD, 'extract_edit_sequence_text'),
  (EDD, 'extract_edit_sequence_html'), (EDD, 'extract_edit_summary_metrics'))

P('P24', 'The selection DAG gives the best match for every choice of parts',
  'For every prototype with region markers, every target and utility '
  'function, and every choice of regions, the cheapest path of the selection '
  'DAG costs exactly the delete costs of the chosen parts that are not found '
  'minus the utilities of those found in the target, in order and without '
  'overlap; unselected nodes cost nothing. The parts extracted from a '
  'solution list every prototype token once and add up to its cost.',
  ['inputs', 'configurations'],
  'every pair of trees, utility function and choice of regions',
  'It is a minimum over all alignments of all choices.',
  (PSD, 'make_selection_dag_builder'), (PSD, 'extract_match_groups'))

P('P25', 'Wrappers optimise and evaluate the suggestion they were given',
  'For every context, suggestion and samples, the prepared prototype and '
  'targets hold exactly the text after the context and the same tree apart '
  'from region and exit markers; the system built from them gives each legal '
  'set of decisions the average edit cost over the samples, an extracted '
  'solution is legal with exactly its reported cost, the evaluation of a '
  'solution reports its true cost against the target, the costs, mean and '
  'rank among the samples, and shows exactly the suggestion (or the prefix '
  'it was cut to).',
  ['inputs', 'configurations'],
  'every context, suggestion, set of samples and wrapper configuration',
  'It is the composition of parser, transforms, DAGs and solver; the wrapper '
  'tests need numba and fix a few examples.',
  (EDW, 'EditDistanceWrapperBase.build_system'),
  (EDW, 'EditDistanceWrapperBase.solution_info'),
  (EDW, 'EditDistanceWrapperBase.process_target'),
  (WBA, 'compute_sample_system_info'))

P('P26', 'Baselines decide what they say they decide',
  'For every suggestion with token log probabilities, the prefix baselines '
  'stop at the exit their rule names (first token below the probability '
  'threshold, alone or cumulatively, maximal average log probability, number '
  'of characters or lines, the IntelliCode rule) and nowhere else, and the '
  'region baselines mark every token their rule names whenever a well-nested '
  'choice of regions can, mark no more than that takes, and are always '
  'well-nested.',
  ['inputs', 'configurations'],
  'every suggestion, all probabilities and thresholds',
  'Thresholds interact with where exits and regions are possible; the tests '
  'need numba and fix a few examples.',
  (PTW, 'PrefixByEditDistanceBaselineBuilder'),
  (URW, 'UncertaintyRegionsBaselineBuilder'))

P('P27', 'Extracted call sequences keep the text and role of every part',
  'For every program, each call extracted for the API call sequence task has '
  'text that occurs in the program, region markers exactly at the documented '
  'places, names marked as novel only if the context does not contain them, '
  'and its arguments as one part; the baselines select exactly the whole '
  'calls, the shorter calls or the novel calls, and a prediction that is '
  'right in full is counted and rewarded in full.',
  ['inputs'], 'every program text and cursor position',
  'The extraction is a heuristic over arbitrary trees; its tests need numba.',
  (CSW, 'ApiCallSequenceWrapper.process_prototype_and_context'),
  (CSW, 'ApiCallSequenceWrapper.build_baseline_assignments'),
  (CSW, 'ApiCallSequenceWrapper.solution_info'),
  (CSW, 'extract_context_tokens'))
