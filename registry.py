"""What each property's check consists of."""
Z3 = '5.x (python3-vt)'
TRUSTED_BASE = [
    'pyvc (the verification condition generator in /verif/pyvc): its model of '
    'the Python subset, of list/str/dict operations and of generators run to '
    'exhaustion',
    'z3',
    'integers and floats are mathematical (no overflow, no rounding)',
    'arguments have the declared types; aliasing between arguments is not '
    'modelled beyond the frame obligations',
    'the contracts in /verif/contracts state what the property says',
]


def _c(mod, *names):
  return [(mod, n) for n in names]


# Properties listed but not claimed: why.
NOT_APPLICABLE = {}

BOUNDED = ('Every function of this property is checked by executable contracts '
           'only: exhaustive on small inputs, then seeded random inputs. '
           'Bounded, not proved. ')
PROVED = ('Every obligation generated from the current source of the '
          'functions under contract is discharged by z3; the executable '
          'contracts replay the same postconditions on the real code. ')
MIXED = ('The functions listed as theorems are proved for all inputs; the '
         'remaining functions of the property are covered by executable '
         'contracts (bounded: small inputs exhaustively, then seeded random '
         'inputs). ')

PROPERTIES = {
    'P01': dict(level='exploration', note=BOUNDED),
    'P02': dict(level='exploration', note=MIXED, contracts=_c(
        'ranges', 'stack_parser.valid_parse_ranges.<_check>',
        'stack_parser.valid_parse_ranges')),
    'P03': dict(level='exploration', note=MIXED, contracts=_c(
        'brackets', 'stack_parser.error_correcting_prefix_and_suffix')),
    'P04': dict(level='exploration', note=BOUNDED),
    'P05': dict(level='exploration', note=BOUNDED),
    'P06': dict(level='proof', note=PROVED, contracts=_c(
        'parse', 'sequence_from_pseudo_parse.'
        'pseudo_parse_node_to_nested_sequence_node', 'stack_parser.Node.text',
        'stack_parser.Node.type') + _c(
            'text', 'subtokenizer.code_to_tokens_simple_lossless',
            'sequence_from_pseudo_parse.subtokenize_token')),
    'P07': dict(level='proof', note=PROVED, contracts=_c(
        'text', 'subtokenizer.code_to_tokens_simple_lossless',
        'sequence_from_pseudo_parse.subtokenize_token')),
    'P08': dict(level='proof', note=PROVED, contracts=_c(
        'tree', 'transforms.strip_decision_nodes',
        'transforms.insert_early_exit',
        'transforms.insert_region_options_around_subsequences',
        'transforms.insert_region_options_around_single_nodes')),
    'P09': dict(level='proof', note=PROVED, contracts=_c(
        'tree', 'transforms.insert_early_exit',
        'transforms.insert_region_options_around_subsequences',
        'transforms.insert_region_options_around_single_nodes')),
    'P10': dict(level='proof', note=PROVED, contracts=_c(
        'tree', 'transforms.truncate_prefix_at_offset',
        'transforms.truncate_prefix_at_offset.<process_subsequence>')),
    'P11': dict(level='proof', note=PROVED, contracts=_c(
        'tree', 'transforms.flatten_groups',
        'transforms.flatten_singleton_groups',
        'transforms.flatten_singleton_groups_for_node')),
    'P12': dict(level='proof', note=PROVED, contracts=_c(
        'tree', 'sequence_node_helpers.compute_depth',
        'sequence_node_helpers.render_text_contents',
        'sequence_node_helpers.walk_with_paths',
        'sequence_node_helpers.render_debug',
        'sequence_node_helpers._render_debug_helper',
        'sequence_node_helpers._summarize_contents')),
    'P13': dict(level='exploration', note=MIXED, contracts=_c(
        'trunc', 'stack_parser.Node.depth_first_traversal.<_traverse>',
        'stack_parser.Node.depth_first_traversal',
        'utilities.infer_split_truncation_index',
        'utilities.infer_match_pair_truncation_index.<_traverse>',
        'utilities.infer_match_pair_truncation_index',
        'utilities.infer_truncation_with_fallbacks',
        'utilities.infer_truncation_pydocstring')),
    'P14': dict(level='exploration', note=MIXED, contracts=_c(
        'numeric', 'rendering.BoundingBox.right',
        'rendering.BoundingBox.bottom',
        'rendering.BoundingBox.horizontal_center',
        'rendering.BoundingBox.vertical_center',
        'rendering.BoundingBox.center_point',
        'rendering.BoundingBox.point_within', 'rendering.BoundingBox.union',
        'rendering.BoundingBox.from_boundary', 'rendering.Point.shift',
        'rendering.to_bounded_irrational')),
    'P15': dict(level='exploration', note=MIXED, contracts=_c(
        'packed', 'packed_sequence_nodes.render_text_contents_of_node',
        'packed_sequence_nodes.render_text_contents_of_list',
        'packed_sequence_nodes.unpack.<build>', 'packed_sequence_nodes.unpack',
        'packed_sequence_nodes._make_recursive_in_order_traversal.'
        '<do_in_order_traversal>',
        'packed_sequence_nodes.in_order_traversal')),
    'P16': dict(level='proof', note=PROVED, contracts=_c(
        'probs', 'token_prob_align.SpanProbHelper.advance_by_length',
        'token_prob_align.SpanProbHelper.advance_and_get_log_prob_for',
        'token_prob_align.SpanProbHelper.assert_consumed',
        'token_prob_align.align_token_log_probs',
        'token_prob_align.flatten_token_log_probs_from_parsed',
        'token_prob_align.render_tokens_and_log_probs_to_html')),
    'P17': dict(level='exploration', note=MIXED, contracts=_c(
        'dags', 'gated_state_dag.compute_reachable_states',
        'gated_state_dag.prune_to_reachable',
        'gated_state_dag._prune_to_reachable_overload.<impl>',
        'gated_state_dag.partial_state_dag_starting_from',
        'gated_state_dag.partial_state_dag_add_edge',
        'gated_state_dag.partial_state_dag_finish')),
    'P18': dict(level='exploration', note=BOUNDED),
    'P19': dict(level='exploration', note=BOUNDED),
    'P20': dict(level='proof', note=PROVED, contracts=_c(
        'regions', 'region_decisions.extract_sequence_with_regions',
        'region_decisions.render_regions_to_html')),
    'P21': dict(level='proof', note=PROVED, contracts=_c(
        'numeric', 'uncertainty_regions_wrapper.'
        'derive_uncertainty_region_costs',
        'edit_dags.token_node_utility_from_parameters')),
    'P22': dict(level='exploration', note=MIXED, contracts=_c(
        'constraint', 'gated_state_dag.partial_state_dag_add_edge',
        'constraint_dags.make_constraint_dag_builder'
        '.<build_prototype_subgraph_inside_region>',
        'constraint_dags.make_constraint_dag_builder'
        '.<build_prototype_subgraph_from_outside_region>',
        'constraint_dags.make_constraint_dag_builder'
        '.<construct_constraint_dag>')),
    'P23': dict(level='exploration', note=MIXED, contracts=_c(
        'edits', 'gated_state_dag.partial_state_dag_add_edge',
        'edit_dags.token_node_utility_from_parameters',
        'edit_dags.make_edit_dag_builder'
        '.<maybe_insert_node_or_skip_decoration_in_target>',
        'edit_dags.make_edit_dag_builder'
        '.<build_recursive_insert_subsequence>',
        'edit_dags.make_edit_dag_builder'
        '.<maybe_delete_node_or_advance_in_prototype>',
        'edit_dags.make_edit_dag_builder'
        '.<build_recursive_delete_subsequence>')),
    'P24': dict(level='exploration', note=BOUNDED),
    'P25': dict(level='exploration', note=BOUNDED),
    'P26': dict(level='exploration', note=MIXED, contracts=_c(
        'baselines', 'prefix_truncation_wrapper.PrefixByEditDistanceBaselineBuilder.'
        '_assignment_from_exit_point',
        'prefix_truncation_wrapper.PrefixByEditDistanceBaselineBuilder.'
        'baseline_assignment_from_token_prob',
        'prefix_truncation_wrapper.PrefixByEditDistanceBaselineBuilder.'
        'baseline_assignment_from_intellicode_compose',
        'prefix_truncation_wrapper.PrefixByEditDistanceBaselineBuilder.'
        'baseline_assignment_from_max_average_log_prob',
        'prefix_truncation_wrapper.PrefixByEditDistanceBaselineBuilder.'
        'baseline_assignment_from_characters',
        'prefix_truncation_wrapper.PrefixByEditDistanceBaselineBuilder.'
        'baseline_assignment_from_lines',
        'uncertainty_regions_wrapper.UncertaintyRegionsBaselineBuilder.'
        'baseline_assignment_from_token_probabilities',
        'uncertainty_regions_wrapper.UncertaintyRegionsBaselineBuilder.'
        'baseline_assignment_from_character_offset',
        'uncertainty_regions_wrapper.UncertaintyRegionsBaselineBuilder.'
        'baseline_assignment_from_example_fraction',
        'uncertainty_regions_wrapper.UncertaintyRegionsBaselineBuilder.'
        'baseline_assignment_from_depth_cutoff')),
    'P27': dict(level='exploration', note=MIXED, contracts=_c(
        'calls', 'call_sequence_wrapper.extract_context_tokens',
        'call_sequence_wrapper.ApiCallSequenceWrapper.__init__.'
        '<token_node_utility_fn>')),
}
