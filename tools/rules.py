"""What each check runs, and how its coverage is to be read."""

ASSUMPTIONS = [
    'ICU4X 1.5 (segmentation, plural rules, number and date formatting, likely subtags) and SQLite are trusted',
    'only executions are judged: inputs outside the generated families are not covered',
]

RULES = {
    'C01': {
        'rule': 'One case is one string with one grammar, lexed completely. Non-trivial: more than one token. Families: every '
                'Unicode scalar value in six contexts, all strings up to four characters over a 12 character alphabet, random '
                'mixtures of all character kinds, long strings (up to several hundred thousand characters), two iterators taking turns.',
        'must_observe': ['tokens', 'error_cases', 'scalar_values', 'very_long_bytes'],
    },
    'C02': {
        'rule': 'As C01; every character of every token is compared with Pattern_White_Space and Pattern_Syntax (fixed tables '
                'of the Unicode stability policy) and the grammar. Non-trivial: more than one token.',
        'must_observe': ['tokens_grammar', 'tokens_identifier', 'tokens_syntax', 'tokens_white_space', 'scalar_values', 'very_long_bytes'],
    },
    'C03': {
        'rule': 'One evaluation is one request of a random history on one registry (well-formed, respelled and malformed tags, '
                'ICU languages, lists), compared with a model after every step. Non-trivial: histories with several languages '
                'and a non-canonical spelling, distinct as a whole; registries with hundreds of tags and spellings; and accepted texts '
                'of the any-text family.',
        'must_observe': ['list_checks', 'icu_language', 'malformed_rejected', 'non_canonical_spellings', 'shared_instances_compared',
                         'long_lived_tags', 'long_lived_spellings', 'long_lived_instances'],
    },
    'C04': {
        'rule': 'One evaluation is one lookup (best match, all matches or exact match) in a generated repository of SQLite files, '
                'compared with a reference that searches the generated rows. Non-trivial: something is stored; distinct by '
                'component, identifier, tag and answer.',
        'must_observe': ['string', 'strings', 'exact', 'found_exact', 'found_more_specific', 'found_after_removing_subtags',
                         'both_databases_first', 'both_databases_second', 'several_strings', 'unknown_component', 'nothing_stored', 'equal_texts', 'odd_texts', 'crowded'],
    },
    'C05': {
        'rule': 'One evaluation is one details query in a random history of details queries and lookups on a generated '
                'repository, compared with aggregates recomputed from the generated rows. Non-trivial: distinct answers.',
        'must_observe': ['component_details', 'identifier_details', 'repository_details', 'component_in_both_databases',
                         'repository_default', 'repository_without_default', 'no_valid_default', 'equal_texts', 'crowded'],
    },
    'C06': {
        'rule': 'One evaluation is one opening of a directory (or one schema verified): conforming, with one of several hundred '
                'single deviations from the schema, corrupt, foreign or missing, followed by queries; the directory is compared '
                'byte by byte before and after. Non-trivial: distinct deviations and directory contents.',
        'must_observe': ['opened', 'rejected', 'conforming_schemas', 'invalid_schemas', 'no_databases', 'paths', 'shipped',
                         'files_compared', 'ignored_databases', 'linked_databases', 'hot_journals', 'cold_journals'],
    },
    'C07': {
        'rule': 'One evaluation is one formatting of a generated pattern, compared with the text its construction calls for. '
                'Non-trivial: the pattern has a construct; distinct by pattern and values.',
        'must_observe': ['parts_string', 'parts_escaped_text', 'parts_literal', 'parts_text', 'plain', 'plain_empty', 'verdict_text', 'crowded'],
    },
    'C08': {
        'rule': 'One evaluation is one formatting of a pattern with plural, ordinal or select, compared with an interpreter of '
                'the generated construction and ICU plural rules. Non-trivial: distinct by pattern, language and values.',
        'must_observe': ['parts_plural', 'parts_ordinal', 'parts_select', 'parts_number_sign', 'towers', 'shared',
                         'category_plural_one', 'category_plural_few', 'category_plural_many', 'category_plural_two',
                         'category_plural_zero', 'category_ordinal_one', 'category_ordinal_two', 'verdict_text', 'crowded'],
    },
    'C09': {
        'rule': 'One evaluation is one number formatted, compared with ICU applied to the exact decimal value, and for English '
                'with independently written grouping and sign rules. Non-trivial: distinct by number, language and options.',
        'must_observe': ['number_integer', 'number_unsigned', 'number_float', 'number_fixed_decimal', 'group_always',
                         'group_never', 'group_min2', 'sign_always', 'sign_never', 'sign_negative', 'sign_except_zero',
                         'english_rules', 'unsuitable_value_rejected'],
    },
    'C10': {
        'rule': 'One evaluation is one date, time or moment formatted, typed or as ISO 8601 text, compared with ICU applied to '
                'the moment the generator built, or with the error an impossible moment calls for. Non-trivial: distinct by text.',
        'must_observe': ['typed_date', 'typed_time', 'typed_date_time', 'iso_rendered', 'impossible_rejected', 'calendar_days',
                         'unsuitable_value_rejected'],
    },
    'C11': {
        'rule': 'One evaluation is one formatting of an arbitrary, mutated or deliberately faulty pattern with arbitrary values; '
                'any panic, abort, endless run or exhausted stack is noticed, and the outcome is compared with a reference '
                'parser where the documentation decides it. Non-trivial: distinct patterns with grammar characters.',
        'must_observe': ['almost_moments', 'small_moments', 'extreme_years', 'deep', 'growth_measured', 'large', 'soup', 'noise', 'mutated', 'small_strings', 'verdict_error', 'verdict_text',
                         'fault_missing_value', 'fault_no_other', 'fault_own_branch', 'fault_later_branch', 'fault_unclosed',
                         'fault_repeated_placeholder', 'fault_repeated_branch', 'fault_stray_brace', 'fault_two_number_signs',
                         'fault_unknown_keyword', 'fault_unknown_option', 'fault_unknown_option_value', 'fault_unknown_category',
                         'fault_unknown_branch', 'fault_unknown_command', 'fault_unsuitable_value', 'fault_command_fails'],
    },
    'C12': {
        'rule': 'One evaluation is one request in a history on one localiser, compared with the same request on a fresh localiser '
                'that never caches. Non-trivial: histories in which a request was answered without asking the provider.',
        'must_observe': ['answered_from_cache', 'answers_traced_to_the_store', 'answers_error', 'answers_not_found', 'answers_text', 'cache_entry_exception',
                         'repeated_requests'],
    },
    'C13': {
        'rule': 'One evaluation is one request in a history of requests and default changes, compared with a model of the '
                'defaults, of fallback and of the stored strings. Non-trivial: histories with a change of defaults.',
        'must_observe': ['default_fallback_changed', 'default_language_changed', 'default_requests', 'explicit_requests',
                         'found_exactly', 'found_by_truncation', 'found_by_fallback', 'not_found_with_fallback',
                         'not_found_without_fallback', 'requests_caching', 'requests_not_caching'],
    },
    'C14': {
        'rule': 'One evaluation is one rendering of generated nested data or of one error value in one language, compared with '
                'the stored message filled in by the monitor. Non-trivial: distinct rendered texts.',
        'must_observe': ['data_rendered', 'data_failed', 'deep_data', 'details_checked', 'format_error', 'real_failures'],
    },
    'C15': {
        'rule': 'One evaluation is one script data answer, compared with the recorded table, the likely script and the '
                'direction ICU gives for the script. Non-trivial: distinct languages with script data.',
        'must_observe': ['default_changes', 'direction_parts', 'known_scripts', 'languages_with_script', 'left_to_right',
                         'right_to_left', 'no_script_data'],
    },
    'C16': {
        'rule': 'One evaluation is one formatting with recording commands (their calls and results are compared with what the '
                'pattern states), one step of a command registry history, or one call of a built-in command.',
        'must_observe': ['many_commands', 'crowded', 'built_in_error', 'built_in_result', 'cached_delayed', 'delayed_calls', 'early_calls', 'get_known',
                         'get_unknown', 'insert', 'insert_again', 'not_run_unregistered', 'run_after_registration',
                         'run_before_registration'],
    },
    'C17': {
        'rule': 'One evaluation is one call of one thread while others use the same registry or provider, compared with what a '
                'single thread gets; afterwards the registry must hold each tag and spelling once. The same workload runs under '
                'ThreadSanitizer, and small registry programs under Miri with one schedule per seed. Non-trivial: distinct '
                'interleavings (the order in which threads took their steps).',
        'must_observe': ['interleaved_histories', 'instances_compared', 'lists', 'icu_language', 'icu_instances_compared', 'tags', 'component_details',
                         'repository_details', 'identifier_details', 'string', 'miri_schedules'],
        'special': 'threads',
        'assumptions': ['SQLite itself is not instrumented; its own synchronisation is trusted'],
    },
    'C18': {
        'rule': 'The workloads of the other properties, each answer recorded; one evaluation is one recorded call of one build. '
                'The transcripts of the builds must be identical, case by case. Non-trivial: distinct inputs, as for the '
                'other properties.',
        'must_observe': ['transcript_lines', 'lines_compared', 'recorded'],
        'special': 'features',
        'assumptions': ['which of several faults of one pattern is reported is left open'],
    },
    'C19': {
        'rule': 'One evaluation is one request while the provider fails (at the n-th call of a provider held in memory), or while '
                'a fault is present in a SQLite repository (table missing, text or tag unreadable, file replaced or moved), or '
                'after the fault is gone, compared with a model of what is stored and what the fault hides. Non-trivial: '
                'distinct histories with a failure, and distinct sequences of faults.',
        'must_observe': ['failed_requests', 'answers_after_failure', 'answers_after_repair', 'lookups_that_must_fail',
                         'lookups_beside_a_fault', 'details_that_must_fail', 'fault_table', 'fault_text', 'fault_tag',
                         'fault_contributor', 'fault_default', 'fault_file', 'openings', 'directories_compared'],
    },
}
