"""Writes MANIFEST.json."""
import json
T = {
    'C01': 'online monitor: token trace of the real lexer checked for losslessness and positions over hostile strings',
    'C02': 'online monitor: every token of every scalar value checked against the Unicode pattern tables and the grammar',
    'C03': 'model-based trace monitor: random registry histories compared step by step with a model',
    'C04': 'runtime oracle: lookups in generated SQLite repositories compared with a reference search of the same rows',
    'C05': 'runtime oracle: details queries in random histories compared with aggregates recomputed from the generated rows',
    'C06': 'fault injection into repositories with an oracle on opening and byte-wise monitoring of the directory',
    'C07': 'runtime oracle: generated pattern programs rendered by the real formatter and by a reference interpreter',
    'C08': 'runtime oracle: generated plural, ordinal and select programs against a reference interpreter with ICU plural rules',
    'C09': 'runtime oracle: numbers rendered by the real formatter, by ICU on the exact value and by independent English rules',
    'C10': 'runtime oracle: generated moments and ISO 8601 spellings rendered by the real formatter and by ICU directly',
    'C11': 'crash, hang and stack monitoring of the real formatter on hostile patterns, with a reference parser as oracle',
    'C12': 'differential trace monitor: each request of a caching history against a fresh localiser without a cache',
    'C13': 'model-based trace monitor: requests and default changes compared with a model of fallback and defaults',
    'C14': 'runtime oracle: nested data and every error variant rendered over the shipped repository, compared with the stored messages',
    'C15': 'runtime oracle: script data of every script and language code and default histories, compared with the table and ICU',
    'C16': 'call monitor: recording commands log every call and its arguments; logs and results compared with the pattern',
    'C17': 'concurrent stress with conservation and happens-before monitors, ThreadSanitizer, and Miri schedules with race and deadlock detection',
    'C18': 'record and compare: transcripts of one workload in five feature builds',
    'C19': 'fault injection at the provider boundary and in live SQLite files, with a model of what each fault may and may not affect',
}
NOTE = ('Sampled and partly exhaustive executions of the real code, each judged by an oracle; inputs and schedules outside the '
        'generated families are not covered.')
checks = [{
    'property': p, 'quick_cmd': f'python3 check.py {p}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {p}',
    'technique': t, 'level': 'exploration', 'level_note': NOTE,
} for p, t in T.items()]
json.dump({'version': 1, 'setup_cmd': 'python3 -m py_compile check.py tools/rules.py tools/special.py', 'checks': checks,
           'not_applicable': []}, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
