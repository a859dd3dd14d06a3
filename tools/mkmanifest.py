"""Writes MANIFEST.json."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
T = {
 'C01': ('round trip against the intended record', 'Random search over generated records; every field and every sample is compared.'),
 'C02': ('differential: ASCII, binary and header-only reads of one record', 'Random search; ASCII and binary files of one record are compared field by field.'),
 'C03': ('round trip against the intended set', 'Random search over generated geometry sets.'),
 'C04': ('round trip against the intended set', 'Random search over generated metadata sets.'),
 'C05': ('round trip against the intended set', 'Random search over generated result sets.'),
 'C06': ('round trip against the intended set', 'Random search over generated group sets.'),
 'C07': ('model-based histories against a list', 'Random search over operation histories on one file with several objects.'),
 'C08': ('independent fixed-column reader of the published layouts', 'Random search; the reader shares no code with pyuff and refuses any deviation.'),
 'C09': ('independent writer of the published layouts', 'Random search over sets and rendering styles.'),
 'C10': ('fault injection into writes, byte-exact file comparison', 'Generated faults (unwritable values at drawn places of drawn sets), compared with the file before.'),
 'C11': ('damage injection with an error-or-undamaged oracle', 'Generated truncations and damage; sets outside the damage are compared with their content.'),
 'C12': ('prepare functions against the given arguments and the written file', 'Random search over argument sets, valid and invalid.'),
 'C13': ('defaults and caller values, metamorphic rewrite', 'Random search over sets with any subset of optional fields.'),
 'C14': ('fixpoint of read, write, read', 'Random search plus the sample files of the repository.'),
 'C15': ('NaN and infinity in data, differential with replaced values', 'Random search over positions of non-finite values.'),
 'C16': ('repair of generated faulty files against the intended sets', 'Random search over files with misplaced delimiters.'),
 'C17': ('conversion against an independent construction of the trace lines', 'Random search over element sets.'),
 'C18': ('text round trip and undecodable bytes against the intended text', 'Random search over scripts, widths and bytes.'),
 'C19': ('index against the composition of generated files', 'Random search over composed files and sequences of their states.'),
 'C20': ('sequences of reads against single reads and the intended content', 'Random search over read sequences.'),
 'C21': ('metamorphic: bytes of drawn write histories against the bytes of the sets written alone', 'Random search over histories and over equivalent forms of the dictionaries.'),
 'C22': ('invariant over call sequences: open files, directory, output and process settings before and after each call', 'Random search over call sequences; audit events show what is opened and changed.'),
 'C23': ('drawn interleavings of threads under a deterministic scheduler, against sequential runs', 'Random search over schedules at the granularity of lines; not a model checker.'),
 'C24': ('grammar-based fuzzing of file contents against an independent reading of the delimiter rule', 'Random search over byte strings.'),
 'C25': ('states of the file at every executed line and behind every file operation, as crash points, against the list model', 'All crash points of each drawn call are looked at for loss of old bytes, up to 12 states per case are opened.'),
}
LEVEL = {'C10': 'fault_enumeration', 'C11': 'fault_enumeration', 'C25': 'fault_enumeration'}
checks = [{'property': k, 'quick_cmd': f'{PY} check.py {k}', 'thorough_cmd': f'VERIF_TIER=thorough {PY} check.py {k}',
           'technique': 'property-based testing (Hypothesis): ' + t, 'level': LEVEL.get(k, 'exploration'),
           'level_note': n + ' Not exhaustive: a fixed number of cases per run, seeded by VERIF_SEED. Trusts the generators\' domain (DESIGN.md), NumPy and the '
           'file system.'} for k, (t, n) in T.items()]
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [],
           'notes': 'Pure Python: nothing to build. Every run imports pyuff from /repo\'s working tree, without bytecode caches. No hooks.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
