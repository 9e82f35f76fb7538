#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks that exist."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'property-based testing (Hypothesis): '
NOTE = {
 'C01': ('reference encoder of the file format, generated bins of all object kinds, both byte orders; reader compared with the encoded model', 'Trusts lib/refspec.py, an independent description of the format cross-checked against the sample files. Objects outside the listed kinds are not covered.'),
 'C02': ('generated documents built through the API, saved file judged by an independent strict decoder', 'Trusts lib/refspec.py.'),
 'C03': ('generated and sample files; round-trip and byte fixed-point oracles', 'Random structures are bounded in size (long lists and texts are drawn with a budget).'),
 'C04': ('stateful model-based edit histories; next save decoded independently and compared with the model', 'Edit vocabulary in lib/edits.py; helpers are held by the program (C05 drops them).'),
 'C05': ('stateful model-based edit histories with dropped references and garbage collection', 'CPython reference counting and explicit collections stand for any garbage collector timing.'),
 'C06': ('generated access schedules (interleaved routes, iterators, seeks, drops) against the document model and object identity', 'Single threaded.'),
 'C07': ('generated files with arbitrary object order and class sets against the encoder\'s own chunk table', 'Trusts lib/refspec.py for chunk positions.'),
 'C08': ('structure-aware and random mutation of generated and sample files against an independent strict decoder; time and memory watched', 'The strict decoder is the oracle of what a file may mean.'),
 'C09': ('generated documents with one value pushed outside its field; refusal or exact reload required', 'Field domains come from lib/refspec.py.'),
 'C10': ('generated documents and edits with injected faults (unsavable values, device errors at every byte offset, interrupted writes) against the undisturbed run', 'Device errors are injected with file size limits, /dev/full and failing file objects.'),
 'C11': ('generated decimals, rates, doubles and fixed-point values in every field that stores one; exact arithmetic oracle', 'Domain of the format as stated in DESIGN.md.'),
 'C12': ('generated texts in every text field with neighbours; exact reload or refusal', 'Mac Roman as in Python\'s codec.'),
 'C13': ('generated identifiers; round trips between all forms against an independent formatter', 'Excludes identifiers for which the URN spelling itself is ambiguous.'),
 'C14': ('generated documents copied between open files; model equality, then edit histories on either side checked for independence', 'Edit vocabulary in lib/edits.py.'),
 'C15': ('generated creation and edit histories against the documented defaults', 'Defaults table in lib/defaults.json.'),
 'C16': ('differential: generated files and edit histories, native readers under PyPy against the document model and the pure readers', 'The native readers are built with the PyPy and Cython of the sandbox.'),
 'C17': ('mutation fuzzing of generated objects through the native readers built with AddressSanitizer and UBSan', 'Sanitizers detect the memory errors; PyPy itself is uninstrumented.'),
 'C18': ('generated timelines against an independent position calculator', 'Lengths are integers; see DESIGN.md.'),
 'C19': ('generated keyframe curves against an independent evaluator and metamorphic relations', 'Tolerances stated in DESIGN.md.'),
 'C20': ('generated speed curves against an exact discrete integral and consistency of the two integrators', 'Tolerances stated in DESIGN.md.'),
 'C21': ('generated mob graphs, cyclic ones included, against a reference graph search', 'Children-first is required only between different cycles.'),
 'C22': ('generated bins and edit histories against a model of the bin', ''),
 'C23': ('stateful model-based comparison with list and OrderedDict', 'Operation vocabulary in checks/c23.py.'),
 'C24': ('exhaustive and generated codes against independent tables', 'Tables written from the documentation and enumerations.'),
 'C25': ('generated bins at and around the count boundaries, round trip', 'Sizes up to the bound stated in DESIGN.md.'),
 'C27': ('generated documents of all kinds; generic views, reference walks and printed forms against the document model', 'Printed text is checked for the promised parts, not compared literally.'),
 'C28': ('generated access histories and openings of valid and damaged files; live objects and open descriptors counted against the model', 'CPython reference counting and explicit collections stand for any garbage collector timing.'),
 'C29': ('generated interleavings (nested in one thread, and baton-passing threads at chosen executed lines) of generated histories, each judged by its own model', 'Interleaving is controlled at line granularity; finer switches inside one line are not.'),
 'C30': ('generated histories played in differently configured processes; observations and saved bytes compared', 'Five environments, among them PyPy; times and fresh identifiers are fixed by the history.'),
 'C31': ('metamorphic relation between generated documents of three sizes; executed lines, calls and bytes read are counted', 'Steps are counted in Python code; work inside built-ins shows only in the processor time of a few large documents.'),
 'C26': ('generated saves over existing files with injected device errors and kill points', 'Faults are injected at chosen byte offsets.'),
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        t, n = NOTE[i]
        checks.append(dict(property=i, quick_cmd='./run.py %s --tier quick' % i,
                           thorough_cmd='./run.py %s --tier thorough' % i, technique=T + t,
                           level='fault_enumeration' if i in ('C10', 'C26') else 'exploration',
                           level_note=('Generated-input search, not proof: holds on every case explored. ' + n).strip()))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='./setup.sh',
         hooks=dict(guard='PYAVB_VERIF', enable='no hooks: the checks import /repo/src as it is', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
