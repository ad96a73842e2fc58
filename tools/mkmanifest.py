"""Writes MANIFEST.json: a check is claimed when checks/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = {
    'C01': ('AddressSanitizer, UBSan, libstdc++ assertions and valgrind memcheck over hostile API workloads', 'No sanitizer report in the executed workload; assumes the sanitizers\' detection power and code points 1..0x10FFFF.'),
    'C02': ('LeakSanitizer, heap, mapping and descriptor monitors over repeated rounds with injected faults', 'Resources balanced at every observed quiescent point.'),
    'C03': ('differential history monitor: used handle against fresh handle', 'Every observed answer equalled that of a fresh handle with the same options.'),
    'C04': ('ThreadSanitizer and answer monitor over concurrent handles with injected delays', 'No race reported and all answers as alone, in the observed interleavings.'),
    'C05': ('online differential monitor across interface forms', 'All observed answers equal; assumes words of at most 255 bytes in UTF-8 form.'),
    'C06': ('runtime trace checker against a reference tokenizer', 'All observed token streams equal the reference; exhaustive over short class strings.'),
}
TECH.update(json.load(open(V + '/tools/tech.json')) if os.path.exists(V + '/tools/tech.json') else {})
checks, na = [], []
NA = {}
for p in props:
    i = p['id']
    if os.path.exists('%s/checks/%s.py' % (V, i)):
        t, n = TECH[i]
        checks.append({'property': i, 'quick_cmd': 'python3 checks/%s.py quick' % i, 'thorough_cmd': 'python3 checks/%s.py thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': 'exploration', 'level_note': n})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check has been built for it yet')})
m = {'version': 1, 'setup_cmd': 'python3 lib/build.py plain asan', 'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(checks), len(na))
