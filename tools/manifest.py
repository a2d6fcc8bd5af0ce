"""Writes MANIFEST.json from spec.CHECKS and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import spec
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in spec.CHECKS:
        c = spec.CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
            technique=c.get('technique', 'property-based testing (tape-recorded generators, shrinking) against an independent reference model'), level='exploration',
            level_note=c.get('level_note', 'Held on every generated case: ' + c['rule'] + '. Trusts the compiler, the sanitizer and the reference code in harness/' + c['harness'] + '; says nothing about inputs not generated.')))
    else:
        na.append(dict(property=i, reason=spec.NOT_APPLICABLE.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='true', checks=checks, hooks=dict(guard='none', enable='no hooks: every check uses the public interface of the library and the command-line programs', source_commits=[]),
    not_applicable=na, notes='Each check compiles its harness with the sources of /repo it needs (check.py), runs it in forked workers, shrinks failures into .out/<ID>-*.replay and writes evidence/<ID>.json. Replay: python3 check.py <ID> --replay <file>.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); print(len(checks), 'checks', len(na), 'not claimed')
