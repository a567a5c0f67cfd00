"""Writes MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = 'TLA+ spec; TLC trace validation of scheduled real runs'
GEN = 'TLA+ spec; TLC-generated transitions replayed on the real code'
BOTH = 'TLA+ spec; TLC trace validation of scheduled runs and replay of TLC-generated transitions'
NOTE = (
    'The specification is checked exhaustively by TLC for small constants; the code is bound to it by {}. '
    'Bounded: scenarios, schedules and constants are finite samples/enumerations (see evidence). Trusted: TLC, the '
    'virtual scheduler and the concretization of items and keys in /verif/harness.'
)
T = 'recorded traces of the real code under controlled schedules, each accepted or rejected by TLC'
G = 'executing every generated transition on the real code and comparing answer and state'
CHECKS = {}
for p in 'C03 C15 C16'.split():
    CHECKS[p] = (TRACE, NOTE.format(T))
for p in 'C13 C14'.split():
    CHECKS[p] = (TRACE, NOTE.format(T))
for p in 'C01 C02 C04 C05 C06 C11 C12 C07 C08 C09 C10 C17'.split():
    CHECKS[p] = (BOTH, NOTE.format(T + '; and by ' + G))
for p in 'C18 C19 C20 C21 C22 C23 C24 C25 C26'.split():
    CHECKS[p] = (GEN, NOTE.format(G))
NA = {}


def main():
    import sys
    sys.path.insert(0, os.path.join(V, 'harness'))
    import props
    ids = [json.loads(x)['id'] for x in open(os.path.join(V, 'properties.jsonl'))]
    checks = []
    na = dict(NA)
    for p in ids:
        if p in na:
            continue
        if p not in props.CHECKS or p not in CHECKS:
            na[p] = 'not claimed yet'
            continue
        tech, note = CHECKS[p]
        checks.append(dict(
            property=p, quick_cmd=f'python3 check.py {p}', thorough_cmd=f'python3 check.py {p} thorough',
            evidence_file=f'evidence/{p}.json', technique=tech, level='model_checking', level_note=note))
    m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks,
             not_applicable=[dict(property=p, reason=r) for p, r in na.items()])
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks;', 'not claimed:', sorted(na))


main()
