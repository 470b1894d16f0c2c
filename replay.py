#!/usr/bin/env python3
"""replay.py FILE: runs the failing inputs of a replay file against /repo again."""
import json, os, sys, tempfile, shutil
import check
d = json.load(open(sys.argv[1]))
tmp = tempfile.mkdtemp(prefix='verif-replay-')
try:
    b, err = check.build_harness(tmp)
    if b is None:
        sys.exit(err)
    e = dict(check.ENV)
    e['VERIFH_PLUGIN'] = os.path.join(tmp, 'plugin')
    e['VERIFH_TMP'] = tmp
    rc = 0
    for f in d['failing_inputs']:
        r, out, _ = check.run([b, '-prop', d['property'], '-sub', f['sub'], '-replay-seed', str(f['seed']), '-replay-n', str(f['n'])], 120, tmp, e)
        print(out)
        rc = rc or r
    if not d['failing_inputs']:
        print('no failing input recorded; failed obligations:')
        for o in d['failed_obligations']:
            print(' ', o['function'], o.get('kind'), o.get('label'), o.get('pos'))
    sys.exit(rc)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
