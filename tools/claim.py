#!/usr/bin/env python3
"""claim.py ID TECHNIQUE NOTE: records a claimed property in claims.json and regenerates the manifest."""
import json, sys, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(here, 'claims.json'); d = json.load(open(p))
d['checks'][sys.argv[1]] = {'technique': sys.argv[2], 'note': sys.argv[3]}
d['checks'] = dict(sorted(d['checks'].items()))
json.dump(d, open(p, 'w'), indent=1); open(p, 'a').write('\n')
subprocess.check_call([sys.executable, os.path.join(here, 'gen_properties.py')])
subprocess.check_call([sys.executable, os.path.join(here, 'gen_manifest.py')])
