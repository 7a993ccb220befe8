#!/usr/bin/env python3
"""mkseed.py FILE...: writes seeded/<id>/ from seed descriptions (python files that define id, prop, edits, demo, needs, breaks)."""
import json, pathlib, subprocess, sys, tempfile, shutil, os
ROOT = pathlib.Path(__file__).resolve().parent.parent
SH = '#!/bin/bash\n# fails when the property is broken; run from the repository root\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
for f in sys.argv[1:]:
    ns = {}
    exec(pathlib.Path(f).read_text(), ns)
    for s in ns['SEEDS']:
        d = ROOT / 'seeded' / s['id']
        d.mkdir(parents=True, exist_ok=True)
        a = pathlib.Path(tempfile.mkdtemp())
        try:
            for rel in {e[0] for e in s['edits']}:
                src = pathlib.Path('/repo', rel).read_text()
                for r, old, new, *nth in s['edits']:    # the only occurrence, or the given one
                    if r == rel:
                        assert nth or src.count(old) == 1, (s['id'], rel, src.count(old), old)
                        head, tail = (old.join(src.split(old)[:nth[0] + 1]), old.join(src.split(old)[nth[0] + 1:])) if nth else src.split(old)
                        src = head + new + tail
                (a / 'b' / rel).parent.mkdir(parents=True, exist_ok=True)
                (a / 'a' / rel).parent.mkdir(parents=True, exist_ok=True)
                (a / 'b' / rel).write_text(src)
                shutil.copy(pathlib.Path('/repo', rel), a / 'a' / rel)
            out = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=a, capture_output=True, text=True).stdout
            (d / 'patch.diff').write_text(out)
        finally:
            shutil.rmtree(a)
        (d / 'demo.py').write_text(s['demo'].lstrip('\n'))
        (d / 'demo.sh').write_text(SH)
        os.chmod(d / 'demo.sh', 0o755)
        (d / 'meta.json').write_text(json.dumps(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), indent=1) + '\n')
        print(s['id'])
