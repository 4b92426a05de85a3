#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo.cpp, meta.json) from tools/seeds/*.py, against /repo's working tree.
Each file in tools/seeds defines SEEDS = [dict(id, property, edits=[(file, old, new)...], needs, breaks, demo, [libs])]."""
import difflib, glob, json, os, runpy, sys
HERE = os.path.dirname(os.path.abspath(__file__)); OUT = os.path.join(os.path.dirname(HERE), 'seeded')
SH = '''#!/bin/bash
# Run with cwd = the repository after its build. Exit 0: behaviour as specified.
set -u
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
g++ -std=c++17 -O1 -w -I"$PWD" "$here/demo.cpp" -o "$d/demo" -L"$PWD/_build" -lblend2d -Wl,-rpath,"$PWD/_build" -lpthread || exit 3
cd "$d" && timeout 120 "$d/demo" "$d"
'''
def main(only):
    ids = set()
    for f in sorted(glob.glob(HERE + '/seeds/*.py')):
        for s in runpy.run_path(f)['SEEDS']:
            assert s['id'] not in ids, s['id']; ids.add(s['id'])
            if only and s['id'] not in only: continue
            diff, by = '', {}
            for (p, old, new) in s['edits']:
                t = by.get(p) or (open('/repo/' + p).read(),) * 2
                if t[1].count(old) != 1: print('!!', s['id'], 'matches', t[1].count(old), repr(old[:60])); break
                by[p] = (t[0], t[1].replace(old, new))
            else:
                for p, (a, b) in by.items():
                    diff += ''.join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + p, 'b/' + p))
                d = os.path.join(OUT, s['id']); os.makedirs(d, exist_ok=True)
                open(d + '/patch.diff', 'w').write(diff)
                open(d + '/demo.cpp', 'w').write('#include <blend2d/blend2d.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <vector>\n#include <string>\n'
                    '#define REQUIRE(c) do { if (!(c)) { printf("failed: %s\\n", #c); return 1; } } while (0)\n' + s['demo'].lstrip('\n'))
                for x in s.get('files', []): open(d + '/' + x, 'w').write(open(os.path.dirname(HERE) + '/harness/' + x).read())
                open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
                json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    print(len(ids), 'seeds')
main(set(sys.argv[1:]))
