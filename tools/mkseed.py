"""helper for planting bugs: mk(id, property, [(file, old, new)], needs, breaks, demo C++ text, synth=False)
writes /verif/seeded/<id>/ from a scratch copy of /repo's HEAD"""
import os, subprocess, json, shutil, tempfile
V = '/verif'
DEMO = '''#!/bin/bash
# compiles demo.cpp with the sources in the current directory; exit status of the demonstration
H="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
export DEMO_TMP="$T" DEMO_DATA="$PWD/fisx_data"
ls "$PWD"/src/*.cpp "$H/demo.cpp" | xargs -P 8 -I{} sh -c 'g++ -std=gnu++17 -O1 -w -I"$1/src" -I"$2" -c "$3" -o "$4/$(basename "$3").o"' _ "$PWD" "$H" {} "$T" || exit 2
g++ -o "$T/demo" "$T"/*.o || exit 2
cd "$T" && timeout 200 ./demo
'''
def mk(id, prop, edits, needs, breaks, demo, synth=False):
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='mkseed-'); w = os.path.join(t, 'r')
    subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    try:
        for f, old, new in edits:
            p = os.path.join(w, f); s = open(p, newline='').read()
            if '\r\n' in s:
                old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w', newline='').write(s.replace(old, new))
        df = subprocess.check_output(['git', 'diff'], cwd=w)
        open(os.path.join(d, 'patch.diff'), 'wb').write(df)
    finally:
        shutil.rmtree(t)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'demo.cpp'), 'w').write(demo)
    if synth:
        shutil.copy(os.path.join(V, 'replay', 'synthdata.h'), d)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
