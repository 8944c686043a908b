#!/usr/bin/env python3
"""Makes and verifies a planted bug: seeded/<id>/ from a spec (used while developing; no check uses it).

spec: dict(id, prop, edits=[(file, old, new)], needs, breaks, demo=C++ source, kind=core|gfx|conv|arduino|esp|header, files={name: text})
"""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], stdout=subprocess.PIPE, text=True).stdout.split()[0]
FLAGS = {
    'core': '-I"$repo" "$here/demo.cpp" "$repo"/*.cpp',
    'gfx': '-I"$repo" -I"$repo/graphics" "$here/demo.cpp" "$repo"/*.cpp "$repo"/graphics/*.cpp',
    'bits': '-I"$repo" -I"$repo/gfx-font-converter" "$here/demo.cpp"',
    'enc': '-I"$repo" -I"$repo/gfx-font-converter" "$here/demo.cpp" "$repo/gfx-font-converter/EncodingConverter.cpp"',
    'conv': '-I"$repo" -I"$repo/graphics" "$here/demo.cpp" "$repo"/*.cpp "$repo"/graphics/*.cpp',
    'arduino': '-I"$here/mocks/arduino" -I"$here/mocks" -I"$work" -I"$repo" "$here/demo.cpp" "$repo"/*.cpp "$work"/*.cpp',
    'esp': '-I"$here/mocks/esp" -I"$here/mocks" -I"$repo" -I"$repo/esp32-esp-idf" "$here/demo.cpp" "$repo"/*.cpp "$repo"/esp32-esp-idf/*.cpp',
}
PRE = '''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#define CHECK(c) do { if (!(c)) { std::printf("line %d: %s\\n", __LINE__, #c); std::exit(1); } } while (0)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def demo_sh(s):
    k = s['kind']
    pre = ''
    if k == 'arduino':
        pre = 'for f in "$repo"/arduino/*; do sed "s/\\\\bunsigned long\\\\b/uint32_t/g" "$f" > "$work/$(basename "$f")"; done\nsed -i "s#\\"\\.\\./#\\"#" "$work"/*\n'
    post = '"$work/demo" "$repo" "$work" "$here"\n'
    return ('#!/bin/bash\n# exit 0 when the property holds in the tree in the current directory\nhere=$(cd "$(dirname "$0")" && pwd)\nrepo=$PWD\nwork=$(mktemp -d)\ntrap \'rm -rf "$work"\' EXIT\n'
            'set -e\n' + pre + 'g++ -std=gnu++17 -O1 -g1 -w ' + s.get('san', '-fsanitize=address') + ' ' + FLAGS[k] + ' -o "$work/demo"\n'
            'export ASAN_OPTIONS=detect_leaks=0\nulimit -t 20\n' + s.get('run', post))


def plant(s, checks=True):
    d = os.path.join(HERE, 'seeded', s['id'])
    repo = '/tmp/plant/' + s['id']
    shutil.rmtree(repo, ignore_errors=True)
    sh('git clone -q /repo %s' % repo)
    try:
        for f, old, new in s['edits']:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) < 1:
                return 'NO MATCH %s: %s' % (f, old)
            n = s.get('nth', 0)
            parts = t.split(old)
            if len(parts) > 2 and 'nth' not in s:
                return 'AMBIGUOUS %s: %s' % (f, old)
            open(p, 'w').write(old.join(parts[:n + 1]) + new + old.join(parts[n + 1:]))
        diff = sh('git diff', cwd=repo).stdout
        # the changed lines must be lines of the original repository
        for f in {e[0] for e in s['edits']}:
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh('git diff -U0 -- ' + f, cwd=repo).stdout, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for ln in range(a, a + n):
                    b = sh('git blame -s -l -L %d,%d HEAD -- %s' % (ln, ln, f), cwd=repo).stdout
                    if not b.lstrip('^').startswith(BASE[:30]):
                        return 'NOT ORIGINAL: ' + b
                if n == 0:
                    print('   (pure insertion in %s)' % f)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.cpp', 'w').write(PRE + s['demo'])
        open(d + '/demo.sh', 'w').write(demo_sh(s))
        os.chmod(d + '/demo.sh', 0o755)
        for k, v in s.get('files', {}).items():
            open(os.path.join(d, k), 'w').write(v)
        if s['kind'] in ('arduino', 'esp'):
            os.makedirs(d + '/mocks')
            shutil.copy(HERE + '/mocks/world.h', d + '/mocks/')
            shutil.copytree(HERE + '/mocks/' + s['kind'], d + '/mocks/' + s['kind'])
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        # builds and passes the tests
        r = sh('cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=ON -DCMAKE_REQUIRE_FIND_PACKAGE_GTest=ON -DCMAKE_REQUIRE_FIND_PACKAGE_Freetype=ON -DCMAKE_REQUIRE_FIND_PACKAGE_Iconv=ON '
               '-DFETCHCONTENT_FULLY_DISCONNECTED=ON && ninja -C _build', cwd=repo)
        if r.returncode:
            return 'BUILD FAILS\n' + r.stdout[-1500:]
        r1 = sh('timeout 30 ../_build/tests/tests' if 0 else 'timeout 30 ./tests', cwd=repo + '/_build/tests')
        r2 = sh('timeout 30 %s/_build/tests/graphics-tests' % repo, cwd=repo + '/tests/data')
        if r1.returncode or r2.returncode:
            return 'TESTS FAIL\n' + '\n'.join(re.findall(r'\[  FAILED.*', r1.stdout + r2.stdout)[:4])
        a = sh('timeout 250 bash %s/demo.sh' % d, cwd='/repo')
        b = sh('timeout 250 bash %s/demo.sh' % d, cwd=repo)
        if a.returncode != 0:
            return 'DEMO FAILS ON CLEAN TREE\n' + a.stdout[-2500:]
        if b.returncode == 0:
            return 'DEMO PASSES WITH THE BUG'
        if 'error:' in b.stdout:
            return 'DEMO DOES NOT BUILD WITH THE BUG\n' + b.stdout[-1500:]
        out = 'ok; demo: ' + b.stdout.strip().split('\n')[-1][:90]
        if checks:
            for c in [s['prop']] + s.get('also', []):
                r = sh('timeout 900 ./check %s' % c, cwd=HERE, env=dict(os.environ, REPO=repo))
                out += '\n   %s -> %s (%s)' % (c, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'rc=%d ' % r.returncode + r.stdout[-600:]), r.stdout.strip().split('\n')[-1])
        return out
    finally:
        shutil.rmtree(repo, ignore_errors=True)


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for s in ns['SPECS']:
        if not want or s['id'] in want:
            print(s['id'], plant(s), flush=True)
