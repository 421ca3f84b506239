"""plant.py SEEDS.py [names]: apply each planted bug to a scratch copy of /repo,
confirm that it builds, passes the stable tests and fails its demonstration,
and write /verif/seeded/<name>/."""
import sys, os, json, subprocess, shutil, runpy, xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
ns = runpy.run_path(sys.argv[1]); seeds = ns['SEEDS']; want = sys.argv[2:]
if want: seeds = [s for s in seeds if s['id'] in want]
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
DEMO = '''#!/bin/bash
# exit 0 when the property's behaviour is right, 1 when it is broken
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD; t=$(mktemp -d)
mkdir -p "$t/lc/smart_dnn"
for d in "$repo"/smart_dnn/*/; do n=$(basename "$d"); l=${n,,}; [ "$n" = "$l" ] || ln -s "$d" "$t/lc/smart_dnn/$l"; done
g++ -std=c++17 -O1 FLAGS-w -I"$repo" -I"$t/lc" "$here/demo.cpp" -o "$t/demo" || { find "$t" -delete; exit 2; }
cd "$t" && OMP_NUM_THREADS=4 timeout 120 ./demo; rc=$?
find "$t" -delete
[ $rc -eq 0 ] && echo "demo: behaves as stated" || { echo "demo: broken ($rc)"; exit 1; }
'''
PRE = '''#include <algorithm>
#include <unistd.h>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <memory>
#include <numeric>
#include <optional>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <vector>
#include "smart_dnn/Shape/Shape.hpp"
#include "smart_dnn/Shape/ShapeOperations.hpp"
#include "smart_dnn/Tensor/Tensor.hpp"
#include "smart_dnn/Tensor/BroadcastView.hpp"
#include "smart_dnn/Tensor/SliceView.hpp"
#include "smart_dnn/Tensor/AdvancedTensorOperations.hpp"
using namespace smart_dnn;
typedef Tensor<float> TF;
typedef AdvancedTensorOperations<float> Adv;
static int bad = 0;
#define CHECK(...) do { if (!(__VA_ARGS__)) { printf("wrong: %s (line %d)\\n", #__VA_ARGS__, __LINE__); bad = 1; } } while (0)
#define THROWS(...) do { bool thrown_ = false; try { __VA_ARGS__; } catch (const std::exception&) { thrown_ = true; } if (!thrown_) { printf("no exception: %s (line %d)\\n", #__VA_ARGS__, __LINE__); bad = 1; } } while (0)
static bool near(double a, double b, double tol = 1e-4) { return std::fabs(a - b) <= tol * (1 + std::fabs(b)); }
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def one(s):
    d = '/tmp/plant/' + s['id']
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs('/tmp/plant', exist_ok=True)
    sh('mkdir -p %s && cd /repo && git ls-files -z | xargs -0 cp -a --parents -t %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base' % (d, d, d))
    o = '/verif/seeded/' + s['id']
    for f, a, b in s['edits']:
        p = d + '/smart_dnn/' + f; t = open(p).read()
        if t.count(a) != 1: return s['id'], 'edit of %s matches %d times' % (f, t.count(a))
        open(p, 'w').write(t.replace(a, b))
    os.makedirs(o, exist_ok=True)
    diff = sh('git diff', cwd=d).stdout
    open(o + '/patch.diff', 'w').write(diff)
    open(o + '/demo.cpp', 'w').write(PRE + ''.join('#include "smart_dnn/%s"\n' % i for i in s.get('inc', [])) + 'int main() {\n' + s['demo'] + '\n    return bad;\n}\n' if 'int main' not in s['demo'] else PRE + ''.join('#include "smart_dnn/%s"\n' % i for i in s.get('inc', [])) + s['demo'])
    open(o + '/demo.sh', 'w').write(DEMO.replace('FLAGS', s.get('flags', '') + ' ' if s.get('flags') else ''))
    os.chmod(o + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(o + '/meta.json', 'w'), indent=1)
    def drop(m):
        shutil.rmtree(o); return s['id'], m
    r = sh('bash %s/demo.sh' % o, cwd='/repo')
    if r.returncode: return drop('demo fails on the unchanged tree: ' + (r.stdout + r.stderr)[-800:])
    r = sh('bash %s/demo.sh' % o, cwd=d)
    if r.returncode == 0: return drop('demo passes with the change')
    if r.returncode == 2 or 'error:' in r.stderr: return drop('does not compile ' + r.stderr[-600:])
    msg = r.stdout.strip().splitlines()
    r = sh('CC=gcc CXX=g++ cmake -G Ninja -Wno-dev -S tests -B _build -DCMAKE_BUILD_TYPE=Debug -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest && ninja -C _build RunTests', cwd=d)
    if r.returncode: return drop('tests do not build ' + r.stdout[-600:])
    r = sh('timeout 200 ./RunTests --gtest_output=xml:r.xml', cwd=d + '/_build')
    try:
        fl = [c.get('classname') + '.' + c.get('name') for c in ET.parse(d + '/_build/r.xml').iter('testcase') if c.find('failure') is not None]
    except Exception as e: return drop('tests crash: %s' % (r.stdout[-300:]))
    shutil.rmtree(d)
    if fl: return drop('tests notice: %s' % fl[:5])
    return s['id'], 'kept; ' + (msg[0] if msg else '')
with ThreadPoolExecutor(4) as ex:
    for i, m in ex.map(one, seeds): print(i, '|', m, flush=True)
