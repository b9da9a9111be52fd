#!/usr/bin/env python3
"""mkseed.py DEFS.py [ID..]: makes and confirms seeded changes in a scratch copy of /repo. DEFS.py has SEEDS = [dict(id, property, file,
edits=[(old, new)], demo=C++ source, needs, breaks)]. A change is kept only if it builds, the stable tests pass with it, and its
demonstration passes without it and fails with it."""
import json, os, subprocess, sys, shutil
X = '/tmp/seedrepo'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds for this case; 1: it does not
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
clang++-18 -std=c++17 -O0 -g1 -w %s -DVALIJSON_USE_EXCEPTIONS=1 -Iinclude -Ithirdparty/nlohmann-json -Ithirdparty/rapidjson/include -Ithirdparty/picojson "$d/demo.cpp" -o "$t/demo" || exit 2
timeout 120 "$t/demo"
'''
HEAD = '''#include <iostream>
#include <string>
#include <vector>
#include <nlohmann/json.hpp>
#include <valijson/adapters/nlohmann_json_adapter.hpp>
#include <valijson/schema.hpp>
#include <valijson/schema_parser.hpp>
#include <valijson/validator.hpp>
using nlohmann::json;
using namespace valijson;
typedef adapters::NlohmannJsonAdapter A;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { std::cerr << "line " << __LINE__ << ": " #c "\\n"; bad = 1; } } while (0)
static bool valid(const std::string &schema, const std::string &doc, SchemaParser::Version v = SchemaParser::kDraft7, bool strict = true, ValidationResults *r = nullptr) {
    json s = json::parse(schema), d = json::parse(doc);
    Schema sc; SchemaParser p(v); A a(s); p.populateSchema(a, sc);
    Validator val(strict ? Validator::kStrongTypes : Validator::kWeakTypes);
    return val.validate(sc, A(d), r);
}
'''
sh = lambda c, **k: subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:]
    if not os.path.exists(X):
        sh(['cp', '-a', '/repo', X])
    sh(['git', '-C', X, 'fetch', '-q', 'origin'])
    for s in ns['SEEDS']:
        if ids and s['id'] not in ids:
            continue
        sh(['git', '-C', X, 'checkout', '-q', '--', '.'])
        d = os.path.join(ROOT, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        demo = s['demo'] if '#include' in s['demo'][:30] else HEAD + s['demo']
        open(d + '/demo.cpp', 'w').write(demo)
        open(d + '/demo.sh', 'w').write(DEMO % s.get('flags', ''))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r0 = sh(['bash', d + '/demo.sh'], cwd=X)
        f = os.path.join(X, 'include/valijson', s['file'])
        t = open(f).read()
        ok = True
        for o, n in s['edits']:
            if t.count(o) != 1:
                print(s['id'], 'EDIT matches', t.count(o), repr(o)[:100])
                ok = False
            t = t.replace(o, n)
        if not ok:
            shutil.rmtree(d)
            continue
        open(f, 'w').write(t)
        open(d + '/patch.diff', 'wb').write(sh(['git', '-C', X, 'diff']).stdout)
        r1 = sh(['bash', d + '/demo.sh'], cwd=X)
        b = sh('cmake -S %s -B %s/_b -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_PROJECT_valijson_INCLUDE=/opt/vp/cmake/system-deps.cmake -Dvalijson_REQUIRE_ALL_ADAPTER_TESTS=ON -Dvalijson_BUILD_TESTS=ON >/dev/null 2>&1; ninja -C %s/_b test_suite' % (X, X, X))
        tst = sh('./test_suite --gtest_brief=1 2>&1 | tail -40', cwd=X + '/_b') if b.returncode == 0 else None
        tail = tst.stdout.decode('utf-8', 'replace') if tst else b.stdout.decode('utf-8', 'replace')[-1500:]
        fails = [l for l in tail.split('\n') if l.startswith('[  FAILED') or 'FAILED TEST' in l]
        good = r0.returncode == 0 and r1.returncode not in (0, 2) and b.returncode == 0 and not fails and 'PASSED' in tail
        print(s['id'], 'OK' if good else 'REJECTED', 'clean', r0.returncode, 'patched', r1.returncode, 'build', b.returncode, fails[:3], '' if good else (r0.stdout + r1.stdout).decode('utf-8', 'replace')[-600:] + tail[-500:], flush=True)
        if not good:
            shutil.rmtree(d)
        sh(['git', '-C', X, 'checkout', '-q', '--', '.'])


main()
