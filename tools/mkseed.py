"""Development aid: turns the seeds in tools/seeds.py into /verif/seeded/<id>/, after confirming each one in a
scratch copy (applies, builds, stable tests pass, demo passes without and fails with it, touches original lines),
and reports which properties' analyses notice it.   usage: mkseed.py [--all] [id..]"""
import sys, os, json, subprocess, shutil, re
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import seeds
BASE = '19cede8'
W = '/tmp/seedwork'
REPO = W + '/repo'


def sh(cmd, cwd=None, timeout=600, env=None):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def setup():
    if not os.path.exists(REPO):
        os.makedirs(W, exist_ok=True)
        sh('cp -a /repo %s' % REPO)
        sh('cp -a /verif/build %s/build' % W)
    sh('git checkout -q -- . && git clean -fdq -e target && git fetch -q /repo && git reset -q --hard FETCH_HEAD', REPO)


def demo(dst, s):
    if s.get('kind'):
        for f in os.listdir(H + '/demo_' + s['kind']):
            if not f.startswith('__'):
                shutil.copy(H + '/demo_' + s['kind'] + '/' + f, dst)
        open(dst + '/demo.py', 'w').write(('import sys\nfrom receiver import *\nbinary, tmp = sys.argv[1:3]\n' if s['kind'] == 'sync' else 'import sys\nfrom crun import *\ntmp = sys.argv[1]\n') + s['script'].strip() + "\nprint('ok')\n")
        os.chmod(dst + '/demo.sh', 0o755)
        return
    for f in ('drv.rs', 'tsread.py', 'demo.sh'):
        shutil.copy(H + '/demo/' + f, dst)
    if 'script' in s:
        body = 'import sys\nfrom tsread import *\nbinary, tmp = sys.argv[1:3]\nT = []\n' + s['script'].strip() + '''
for t in T:
    try:
        check(binary, t[0], tmp + '/f', t[1] if len(t) > 1 else 256)
    except BadFile as e:
        print('FAIL', str(e)[:300])
        sys.exit(1)
print('ok')
'''
        open(dst + '/demo.py', 'w').write(body)
    else:
        for n, t in s['files'].items():
            open(dst + '/' + n, 'w').write(t)
    os.chmod(dst + '/demo.sh', 0o755)


def main():
    args = [a for a in sys.argv[1:] if a[0] != '-']
    todo = [s for s in seeds.SEEDS if (s['id'] in args if args else not os.path.exists('/verif/seeded/' + s['id']) or '--all' in sys.argv)]
    setup()
    env = dict(os.environ, CARGO_TARGET_DIR=REPO + '/target', CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
    stable = set(json.dumps(x) for x in [])
    for s in todo:
        sh('git checkout -q -- .', REPO)
        tmp = W + '/d'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        demo(tmp, s)
        bad = None
        for f, old, new in s['edits']:
            p = REPO + '/' + f
            t = open(p).read()
            n = t.count(old)
            if n != s.get('n', 1) and not (n >= 1 and 'nth' in s):
                bad = 'old text occurs %d times in %s: %r' % (n, f, old[:60])
                break
            if 'nth' in s:
                parts = t.split(old)
                k = s['nth']
                t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            else:
                t = t.replace(old, new)
            open(p, 'w').write(t)
        if bad:
            print(s["id"], 'BAD', bad)
            continue
        rc, patch = sh('git diff', REPO)
        # original lines?
        orig = 0
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh('git diff -U0', REPO)[1], re.M):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            if n:
                fs = set(f for f, _, _ in s['edits'])
                for f in fs:
                    bl = sh('git blame -s -L %d,%d HEAD -- %s' % (a, a + n - 1, f), REPO)[1]
                    orig += sum(1 for l in bl.splitlines() if l.startswith('^') or sh('git merge-base --is-ancestor %s %s' % (l.split()[0].lstrip('^'), BASE), REPO)[0] == 0)
        rc, o = sh('cargo test --workspace --offline --no-fail-fast -- --test-threads 8', REPO, env=env)
        fails = re.findall(r'^test (\S+) \.\.\. FAILED', o, re.M)
        if rc != 0:
            print(s["id"], 'BAD', 'no build' if 'could not compile' in o else 'tests fail: %s' % fails[:4])
            continue
        rc1, o1 = sh('bash %s/demo.sh' % tmp, REPO)
        e3 = dict(os.environ, REPO=REPO, SA_BUILD=W + '/build')
        rcf, of = sh('bash /verif/build.sh facts %s/facts' % W, env=e3)
        rcs, os_ = sh('ONLY=%s PYTHONHASHSEED=0 python3-vt /verif/sa/all.py %s/facts' % (s['property'], W))
        sh('git checkout -q -- .', REPO)
        rc0, o0 = sh('bash %s/demo.sh' % tmp, REPO) if '--nodemo0' not in sys.argv else (0, '')
        ok = rc0 == 0 and rc1 != 0 and orig > 0
        viol = [l for l in os_.splitlines() if l.startswith('VIOL')]
        mine = [l for l in viol if l.split()[1] == s['property']]
        print(s["id"], 'OK' if ok else 'BAD demo0=%d demo1=%d orig=%d' % (rc0, rc1, orig), '| demo:', o1.strip().splitlines()[-1][:100] if o1.strip() else '', '| static:',
              ('CAUGHT ' if mine else 'MISSED ') + s['property'], [l.split()[1] for l in viol], '|', (mine or viol or ['-'])[0][:160])
        if not ok:
            print('   ', o0[-300:])
            for l in os_.splitlines()[:3]:
                print('   ', l[:200])
            continue
        if not mine:
            for l in os_.splitlines()[:6]:
                print('   ', l[:250])
        dst = '/verif/seeded/' + s['id']
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(tmp, dst)
        open(dst + '/patch.diff', 'w').write(patch)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(dst + '/meta.json', 'w'), indent=1)


main()
