#!/usr/bin/env python3
"""seedtool.py verify ID...   confirms planted changes in a scratch copy of /repo:
applies, builds, keeps the stable tests passing, demo passes without and fails with it,
and whether the property's quick check reports it (against the copy)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = {**os.environ, 'HOME': '/root', 'GOROOT': '/opt/veriftools/go1.27.3', 'PATH': '/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'],
       'GOPATH': '/root/go', 'GOMODCACHE': '/root/go/pkg/mod', 'GOCACHE': '/root/.cache/go-build', 'GOTOOLCHAIN': 'local', 'GOPROXY': 'off',
       'GO111MODULE': 'on', 'GOWORK': 'off'}

def sh(cmd, cwd, env=ENV, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def tests(repo, tmp):
    """test names that pass in xproto (the only package with stable tests)"""
    mod = os.path.join(tmp, 'root.mod')
    shutil.copy(os.path.join(repo, 'go.mod'), mod)
    sums = set(open(os.path.join(repo, 'go.sum'))) | set(open('/opt/vp/mods/root.extra.sum'))
    open(os.path.join(tmp, 'root.sum'), 'w').writelines(sorted(sums))
    sh(['go', 'mod', 'edit', '-require=github.com/golang/protobuf@v1.5.4', mod], repo)
    rc, out = sh(['go', 'vet', '-mod=mod', '-modfile', mod, './netx/...', './xproto', '.'], repo)
    rc, out = sh(['go', 'test', '-mod=mod', '-modfile', mod, '-vet=off', '-count=1', './xproto', './netx/...', './types/...', './slice/...'], repo)
    rc2, out2 = sh(['go', 'build', '-mod=mod', '-modfile', mod, './...'], repo)
    return rc == 0 and rc2 == 0, out + out2

def verify(i, check=True, props=None):
    d = os.path.join(V, 'seeded', i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='seed-')
    try:
        repo = os.path.join(tmp, 'repo')
        sh(['cp', '-a', '/repo', repo], '/')
        demo = os.path.join(tmp, 'demo')
        shutil.copytree(d, demo)
        for f in ('patch.diff', 'meta.json'):
            os.remove(os.path.join(demo, f))
        rc0, out0 = sh(['bash', os.path.join(demo, 'demo.sh')], repo)
        rc, out = sh(['git', 'apply', os.path.join(d, 'patch.diff')], repo)
        if rc:
            return '%s: PATCH DOES NOT APPLY %s' % (i, out)
        ok, tout = tests(repo, tmp)
        rc1, out1 = sh(['bash', os.path.join(demo, 'demo.sh')], repo)
        res = '%s [%s]: tests %s, demo clean=%d patched=%d' % (i, meta['property'], 'pass' if ok else 'FAIL', rc0, rc1)
        if not ok: res += '\n' + tout[-1500:]
        if rc0: res += '\n' + out0[-1500:]
        if check:
            for p in props or [meta['property']]:
                rc, out = sh([sys.executable, os.path.join(V, 'run.py'), p, 'quick'], V, env={**ENV, 'XT_REPO': repo, 'XT_EVIDENCE': os.path.join(tmp, 'ev'), 'VERIF_SEED': os.environ.get('VERIF_SEED', '1')})
                first = [l for l in out.splitlines() if l.startswith('  ')][:1]
                res += '; %s %s' % (p, {0: 'MISSED', 1: 'caught'}.get(rc, 'BROKEN ' + out[-800:])) + (first[0] if first else '')
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    args = sys.argv[2:] or sorted(os.listdir(os.path.join(V, 'seeded')))
    for i in args:
        print(verify(i, check=sys.argv[1] != 'demo'), flush=True)
