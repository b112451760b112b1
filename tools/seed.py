#!/usr/bin/env python3
"""seed.py DIR...: builds /verif/seeded/<id> from a source file DIR/<id>.seed and confirms it in a scratch copy.

A source file holds sections, each starting with a line '=== name args':
  === meta            json {"property","needs","what_it_breaks"}
  === edit FILE       <old text> / '---' line / <new text>    (may repeat)
  === demo [flags]    body of demo_test.go
"""
import json, os, re, shutil, subprocess, sys
from pathlib import Path
V = Path('/verif'); KIT = V/'tools/seedkit'; WT = Path('/tmp/seedwt')

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def parse(p):
    out, cur = [], None
    for line in p.read_text().split('\n'):
        m = re.match(r'^=== (\w+) ?(.*)$', line)
        if m:
            cur = (m[1], m[2], []); out.append(cur)
        elif cur:
            cur[2].append(line)
    return out

def fresh():
    if WT.exists(): shutil.rmtree(WT)
    sh(f'cp -a /repo {WT} && cd {WT} && git checkout -q -- . && git clean -qfd')

def main(p):
    sid = p.stem
    fresh()
    meta = flags = demo = None
    for kind, arg, lines in parse(p):
        text = '\n'.join(lines)
        if kind == 'meta': meta = json.loads(text)
        elif kind == 'demo': flags, demo = arg, text.strip('\n') + '\n'
        elif kind == 'edit':
            old, new = text.split('\n---\n') if '\n---\n' in text else text.split('\n---')
            old, new = old.strip('\n'), new.strip('\n')
            f = WT/arg; s = f.read_text()
            if s.count(old) != 1:
                print(sid, 'EDIT: found', s.count(old), 'times in', arg); return False
            f.write_text(s.replace(old, new))
    bad = sh('gofmt -l .', cwd=WT).stdout.strip()
    if bad: sh('gofmt -w ' + bad.replace('\n', ' '), cwd=WT)
    diff = sh('git diff', cwd=WT).stdout
    d = V/'seeded'/sid
    if d.exists(): shutil.rmtree(d)
    d.mkdir(parents=True)
    (d/'patch.diff').write_text(diff)
    (d/'demo_test.go').write_text(demo)
    (d/'demo.sh').write_text((KIT/'demo.sh').read_text().replace(' @FLAGS@', (' ' + flags) if flags else ''))
    os.chmod(d/'demo.sh', 0o755)
    if 'talk(' in demo: shutil.copy(KIT/'kit_test.go', d/'kit_test.go')
    shutil.copy(KIT/'go.mod.in', d/'go.mod.in'); shutil.copy(V/'harness/go.sum', d/'go.sum')
    shutil.copytree(V/'harness/standins', d/'standins')
    (d/'meta.json').write_text(json.dumps(meta, indent=1) + '\n')
    # confirm
    b = sh('go build ./... 2>&1 | head -5; bash /tmp/seedtest.sh', cwd=WT)
    if b.returncode: print(sid, 'TESTS FAIL with patch\n', b.stdout[-1500:]); return False
    r = sh(f'bash {d}/demo.sh', cwd=WT)
    if r.returncode == 0 or 'FAIL' not in r.stdout or 'build failed' in r.stdout: print(sid, 'DEMO does not fail with patch\n', r.stdout[-1500:]); return False
    bad_out = r.stdout
    sh('git checkout -q -- .', cwd=WT)
    r = sh(f'bash {d}/demo.sh', cwd=WT)
    if r.returncode: print(sid, 'DEMO fails unpatched\n', r.stdout[-1500:]); return False
    print(sid, 'ok:', [l.strip() for l in bad_out.split('\n') if 'demo_test.go:' in l or 'panic' in l or 'RACE' in l][:1])
    return True

ok = all([main(Path(a)) for a in sys.argv[1:]])
shutil.rmtree(WT, ignore_errors=True)
sys.exit(0 if ok else 1)
