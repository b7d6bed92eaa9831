#!/usr/bin/env python3
"""C20's second stage: the small concurrent program under Miri, many schedules.
usage: miri_c20.py SEED TIER; prints and adds to the evidence; exit 1 on a violation."""
import json, os, re, subprocess, sys, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seed, tier = int(sys.argv[1]), sys.argv[2]
n, rounds, limit = (8, 4, 240) if tier == 'quick' else (160, 8, 2400)
env = dict(os.environ, MIRIFLAGS=f'-Zmiri-ignore-leaks -Zmiri-many-seeds={seed * 1000}..{seed * 1000 + n}',
           CARGO_TARGET_DIR=f'{here}/miri/target', RUSTFLAGS='', RUSTUP_TOOLCHAIN='nightly')
t = time.time()
try:
    r = subprocess.run(['cargo', 'miri', 'run', '--offline', '-q', '--manifest-path', f'{here}/miri/Cargo.toml', '--', str(rounds)],
                       env=env, capture_output=True, text=True, timeout=limit)
    out = r.stdout + r.stderr
except subprocess.TimeoutExpired as e:
    out = (e.stdout or b'').decode(errors='replace') + (e.stderr or b'').decode(errors='replace')
done = out.count('MIRI-DONE')
bad = None
for pat in (r'MIRI-VIOLATION (.*)', r'error: (Undefined Behavior: .*)', r'error: (deadlock.*)', r'error: (the evaluated program deadlocked.*)', r"(panicked at /repo/.*\n.*)"):
    m = re.search(pat, out)
    if m:
        bad = m.group(1).strip().replace('\n', ' ')
        break
p = f'{here}/evidence/C20.json'
try:
    ev = json.load(open(p))
    ev['coverage']['miri'] = {'schedules_completed': done, 'schedules_planned': n, 'wall_s': round(time.time() - t, 1),
                              'watched': 'data races, undefined behaviour, deadlock, prefix and clock rules'}
    if bad:
        ev['violations'] = ev.get('violations', 0) + 1
    json.dump(ev, open(p, 'w'), indent=1)
except OSError:
    pass
print(f'C20 miri: {done} of {n} schedules completed in {time.time() - t:.0f} s')
if bad:
    os.makedirs(f'{here}/replays', exist_ok=True)
    rp = f'{here}/replays/C20-miri.json'
    json.dump({'property': 'C20', 'signature': 'miri', 'message': bad, 'output': out[-6000:],
               'replay': f'MIRIFLAGS="{env["MIRIFLAGS"]}" cargo miri run --manifest-path {here}/miri/Cargo.toml -- {rounds}'}, open(rp, 'w'), indent=1)
    print(f'C20: [miri] {bad[:400]}')
    print(f'VIOLATION property=C20 replay={rp}')
    sys.exit(1)
if done == 0:
    print('C20 miri: no schedule completed (not counted as a violation)')
