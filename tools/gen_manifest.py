#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks that exist."""
import json, os, subprocess, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(f'{here}/properties.jsonl')]
mods = open(f'{here}/harness/src/props/mod.rs').read()
done = [i for i in ids if f'pub mod {i.lower()};' in mods]
T = {
 'C01': ('runtime monitor: online output/clock checker against a frame-counter model over random transport histories', 'every rendered sample and every reading of the clock of thousands of start/stop/process/route histories is compared with the model; histories not generated are not covered'),
 'C02': ('runtime monitor: metamorphic comparison of executions of the same program under different block partitions', 'programs over every node type are rendered under several partitions and maximum block sizes and compared sample by sample'),
 'C03': ('runtime monitor: probe processors recording every node input, checked against a routing model', 'probe nodes log the exact input of every block in random graphs; the checker recomputes each from the recorded outputs'),
 'C04': ('runtime monitor: probe processors under random edit histories, checked against the model of the edited graph', 'as C03 while nodes and connections are created, dropped and reconnected between blocks'),
 'C05': ('runtime monitor: per-sample observation of parameter values against a schedule model', 'a probe records every value a parameter takes; checker models schedules, ramps, cancellations and clamping'),
 'C06': ('runtime monitor: shadow-memory checker over random buffer operations (all bytes compared after every operation)', 'each operation is followed by a comparison of every sample of every live buffer with a shadow model'),
 'C07': ('runtime monitor: offline checker of sampler output against a voice model', 'sources are chosen so that any sample identifies its position; every frame is compared'),
 'C08': ('runtime monitor: offline checker of looping sampler output against a voice model', 'as C07 with looping'),
 'C09': ('runtime monitor: envelope trace checker (monotonicity, targets, event frames) over random note histories', 'the envelope of every frame is observed through a constant input'),
 'C10': ('runtime monitor: exactly-once/in-order checker over recorded frames with unique frame ids', 'every input frame carries an id; recordings are compared with the ids that were due'),
 'C11': ('runtime monitor: notification-trace checker against a reference envelope follower', 'every notification is compared in count, order, channel and value'),
 'C12': ('runtime monitor: per-sample comparison with the gain matrix over random level histories', 'all matrix sizes up to 8x8'),
 'C13': ('runtime monitor: per-sample comparison with the gain/pan law under automation', 'all samples compared with the law applied to the modelled parameter'),
 'C14': ('runtime monitor: per-sample comparison with a reference phase accumulator in double precision', 'tables, frequencies, automations and sample rates are random'),
 'C15': ('runtime monitor: reference filter, spectral response measurement and stability/decay monitors', 'every filter type over its parameter ranges, static and modulated'),
 'C16': ('runtime monitor: static-curve and invariant checker over measured compressor output', 'steady-state levels against the curve; invariants over arbitrary programme'),
 'C17': ('runtime monitor: per-sample comparison with direct convolution', 'random impulse lengths, block sizes, wet/dry'),
 'C18': ('runtime monitor: transfer-function measurement against the named shape', 'random shapes, thresholds, overdrive, mix'),
 'C19': ('runtime monitor: allocation and blocking monitor (counting allocator, lock/futex/syscall observation) on the audio thread', 'every process call of the workloads is bracketed; any allocation, deallocation or wait inside one is reported'),
 'C20': ('runtime monitor: linearizability-style checker over concurrent command/process histories, with stress and injected delays; race detector in the thorough tier', 'real threads; each process call has to reflect exactly the commands that its interval allows'),
 'C21': ('runtime monitor: algebraic-law checker over random and boundary values', 'exact integer arithmetic is the reference for timestamps'),
 'C22': ('runtime monitor: lifetime accounting (destructor counts, live heap, threads) over create/drop histories', 'probe processors count their destructions'),
 'C23': ('runtime monitor: panic, hang and finiteness monitors over API fuzzing', 'random programs over the whole public API in documented ranges'),
 'C24': ('runtime monitor: bitwise comparison of repeated and concurrent executions', 'same program alone, repeated, beside other engines and threads'),
}
hooks = [l.split()[0] for l in subprocess.run(['git','-C','/repo','log','--format=%H %s'],capture_output=True,text=True).stdout.splitlines() if 'verification hooks' in l]
m = {
 'version': 1,
 'setup_cmd': './check.sh list',
 'hooks': {'guard': 'rawdio_verif', 'enable': 'RUSTFLAGS="--cfg rawdio_verif" (set by check.sh)', 'source_commits': hooks},
 'checks': [
  {'property': i, 'quick_cmd': f'./check.sh {i} --tier quick', 'thorough_cmd': f'./check.sh {i} --tier thorough',
   'technique': T[i][0], 'level': 'exploration', 'level_note': T[i][1]} for i in done],
 'not_applicable': [{'property': i, 'reason': 'its monitor is not built yet'} for i in ids if i not in done],
}
json.dump(m, open(f'{here}/MANIFEST.json','w'), indent=1)
print(len(done), 'checks')
