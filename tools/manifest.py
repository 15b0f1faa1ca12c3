"""writes ../MANIFEST.json out of config.py"""
import json, os, subprocess, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import config
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
m = dict(
    version=1,
    setup_cmd='./setup',
    hooks=dict(guard='verif (cfg)', enable="RUSTFLAGS='--cfg verif=\"analysis\"' (or runners, ring_buffer, allocator, measurer, presentable -- see src/verif_hooks.rs), set by tools/driver.py; contracts are compiled under cargo kani only",
               source_commits=[l.split()[0] for l in reversed(log) if 'verification hooks' in l]),
    checks=[dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'./check {i} --thorough', evidence_file=f'evidence/{i}.json',
                 technique=config.P[i]['technique'], level=config.P[i]['level'], level_note=config.P[i]['note']) for i in ids if i in config.P],
    not_applicable=[dict(property=i, reason=config.NOT_APPLICABLE[i]) for i in ids if i not in config.P],
    notes='See DESIGN.md')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
