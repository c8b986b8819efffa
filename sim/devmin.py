"""Development aid: minimises the violations collected by check.py --keep-going. devmin.py <property> <found.jsonl>"""
import importlib, json, sys, check
from concurrent.futures import ThreadPoolExecutor
prop = importlib.import_module('props.' + sys.argv[1].lower())
for attr, default in (('FLAVOURS', [{}]), ('tasks', lambda c: [(0, c)]), ('judge', check.default_judge), ('shrink', lambda c: iter(()))):
    if not hasattr(prop, attr):
        setattr(prop, attr, default)
stage = check.builder.ROOT / getattr(prop, 'VARIANT', 'sched') / 'stage'
def work(item):
    runner = check.Runner(prop, stage)
    try:
        small, n = check.minimise(prop, runner, item['case'], item['v']['class'], 60)
        vs, _ = runner.run(small)
        v = [w for w in vs if w['class'] == item['v']['class']]
        return item['index'], v[0] if v else None, small
    finally:
        runner.close()
items = {}
for line in open(sys.argv[2]):
    it = json.loads(line)
    items.setdefault(it['index'], it)
with ThreadPoolExecutor(8) as ex:
    for i, v, small in ex.map(work, list(items.values())[:int(sys.argv[3]) if len(sys.argv) > 3 else 16]):
        for s in small.get('sims', []):
            if 'trace' in s: s['trace'] = s['trace'] if len(s['trace']) < 8 else len(s['trace'])
        print(i, v and v['class'], v and v['detail'][:260]); print('   ', json.dumps(small))
