"""Development aid: devcase.py <property> <index in a found.jsonl or replay file> <file> [key=value ...] runs one case in this process tree and prints the result"""
import importlib, json, sys, check, copy
prop = importlib.import_module('props.' + sys.argv[1].lower())
for attr, default in (('FLAVOURS', [{}]), ('tasks', lambda c: [(0, c)]), ('judge', check.default_judge)):
    if not hasattr(prop, attr):
        setattr(prop, attr, default)
case = None
lines = open(sys.argv[3]).read().split('\n')
for k, line in enumerate(lines):
    if line.startswith(sys.argv[2] + ' ') and lines[k + 1].startswith('    {'):
        case = json.loads(lines[k + 1])
    elif line.startswith('{"index": ' + sys.argv[2] + ','):
        case = json.loads(line)['case']; break
for kv in sys.argv[4:]:
    path, v = kv.split('=', 1)
    o = case
    *ks, last = path.split('.')
    for x in ks: o = o[int(x)] if isinstance(o, list) else o[x]
    if v == 'DEL': o.pop(last, None)
    else: o[last] = json.loads(v)
runner = check.Runner(prop, check.builder.ROOT / 'sched/stage')
vs, results = runner.run(case)
runner.close()
for v in vs: print(v['class'], v['detail'][:1500])
for r in results: print(json.dumps({k: v for k, v in r.get('ok', {}).items() if k not in ('violations','trace')})[:1500])
