#!/usr/bin/env python3
import sys,json
for l in sys.stdin:
    if not l.startswith('{'): print(l,end=''); continue
    d=json.loads(l)
    if 'paths' in d:
        bad = d['failed'] or d['limits'] or d['panics'] or not d['complete'] or (d['obligations']==0 and d['kind']=='proof')
        print(('BAD ' if bad else 'ok  ')+f"{d['property']} {d['harness']}: paths {d['paths']} obl {d['discharged']}/{d['obligations']} {d['by']} inf {d['infeasible']} {d['wall']:.1f}s smt {d['smt_time']:.1f}")
        for f in d['failed'][:int(sys.argv[1]) if len(sys.argv)>1 else 3]: print('     FAIL',f['label'],f['detail'][:700])
        for f in d['limits'][:2]: print('     LIMIT',f[:500])
        for f in d['panics'][:2]: print('     PANIC',f[:500])
    else:
        print(('BAD ' if d['nfail'] or not d['accepted'] else 'ok  ')+f"{d['property']} {d['harness']}: acc {d['accepted']} disc {d['discarded']} nfail {d['nfail']} rnd {d.get('rounding')} checked {d['checked']} skipped {d['skipped']} {d['wall']:.1f}s")
        for f in d['fails'][:2]: print('     FAIL',f['case'],f['label'],f['detail'][:300],f['inputs'][:16])
