import sys, time
sys.path.insert(0, '/verif')
from pyvc import run, src, spec
from pyvc.contract import REG
import contracts
contracts.load()
prog = src.Program()
spec._Enums.prog = prog
pat = sys.argv[1]
for c in REG.all:
    if pat in c.id and c.prove:
        r = run.prove(c, prog)
        print(c.id, r['status'], r['note'], 'obl', len(r['obligations']), 'gen', r['gen_s'], 'wall', r.get('wall'), 'pre', r.get('pre_sat'))
        for o in r['obligations']:
            if o['result'] != 'discharged' or '-v' in sys.argv:
                print('   ', o['result'], o['name'], o['line'], o['backend'], o['time'])
        if r.get('replay'): print('   REPLAY', r['replay'])
        elif r.get('replays'): print('   replays', r['replays'][:2])
        if '-m' in sys.argv: print(r.get('model'))
    if pat in c.id and '-p' not in sys.argv:
        b = run.bounded(c, 3, 1)
        print('   bounded', {k: v for k, v in b.items() if k not in ('samples','id')})
