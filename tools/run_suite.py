import sys; sys.path[:0]=['/verif/vc','/verif/conc','/verif/sim']
import env, importlib, suite, os
for f in sorted(os.listdir('/verif/conc')):
    if f.startswith('s_'): importlib.import_module(f[:-3])
for s in suite.SUITES[sys.argv[1]]:
    r=suite.run_suite(s,int(os.environ.get('SEED','1')),int(sys.argv[2]) if len(sys.argv)>2 else s.quick,600)
    print(s.name,r['evaluations'],r['skipped'],len(r['keys']),r['wall'])
    if r['failure']: print(r['failure']['error']); print(r['failure']['trace'])
