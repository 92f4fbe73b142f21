# native search of every contract of a property on the current tree: none may be violated (python3-vt tools/natcheck.py C14 [secs])
import sys, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/irvc')
import check
from concurrent.futures import ThreadPoolExecutor
pid = sys.argv[1]; secs = sys.argv[2] if len(sys.argv) > 2 else '5'; only = sys.argv[3:]
C = check.Checker(pid, 'thorough', None, False); C.P.generate(); nat = C.P.build_native()
if not nat: print(C.P.native_err); sys.exit(1)
names = re.findall(r'^CONTRACT\((\w+)', open('%s/contracts/%s.cpp' % (V, pid)).read(), re.M)
names = subprocess.run([nat, 'list'], stdout=subprocess.PIPE).stdout.decode().split() if False else names
def one(c):
    o = '/tmp/nat_%s_%s.txt' % (pid, c); r = C.native(nat, [c, 'search', o, secs, '7'], float(secs) + 30); return '%-28s %s' % (c, r)
with ThreadPoolExecutor(8) as ex:
    for r in ex.map(one, [n for n in names if not only or n in only]): print(r, flush=True)
os._exit(0)
