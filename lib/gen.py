import sys,os; sys.path.insert(0,os.path.dirname(__file__))
import extract
ex=extract.build(sys.argv[1], sys.argv[2] if len(sys.argv)>2 else '/repo', os.path.dirname(os.path.abspath(sys.argv[1])))
print('\n'.join(ex.out))
for r in ex.rewrites: print(r,file=sys.stderr)
