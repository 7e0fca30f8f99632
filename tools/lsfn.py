import sys, tempfile, shutil, os, re
sys.path[:0]=['/verif/engine']
import irgen
d=tempfile.mkdtemp(); m=irgen.build([a for a in sys.argv[2:]], d)
for n,f in m.funcs.items():
    if re.search(sys.argv[1], f.dem): print(('DEF ' if f.blocks else 'ext ')+f.dem)
shutil.copy([os.path.join(d,x) for x in os.listdir(d) if x.endswith('.ll')][0], '/tmp/x/last.ll')
shutil.rmtree(d)
