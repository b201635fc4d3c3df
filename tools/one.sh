#!/bin/bash
# one.sh HARNESS FN ARGS... : runs one scenario (development helper); keeps the linked IR in build/dev-HARNESS.bc
h=$1; shift
cd /verif && python3 - "$h" "$@" <<'P'
import sys,os,subprocess
sys.path.insert(0,'/verif'); import check, glob, hashlib
h=sys.argv[1]; check.ensure_engine()
out='/verif/build/dev-%s.bc'%h
srcs=['/verif/harness/'+h]+sorted(glob.glob(check.REPO+'/src/**/*.cpp',recursive=True))+['/verif/stubs/rt.cpp']
from concurrent.futures import ThreadPoolExecutor
d='/verif/build/dev'; os.makedirs(d,exist_ok=True)
def comp(s):
    o=d+'/'+hashlib.md5(s.encode()).hexdigest()[:8]+'.bc'
    r=subprocess.run([check.CXX]+check.STUB+check.IRFLAGS+check.INC+[s,'-o',o]); assert r.returncode==0
    return o
with ThreadPoolExecutor(8) as p: bcs=list(p.map(comp,srcs))
subprocess.check_call([check.LLVM_LINK]+bcs+['-o',out])
P
exec /verif/build/symx /verif/build/dev-$h.bc "$@"
