#!/bin/bash
# st.sh HARNESS ARGS...: one scenario, summary line
/verif/tools/one.sh "$@" | python3 -c "
import json,sys
d=json.loads(sys.stdin.read().splitlines()[-1]); print('$*',d['status'],d['wall_s'],'paths',d['paths'],'vc',d['vc_total'],'unk',d['vc_unknown'],'fail',d['vc_failed'],'taint',d['tainted'],'pend',d['pending'],'solver',d['solver_s'],d['unsupported'],[(v['kind'],v['msg']) for v in d['violations']],d.get('unknown_vc'),d.get('reach'))"
