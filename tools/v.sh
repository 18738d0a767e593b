#!/bin/bash
# weave one contract file and run the verifier, human readable:  v.sh C06
cd /verif/tools && python3 - "$1" <<'P' && verus /tmp/$1.rs --multiple-errors 6 --rlimit ${RL:-30} --num-threads 6 "${@:2}" 2>&1 | head -n ${N:-80}
import sys; sys.path.insert(0,'/verif/tools')
from weave import Weaver
w=Weaver(__import__('os').environ.get('VREPO','/repo'),'/verif/contracts'); t=w.weave(sys.argv[1]+'.vrs'); open('/tmp/%s.rs'%sys.argv[1],'w').write(t)
P
