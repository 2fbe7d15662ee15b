#!/bin/bash
# Layer A only, on a scratch copy of /repo with a planted change: tryseed.sh PATCH [PROP..]
P=$(realpath "$1"); d=$(mktemp -d /tmp/seedXXXX); cp -a /repo/manul $d/manul; cp /repo/Cargo.* $d/
(cd $d && patch -p1 -s < "$P") || echo PATCH FAILED
cd "$(dirname "$0")/.." && VERIF_REPO=$d python3 - "$d" <<'P'
import sys,json,os,re
sys.path.insert(0,'tools'); import layer_a
src=open('check.py').read().replace("\nmain()\n","\n")
g={'__file__':os.path.abspath('check.py'),'__name__':'x'}; exec(compile(src,'check.py','exec'),g)
a=g['run_layer_a']('X',sys.argv[1]+'/w')
if a['unavailable']: print('UNAVAILABLE',a['unavailable'])
props={f['key']:f['props'] for f in a['fns']}
for f in a['failures']:
    why=None if f['definite'] else 'no answer'
    if not f.get('stable',True): why='unstable'
    why=why or g['inconclusive'](f['fn'],a['extract'],a['base'],a["failures"])
    print(('MUTED(%s)'%why if why else 'ALARM'),f['fn'],f['message'],props.get(f['fn']))
print('lost',a['lost'])
P
case $d in /tmp/seed????) rm -r "$d";; esac
