#!/bin/sh
# bt.sh REPLAY: stack where the recorded violation is raised
B=$(python3 -c "
import json,sys;sys.path.insert(0,'$(dirname $0)/..')
import check;from props import PROPS
d=json.load(open('$1'));u=[x for x in PROPS[d['property']]['units'] if x['name']==d['unit']][0];u.setdefault('defs',[]);u.setdefault('mode','virt');print(check.build(u),'--scn',d['scn'],'--exec',d['seed'])")
gdb -q -batch -ex "rbreak ^die" -ex "break std::terminate" -ex run -ex bt --args $B 2>&1 | grep -E "^#" | cut -c1-220 | head -${2:-25}
