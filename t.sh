#!/bin/bash
# dev helper: build and run the given checks, print a summary. usage: t.sh "P01 P02" [harness args]
ps=$1; shift
make -C /verif -j8 $(for p in $ps; do echo /verif/build/$p.bin; done) 2>&1 | grep -E "error:|Error [0-9]|undefined reference"
for p in $ps; do /verif/build/$p.bin --replays /tmp/rp --out /tmp/$p.json "$@" 2>&1 | tail -30; python3 -c "
import json;d=json.load(open('/tmp/$p.json'));print('$p',round(d['search_s'],1),'CUT' if d['budget_cut'] else '')
for f in d['facets']: print('  ',f['facet'],f['evaluations'],'nt',f['distinct_nontrivial'],'disc',f['discarded'],'slow',round(f.get('slowest_case_s',0),2),f['labels'])
[print('VIOL',v['facet'],v['message'][:3000],'\n'+v['case'][:3000]) for v in d['violations']]
print(d.get('unconfirmed',''),d['known'])"; done
