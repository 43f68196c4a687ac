#!/bin/bash
# par_seeds.sh N ID... : try_seed.sh of many planted bugs, N at a time, each
# worker on its own copies of /repo, /verif and /opt/vp (private mounts), so
# that the real ones stay as they are.  EXTRA="F01 ..." are further checks.
n=$1; shift
base=${WORK:-/tmp/wk}
printf '%s\n' "$@" >$base.queue
worker() {
    w=$base/$1
    mkdir -p $w
    for d in repo verif opt/vp; do
        mkdir -p $w/$(basename $d)
        rsync -a --delete /$d/ $w/$(basename $d)/ 2>/dev/null || { rm -rf $w/$(basename $d); cp -a /$d $w/$(basename $d); }
    done
    unshare -m bash -c "
        mount --bind $w/repo /repo; mount --bind $w/vp /opt/vp; mount --bind $w/verif /verif
        cd /verif
        while true; do
            id=\$(flock $base.lock bash -c 'head -1 $base.queue; sed -i 1d $base.queue')
            [ -n \"\$id\" ] || break
            DEMO_TARGET=$w/demotarget bash tools/try_seed.sh \$id $EXTRA >$base.\$id.log 2>&1
            cat $base.\$id.log >>$base.log
        done"
}
: >$base.log
for i in $(seq $n); do worker $i & done
wait
