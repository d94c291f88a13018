# tr.sh DIR...: show the traces
A=$(cd /tmp/w/vv && VERIF_REPO=/tmp/w/rc python3 -c "
from vlib import core; print(core.build('asan'), core.build('wccasan'))")
set -- $A -- "$@"; D=$1; W=$2; shift 3
for d in "$@"; do echo "=== $d: $(cat $d/cmd.txt | sed 's|[^ ]*/||g')"; c=$(cat $d/cmd.txt); t=$(basename ${c%% *}); [ $t = wcc ] && B=$W || B=$D
 (cd $d; mkdir -p inc; ASAN_OPTIONS=handle_abort=1:detect_leaks=0 UBSAN_OPTIONS=print_stacktrace=1 timeout 20 $B/$t ${c#* } 2>&1 >/dev/null | grep -a "#[0-9].*src/\|runtime err\|Assert" | sed 's|/tmp[^ ]*/src|src|;s|0x[0-9a-f]* in||' | head -${N:-7} | cut -c1-140); done
