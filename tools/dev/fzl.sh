# fzl.sh KINDS N SEED...
k=$1;n=$2;shift 2; i=0; rm -rf /tmp/w/fzall; mkdir /tmp/w/fzall
for s in "$@"; do python3 /tmp/w/fz.py $k $n $s; for d in /tmp/w/fz/*; do [ -d $d ] && { cp -r $d /tmp/w/fzall/$i; i=$((i+1)); }; done; done
bash /tmp/w/tr.sh /tmp/w/fzall/*
