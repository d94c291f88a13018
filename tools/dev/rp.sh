# rp.sh PROP: for each replay, gcc's verdict against the model
for d in /verif/.replay/$1/*; do echo "== $d"; head -c 600 $d/what.txt | tail -n +2 | head -5; (cd $d && gcc -w -fsanitize=undefined -o /tmp/w/rpg p.c 2>&1 | head -3 && timeout 10 /tmp/w/rpg > /tmp/w/rpg.out 2>/tmp/w/rpg.err; head -2 /tmp/w/rpg.err; cmp /tmp/w/rpg.out expected.txt && echo gcc-agrees-with-model); done
