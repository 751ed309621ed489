# hand.sh files: apply and run all checks
rm -rf /tmp/hd; mkdir /tmp/hd; cp -a /repo /tmp/hd/repo; git -C /tmp/hd/repo checkout -q -- .
python3 /verif/dev/hand.py /tmp/hd/repo "$@"
mkdir -p /tmp/hdv; rsync -a --delete --exclude .git --exclude seeded /verif/ /tmp/hdv/ 2>/dev/null || { rm -r /tmp/hdv; mkdir /tmp/hdv; cp -a /verif/. /tmp/hdv; }
(seq -w 1 30; echo 32) | xargs -P 6 -I{} bash -c '/tmp/dbg check /tmp/hdv /tmp/hd/repo P{} quick > /tmp/hd/P{}.out 2>&1; echo $? > /tmp/hd/P{}.rc'
for k in $(seq -w 1 30) 32; do [ "$(cat /tmp/hd/P$k.rc)" = 0 ] || { echo "== P$k rc $(cat /tmp/hd/P$k.rc)"; grep -a "VIOLATION\|differs\|:" /tmp/hd/P$k.out | cut -c1-220 | head -${H:-12}; }; done
