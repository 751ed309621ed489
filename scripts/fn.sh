# fn.sh NAME... : prints functions with a mark for original lines
cd /repo
for n in "$@"; do
 for f in $(grep -lE "^func (\([a-z]+ [^)]*\) )?$n(\[|\()" -r internal --include=*.go | grep -v _test); do
  s=$(grep -nE "^func (\([a-z]+ [^)]*\) )?$n(\[|\()" $f | head -1 | cut -d: -f1)
  e=$(awk -v s=$s 'NR>s && /^}/{print NR; exit}' $f)
  echo "== $f:$s"
  git blame -s -L $s,$e $f 2>/dev/null | awk '{o=($1 ~ /^\^?4d7d5db/)?" ":"#"; sub(/^[^)]*\) ?/,""); print o $0}' | cut -c1-170
 done
done
