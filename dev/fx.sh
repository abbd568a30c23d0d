# fx.sh PROP "text": records HEAD of /repo as a fix
echo "fixed: property=$1 $(git -C /repo rev-parse --short=10 ${3:-HEAD}) $2" >> /verif/KNOWN_FINDINGS.txt
