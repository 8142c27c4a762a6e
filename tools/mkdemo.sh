#!/bin/bash
# mkdemo.sh ID [lib files...]: lays out seeded/ID with a generic demo.sh and copies of the harness library files demo.c uses
D=/verif/seeded/$1; shift; mkdir -p $D
for f in "$@"; do cp /verif/lib/$f $D/; done
cat > $D/demo.sh <<'X'
#!/bin/bash
# cwd: the repository, after its build.  Exit 0: the property's behaviour is right.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
INC="-I$D -I$R/config/macro_config -I$R/include -I$R/include/bsl -I$R/include/crypto -I$R/include/tls -I$R/include/pki -I$R/include/auth -I$R/platform/Secure_C/include"
while read -r d; do case "$d" in ''|'#'*) ;; *) INC="$INC -I$R/$d" ;; esac; done < "$R/build/include_dirs.txt"
LIBS=""; for l in tls auth pki crypto bsl; do LIBS="$LIBS $R/build/libhitls_$l.a"; done
SB=$(find $R/platform/Secure_C -name '*.a' 2>/dev/null | head -1)
W=""; [ -f "$D/hx.c" ] && W="-Wl,--wrap=CRYPT_EAL_RandbytesEx"
gcc -g -O1 -w $(tr '\n' ' ' < $R/build/macros.txt) $INC "$D"/*.c -o $T/demo $W -Wl,--start-group $LIBS $SB -Wl,--end-group -lpthread -ldl -lm -lrt || exit 2
cd $T && timeout 200 ./demo > out.txt 2>&1; rc=$?
tail -5 out.txt; [ $rc = 0 ]
X
chmod +x $D/demo.sh
