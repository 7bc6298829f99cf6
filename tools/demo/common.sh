# scratch directory, configuration and compilation for the demonstrations; everything happens below $W
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/fdbdemo.XXXXXX)
trap 'kill $(jobs -p) 2>/dev/null; rm -rf "$W"' EXIT
S=/opt/vp/venv/lib/python3.12/site-packages
B=/repo/_build
mkdir -p $W/home/etc/fdb $W/root $W/root2
cat > $W/schema <<'Z'
param: Param;
step: Step;
date: Date;
levelist: Double;
expver: Expver;
time: Time;

[ class, expver, stream, date, time, domain?
    [ type, levtype
        [ step, levelist?, param ] ] ]
Z
cp $W/schema $W/home/etc/fdb/schema
cat > $W/config.yaml <<Z
---
type: local
engine: toc
schema: $W/schema
spaces:
  - handler: Default
    roots:
      - path: $W/root
Z
export FDB_HOME=$W/home FDB5_HOME=$W/home FDB5_CONFIG_FILE=$W/config.yaml
unset FDB5_CONFIG FDB_ROOT_DIRECTORY
export LD_LIBRARY_PATH=$B/lib:$S/eckitlib/lib64:$S/metkitlib/lib64:$S/eccodeslib/lib64:$S/eckitlib.libs${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}
compile() {  # compile source.cc output [flags]
    local src=$1 out=$2; shift 2
    local inc="-I/repo/src -I$B/src"
    for d in metkitlib/include metkitlib/include/metkit eckitlib/include eckitlib/include/eckit eckitlib/include/eckit/option eccodeslib/include; do inc="$inc -isystem $S/$d"; done
    g++ -std=gnu++17 -O1 -g -w $inc -I"$HERE" "$src" -o "$out" "$@" -L$B/lib -lfdb5 -L$S/metkitlib/lib64 -lmetkit -L$S/eccodeslib/lib64 -leccodes \
        -L$S/eckitlib/lib64 -leckit_option -leckit_geo -leckit_codec -leckit_maths -leckit_spec -leckit -lpthread \
        -Wl,-rpath-link,$S/eckitlib/lib64:$S/metkitlib/lib64:$S/eccodeslib/lib64:$S/eckitlib.libs || { echo "demo does not compile"; exit 0; }
}
shim() {  # builds $W/shim.so
    gcc -O1 -w -shared -fPIC "$HERE/shim.c" -o $W/shim.so -ldl || { echo "shim does not compile"; exit 0; }
}
