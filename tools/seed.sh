#!/bin/bash
# seed.sh ID PROP FILE 'python expr on s' 'needs' 'what_it_breaks'   demo on stdin (python, run with PYTHONPATH=/repo/src)
# makes /verif/seeded/ID from a scratch copy, checks tests pass and the demo differs
set -e
id=$1; S=/tmp/seedrepo; D=/verif/seeded/$id
mkdir -p "$D"
cat > "$D/demo.py"
[ -d $S/.git ] || cp -a /repo $S
git -C $S checkout -q -- . ; git -C $S fetch -q /repo HEAD 2>/dev/null && git -C $S reset -q --hard FETCH_HEAD
python3 - "$S/src/avb/$3" "$4" <<'PY'
import sys
p=sys.argv[1]; s=open(p).read(); o=s
s=eval(sys.argv[2]); assert s!=o,'no change'; open(p,'w').write(s)
PY
git -C $S diff > "$D/patch.diff"
PYEXE=${PYEXE:-/opt/venv/bin/python}
cat > "$D/demo.sh" <<EOS
#!/bin/bash
# exit 0 when the property holds
d=\$(cd "\$(dirname "\$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="\$PWD/src"
exec $PYEXE "\$d/demo.py"
EOS
chmod +x "$D/demo.sh"
python3 - "$D/meta.json" "$2" "$5" "$6" <<'PY'
import sys,json
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
PY
export PYTHONDONTWRITEBYTECODE=1
if [ -n "$EXT" ]; then (cd $S && rm -rf src/avb/_ext*.so src/avb/_ext.cpp build/temp.* build/lib.* && PYAVB_BUILD_EXT=1 /opt/venv-ext/bin/python setup.py -q build_ext --inplace > /tmp/seed.b 2>&1 || tail -5 /tmp/seed.b; ls src/avb/_ext*.so); fi
(cd /repo && bash "$D/demo.sh" >/tmp/seed.o1 2>&1 && echo "demo clean: ok" || { echo "demo clean: FAIL"; tail -5 /tmp/seed.o1; })
(cd $S && bash "$D/demo.sh" >/tmp/seed.o2 2>&1 && echo "demo patched: NOT FAILING" || { echo "demo patched: fails ok"; tail -2 /tmp/seed.o2; })
(cd $S && PYTHONPATH=$S/src PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider 2>&1 | tail -3; git status --short | head)
if [ -n "$EXT" ]; then (cd $S && PYTHONPATH=$S/src /opt/venv-ext/bin/python -m pytest tests -q -p no:cacheprovider 2>&1 | tail -2); fi
rm -rf /tmp/m; mkdir -p /tmp/m; cp -a $S/src $S/examples /tmp/m/
cd /verif; AVB_REPO=/tmp/m python3 check.py $2 | tail -3
git -C $S checkout -q -- .
