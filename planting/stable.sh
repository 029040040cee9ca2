# stable.sh TREE TMP: builds TREE in TMP and prints how many stable tests pass
export CC=gcc CXX=g++
cmake -S "$1" -B "$2/b" -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DPORTABLE=ON -DCMAKE_CXX_FLAGS=-Wno-error >/dev/null 2>&1 || { echo cmake failed; exit; }
ninja -C "$2/b" all runtests >"$2/log" 2>&1 || { echo "BUILD FAILED"; grep -m3 error "$2/log"; exit; }
mkdir -p "$2/run"
python3 /opt/vp/run_tests.py "$2/b/runtests" "$2/run" > "$2/res" 2>&1
echo "$(grep -c ^PASS "$2/res") passed $(grep ^FAIL "$2/res" | head -5 | tr '\n' ' ')"
