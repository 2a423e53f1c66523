#!/bin/bash
# Build the harness crate (with /repo's current tree) to LLVM IR: one linked module per entry list.
# usage: build_ir.sh TARGET_DIR OUT.ll entry,entry,... [module,module,...]
set -e
T=$1; OUT=$2; ENTRIES=$3; FEATURES=${4:-default}
HERE=$(cd "$(dirname "$0")/.." && pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=$T CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg hybridcvrp_verif --emit=llvm-bc -C no-vectorize-loops -C no-vectorize-slp"
SYSROOT=$(rustc --print sysroot)
B=$SYSROOT/lib/rustlib/x86_64-unknown-linux-gnu/bin
L=$SYSROOT/lib/rustlib/x86_64-unknown-linux-gnu/lib
D=$T/x86_64-unknown-linux-gnu/sym/deps
if [ -z "$SKIP_CARGO" ]; then
  mkdir -p "$D"
  cargo build --offline --lib --profile sym --target x86_64-unknown-linux-gnu --manifest-path "$HERE/harness/Cargo.toml" --no-default-features --features "$FEATURES" --message-format=json 2>"$T/cargo.log" >"$T/cargo.json" || { cat "$T/cargo.log" >&2; exit 2; }
  # the bitcode files of this very build
  python3 - "$T" <<'PY'
import json,sys,os,glob,filecmp
t=sys.argv[1]; out=[]
for l in open(t+'/cargo.json'):
    try: m=json.loads(l)
    except ValueError: continue
    if m.get('reason')!='compiler-artifact': continue
    for f in m['filenames']:
        if f.endswith('.rlib') and '/x86_64-unknown-linux-gnu/sym/' in f:
            b=os.path.basename(f)[3:-5]
            c=t+'/x86_64-unknown-linux-gnu/sym/deps/'+b+'.bc'
            if os.path.exists(c): out.append(c)
            else:
                # uplifted artifact (a hard link or copy): find the original in deps, its name has the hash
                g=[r for r in glob.glob(t+'/x86_64-unknown-linux-gnu/sym/deps/lib'+b+'-*.rlib') if os.path.samefile(r,f) or filecmp.cmp(r,f,shallow=False)]
                out.append(g[0][:-5].replace('/lib'+b,'/'+b)+'.bc')
open(t+'/bc.list','w').write('\n'.join(sorted(set(out)))+'\n')
PY
  if [ ! -e "$T/std/.done" ]; then
    rm -rf "$T/std"; mkdir -p "$T/std"; cd "$T/std"
    for r in std core alloc hashbrown memchr rustc_demangle panic_unwind std_detect; do
      for f in "$L"/lib$r-*.rlib; do
        [ -e "$f" ] || continue
        for o in $("$B"/llvm-ar t "$f" | grep '\.o$'); do
          "$B"/llvm-ar x "$f" "$o"
          "$B"/llvm-objcopy --dump-section=.llvmbc="$r-$o.bc" "$o" /dev/null 2>/dev/null && [ -s "$r-$o.bc" ] || rm -f "$r-$o.bc"
          rm -f "$o"
        done
      done
    done
    touch .done
  fi
  "$B"/llvm-link --suppress-warnings -o "$T/linked.bc" $(cat "$T/bc.list") "$T"/std/*.bc 2>>"$T/cargo.log" || { tail -5 "$T/cargo.log" >&2; exit 2; }
fi
"$B"/opt --strip-debug -passes='internalize,globaldce,strip-dead-prototypes' -internalize-public-api-list="$ENTRIES" "$T/linked.bc" -o "$OUT.bc"
"$B"/llvm-dis "$OUT.bc" -o "$OUT"
rm -f "$OUT.bc"
