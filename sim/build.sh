#!/bin/bash
# Builds the simulators from the working tree of /repo into $1 (default /verif/build). Usage: build.sh OUT [server] [lib] [race] [client]
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
R=${REPO:-/repo}
OUT=${1:-$V/build}; shift || true
WHAT=${*:-server}
mkdir -p "$OUT/obj"
J=$(nproc)
FLAGS="-std=c++20 -O1 -DNDEBUG -w -fPIC -ffile-prefix-map=$R=."
INC="-I$R/parser -I$R/parser/fanuc -I$R/nclangsrv"
for w in $WHAT; do
  if [ $w = client ]; then
    cp "$V/sim/client/client_sim.js" "$OUT/client_sim.js"
    node "$V/sim/client/compile.js" "$R/vscode-client/src" "$OUT/extension"
  fi
done
[ "$WHAT" = client ] && exit 0
rm -f "$OUT/jobs"
add() { # kind flags src obj
  echo "$1|$2|$3" >> "$OUT/jobs"
}
rm -f "$OUT"/obj/*.o
# the library as a shared object of its own, as little optimised as it is shipped, reporting every access to memory
RACE="-std=c++20 -DNDEBUG -w -fPIC -ffile-prefix-map=$R=. -D_GLIBCXX_EXTERN_TEMPLATE=0 -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -fsanitize-coverage=trace-pc"
for f in "$R"/parser/*.cpp "$R"/parser/fanuc/*.cpp "$R"/parser/heidenhain/*.cpp; do
  case "$f" in */stdafx.cpp|*/dllmain.cpp) continue;; esac
  o=$OUT/obj/$(echo "${f#$R/}" | tr / _).o
  case " $WHAT " in *" server "*|*" lib "*) add "$FLAGS -fsanitize-coverage=trace-pc $INC" "$f" "$o";; esac
  case " $WHAT " in *" race "*)
    # the grammars are too slow to compile without any optimisation, and too slow to run
    case "$f" in *Grammar.cpp|*AllAttributesParser.cpp|*Evaluator*) l=-O1;; *) l=-O0;; esac
    add "$RACE $l $INC" "$f" "${o/obj\/parser_/obj\/race$l-}";;
  esac
done
case " $WHAT " in *" server "*|*" lib "*|*" race "*) add "-std=c++20 -O2 -w" "$V/sim/common/programs.cpp" "$OUT/obj/common_programs.o";; esac
for w in $WHAT; do
  if [ $w = server ]; then
    for f in "$R"/nclangsrv/*.cpp; do
      case "$f" in */stdafx.cpp) continue;; esac
      o=$OUT/obj/$(echo "${f#$R/}" | tr / _).o
      # the readers parse bulky configuration with library code: not counted as steps, and first on the link line
      case "$f" in *Reader.cpp) add "${FLAGS/-O1/-O2} $INC" "$f" "$o";; *) add "$FLAGS -fsanitize-coverage=trace-pc $INC" "$f" "$o";; esac
    done
    for f in core heap gen oracle main; do add "-std=c++20 -O2 -w" "$V/sim/server/$f.cpp" "$OUT/obj/sim_$f.o"; done
    add "-std=c++20 -O2 -w $INC" "$V/sim/server/libref.cpp" "$OUT/obj/sim_libref.o"
  elif [ $w = lib ] || [ $w = race ]; then
    [ $w = race ] && case " $WHAT " in *" lib "*) continue;; esac
    for f in "$V"/sim/lib/*.cpp; do add "-std=c++20 -O2 -w $INC" "$f" "$OUT/obj/lib_$(basename "$f").o"; done
  fi
done
# longest first: the grammars dominate the build
sort -t'|' -k2 "$OUT/jobs" | awk -F'|' '{ p = ($2 ~ /WordGrammar|AllAttributes|JsonMessage|NCParser|Macro/) ? 0 : 1; print p "|" $0 }' | sort -s -n | cut -d'|' -f2- > "$OUT/jobs.s"
cat > "$OUT/cc.sh" <<'C'
#!/bin/bash
IFS='|' read -r fl src obj <<< "$1"
mkdir -p "$(dirname "$obj")"
g++ $fl -c "$src" -o "$obj" 2> "$obj.log" || { echo "compile failed: $src" >&2; cat "$obj.log" >&2; exit 255; }
C
chmod +x "$OUT/cc.sh"
tr '\n' '\0' < "$OUT/jobs.s" | xargs -0 -P "$J" -n 1 "$OUT/cc.sh"
for w in $WHAT; do
  if [ $w = server ]; then
    for o in "$OUT"/obj/nclangsrv_*.o; do objcopy --redefine-sym main=nclangsrv_main "$o"; done
    g++ -rdynamic -o "$OUT/server_sim" "$OUT"/obj/nclangsrv_*Reader.cpp.o "$OUT"/obj/parser_*.o $(ls "$OUT"/obj/nclangsrv_*.o | grep -v Reader.cpp.o) "$OUT"/obj/sim_*.o "$OUT"/obj/common_*.o -lboost_program_options -ldl
  elif [ $w = race ]; then
    # optimised objects first: their copies of the templates they share with the others are taken
    g++ -shared -Wl,-Bsymbolic -o "$OUT/librace.so" "$OUT"/obj/race-O1-*.o "$OUT"/obj/race-O0-*.o
    g++ -rdynamic -o "$OUT/race_sim" "$OUT"/obj/lib_*.o "$OUT"/obj/common_*.o "$OUT/librace.so" -Wl,-rpath,'$ORIGIN' -ldl -lpthread
  elif [ $w = lib ]; then
    g++ -rdynamic -o "$OUT/lib_sim" "$OUT"/obj/parser_*.o "$OUT"/obj/lib_*.o "$OUT"/obj/common_*.o -ldl -lpthread
  fi
done
