# build_check ID BIN: builds the check's binary and what it needs beside it.
# Sourced after goenv.sh. $BIN.env holds variables the binary wants.

# overlay NAME PATH=SRC...: writes $BUILD/NAME.json (go.mod included)
overlay() {
  local name="$1" sep=""; shift
  { printf '{"Replace":{'
    if [ ! -e "$REPO/go.mod" ]; then printf '"%s/go.mod":"%s/harness/repo.mod"' "$REPO" "$VERIF"; sep=,; fi
    for kv in "$@"; do printf '%s"%s":"%s"' "$sep" "${kv%%=*}" "${kv#*=}"; sep=,; done
    printf '}}'; } > "$BUILD/$name.json"
}
flags_with() { echo "-mod=mod -modfile=$BUILD/go.mod -overlay=$BUILD/$1.json"; }

build_check() {
  local ID="$1" BIN="$2"
  cd "$VERIF/harness" || return 1
  case "$ID" in
    C0[1-9]|C1[0-5]) build_both "$BIN" ./cmd/dspcheck;;
    C16) build_both "$BIN" ./cmd/dtmfcheck;;
    C1[7-9]|C20) build_both "$BIN" ./cmd/ax25check;;
    C21) build_both "$BIN" ./cmd/boripcheck;;
    C22|C23) build_client "$BIN";;
    C2[4-7]) build_server "$BIN";;
    C28) build_arch "$BIN";;
    C29) build_iso "$BIN";;
    C30|C32|C33) build_file "$BIN";;
    C31) build_cpu "$BIN";;
    *) echo "no check for $ID" >&2; return 1;;
  esac
}

# build_both: a check of the libraries, and the same compiled for 386.
build_both() {
  local BIN="$1"
  : > "$BIN.env"
  GOARCH=386 go build -o "$BIN-386" "$2" && echo "export VERIF_386=$BIN-386" >> "$BIN.env"
  go build -o "$BIN" "$2"
}

CPU_TARGETS="linux/386 linux/arm linux/arm64 android/arm64 freebsd/arm64 darwin/arm64 netbsd/arm64 windows/arm64 linux/mips linux/mipsle linux/mips64 linux/mips64le linux/ppc64 linux/ppc64le aix/ppc64 linux/riscv64 linux/s390x js/wasm windows/amd64 darwin/amd64"

build_cpu() {
  local BIN="$1" d="$REPO/dsp/internal/verifcpu" v="$VERIF/harness/virtual/cpu" pkg=github.com/samuel/go-dsp/dsp/internal/verifcpu
  local files=("$d/main.go=$v/main.go" "$d/fake.go=$v/fake.go" "$d/nofake.go=$v/nofake.go" "$d/neon.go=$v/neon.go")
  local c="$REPO/dsp/internal/cpu"
  overlay cpu "${files[@]}"
  overlay cpufake "${files[@]}" "$c/cpu_x86.s=$v/fake_x86.s.txt" "$c/verif_hook_fake.go=$v/fake_hook.go.txt"
  GOFLAGS="$(flags_with cpu)" go build -o "$BIN" $pkg || return 1
  : > "$BIN.env"
  GOARCH=386 GOFLAGS="$(flags_with cpu)" go build -o "$BIN-386" $pkg && echo "export VERIF_AUX_386=$BIN-386" >> "$BIN.env"
  GOFLAGS="$(flags_with cpufake)" go build -tags fakecpu -o "$BIN-fake" $pkg && echo "export VERIF_AUX_FAKE=$BIN-fake" >> "$BIN.env"
  GOARCH=386 GOFLAGS="$(flags_with cpufake)" go build -tags fakecpu -o "$BIN-386-fake" $pkg && echo "export VERIF_AUX_386_FAKE=$BIN-386-fake" >> "$BIN.env"
  local e="$REPO/dsp/internal/verifdispatch"
  overlay dispatch "$e/main.go=$VERIF/harness/virtual/dispatch/main.go" "$c/cpu_x86.s=$v/fake_x86.s.txt" "$c/verif_hook_fake.go=$v/env_hook.go.txt"
  GOFLAGS="$(flags_with dispatch)" go build -o "$BIN-dispatch" github.com/samuel/go-dsp/dsp/internal/verifdispatch && echo "export VERIF_AUX_DISPATCH=$BIN-dispatch" >> "$BIN.env"
  ents="$(go run ./cmd/cpugen -dir "$REPO/dsp" -only cpu_arm.go -out "$BUILD/cpus-neon" -at "$REPO/dsp/internal/verifneon" -arch arm -imports os=verif/harness/vos,io/ioutil=verif/harness/vioutil -drivers "$VERIF/harness/virtual/cpus/neon.go.txt")" &&
    overlay cpus-neon $ents &&
    GOFLAGS="$(flags_with cpus-neon)" go build -o "$BIN-neon" github.com/samuel/go-dsp/dsp/internal/verifneon && echo "export VERIF_AUX_NEON=$BIN-neon" >> "$BIN.env"
  # The detection for other processors, as a program that runs here.
  local w="$VERIF/harness/virtual/cpus" t o g n ents
  for t in linux/arm64 android/arm64 freebsd/arm64 darwin/arm64 linux/arm linux/mips64le linux/ppc64le linux/s390x; do
    o=${t%/*} g=${t#*/} n=${t/\//-}
    local dr="$w/common.go.txt,$w/$n.go.txt"
    [ $g = arm64 ] && dr="$dr,$w/arm64.go.txt"
    case $n in linux-arm64|android-arm64) dr="$dr,$w/arm64hwcap.go.txt";; esac
    ents="$(go run ./cmd/cpugen -dir "$c" -out "$BUILD/cpus-$n" -at "$REPO/dsp/internal/verifcpu-$n" -os $o -arch $g -as 1 -drivers "$dr")" || continue
    overlay cpus-$n $ents
    GOFLAGS="$(flags_with cpus-$n)" go build -o "$BIN-$n" "github.com/samuel/go-dsp/dsp/internal/verifcpu-$n" && echo "export VERIF_AUX_$(echo $n | tr a-z- A-Z_)=$BIN-$n" >> "$BIN.env"
  done
  # Whether it compiles for every system the detection has a file for.
  mkdir -p "$BUILD/cc"
  for t in $CPU_TARGETS; do
    GOOS=${t%/*} GOARCH=${t#*/} GOFLAGS="$(flags_with cpu)" go build github.com/samuel/go-dsp/dsp/internal/cpu > "$BUILD/cc/${t/\//-}" 2>&1 && echo ok > "$BUILD/cc/${t/\//-}"
  done
  echo "export VERIF_CC=$BUILD/cc" >> "$BIN.env"
  return 0
}

build_arch() {
  local BIN="$1" a p ents
  go build -o "$BIN" ./cmd/archcheck || return 1
  for a in amd64 386; do for p in dspcheck dtmfcheck ax25check; do
    GOARCH=$a go build -o "$BUILD/$p-$a" ./cmd/$p
  done; done
  for p in arm:386 arm64:amd64; do
    a=${p%:*}
    ents="$(go run ./cmd/emugen -dir "$REPO/dsp" -out "$BUILD/emu-$a" -arch $a -host ${p#*:})" || continue
    overlay emu-$a $ents
    GOARCH=${p#*:} GOFLAGS="$(flags_with emu-$a)" go build -tags verifemu -o "$BUILD/dspcheck-$a" ./cmd/dspcheck
  done
  [ "${VERIF_TIER:-quick}" = thorough ] || echo 'export VERIF_BUDGET_S="${VERIF_BUDGET_S:-480}"' > "$BIN.env"
  { echo "export VERIF_ARCH_BINS=$BUILD VERIF_HARNESS=$VERIF/harness VERIF_REPO_DIR=$REPO"; } >> "$BIN.env"
  return 0
}

# instrument FLAGS...: runs the source rewriter; its overlay entries on stdout
instrument() { [ -x "$BUILD/instrument" ] || go build -o "$BUILD/instrument" ./cmd/instrument || return 1; "$BUILD/instrument" "$@"; }

build_client() {
  local BIN="$1" ents
  ents="$(instrument -dir "$REPO/borip" -out "$BUILD/borip" -imports net=verif/harness/vnet)" || return 1
  overlay client $ents
  GOFLAGS="$(flags_with client)" go build -o "$BIN" ./cmd/boripcheck
}

# build_server: the real boripserver in a helper, on a simulated network, devices
# and scheduler; three builds (gates at operations, at statements, with races).
build_server() {
  local BIN="$1" ents cl m
  local imp=net=verif/harness/vnet,sync=verif/harness/vsync,os/signal=verif/harness/vsignal,runtime=verif/harness/vruntime
  cl="$(instrument -dir "$REPO/borip" -out "$BUILD/borip" -imports net=verif/harness/vnet)" || return 1
  : > "$BIN.env"
  for m in sync all; do
    ents="$(instrument -dir "$REPO/boripserver" -out "$BUILD/server-$m" -imports $imp -gates $m -reset -main serverMain)" || return 1
    overlay server-$m $ents $cl "$REPO/boripserver/verif_main.go=$VERIF/harness/virtual/server/main.go"
  done
  (
    (GOFLAGS="$(flags_with server-sync)" go build -o "$BIN-sync" github.com/samuel/go-dsp/boripserver) & a=$!
    (GOFLAGS="$(flags_with server-all)" go build -o "$BIN-all" github.com/samuel/go-dsp/boripserver) & b=$!
    (GOFLAGS="$(flags_with server-sync)" go build -race -o "$BIN-race" github.com/samuel/go-dsp/boripserver) & c=$!
    wait $a && wait $b && wait $c
  ) || return 1
  echo "export VERIF_SRV_SYNC=$BIN-sync VERIF_SRV_ALL=$BIN-all VERIF_SRV_RACE=$BIN-race" > "$BIN.env"
  go build -o "$BIN" ./cmd/servercheck
}

# build_file: the file tools themselves, built as build.sh builds one of them.
build_file() {
  local BIN="$1"
  overlay file
  if [ "$ID" = C33 ]; then
    local ents
    ents="$(go run ./cmd/cpugen -dir "$REPO/examples" -only dtmf_live.go -out "$BUILD/live" -at "$REPO/dsp/internal/veriflive" -imports os/signal=verif/harness/vsignal,code.google.com/p/portaudio-go/portaudio=verif/harness/stub/portaudio)" || return 1
    overlay live $ents
    (GOFLAGS="$(flags_with live)" go build -o "$BIN-live" github.com/samuel/go-dsp/dsp/internal/veriflive) || return 1
  elif [ "$ID" = C30 ]; then
    (GOFLAGS="$(flags_with file)" go build -o "$BIN-tool" "$REPO/examples/dtmf_file.go") || return 1
  else
    # The receiver of the tree, and a repaired copy to use where it does not compile.
    (GOFLAGS="$(flags_with file)" go build -o "$BIN-rx" ./cmd/rxtool) || return 1
    (GOFLAGS="$(flags_with file)" go build -o "$BIN-ax25" "$REPO/examples/ax25.go") > "$BIN-ax25.log" 2>&1
  fi
  echo "export VERIF_LIVE=$BIN-live VERIF_DTMF=$BIN-tool VERIF_AX25=$BIN-ax25 VERIF_RX=$BIN-rx VERIF_AX25_LOG=$BIN-ax25.log" > "$BIN.env"
  go build -o "$BIN" ./cmd/filecheck
}

# build_iso: helpers with the libraries instrumented at every statement, without
# and with the race detector.
build_iso() {
  local BIN="$1" ents="" p
  local imp=sync=verif/harness/vsync
  for p in dsp dsp/dtmf dsp/ax25 borip; do
    ents="$ents $(instrument -dir "$REPO/$p" -out "$BUILD/iso-$p" -imports $imp -gates all -reset)" || return 1
  done
  overlay iso $ents
  (
    (GOFLAGS="$(flags_with iso)" go build -tags verifiso -o "$BIN-steps" ./cmd/isohelper) & a=$!
    (GOFLAGS="$(flags_with iso)" go build -tags verifiso -race -gcflags=all=-d=checkptr=0 -o "$BIN-race" ./cmd/isohelper) & b=$!
    wait $a && wait $b
  ) || return 1
  echo "export VERIF_ISO=$BIN-steps VERIF_ISO_RACE=$BIN-race" > "$BIN.env"
  go build -o "$BIN" ./cmd/isocheck
}
