#!/bin/bash
# Makes executables with real linkers (Go's and lld), in $1/real. Whatever cannot be made is left out.
work=$1
out=$work/real
mkdir -p "$out" "$work/m"
cd "$work/m" || exit 0
cat > go.mod <<'E'
module m
go 1.20
E
cat > main.go <<'E'
package main

func main() { println("hello") }
E
gob() { # name goarch flags
  GOOS=windows GOARCH=$2 CGO_ENABLED=0 timeout 200 go build -o "$out/$1.exe" ${3:+"$3"} . || rm -f "$out/$1.exe"
}
gob go-amd64 amd64 &
gob go-386 386 "-ldflags=-s -w" &
cat > a.c <<'E'
int data[300] = {1,2,3};
const int cdata[200] = {4,5};
int bss[5000];
int *ptr = &data[1];
int (*fn)(int);
static int f(int x) { return x + data[0] + cdata[x] + bss[x] + *ptr; }
int start(void) { fn = f; return fn(3); }
E
printf '1 RCDATA { "hello\\0" }\nNAMED RCDATA { "world", 1, 2, 3 }\n7 24 { "<assembly/>" }\n' > a.rc
timeout 60 llvm-rc /FO a.res a.rc
for t in x86_64 i686 aarch64; do
  timeout 60 clang --target=$t-pc-windows-msvc -O1 -c a.c -o $t.obj || continue
  e=start; [ $t = i686 ] && e=start
  l() { # name flags
    n=$1; shift
    timeout 60 lld-link /nologo /nodefaultlib /entry:$e /subsystem:console /out:"$out/$n.exe" $t.obj "$@" || rm -f "$out/$n.exe"
  }
  l lld-$t-plain
  l lld-$t-rsrc a.res
  l lld-$t-fixed a.res /fixed /release
  l lld-$t-align a.res /filealign:4096 /align:8192 /release
  l lld-$t-dll /dll /noentry a.res
done
cat > e.c <<'E'
int data[5] = {1, 2, 3};
int start(void) { return data[2]; }
E
for t in x86_64:amd64 i686:386 aarch64:arm64 thumbv7:arm; do
  timeout 60 clang --target=${t%:*}-pc-windows-msvc -O1 -c e.c -o "$out/start-${t#*:}.obj"
done
wait
ls -l "$out"
exit 0
