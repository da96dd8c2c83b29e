#!/bin/bash
# make.sh WORK DEMO.cpp [-a also.cpp ...] : builds WORK/demo from the solver in the current folder and the stand-ins here
set -e
kit=$(cd "$(dirname "$0")" && pwd)
w=$1 demo=$2
shift 2
repo=$PWD
fl="-std=c++17 -O1 -w -fopenmp -I$kit/harness -I$kit/minimfem/include -I$repo/src -I/usr/include/eigen3 -DSHOW_TIMER_INFORMATION -DTEST_DATA_FOLDER_=\"testData/\""
rare="SIBCPoleResidueFitting|OptimizationManager|RCSManager|RCSSurfacePostProcessor|EigenvalueEstimator|rcs_driver"
mkdir -p "$w/o" "$w/run"
{
  if [ "$1" = only ]; then
    shift
    for s in "$@"; do case $s in nomfem) ;; *) echo "$repo/src/$s";; esac; done
  else
    find "$repo/src" -name '*.cpp' -not -path '*/launcher/*' | grep -vE "$rare"
    for s in "$@"; do echo "$repo/src/$s"; done
  fi
  case " $* " in *" nomfem "*) ;; *) ls "$kit"/minimfem/src/*.cpp;; esac
  echo "$demo"
} > "$w/list"
n=0
while read -r f; do n=$((n+1)); echo "$f $w/o/$n.o"; done < "$w/list" |
  xargs -P 8 -L 1 bash -c 'exec g++ '"$fl"' -c "$0" -o "$1"'
g++ -fopenmp -o "$w/demo" "$w"/o/*.o -lstdc++fs -lpthread
