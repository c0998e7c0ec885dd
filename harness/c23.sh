#!/bin/sh
# c23.sh PART HERE INC SRC BIN: builds the explorer and all configurations
set -e
PART=$1 HERE=$2 INC=$3 SRC=$4 BIN=$5
G="g++ -std=c++17 -fno-gnu-unique" C="clang++ -std=c++17 -Wno-c++11-narrowing"
cfg() {  # name compiler flags
  n=$1; shift
  printf '%s\n' "$* -w -fPIC -shared -fvisibility=hidden -Wl,-Bsymbolic -DPART=$PART -I$HERE -I$HERE/harness -I$INC $HERE/harness/c23lib.cpp -o $BIN.$n.so"
}
{
  cfg 00ref $G -O2 -DNDEBUG '"-DCFG_T=long double"'
  cfg d.O2 $G -O2 -DNDEBUG -DCFG_T=double
  cfg d.O3 $G -O3 -DNDEBUG -DCFG_T=double
  cfg d.debug $G -O0 -DCFG_T=double
  cfg d.debug-O2 $G -O2 -DCFG_T=double
  cfg d.checked $G -O1 -D_GLIBCXX_DEBUG -DCFG_T=double
  cfg d.log-debug $G -O0 -DENABLE_LOGGING -DCFG_T=double
  cfg d.log-O2 $G -O2 -DNDEBUG -DENABLE_LOGGING -DCFG_T=double
  cfg d.table62 $G -O1 -DNDEBUG -DMAX_BINOMIAL_DEGREE=62u -DCFG_T=double
  cfg d.table67-debug $G -O0 -DMAX_BINOMIAL_DEGREE=67u -DCFG_T=double
  cfg d.table31-log $G -O0 -DENABLE_LOGGING -DMAX_BINOMIAL_DEGREE=31u -DCFG_T=double
  cfg d.clang-O2 $C -O2 -DNDEBUG -DCFG_T=double
  cfg d.clang-debug $C -O0 -DCFG_T=double
  cfg d.unsigned-char $G -O1 -funsigned-char -DCFG_T=double
  cfg d.c++20 g++ -std=c++20 -fno-gnu-unique -O1 -DCFG_T=double
  cfg d.clang-c++20 clang++ -std=c++20 -Wno-c++11-narrowing -O1 -DNDEBUG -DCFG_T=double
  cfg f.O2 $G -O2 -DNDEBUG -DCFG_T=float
  cfg f.debug $G -O0 -DCFG_T=float
  cfg f.log $G -O0 -DENABLE_LOGGING -DCFG_T=float
  cfg f.clang-O2 $C -O2 -DNDEBUG -DCFG_T=float
  cfg l.debug $G -O0 '"-DCFG_T=long double"'
  cfg l.log-O2 $G -O2 -DNDEBUG -DENABLE_LOGGING '"-DCFG_T=long double"'
  cfg l.clang-O2 $C -O2 -DNDEBUG '"-DCFG_T=long double"'
  printf '%s\n' "$G -O2 -w -DPART=$PART -I$HERE -I$HERE/harness -I$INC $SRC -o $BIN -ldl"
} | xargs -P 5 -d '\n' -I CMD sh -c 'CMD'
