# usage: . tools_tus.sh; start c12; add "PROP(...) {...}" ...   (writes harness/c12_1.cpp, ...)
start() { TU=$1; k=0; rm -f /verif/harness/${TU}_*.cpp; }
add() { k=$((k+1)); { echo "#include \"$TU.hpp\""; for x in "$@"; do echo "$x"; done; } > /verif/harness/${TU}_$k.cpp; }
