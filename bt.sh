#!/bin/bash
# debugging aid: replay a case and symbolise the crash stack (all runs with the bad verdict share one BT file)
B=$(bash "$(dirname "$0")/sim/build.sh") || exit 4
f=$(mktemp); MSIM_BT=$f $B/msim-native replay "$1" v | tail -${2:-12}
v=native; grep -aq '^variant 1' "$1" && v=scalar; [ -n "$3" ] && v=$3
echo "($v)"; [ -s $f ] && { head -c 60 $f; echo; grep -o '[0-9a-f]\{6,\}' $f | tail -n +2 | addr2line -f -s -e $B/msim-$v | paste - - | uniq | head -24; }; rm -f $f
