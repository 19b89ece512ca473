#!/bin/bash
# Runs every registered check (or those named) and prints one line each.
cd "$(dirname "$0")/.." || exit 2
ids=${*:-$(ls harness/*/ | grep -oE '^[a-z][0-9]{2}' | sort -u | tr a-z A-Z)}
for i in $ids; do
	out=$(bash check.sh "$i" 2>&1)
	c=$?
	echo "$c $(echo "$out" | grep -E "^$i tier=|^VIOLATION" | tr '\n' ' ')$(echo "$out" | grep -c note:) notes"
	[ $c -eq 0 ] || echo "$out" | tail -5
done
