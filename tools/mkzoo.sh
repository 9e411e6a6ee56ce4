#!/bin/bash
# Regenerates harness/src/zoo_gen.rs: derived types every check runs over.
cd "$(dirname "$0")"
{ echo "//! Derived types of the zoo. Written by tools/mkzoo.sh; do not edit."
  for m in "attributes 2980 24" "layouts 77 9" "bulk 5 6"; do
    set -- $m
    echo "pub mod $1 {"; python3 gen_types.py $1 $2 $3 | sed -e '/^#!\[allow/d' -e '/^\/\/ Written/d'; echo "}"
  done; } > ../harness/src/zoo_gen.rs
