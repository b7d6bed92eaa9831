#!/bin/bash
# regenerates harness/src/props/mod.rs from the files present
cd "$(dirname "$0")/../harness/src/props" || exit 1
{
echo "use crate::core::Prop;"
for f in c[0-9][0-9].rs; do echo "pub mod ${f%.rs};"; done
echo "pub fn all() -> Vec<Prop> {"
echo "    vec!["
for f in c[0-9][0-9].rs; do echo "        ${f%.rs}::prop(),"; done
echo "    ]"
echo "}"
} > mod.rs
