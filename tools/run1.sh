#!/bin/bash
# dev helper: extract + verify one unit
set -e
U=$1; shift
cd /verif
./extract/target/release/extract /repo contracts/$U.ov /tmp/v/$U.body /tmp/v/$U.json
(echo '#![allow(unused, non_snake_case)]'; echo 'use vstd::prelude::*;'; echo 'verus! {'; cat contracts/vl.rs; cat /tmp/v/$U.body; echo '} fn main(){}') > /tmp/v/$U.rs
verus --triggers-mode silent /tmp/v/$U.rs "$@"
