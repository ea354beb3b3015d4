extern crate vgen as vharness;
include!("../../../harness/src/bin/replay.rs");
