// Crate root over the marshalling library of the tree under test (symlinked beside this file by build.sh),
// plus the formats the harness supplies itself (testfmt): a fixed-size element that can fail to parse, and
// the key/value bundles the key-value format is instantiated with.
#![verifier::loop_isolation(false)]
#![verifier::deprecated_postcondition_mut_ref_style(true)]
#![verifier::exec_allows_no_decreases_clause]
#![allow(unused)]
#![allow(non_snake_case)]

pub mod marshalling;
pub mod testfmt;
