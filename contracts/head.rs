#![feature(allocator_api)]
#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_labels, unused_parens, unused_assignments, non_snake_case, non_camel_case_types, unreachable_code, unused_braces)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::seq::*;
use vstd::seq_lib::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::std_specs::convert::TryFromSpecImpl;
use vstd::std_specs::vecdeque::*;
use std::collections::VecDeque;
use std::cmp::Reverse;
