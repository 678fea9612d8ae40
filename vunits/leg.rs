use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use core::ops::*;
use core::cmp::Ordering;
use std::rc::Rc;

verus! {

//@include cashflow_base.rs
//@include leg_base.rs
fn main() {}
}
