//@include date_base.rs
//@include date_period_ops.rs
//@include date_methods.rs
