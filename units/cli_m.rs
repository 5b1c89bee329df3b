//@include model.rs
//@include cli_base.rs
