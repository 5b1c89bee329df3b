//@include model_w.rs
//@include cli_base.rs
