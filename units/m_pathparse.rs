//@include parse_sub.rs
//@include path_parse.rs
