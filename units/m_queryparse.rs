//@include parse_sub.rs
//@include path_parse.rs
//@include fmt_parse.rs
//@include query_parse.rs
