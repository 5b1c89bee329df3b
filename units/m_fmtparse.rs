//@include parse_sub.rs
//@include fmt_parse.rs
