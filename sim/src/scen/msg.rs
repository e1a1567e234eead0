//! Small SIP text helpers for the harness.
#![allow(dead_code)]
use bytes::Bytes;
use sip_core::{Request, Response};

pub fn request(text: &str) -> Request {
    sip_parse::parse_request(&Bytes::from(text.to_string())).unwrap_or_else(|| panic!("harness built an unparsable request:\n{text}"))
}
pub fn response(text: &str) -> Response {
    sip_parse::parse_response(&Bytes::from(text.to_string())).unwrap_or_else(|| panic!("harness built an unparsable response:\n{text}"))
}
/// Start line, headers (name, value) and body; Content-Length is added.
pub fn text(start: &str, hs: &[(&str, String)], body: &str) -> String {
    let mut s = format!("{start}\r\n");
    for (n, v) in hs {
        s.push_str(&format!("{n}: {v}\r\n"));
    }
    s.push_str(&format!("Content-Length: {}\r\n\r\n{body}", body.len()));
    s
}
/// A parameter of a digest header: name="value" or name=value.
pub fn dparam(h: &str, name: &str) -> Option<String> {
    let h = h.trim().strip_prefix("Digest").unwrap_or(h);
    for p in h.split(',') {
        if let Some((n, v)) = p.trim().split_once('=') {
            if n.trim().eq_ignore_ascii_case(name) {
                return Some(v.trim().trim_matches('"').to_string());
            }
        }
    }
    None
}
/// ;name=value in a header value.
pub fn param(h: &str, name: &str) -> Option<String> {
    for p in h.split(';').skip(1) {
        if let Some((n, v)) = p.trim().split_once('=') {
            if n.eq_ignore_ascii_case(name) {
                return Some(v.trim_end_matches('>').trim().to_string());
            }
        }
    }
    None
}
