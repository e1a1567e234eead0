prop="D01"
needs="a request that arrives late or twice and carries another Contact than the latest accepted one"
breaks="the remote target is taken from the request before its sequence number is judged, so a refused stale request redirects the dialog"
edits=[("crates/sip-dialog/src/lib.rs","""        if req.method().as_str() == "ACK" {
            // ACK must""","""        // Update remote target from Contact
        let contact = extract_contact_uri(req.headers());
        if let Some(contact) = contact {
            self.remote_target = contact;
        }

        if req.method().as_str() == "ACK" {
            // ACK must"""),("crates/sip-dialog/src/lib.rs","""        // Update remote target from Contact
        if let Some(contact) = extract_contact_uri(req.headers()) {
            self.remote_target = contact;
        }

        Ok(())
""","""        Ok(())
""")]
main=r'''
use sip_core::*;
use sip_dialog::*;
use bytes::Bytes;
fn req(m: &str, cseq: u32, contact: &str, tag: &str) -> Request {
    sip_parse::parse_request(&Bytes::from(format!("{m} sip:bob@example.com SIP/2.0\r\nVia: SIP/2.0/UDP 10.0.0.1;branch=z9hG4bK{cseq}\r\nFrom: <sip:alice@example.com>;tag=a\r\nTo: <sip:bob@example.com>{tag}\r\nCall-ID: c\r\nCSeq: {cseq} {m}\r\nContact: <{contact}>\r\nContent-Length: 0\r\n\r\n"))).unwrap()
}
fn main() {
    let inv = req("INVITE", 1, "sip:alice@10.0.0.1", "");
    let ok = sip_parse::parse_response(&Bytes::from("SIP/2.0 200 OK\r\nVia: SIP/2.0/UDP 10.0.0.1;branch=z9hG4bK1\r\nFrom: <sip:alice@example.com>;tag=a\r\nTo: <sip:bob@example.com>;tag=b\r\nCall-ID: c\r\nCSeq: 1 INVITE\r\nContact: <sip:bob@10.0.0.2>\r\nContent-Length: 0\r\n\r\n".to_string())).unwrap();
    let u = |s: &str| SipUri::parse(s).unwrap();
    let mut d = Dialog::new_uas(&inv, &ok, u("sip:bob@example.com"), u("sip:alice@example.com")).unwrap();
    let late = req("INVITE", 2, "sip:alice@10.0.0.7", ";tag=b");
    d.update_from_request(&late).unwrap();
    d.update_from_request(&req("INVITE", 3, "sip:alice@10.0.0.9", ";tag=b")).unwrap();
    assert!(d.update_from_request(&late).is_err());
    println!("remote target {}", d.remote_target().as_str());
    assert_eq!(d.remote_target().as_str(), "sip:alice@10.0.0.9");
}
'''
