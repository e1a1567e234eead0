prop="A03"
needs="an attacker who presents somebody else's nonce with a far too high nonce count and a wrong digest"
breaks="the implausible nonce count revokes the nonce, so the legitimate client's next correct request on it is refused"
edits=[("crates/sip-auth/src/lib.rs","""    fn is_nc_jump_reasonable(&self, value: &str, nc: u32) -> bool {
        if let Some(entry) = self.nonces.get(value) {
            if nc > entry.last_nc.saturating_add(MAX_NC_JUMP) {
                return false;
            }
        }
        true
    }
""","""    fn is_nc_jump_reasonable(&self, value: &str, nc: u32) -> bool {
        // A wildly wrong count means the nonce leaked: do not honour it again
        self.nonces
            .remove_if(value, |_, nonce| nc > nonce.last_nc.saturating_add(MAX_NC_JUMP))
            .is_none()
    }
""")]
main=r'''
use sip_auth::*;
use sip_core::*;
use bytes::Bytes;
fn req(auth: Option<&str>) -> Request {
    let a = auth.map(|a| format!("Authorization: {a}\r\n")).unwrap_or_default();
    sip_parse::parse_request(&Bytes::from(format!("REGISTER sip:example.com SIP/2.0\r\nVia: SIP/2.0/UDP 10.0.0.1;branch=z9hG4bKa\r\nFrom: <sip:alice@example.com>;tag=1\r\nTo: <sip:alice@example.com>\r\nCall-ID: c\r\nCSeq: 1 REGISTER\r\n{a}Content-Length: 0\r\n\r\n"))).unwrap()
}
fn main() {
    let mut st = MemoryCredentialStore::new();
    st.add(Credentials::new("alice", "secret", "example.com"));
    let srv = DigestAuthenticator::new("example.com", st);
    let ch = srv.challenge(&req(None)).unwrap();
    let ch = ch.headers().get("WWW-Authenticate").unwrap().to_string();
    let params: std::collections::HashMap<String, String> = ch.trim_start_matches("Digest ").split(',').filter_map(|p| p.trim().split_once('=').map(|(a, b)| (a.to_string(), b.trim_matches('"').to_string()))).collect();
    // the attacker knows the nonce, not the password
    let bad = format!("Digest username=\"alice\", realm=\"example.com\", nonce=\"{}\", uri=\"sip:example.com\", response=\"00000000000000000000000000000000\", algorithm={}, qop={}, nc=0000ffff, cnonce=\"x\", opaque=\"{}\"", params["nonce"], params["algorithm"], params["qop"], params["opaque"]);
    let r = req(Some(&bad));
    assert!(!matches!(srv.verify(&r, r.headers()), Ok(true)));
    let alive = srv.nonce_manager().verify(&params["nonce"]);
    println!("nonce alive after the attack: {alive}");
    assert!(alive);
}
'''
