//! Stand-in: configurations carry nothing, the record layer is plain text
//! (see the tokio-rustls stand-in next to this one).
pub mod pki_types {
    pub use rustls_pki_types::*;
}

pub struct SupportedProtocolVersion;
pub mod version {
    pub static TLS12: super::SupportedProtocolVersion = super::SupportedProtocolVersion;
    pub static TLS13: super::SupportedProtocolVersion = super::SupportedProtocolVersion;
}

#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("tls configuration error")
    }
}
impl std::error::Error for Error {}

#[derive(Debug, Clone, Default)]
pub struct RootCertStore;
impl RootCertStore {
    pub fn empty() -> Self {
        RootCertStore
    }
}

#[derive(Debug, Clone, Default)]
pub struct ClientConfig;
#[derive(Debug, Clone, Default)]
pub struct ServerConfig;

pub struct Builder<T>(std::marker::PhantomData<T>);

impl ClientConfig {
    pub fn builder() -> Builder<ClientConfig> {
        Builder(std::marker::PhantomData)
    }
}
impl ServerConfig {
    pub fn builder() -> Builder<ServerConfig> {
        Builder(std::marker::PhantomData)
    }
    pub fn builder_with_protocol_versions(
        _v: &[&'static SupportedProtocolVersion],
    ) -> Builder<ServerConfig> {
        Builder(std::marker::PhantomData)
    }
}
impl Builder<ClientConfig> {
    pub fn with_root_certificates(self, _r: RootCertStore) -> Self {
        self
    }
    pub fn with_no_client_auth(self) -> ClientConfig {
        ClientConfig
    }
}
impl Builder<ServerConfig> {
    pub fn with_no_client_auth(self) -> Self {
        self
    }
    pub fn with_single_cert(
        self,
        _c: Vec<pki_types::CertificateDer<'static>>,
        _k: pki_types::PrivateKeyDer<'static>,
    ) -> Result<ServerConfig, Error> {
        Ok(ServerConfig)
    }
}
