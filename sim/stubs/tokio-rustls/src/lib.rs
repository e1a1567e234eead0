//! Stand-in for the TLS record layer, for simulation without a TLS library:
//! a one-round-trip handshake (so that a silent peer stalls it and a peer that
//! speaks something else fails it), then the bytes as they are. Everything
//! sip-transport itself does around TLS is the real code.
pub use rustls;
use rustls::pki_types::ServerName;
use rustls::{ClientConfig, ServerConfig};
use std::io;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, ReadBuf};

pub const CLIENT_HELLO: &[u8] = b"\x16client-hello\n";
pub const SERVER_HELLO: &[u8] = b"\x16server-hello\n";

macro_rules! stream {
    () => {
        #[derive(Debug)]
        pub struct TlsStream<S>(pub(crate) S);

        impl<S> TlsStream<S> {
            pub fn get_ref(&self) -> &S {
                &self.0
            }
        }

        impl<S: AsyncRead + Unpin> AsyncRead for TlsStream<S> {
            fn poll_read(
                mut self: Pin<&mut Self>,
                cx: &mut Context<'_>,
                buf: &mut ReadBuf<'_>,
            ) -> Poll<io::Result<()>> {
                Pin::new(&mut self.0).poll_read(cx, buf)
            }
        }

        impl<S: AsyncWrite + Unpin> AsyncWrite for TlsStream<S> {
            fn poll_write(
                mut self: Pin<&mut Self>,
                cx: &mut Context<'_>,
                buf: &[u8],
            ) -> Poll<io::Result<usize>> {
                Pin::new(&mut self.0).poll_write(cx, buf)
            }
            fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                Pin::new(&mut self.0).poll_flush(cx)
            }
            fn poll_shutdown(
                mut self: Pin<&mut Self>,
                cx: &mut Context<'_>,
            ) -> Poll<io::Result<()>> {
                Pin::new(&mut self.0).poll_shutdown(cx)
            }
        }
    };
}

pub mod server {
    use super::*;
    stream!();
}
pub mod client {
    use super::*;
    stream!();
}

async fn expect<S: AsyncRead + Unpin>(s: &mut S, want: &[u8]) -> io::Result<()> {
    let mut got = vec![0u8; want.len()];
    s.read_exact(&mut got).await?;
    if got != want {
        return Err(io::Error::new(
            io::ErrorKind::InvalidData,
            "received corrupt message of type InvalidContentType",
        ));
    }
    Ok(())
}

#[derive(Clone)]
pub struct TlsAcceptor;
impl From<Arc<ServerConfig>> for TlsAcceptor {
    fn from(_: Arc<ServerConfig>) -> Self {
        TlsAcceptor
    }
}
impl TlsAcceptor {
    pub async fn accept<S: AsyncRead + AsyncWrite + Unpin>(
        &self,
        mut s: S,
    ) -> io::Result<server::TlsStream<S>> {
        expect(&mut s, CLIENT_HELLO).await?;
        s.write_all(SERVER_HELLO).await?;
        Ok(server::TlsStream(s))
    }
}

#[derive(Clone)]
pub struct TlsConnector;
impl From<Arc<ClientConfig>> for TlsConnector {
    fn from(_: Arc<ClientConfig>) -> Self {
        TlsConnector
    }
}
impl TlsConnector {
    pub async fn connect<S: AsyncRead + AsyncWrite + Unpin>(
        &self,
        _name: ServerName<'static>,
        mut s: S,
    ) -> io::Result<client::TlsStream<S>> {
        s.write_all(CLIENT_HELLO).await?;
        expect(&mut s, SERVER_HELLO).await?;
        Ok(client::TlsStream(s))
    }
}
