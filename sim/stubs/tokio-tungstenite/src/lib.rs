//! Stand-in for the WebSocket library, for simulation without it: the HTTP
//! upgrade as a header exchange, then frames of an opcode byte, a 32-bit
//! length and the payload. Everything sip-transport does around it is the real
//! code.
use futures_util::{Sink, Stream};
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, ReadBuf};
use tokio::net::TcpStream;

pub mod tungstenite {
    pub use crate::msg::{Error, Message};
    pub mod http {
        pub use crate::msg::http::*;
        pub mod header {
            pub use crate::msg::http::HeaderValue;
        }
    }
    pub mod client {
        pub use crate::msg::IntoClientRequest;
    }
    pub mod protocol {
        #[derive(Debug, Clone, Copy, Default)]
        pub struct WebSocketConfig {
            pub max_frame_size: Option<usize>,
            pub max_message_size: Option<usize>,
            pub accept_unmasked_frames: bool,
        }
    }
    pub mod handshake {
        pub mod client {
            pub type Response = crate::msg::http::Response<()>;
        }
        pub mod server {
            pub type Request = crate::msg::http::Request;
            pub type Response = crate::msg::http::Response<()>;
            pub type ErrorResponse = crate::msg::http::Response<Option<String>>;
        }
    }
}

mod msg {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Frame;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct CloseFrame;

    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum Message {
        Text(String),
        Binary(Vec<u8>),
        Ping(Vec<u8>),
        Pong(Vec<u8>),
        Close(Option<CloseFrame>),
        Frame(Frame),
    }

    #[derive(Debug)]
    pub enum Error {
        ConnectionClosed,
        Io(std::io::Error),
        Protocol(&'static str),
        Capacity,
        Url,
        Http,
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "websocket: {self:?}")
        }
    }
    impl std::error::Error for Error {}
    impl From<std::io::Error> for Error {
        fn from(e: std::io::Error) -> Self {
            Error::Io(e)
        }
    }

    pub trait IntoClientRequest {
        fn into_client_request(self) -> Result<http::Request, Error>;
    }
    impl IntoClientRequest for &str {
        fn into_client_request(self) -> Result<http::Request, Error> {
            Ok(http::Request {
                uri: self.to_string(),
                headers: http::HeaderMap::default(),
            })
        }
    }
    impl IntoClientRequest for http::Request {
        fn into_client_request(self) -> Result<http::Request, Error> {
            Ok(self)
        }
    }

    pub mod http {
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct HeaderValue(pub(crate) String);
        #[derive(Debug)]
        pub struct InvalidHeaderValue;
        impl std::fmt::Display for InvalidHeaderValue {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("invalid header value")
            }
        }
        impl std::error::Error for InvalidHeaderValue {}
        impl HeaderValue {
            pub fn from_static(s: &'static str) -> Self {
                HeaderValue(s.into())
            }
            pub fn to_str(&self) -> Result<&str, InvalidHeaderValue> {
                Ok(&self.0)
            }
        }
        impl std::str::FromStr for HeaderValue {
            type Err = InvalidHeaderValue;
            fn from_str(s: &str) -> Result<Self, Self::Err> {
                Ok(HeaderValue(s.into()))
            }
        }

        #[derive(Debug, Clone, Default)]
        pub struct HeaderMap(pub(crate) Vec<(String, HeaderValue)>);
        impl HeaderMap {
            pub fn get(&self, name: &str) -> Option<&HeaderValue> {
                self.0
                    .iter()
                    .find(|(n, _)| n.eq_ignore_ascii_case(name))
                    .map(|(_, v)| v)
            }
            pub fn insert(&mut self, name: &str, v: HeaderValue) {
                self.0.retain(|(n, _)| !n.eq_ignore_ascii_case(name));
                self.0.push((name.into(), v));
            }
            pub fn append(&mut self, name: &str, v: HeaderValue) {
                self.0.push((name.into(), v));
            }
        }

        #[derive(Debug, Clone)]
        pub struct Request {
            pub(crate) uri: String,
            pub(crate) headers: HeaderMap,
        }
        impl Request {
            pub fn headers(&self) -> &HeaderMap {
                &self.headers
            }
            pub fn headers_mut(&mut self) -> &mut HeaderMap {
                &mut self.headers
            }
        }

        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub struct StatusCode(pub(crate) u16);
        impl StatusCode {
            pub const SWITCHING_PROTOCOLS: StatusCode = StatusCode(101);
            pub const BAD_REQUEST: StatusCode = StatusCode(400);
        }

        #[derive(Debug, Clone)]
        pub struct Response<B> {
            pub(crate) status: StatusCode,
            pub(crate) headers: HeaderMap,
            #[allow(dead_code)]
            pub(crate) body: B,
        }
        impl<B> Response<B> {
            pub fn headers(&self) -> &HeaderMap {
                &self.headers
            }
            pub fn headers_mut(&mut self) -> &mut HeaderMap {
                &mut self.headers
            }
        }
        impl Response<()> {
            pub fn builder() -> Builder {
                Builder(StatusCode(200))
            }
        }
        pub struct Builder(StatusCode);
        impl Builder {
            pub fn status(mut self, s: StatusCode) -> Self {
                self.0 = s;
                self
            }
            pub fn body<B>(self, body: B) -> Result<Response<B>, InvalidHeaderValue> {
                Ok(Response {
                    status: self.0,
                    headers: HeaderMap::default(),
                    body,
                })
            }
        }
    }
}

use msg::http;
use tungstenite::protocol::WebSocketConfig;
use tungstenite::{Error, Message};

pub type MaybeTlsStream<S> = S;

#[derive(Debug)]
pub struct WebSocketStream<S> {
    io: S,
    rbuf: Vec<u8>,
    wbuf: Vec<u8>,
    max: usize,
    done: bool,
    closing: bool,
    wakers: Arc<Wakers>,
}

/// The two halves of a split stream poll one socket from two tasks, each for
/// both directions (reading answers pings), and tokio remembers one waker per
/// direction: so, as in the library, whatever the socket reports wakes both.
#[derive(Debug, Default)]
struct Wakers {
    read: Mutex<Option<Waker>>,
    write: Mutex<Option<Waker>>,
}
impl Wake for Wakers {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        for slot in [&self.read, &self.write] {
            let w = slot.lock().unwrap().take();
            if let Some(w) = w {
                w.wake();
            }
        }
    }
}
impl<S> WebSocketStream<S> {
    fn waker(&self, cx: &Context<'_>, reading: bool) -> Waker {
        let slot = if reading {
            &self.wakers.read
        } else {
            &self.wakers.write
        };
        *slot.lock().unwrap() = Some(cx.waker().clone());
        Waker::from(self.wakers.clone())
    }
}

pub fn encode(m: &Message, out: &mut Vec<u8>) {
    let (op, p): (u8, &[u8]) = match m {
        Message::Text(t) => (1, t.as_bytes()),
        Message::Binary(b) => (2, b),
        Message::Close(_) => (8, b""),
        Message::Ping(b) => (9, b),
        Message::Pong(b) => (10, b),
        Message::Frame(_) => return,
    };
    out.push(op);
    out.extend_from_slice(&(p.len() as u32).to_be_bytes());
    out.extend_from_slice(p);
}

/// One frame from the front of `buf`, if complete.
pub fn decode(buf: &mut Vec<u8>, max: usize) -> Result<Option<Message>, Error> {
    if buf.len() < 5 {
        return Ok(None);
    }
    let len = u32::from_be_bytes([buf[1], buf[2], buf[3], buf[4]]) as usize;
    if len > max {
        return Err(Error::Capacity);
    }
    if buf.len() < 5 + len {
        return Ok(None);
    }
    let op = buf[0];
    let p: Vec<u8> = buf.drain(..5 + len).skip(5).collect();
    Ok(Some(match op {
        1 => Message::Text(String::from_utf8(p).map_err(|_| Error::Protocol("utf-8"))?),
        2 => Message::Binary(p),
        8 => Message::Close(None),
        9 => Message::Ping(p),
        10 => Message::Pong(p),
        _ => return Err(Error::Protocol("opcode")),
    }))
}

impl<S: AsyncWrite + Unpin> WebSocketStream<S> {
    fn poll_drain(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
        while !self.wbuf.is_empty() {
            match Pin::new(&mut self.io).poll_write(cx, &self.wbuf) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e.into())),
                Poll::Ready(Ok(0)) => {
                    return Poll::Ready(Err(io::Error::from(io::ErrorKind::WriteZero).into()))
                }
                Poll::Ready(Ok(n)) => {
                    self.wbuf.drain(..n);
                }
            }
        }
        match Pin::new(&mut self.io).poll_flush(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(r) => Poll::Ready(r.map_err(Into::into)),
        }
    }
}

impl<S: AsyncRead + AsyncWrite + Unpin> Stream for WebSocketStream<S> {
    type Item = Result<Message, Error>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let this = &mut *self;
        let w = this.waker(cx, true);
        let cx = &mut Context::from_waker(&w);
        if !this.wbuf.is_empty() {
            let _ = this.poll_drain(cx);
        }
        loop {
            if this.done {
                return Poll::Ready(None);
            }
            match decode(&mut this.rbuf, this.max) {
                Err(e) => {
                    this.done = true;
                    return Poll::Ready(Some(Err(e)));
                }
                Ok(Some(m)) => {
                    match &m {
                        Message::Ping(p) => {
                            let pong = Message::Pong(p.clone());
                            encode(&pong, &mut this.wbuf);
                            let _ = this.poll_drain(cx);
                        }
                        Message::Close(_) => {
                            if !this.closing {
                                this.closing = true;
                                encode(&Message::Close(None), &mut this.wbuf);
                            }
                            let _ = this.poll_drain(cx);
                            this.done = true
                        }
                        _ => {}
                    }
                    return Poll::Ready(Some(Ok(m)));
                }
                Ok(None) => {}
            }
            let mut chunk = [0u8; 2048];
            let mut rb = ReadBuf::new(&mut chunk);
            match Pin::new(&mut this.io).poll_read(cx, &mut rb) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Err(e)) => {
                    this.done = true;
                    return Poll::Ready(Some(Err(e.into())));
                }
                Poll::Ready(Ok(())) => {
                    let n = rb.filled().len();
                    if n == 0 {
                        this.done = true;
                        return Poll::Ready(Some(Err(Error::Protocol(
                            "connection reset without closing handshake",
                        ))));
                    }
                    this.rbuf.extend_from_slice(rb.filled());
                }
            }
        }
    }
}

impl<S: AsyncRead + AsyncWrite + Unpin> Sink<Message> for WebSocketStream<S> {
    type Error = Error;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
        if self.wbuf.len() < 128 * 1024 {
            return Poll::Ready(Ok(()));
        }
        let w = self.waker(cx, false);
        self.poll_drain(&mut Context::from_waker(&w))
    }
    fn start_send(mut self: Pin<&mut Self>, m: Message) -> Result<(), Error> {
        encode(&m, &mut self.wbuf);
        Ok(())
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
        let w = self.waker(cx, false);
        self.poll_drain(&mut Context::from_waker(&w))
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
        if !self.closing {
            self.closing = true;
            encode(&Message::Close(None), &mut self.wbuf);
        }
        let w = self.waker(cx, false);
        self.poll_drain(&mut Context::from_waker(&w))
    }
}

async fn read_head<S: AsyncRead + Unpin>(io: &mut S) -> Result<(Vec<u8>, Vec<u8>), Error> {
    let mut buf = Vec::new();
    loop {
        if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            let rest = buf.split_off(i + 4);
            return Ok((buf, rest));
        }
        if buf.len() > 16 * 1024 {
            return Err(Error::Http);
        }
        if io.read_buf(&mut buf).await? == 0 {
            return Err(Error::ConnectionClosed);
        }
    }
}

fn headers(head: &[u8]) -> (String, http::HeaderMap) {
    let text = String::from_utf8_lossy(head).into_owned();
    let mut lines = text.split("\r\n");
    let first = lines.next().unwrap_or("").to_string();
    let mut map = http::HeaderMap::default();
    for l in lines {
        if let Some((n, v)) = l.split_once(':') {
            map.append(n.trim(), http::HeaderValue(v.trim().to_string()));
        }
    }
    (first, map)
}

fn render(first: &str, h: &http::HeaderMap) -> Vec<u8> {
    let mut s = format!("{first}\r\n");
    for (n, v) in &h.0 {
        s.push_str(&format!("{n}: {}\r\n", v.0));
    }
    s.push_str("\r\n");
    s.into_bytes()
}

fn stream<S>(io: S, rest: Vec<u8>, max: usize) -> WebSocketStream<S> {
    WebSocketStream {
        io,
        rbuf: rest,
        wbuf: Vec::new(),
        max,
        done: false,
        closing: false,
        wakers: Arc::default(),
    }
}

pub async fn connect_async<R: tungstenite::client::IntoClientRequest>(
    r: R,
) -> Result<(WebSocketStream<TcpStream>, http::Response<()>), Error> {
    let req = r.into_client_request()?;
    let rest = req.uri.strip_prefix("ws://").ok_or(Error::Url)?;
    let authority = rest.split('/').next().unwrap_or(rest);
    let addr: std::net::SocketAddr = authority.parse().map_err(|_| Error::Url)?;
    let mut io = TcpStream::connect(addr).await?;
    io.write_all(&render("GET / HTTP/1.1", &req.headers)).await?;
    let (head, rest) = read_head(&mut io).await?;
    let (first, h) = headers(&head);
    if !first.contains(" 101") {
        return Err(Error::Http);
    }
    Ok((
        stream(io, rest, 64 << 20),
        http::Response {
            status: http::StatusCode::SWITCHING_PROTOCOLS,
            headers: h,
            body: (),
        },
    ))
}

pub async fn accept_hdr_async_with_config<S, C>(
    mut io: S,
    callback: C,
    config: Option<WebSocketConfig>,
) -> Result<WebSocketStream<S>, Error>
where
    S: AsyncRead + AsyncWrite + Unpin,
    C: FnOnce(
        &http::Request,
        http::Response<()>,
    ) -> Result<http::Response<()>, http::Response<Option<String>>>,
{
    let (head, rest) = read_head(&mut io).await?;
    let (first, h) = headers(&head);
    if !first.starts_with("GET ") {
        return Err(Error::Http);
    }
    let req = http::Request {
        uri: first,
        headers: h,
    };
    let resp = http::Response {
        status: http::StatusCode::SWITCHING_PROTOCOLS,
        headers: http::HeaderMap::default(),
        body: (),
    };
    match callback(&req, resp) {
        Ok(r) => {
            io.write_all(&render("HTTP/1.1 101 Switching Protocols", &r.headers))
                .await?;
        }
        Err(r) => {
            io.write_all(&render(&format!("HTTP/1.1 {} Bad Request", r.status.0), &r.headers))
                .await?;
            let _ = io.shutdown().await;
            return Err(Error::Http);
        }
    }
    let max = config
        .and_then(|c| match (c.max_frame_size, c.max_message_size) {
            (Some(a), Some(b)) => Some(a.min(b)),
            (a, b) => a.or(b),
        })
        .unwrap_or(64 << 20);
    Ok(stream(io, rest, max))
}
