//! `Content-Length` framing.
use crate::jsonrpc::{Error, Message};
use bytes::{Buf, BufMut, BytesMut};
use tokio_util::codec::{Decoder, Encoder};
#[derive(Debug)]
pub(crate) enum CodecError { Io(std::io::Error), Body(Error), Header }
impl From<std::io::Error> for CodecError { fn from(e: std::io::Error) -> Self { CodecError::Io(e) } }
impl std::fmt::Display for CodecError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
/// Decoding errors are items, so that one bad message does not end the stream.
#[derive(Default)]
pub(crate) struct Codec { len: Option<usize> }
impl Encoder<Message> for Codec {
    type Error = CodecError;
    fn encode(&mut self, m: Message, dst: &mut BytesMut) -> Result<(), CodecError> {
        let b = serde_json::to_vec(&m.to_json()).unwrap();
        let h = format!("Content-Length: {}\r\n\r\n", b.len());
        dst.reserve(h.len() + b.len());
        dst.put_slice(h.as_bytes());
        dst.put_slice(&b);
        Ok(())
    }
}
impl Decoder for Codec {
    type Item = Result<Message, Error>;
    type Error = CodecError;
    fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, CodecError> {
        loop {
            if let Some(n) = self.len {
                if src.len() < n { return Ok(None); }
                let b = src.split_to(n);
                self.len = None;
                return Ok(Some(match serde_json::from_slice::<serde_json::Value>(&b) { Ok(v) => Message::from_json(v), Err(_) => Err(Error::parse_error()) }));
            }
            let mut dst = [httparse::EMPTY_HEADER; 3];
            match httparse::parse_headers(src, &mut dst) {
                Ok(httparse::Status::Complete((at, hs))) => {
                    let n = hs.iter().find(|h| h.name.eq_ignore_ascii_case("content-length")).and_then(|h| std::str::from_utf8(h.value).ok()?.trim().parse::<usize>().ok());
                    src.advance(at);
                    match n { Some(n) => self.len = Some(n), None => return Ok(Some(Err(Error::parse_error()))) }
                }
                Ok(httparse::Status::Partial) => return Ok(None),
                Err(_) => {
                    // skip to the next header
                    let skip = src.windows(15).skip(1).position(|w| w.eq_ignore_ascii_case(b"content-length:")).map_or(src.len(), |p| p + 1);
                    src.advance(skip);
                    return Ok(Some(Err(Error::parse_error())));
                }
            }
        }
    }
}
