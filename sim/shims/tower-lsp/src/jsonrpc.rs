//! JSON-RPC messages, after tower-lsp's `jsonrpc` module.
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serde_json::Value;
use std::borrow::Cow;
use std::fmt::{self, Display, Formatter};
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum ErrorCode { ParseError, InvalidRequest, MethodNotFound, InvalidParams, InternalError, ServerError(i64), RequestCancelled, ContentModified }
impl ErrorCode { pub const fn code(&self) -> i64 { match *self { ErrorCode::ParseError => -32700, ErrorCode::InvalidRequest => -32600, ErrorCode::MethodNotFound => -32601, ErrorCode::InvalidParams => -32602, ErrorCode::InternalError => -32603, ErrorCode::RequestCancelled => -32800, ErrorCode::ContentModified => -32801, ErrorCode::ServerError(c) => c } }
    pub const fn description(&self) -> &'static str { match *self { ErrorCode::ParseError => "Parse error", ErrorCode::InvalidRequest => "Invalid request", ErrorCode::MethodNotFound => "Method not found", ErrorCode::InvalidParams => "Invalid params", ErrorCode::InternalError => "Internal error", ErrorCode::RequestCancelled => "Canceled", ErrorCode::ContentModified => "Content modified", ErrorCode::ServerError(_) => "Server error" } } }
impl From<i64> for ErrorCode { fn from(c: i64) -> Self { match c { -32700 => ErrorCode::ParseError, -32600 => ErrorCode::InvalidRequest, -32601 => ErrorCode::MethodNotFound, -32602 => ErrorCode::InvalidParams, -32603 => ErrorCode::InternalError, -32800 => ErrorCode::RequestCancelled, -32801 => ErrorCode::ContentModified, c => ErrorCode::ServerError(c) } } }
impl Display for ErrorCode { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { Display::fmt(&self.code(), f) } }
impl Serialize for ErrorCode { fn serialize<S: Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> { self.code().serialize(s) } }
impl<'a> Deserialize<'a> for ErrorCode { fn deserialize<D: Deserializer<'a>>(d: D) -> std::result::Result<Self, D::Error> { i64::deserialize(d).map(From::from) } }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(deny_unknown_fields)]
pub struct Error { pub code: ErrorCode, pub message: Cow<'static, str>, #[serde(skip_serializing_if = "Option::is_none")] pub data: Option<Value> }
impl Error {
    pub const fn new(code: ErrorCode) -> Self { Error { code, message: Cow::Borrowed(code.description()), data: None } }
    pub const fn parse_error() -> Self { Error::new(ErrorCode::ParseError) }
    pub const fn invalid_request() -> Self { Error::new(ErrorCode::InvalidRequest) }
    pub const fn method_not_found() -> Self { Error::new(ErrorCode::MethodNotFound) }
    pub fn invalid_params<M: Into<Cow<'static, str>>>(m: M) -> Self { Error { code: ErrorCode::InvalidParams, message: m.into(), data: None } }
    pub const fn internal_error() -> Self { Error::new(ErrorCode::InternalError) }
    pub const fn request_cancelled() -> Self { Error::new(ErrorCode::RequestCancelled) }
}
impl Display for Error { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "{}: {}", self.code.description(), self.message) } }
impl std::error::Error for Error {}
pub(crate) const fn not_initialized_error() -> Error { Error { code: ErrorCode::ServerError(-32002), message: Cow::Borrowed("Server not initialized"), data: None } }
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, Default)]
#[serde(untagged)]
pub enum Id { Number(i64), String(String), #[default] Null }
impl Display for Id { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { match self { Id::Number(n) => Display::fmt(n, f), Id::String(s) => fmt::Debug::fmt(s, f), Id::Null => f.write_str("null") } } }
#[derive(Clone, Debug, PartialEq)]
pub struct Request { pub(crate) method: Cow<'static, str>, pub(crate) params: Option<Value>, pub(crate) id: Option<Id> }
impl Request {
    pub fn method(&self) -> &str { &self.method }
    pub fn id(&self) -> Option<&Id> { self.id.as_ref() }
    pub fn params(&self) -> Option<&Value> { self.params.as_ref() }
    pub fn into_parts(self) -> (Cow<'static, str>, Option<Id>, Option<Value>) { (self.method, self.id, self.params) }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Response { pub(crate) id: Id, pub(crate) result: Result<Value> }
impl Response {
    pub fn from_ok(id: Id, v: Value) -> Self { Response { id, result: Ok(v) } }
    pub fn from_error(id: Id, e: Error) -> Self { Response { id, result: Err(e) } }
    pub fn from_parts(id: Id, b: Result<Value>) -> Self { Response { id, result: b } }
    pub fn is_ok(&self) -> bool { self.result.is_ok() }
    pub fn is_error(&self) -> bool { self.result.is_err() }
    pub fn id(&self) -> &Id { &self.id }
    pub fn result(&self) -> Option<&Value> { self.result.as_ref().ok() }
    pub fn error(&self) -> Option<&Error> { self.result.as_ref().err() }
}
#[derive(Clone, Debug)]
pub(crate) enum Message { Request(Request), Response(Response) }
impl Message {
    pub(crate) fn to_json(&self) -> Value {
        let mut m = serde_json::Map::new();
        m.insert("jsonrpc".into(), "2.0".into());
        match self {
            Message::Request(r) => { m.insert("method".into(), r.method.as_ref().into()); if let Some(p) = &r.params { m.insert("params".into(), p.clone()); } if let Some(i) = &r.id { m.insert("id".into(), serde_json::to_value(i).unwrap()); } }
            Message::Response(r) => { match &r.result { Ok(v) => { m.insert("result".into(), v.clone()); } Err(e) => { m.insert("error".into(), serde_json::to_value(e).unwrap()); } } m.insert("id".into(), serde_json::to_value(&r.id).unwrap()); }
        }
        Value::Object(m)
    }
    pub(crate) fn from_json(v: Value) -> std::result::Result<Message, Error> {
        let Value::Object(mut m) = v else { return Err(Error::invalid_request()) };
        if m.get("jsonrpc").and_then(|v| v.as_str()) != Some("2.0") { return Err(Error::invalid_request()); }
        let id = match m.remove("id") { None => None, Some(i) => Some(serde_json::from_value::<Id>(i).map_err(|_| Error::invalid_request())?) };
        match m.remove("method") {
            Some(Value::String(method)) => Ok(Message::Request(Request { method: method.into(), params: m.remove("params"), id })),
            Some(_) => Err(Error::invalid_request()),
            None => {
                let id = id.ok_or_else(Error::invalid_request)?;
                match (m.remove("result"), m.remove("error")) {
                    (Some(v), None) => Ok(Message::Response(Response::from_ok(id, v))),
                    (None, Some(e)) => Ok(Message::Response(Response::from_error(id, serde_json::from_value(e).map_err(|_| Error::invalid_request())?))),
                    _ => Err(Error::invalid_request()),
                }
            }
        }
    }
}
