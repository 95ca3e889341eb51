use crate::jsonrpc::{not_initialized_error, Error, Id, Message, Request, Response, Result};
use crate::lsp_types::*;
use futures::channel::{mpsc, oneshot};
use futures::future::{self, AbortHandle, Abortable, BoxFuture, FutureExt};
use futures::SinkExt;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use std::collections::HashMap;
use std::fmt::{self, Debug, Display};
use std::future::Future;
use std::sync::atomic::{AtomicI64, AtomicU8, Ordering};
use std::sync::{Arc, Mutex};
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub(crate) enum State { Uninitialized, Initializing, Initialized, ShutDown, Exited }
#[derive(Debug)]
pub struct ExitedError(());
impl Display for ExitedError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("language server has exited") } }
impl std::error::Error for ExitedError {}
pub(crate) struct Shared { state: AtomicU8, pub(crate) waiting: Mutex<HashMap<Id, Option<oneshot::Sender<Response>>>>, pub(crate) closed: Mutex<bool>, next_id: AtomicI64 }
impl Shared {
    pub(crate) fn get(&self) -> State { match self.state.load(Ordering::SeqCst) { 0 => State::Uninitialized, 1 => State::Initializing, 2 => State::Initialized, 3 => State::ShutDown, _ => State::Exited } }
    fn set(&self, s: State) { self.state.store(s as u8, Ordering::SeqCst) }
    /// No answer can arrive any more.
    pub(crate) fn close(&self) { *self.closed.lock().unwrap() = true; self.waiting.lock().unwrap().clear(); }
}
/// Sends notifications and requests to the client.
#[derive(Clone)]
pub struct Client { tx: mpsc::Sender<Request>, sh: Arc<Shared> }
impl Debug for Client { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Client") } }
impl Client {
    pub async fn register_capability(&self, registrations: Vec<Registration>) -> Result<()> { self.send_request::<request::RegisterCapability>(RegistrationParams { registrations }).await }
    pub async fn unregister_capability(&self, unregisterations: Vec<Unregistration>) -> Result<()> { self.send_request::<request::UnregisterCapability>(UnregistrationParams { unregisterations }).await }
    pub async fn configuration(&self, items: Vec<ConfigurationItem>) -> Result<Vec<Value>> { self.send_request::<request::WorkspaceConfiguration>(ConfigurationParams { items }).await }
    pub async fn workspace_folders(&self) -> Result<Option<Vec<WorkspaceFolder>>> { self.send_request::<request::WorkspaceFoldersRequest>(()).await }
    pub async fn log_message<M: Display>(&self, typ: MessageType, message: M) { self.unchecked::<notification::LogMessage>(LogMessageParams { typ, message: message.to_string() }).await }
    pub async fn show_message<M: Display>(&self, typ: MessageType, message: M) { self.unchecked::<notification::ShowMessage>(ShowMessageParams { typ, message: message.to_string() }).await }
    pub async fn publish_diagnostics(&self, uri: Url, diagnostics: Vec<Diagnostic>, version: Option<i32>) { self.send_notification::<notification::PublishDiagnostics>(PublishDiagnosticsParams { uri, diagnostics, version }).await }
    pub async fn telemetry_event<S: Serialize>(&self, data: S) { if let Ok(v) = serde_json::to_value(data) { self.unchecked::<notification::TelemetryEvent>(v).await } }
    pub async fn send_notification<N: notification::Notification>(&self, params: N::Params) {
        if let State::Initialized | State::ShutDown = self.sh.get() { self.unchecked::<N>(params).await }
    }
    async fn unchecked<N: notification::Notification>(&self, params: N::Params) {
        let r = Request { method: N::METHOD.into(), params: Some(serde_json::to_value(params).unwrap()), id: None };
        let _ = self.tx.clone().send(r).await;
    }
    pub async fn send_request<R: request::Request>(&self, params: R::Params) -> Result<R::Result> {
        match self.sh.get() { State::Initialized | State::ShutDown => {} State::Exited => return Err(Error::internal_error()), _ => return Err(not_initialized_error()) }
        let id = Id::Number(self.sh.next_id.fetch_add(1, Ordering::SeqCst));
        let (tx, rx) = oneshot::channel();
        {
            let closed = self.sh.closed.lock().unwrap();
            if *closed { return Err(Error::internal_error()); }
            self.sh.waiting.lock().unwrap().insert(id.clone(), Some(tx));
        }
        let params = serde_json::to_value(params).unwrap();
        let r = Request { method: R::METHOD.into(), params: if params.is_null() { None } else { Some(params) }, id: Some(id.clone()) };
        if self.tx.clone().send(r).await.is_err() { return Err(Error::internal_error()); }
        let Ok(resp) = rx.await else { return Err(Error::internal_error()) };
        let (_, res) = (resp.id, resp.result);
        res.and_then(|v| serde_json::from_value(v).map_err(|e| Error { code: crate::jsonrpc::ErrorCode::ParseError, message: e.to_string().into(), data: None }))
    }
}
pub struct ClientSocket { pub(crate) rx: mpsc::Receiver<Request>, pub(crate) sh: Arc<Shared> }
impl Debug for ClientSocket { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("ClientSocket") } }

macro_rules! server_trait {
    (requests { $($r:ident ( $rp:ty ) -> $ro:ty = $rm:expr;)* } notifications { $($n:ident ( $np:ty ) = $nm:expr;)* }) => {
        #[allow(unused_variables)]
        pub trait LanguageServer: Send + Sync + 'static {
            fn initialize(&self, params: InitializeParams) -> impl Future<Output = Result<InitializeResult>> + Send;
            fn initialized(&self, params: InitializedParams) -> impl Future<Output = ()> + Send { async {} }
            fn shutdown(&self) -> impl Future<Output = Result<()>> + Send;
            $(fn $r(&self, params: $rp) -> impl Future<Output = Result<$ro>> + Send { async { Err(Error::method_not_found()) } })*
            $(fn $n(&self, params: $np) -> impl Future<Output = ()> + Send { async {} })*
        }
        fn builtin<S: LanguageServer>(s: Arc<S>, method: &str, params: Option<Value>) -> Option<(bool, BoxFuture<'static, Result<Value>>)> {
            Some(match method {
                "initialize" => (true, call(params, move |p| async move { s.initialize(p).await })),
                "initialized" => (false, call(params, move |p| async move { s.initialized(p).await; Ok(()) })),
                "shutdown" => (true, match params { Some(p) => future::ready(Err(Error::invalid_params(format!("Unexpected params: {p}")))).boxed(), None => async move { s.shutdown().await.map(|()| Value::Null) }.boxed() }),
                $($rm => (true, call(params, move |p| async move { s.$r(p).await })),)*
                $($nm => (false, call(params, move |p| async move { s.$n(p).await; Ok(()) })),)*
                _ => return None,
            })
        }
    };
}
server_trait! {
    requests {
        formatting(DocumentFormattingParams) -> Option<Vec<TextEdit>> = "textDocument/formatting";
        range_formatting(DocumentRangeFormattingParams) -> Option<Vec<TextEdit>> = "textDocument/rangeFormatting";
        execute_command(Value) -> Option<Value> = "workspace/executeCommand";
        symbol(Value) -> Option<Value> = "workspace/symbol";
    }
    notifications {
        did_open(DidOpenTextDocumentParams) = "textDocument/didOpen";
        did_change(DidChangeTextDocumentParams) = "textDocument/didChange";
        did_save(DidSaveTextDocumentParams) = "textDocument/didSave";
        did_close(DidCloseTextDocumentParams) = "textDocument/didClose";
        did_change_workspace_folders(DidChangeWorkspaceFoldersParams) = "workspace/didChangeWorkspaceFolders";
        did_change_configuration(DidChangeConfigurationParams) = "workspace/didChangeConfiguration";
        did_change_watched_files(DidChangeWatchedFilesParams) = "workspace/didChangeWatchedFiles";
    }
}
fn parse<P: DeserializeOwned>(p: Option<Value>) -> Result<P> {
    match p { Some(p) => serde_json::from_value(p).map_err(|e| Error::invalid_params(e.to_string())), None => Err(Error::invalid_params("Missing params field")) }
}
fn call<P: DeserializeOwned, O: Serialize, F: Future<Output = Result<O>> + Send + 'static>(p: Option<Value>, f: impl FnOnce(P) -> F) -> BoxFuture<'static, Result<Value>> {
    match parse(p) { Ok(p) => { let f = f(p); async move { f.await.and_then(|o| serde_json::to_value(o).map_err(|_| Error::internal_error())) }.boxed() } Err(e) => future::ready(Err(e)).boxed() }
}
pub trait FromParams: Sized + Send + Sync + 'static { fn from_params(p: Option<Value>) -> Result<Self>; }
impl FromParams for () { fn from_params(p: Option<Value>) -> Result<()> { match p { Some(p) => Err(Error::invalid_params(format!("Unexpected params: {p}"))), None => Ok(()) } } }
impl<P: DeserializeOwned + Send + Sync + 'static> FromParams for (P,) { fn from_params(p: Option<Value>) -> Result<Self> { parse(p).map(|p| (p,)) } }
/// What a handler returns: nothing for a notification, a result for a request.
pub trait IntoResponse: Send + Sync + 'static { fn request() -> bool; fn into_value(self) -> Result<Value>; }
impl IntoResponse for () { fn request() -> bool { false } fn into_value(self) -> Result<Value> { Ok(Value::Null) } }
impl<R: Serialize + Send + Sync + 'static> IntoResponse for Result<R> { fn request() -> bool { true } fn into_value(self) -> Result<Value> { self.and_then(|r| serde_json::to_value(r).map_err(|_| Error::internal_error())) } }
pub trait Method<S, P, R> { type Future: Future<Output = R> + Send; fn invoke(&self, server: S, params: P) -> Self::Future; }
impl<F, S, R, Fut> Method<S, (), R> for F where F: Fn(S) -> Fut, Fut: Future<Output = R> + Send { type Future = Fut; fn invoke(&self, s: S, _p: ()) -> Fut { self(s) } }
impl<F, S, P, R, Fut> Method<S, (P,), R> for F where F: Fn(S, P) -> Fut, P: DeserializeOwned, Fut: Future<Output = R> + Send { type Future = Fut; fn invoke(&self, s: S, p: (P,)) -> Fut { self(s, p.0) } }

type Custom<S> = Box<dyn Fn(Arc<S>, Option<Value>) -> BoxFuture<'static, Result<Value>> + Send + Sync>;
pub struct LspServiceBuilder<S> { inner: Arc<S>, sh: Arc<Shared>, socket: ClientSocket, custom: HashMap<&'static str, (bool, Custom<S>)> }
impl<S: LanguageServer> LspServiceBuilder<S> {
    pub fn custom_method<P, R, F>(mut self, name: &'static str, callback: F) -> Self
    where P: FromParams, R: IntoResponse, F: for<'a> Method<&'a S, P, R> + Clone + Send + Sync + 'static {
        let f = move |s: Arc<S>, p: Option<Value>| -> BoxFuture<'static, Result<Value>> {
            let cb = callback.clone();
            match P::from_params(p) { Ok(p) => async move { cb.invoke(&*s, p).await.into_value() }.boxed(), Err(e) => future::ready(Err(e)).boxed() }
        };
        self.custom.insert(name, (R::request(), Box::new(f)));
        self
    }
    pub fn finish(self) -> (LspService<S>, ClientSocket) { (LspService { inner: self.inner, sh: self.sh, pending: Default::default(), custom: self.custom }, self.socket) }
}
pub struct LspService<S> { inner: Arc<S>, sh: Arc<Shared>, pending: Arc<Mutex<HashMap<Id, AbortHandle>>>, custom: HashMap<&'static str, (bool, Custom<S>)> }
impl<S: Debug> Debug for LspService<S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("LspService").field("inner", &self.inner).finish() } }
impl<S: LanguageServer> LspService<S> {
    pub fn new<F: FnOnce(Client) -> S>(init: F) -> (Self, ClientSocket) { LspService::build(init).finish() }
    pub fn build<F: FnOnce(Client) -> S>(init: F) -> LspServiceBuilder<S> {
        let sh = Arc::new(Shared { state: AtomicU8::new(0), waiting: Default::default(), closed: Mutex::new(false), next_id: AtomicI64::new(0) });
        let (tx, rx) = mpsc::channel(1);
        let inner = Arc::new(init(Client { tx, sh: sh.clone() }));
        LspServiceBuilder { inner, sh: sh.clone(), socket: ClientSocket { rx, sh }, custom: HashMap::new() }
    }
    pub fn inner(&self) -> &S { &self.inner }
    pub(crate) fn exited(&self) -> bool { self.sh.get() == State::Exited }
    pub(crate) fn call(&mut self, req: Request) -> BoxFuture<'static, Option<Response>> {
        let Request { method, params, id } = req;
        let st = self.sh.get();
        let refuse = |e: Error| -> BoxFuture<'static, Option<Response>> { future::ready(id.clone().map(|i| Response::from_error(i, e))).boxed() };
        match (&*method, st) {
            ("exit", _) => {
                self.sh.set(State::Exited);
                for (_, h) in self.pending.lock().unwrap().drain() { h.abort(); }
                return future::ready(None).boxed();
            }
            ("initialize", State::Uninitialized) => self.sh.set(State::Initializing),
            ("initialize", _) => return refuse(Error::invalid_request()),
            (_, State::Initialized) => {}
            (_, State::Uninitialized | State::Initializing) => return refuse(not_initialized_error()),
            (_, _) => return refuse(Error::invalid_request()),
        }
        if method == "shutdown" { self.sh.set(State::ShutDown); }
        if method == "$/cancelRequest" {
            let pending = self.pending.clone();
            return async move {
                if let Some(id) = params.as_ref().and_then(|p| p.get("id")).and_then(|i| serde_json::from_value::<Id>(i.clone()).ok()) { if let Some(h) = pending.lock().unwrap().remove(&id) { h.abort(); } }
                None
            }.boxed();
        }
        let found = match self.custom.get(&*method) { Some((req, f)) => Some((*req, f(self.inner.clone(), params))), None => builtin(self.inner.clone(), &method, params) };
        let Some((is_request, fut)) = found else {
            if method.starts_with("$/") && id.is_none() { return future::ready(None).boxed(); }
            let mut e = Error::method_not_found();
            e.data = Some(Value::String(method.to_string()));
            return refuse(e);
        };
        let Some(id) = id else {
            let initialize = method == "initialize";
            let sh = self.sh.clone();
            return async move { let r = fut.await; if initialize { sh.set(if r.is_ok() { State::Initialized } else { State::Uninitialized }); } None }.boxed();
        };
        if !is_request { return future::ready(Some(Response::from_error(id, Error::invalid_request()))).boxed(); }
        let (h, reg) = AbortHandle::new_pair();
        {
            let mut p = self.pending.lock().unwrap();
            if p.contains_key(&id) { return future::ready(Some(Response::from_error(id, Error::invalid_request()))).boxed(); }
            p.insert(id.clone(), h);
        }
        let pending = self.pending.clone();
        let sh = self.sh.clone();
        let initialize = method == "initialize";
        async move {
            let r = match Abortable::new(fut, reg).await { Ok(r) => { pending.lock().unwrap().remove(&id); r } Err(_) => Err(Error::request_cancelled()) };
            if initialize && sh.get() == State::Initializing { sh.set(if r.is_ok() { State::Initialized } else { State::Uninitialized }); }
            Some(Response { id, result: r })
        }.boxed()
    }
}
pub(crate) fn deliver(sh: &Shared, r: Response) {
    if let Some(Some(tx)) = sh.waiting.lock().unwrap().remove(&r.id) { let _ = tx.send(r); }
}
#[allow(dead_code)]
pub(crate) type Out = Message;
