use crate::codec::Codec;
use crate::jsonrpc::{Id, Message, Response};
use crate::service::{deliver, ClientSocket, LanguageServer, LspService};
use futures::channel::mpsc;
use futures::{future, join, stream, FutureExt, SinkExt, StreamExt};
use tokio::io::{AsyncRead, AsyncWrite};
use tokio_util::codec::{FramedRead, FramedWrite};
const QUEUE: usize = 100;
pub struct Server<I, O> { stdin: I, stdout: O, socket: ClientSocket, max: usize }
impl<I: AsyncRead + Unpin, O: AsyncWrite> Server<I, O> {
    pub fn new(stdin: I, stdout: O, socket: ClientSocket) -> Self { Server { stdin, stdout, socket, max: 4 } }
    pub fn concurrency_level(mut self, max: usize) -> Self { self.max = max; self }
    pub async fn serve<S: LanguageServer>(self, mut service: LspService<S>) {
        let sh = self.socket.sh.clone();
        let (client_requests, client_abort) = stream::abortable(self.socket.rx);
        // dropped once aborted, so that sending to the client fails from then on rather than waiting for room
        let mut open = Some(client_requests);
        let client_requests = stream::poll_fn(move |cx| {
            let Some(s) = &mut open else { return std::task::Poll::Ready(None) };
            let r = s.poll_next_unpin(cx);
            if let std::task::Poll::Ready(None) = r { open = None; }
            r
        });
        let (mut responses_tx, responses_rx) = mpsc::channel(0);
        let (mut tasks_tx, tasks_rx) = mpsc::channel::<future::BoxFuture<'static, Option<Response>>>(QUEUE);
        let mut framed_in = FramedRead::new(self.stdin, Codec::default());
        let framed_out = FramedWrite::new(self.stdout, Codec::default());
        let process = tasks_rx.buffer_unordered(self.max).filter_map(future::ready).map(|r| Ok(Message::Response(r))).forward(responses_tx.clone()).map(|_| ());
        let print = stream::select(responses_rx, client_requests.map(Message::Request)).map(Ok).forward(framed_out).map(|r| if let Err(e) = r { tracing::error!("failed to encode message: {e}") });
        let read = async {
            while let Some(msg) = framed_in.next().await {
                // a dependency with something to say on three levels, whenever a message arrives
                tracing::info!("dependency speaks");
                tracing::debug!("dependency speaks");
                tracing::trace!("dependency speaks");
                match msg {
                    Ok(Ok(Message::Request(req))) => {
                        let fut = service.call(req);
                        let exited = service.exited();
                        if tasks_tx.send(fut).await.is_err() || exited { break; }
                    }
                    Ok(Ok(Message::Response(r))) => deliver(&sh, r),
                    Ok(Err(e)) => {
                        tracing::error!("failed to decode message: {e}");
                        if responses_tx.send(Message::Response(Response::from_error(Id::Null, e))).await.is_err() { break; }
                    }
                    Err(e) => { tracing::error!("failed to read: {e}"); break; }
                }
            }
            tasks_tx.disconnect();
            responses_tx.disconnect();
            client_abort.abort();
            sh.close();
        };
        join!(print, read, process);
    }
}
