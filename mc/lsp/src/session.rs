//! The real server behind tower-lsp's service, driven one poll at a time.
use futures::{Sink, Stream};
use serde_json::{Value as Json, json};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::task::{Context, Poll, Wake, Waker};
use styx_lsp::StyxLanguageServer;
use tower::Service;
use tower_lsp::jsonrpc::{Request, Response};
use tower_lsp::{ClientSocket, ExitedError, LspService};

pub struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}

type Fut = Pin<Box<dyn Future<Output = Result<Option<Response>, ExitedError>> + Send>>;

/// A handler that has not finished.
pub struct Task {
    fut: Fut,
    flag: Arc<Flag>,
    pub event: usize,
}
impl Task {
    /// Whether something it waits for has happened.
    pub fn woken(&self) -> bool {
        self.flag.0.load(Ordering::SeqCst)
    }
    pub fn poll(&mut self) -> Option<Option<Json>> {
        self.flag.0.store(false, Ordering::SeqCst);
        let w = Waker::from(self.flag.clone());
        match self.fut.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Pending => None,
            Poll::Ready(r) => Some(r.expect("server exited").map(|r| serde_json::to_value(&r).unwrap())),
        }
    }
}

pub struct Session {
    service: LspService<StyxLanguageServer>,
    socket: ClientSocket,
    id: i64,
}

impl Session {
    pub fn new() -> Session {
        let (service, socket) = LspService::new(StyxLanguageServer::new);
        let mut s = Session { service, socket, id: 0 };
        s.request("initialize", json!({"processId": null, "rootUri": null, "capabilities": {}}));
        s.notify("initialized", json!({}));
        s
    }
    /// Hand a message to the server; nothing is polled yet.
    pub fn call(&mut self, event: usize, method: &str, params: Json, wants_reply: bool) -> Task {
        let mut r = Request::build(method.to_string()).params(params);
        if wants_reply {
            self.id += 1;
            r = r.id(self.id);
        }
        Task { fut: Box::pin(self.service.call(r.finish())), flag: Arc::new(Flag(AtomicBool::new(true))), event }
    }
    /// The next message to the client, if there is one. Requests are answered with null.
    pub fn outgoing(&mut self) -> Option<Json> {
        let w = Waker::noop();
        match Pin::new(&mut self.socket).poll_next(&mut Context::from_waker(w)) {
            Poll::Ready(Some(r)) => {
                if let Some(id) = r.id() {
                    let _ = Pin::new(&mut self.socket).start_send(Response::from_ok(id.clone(), Json::Null));
                }
                Some(serde_json::to_value(&r).unwrap())
            }
            _ => None,
        }
    }
    /// Run one message to its end with a client that accepts everything; the answer and what the
    /// client received.
    pub fn run(&mut self, method: &str, params: Json, wants_reply: bool) -> (Option<Json>, Vec<Json>) {
        let mut t = self.call(0, method, params, wants_reply);
        let mut got = vec![];
        let reply = loop {
            if let Some(r) = t.poll() {
                break r;
            }
            while let Some(m) = self.outgoing() {
                got.push(m);
            }
            assert!(t.woken(), "{method} never finishes");
        };
        while let Some(m) = self.outgoing() {
            got.push(m);
        }
        (reply, got)
    }
    pub fn request(&mut self, method: &str, params: Json) -> Json {
        self.run(method, params, true).0.expect("no answer")
    }
    pub fn notify(&mut self, method: &str, params: Json) -> Vec<Json> {
        self.run(method, params, false).1
    }
    pub fn open(&mut self, uri: &str, text: &str, version: i64) -> Vec<Json> {
        self.notify("textDocument/didOpen", open_params(uri, text, version))
    }
}

pub fn open_params(uri: &str, text: &str, version: i64) -> Json {
    json!({"textDocument": {"uri": uri, "languageId": "styx", "version": version, "text": text}})
}

/// The requests a client makes about a document.
pub const REQUESTS: &[&str] = &[
    "textDocument/formatting",
    "textDocument/documentSymbol",
    "textDocument/semanticTokens/full",
    "textDocument/documentLink",
    "textDocument/definition",
    "textDocument/hover",
    "textDocument/completion",
    "textDocument/codeAction",
    "textDocument/references",
    "textDocument/inlayHint",
    "textDocument/onTypeFormatting",
];

pub fn request_params(method: &str, uri: &str, line: u64, character: u64) -> Json {
    let doc = json!({"uri": uri});
    let pos = json!({"line": line, "character": character});
    let range = json!({"start": pos, "end": pos});
    let options = json!({"tabSize": 4, "insertSpaces": true});
    match method.rsplit_once("textDocument/").unwrap().1 {
        "formatting" => json!({"textDocument": doc, "options": options}),
        "onTypeFormatting" => json!({"textDocument": doc, "position": pos, "ch": "\n", "options": options}),
        "codeAction" => json!({"textDocument": doc, "range": range, "context": {"diagnostics": []}}),
        "inlayHint" => json!({"textDocument": doc, "range": {"start": {"line": 0, "character": 0}, "end": {"line": 1000, "character": 0}}}),
        "references" => json!({"textDocument": doc, "position": pos, "context": {"includeDeclaration": true}}),
        "documentSymbol" | "semanticTokens/full" | "documentLink" => json!({"textDocument": doc}),
        _ => json!({"textDocument": doc, "position": pos}),
    }
}
