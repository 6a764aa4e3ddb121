//! The server on a runtime, with extensions as real processes.
use crate::session::open_params;
use futures::{Sink, SinkExt, StreamExt};
use serde_json::{Value as Json, json};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;
use styx_lsp::StyxLanguageServer;
use tokio::task::JoinHandle;
use tower::Service;
use tower_lsp::LspService;
use tower_lsp::jsonrpc::{Request, Response};

pub struct Live {
    service: LspService<StyxLanguageServer>,
    got: Rc<RefCell<Vec<Json>>>,
    id: i64,
}

fn assert_sink<T: Sink<Response>>(_: &T) {}

impl Live {
    pub async fn new() -> Live {
        let (service, socket) = LspService::new(StyxLanguageServer::new);
        let got = Rc::new(RefCell::new(vec![]));
        let g = got.clone();
        let (mut out, mut replies) = socket.split();
        assert_sink(&replies);
        tokio::task::spawn_local(async move {
            while let Some(m) = out.next().await {
                if let Some(id) = m.id() {
                    let _ = replies.send(Response::from_ok(id.clone(), Json::Null)).await;
                }
                g.borrow_mut().push(serde_json::to_value(&m).unwrap());
            }
        });
        let mut l = Live { service, got, id: 0 };
        l.send("initialize", json!({"processId": null, "rootUri": null, "capabilities": {}}), true).await.unwrap();
        l.send("initialized", json!({}), false).await.unwrap();
        l
    }
    /// Hand a message over; handlers start in this order.
    pub fn send(&mut self, method: &str, params: Json, wants_reply: bool) -> JoinHandle<Json> {
        let mut r = Request::build(method.to_string()).params(params);
        if wants_reply {
            self.id += 1;
            r = r.id(self.id);
        }
        let f = self.service.call(r.finish());
        tokio::task::spawn_local(async move { f.await.ok().flatten().map_or(Json::Null, |r| serde_json::to_value(&r).unwrap()) })
    }
    pub fn open(&mut self, uri: &str, text: &str, version: i64) -> JoinHandle<Json> {
        self.send("textDocument/didOpen", open_params(uri, text, version), false)
    }
    pub fn change(&mut self, uri: &str, text: &str, version: i64) -> JoinHandle<Json> {
        self.send("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": [{"text": text}]}), false)
    }
    pub fn allow(&mut self, command: &str) -> JoinHandle<Json> {
        self.send("workspace/executeCommand", json!({"command": "styx.allowExtension", "arguments": [{"command": command}]}), true)
    }
    /// The diagnostics the client shows for a document.
    pub fn diagnostics(&self, uri: &str) -> Json {
        self.got
            .borrow()
            .iter()
            .rev()
            .find(|m| m["method"] == "textDocument/publishDiagnostics" && m["params"]["uri"] == uri)
            .map_or(Json::Null, |m| m["params"]["diagnostics"].clone())
    }
}

fn block_on<T>(f: impl Future<Output = T>) -> T {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    tokio::task::LocalSet::new().block_on(&rt, f)
}

/// `lsp-one session {"files": {uri: ..}, "events": [..]}`: run events one after the other; after each,
/// what ran (the lines of the log) and the diagnostics of every document.
pub fn session(spec: &str) {
    let spec: Json = serde_json::from_str(spec).unwrap();
    block_on(async {
        let mut l = Live::new().await;
        let mut out = vec![];
        let mut version = 0;
        for e in spec["events"].as_array().unwrap() {
            version += 1;
            let s = |k: &str| e[k].as_str().unwrap();
            let reply = match s("do") {
                "open" => l.open(s("uri"), s("text"), version).await.unwrap(),
                "change" => l.change(s("uri"), s("text"), version).await.unwrap(),
                "close" => l.send("textDocument/didClose", json!({"textDocument": {"uri": s("uri")}}), false).await.unwrap(),
                "allow" => l.allow(s("command")).await.unwrap(),
                "actions" => {
                    // the quick fixes offered for what is shown
                    let d = l.diagnostics(s("uri"));
                    let zero = json!({"line": 0, "character": 0});
                    l.send(
                        "textDocument/codeAction",
                        json!({"textDocument": {"uri": s("uri")}, "range": {"start": zero, "end": zero}, "context": {"diagnostics": d}}),
                        true,
                    )
                    .await
                    .unwrap()
                }
                k => panic!("unknown event {k}"),
            };
            let ran = std::fs::read_to_string(spec["log"].as_str().unwrap()).unwrap_or_default();
            let shown: Vec<Json> = spec["uris"].as_array().unwrap().iter().map(|u| l.diagnostics(u.as_str().unwrap())).collect();
            out.push(json!({"reply": reply["result"], "ran": ran.lines().collect::<Vec<_>>(), "shown": shown}));
        }
        println!("{}", Json::from(out));
    });
    std::process::exit(0);
}

/// `lsp-one crowd {"log", "steps": [{"do", "uri", "text"}]}`: messages that do not wait for each
/// other, as from an editor. Which of them get no answer in time, and which processes remain.
pub fn crowd(spec: &str) {
    let spec: Json = serde_json::from_str(spec).unwrap();
    block_on(async {
        let mut l = Live::new().await;
        let mut pending = vec![];
        for (i, e) in spec["steps"].as_array().unwrap().iter().enumerate() {
            let s = |k: &str| e[k].as_str().unwrap();
            let version = i as i64 + 1;
            let h = match s("do") {
                "open" => l.open(s("uri"), s("text"), version),
                "change" => l.change(s("uri"), s("text"), version),
                "close" => l.send("textDocument/didClose", json!({"textDocument": {"uri": s("uri")}}), false),
                r => l.send(r, crate::session::request_params(r, s("uri"), 1, 0), true),
            };
            pending.push(h);
            // each starts before the next arrives
            tokio::task::yield_now().await;
        }
        let until = tokio::time::Instant::now() + Duration::from_secs(40);
        let mut late = vec![];
        for (i, h) in pending.into_iter().enumerate() {
            if tokio::time::timeout_at(until, h).await.is_err() {
                late.push(i);
            }
        }
        let log = std::fs::read_to_string(spec["log"].as_str().unwrap()).unwrap_or_default();
        let pids: Vec<&str> = log.split_whitespace().collect();
        let alive = |p: &str| std::fs::read_to_string(format!("/proc/{p}/stat")).is_ok_and(|s| !s.contains(") Z "));
        let mut left = vec![];
        for _ in 0..100 {
            left = pids.iter().filter(|p| alive(p)).copied().collect();
            if left.is_empty() {
                break;
            }
            tokio::time::sleep(Duration::from_millis(20)).await;
        }
        println!("{}", json!({"late": late, "started": pids.len(), "left": left}));
    });
    std::process::exit(0);
}
