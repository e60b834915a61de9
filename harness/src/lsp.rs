//! The language server: L01 (diagnostics follow the text), L02 (incremental data), L03 (the
//! on-save checker).
//!
//! The real server loop speaks the wire protocol with a scripted editor over in-memory pipes.
//! The editor keeps its own copy of every text; what the server says is compared with a fresh
//! analysis of that copy. The external checker is replaced by one with arbitrary duration and
//! outcome.

use crate::util::{rt1, rtn, Host};
use logicaffeine_language::token::Span;
use logicaffeine_lsp::document::DocumentState;
use logicaffeine_lsp::flycheck::{FlycheckFinding, FlycheckRunner, FLYCHECK_SOURCE};
use logicaffeine_lsp::semantic_tokens;
use logicaffeine_lsp::server::LogicAffeineServer;
use serde_json::{json, Value};
use sim::{chance, ensure, node, one, pick, range, Prop};
use std::collections::BTreeMap;
use tokio::io::{AsyncReadExt, AsyncWriteExt, DuplexStream, ReadHalf, WriteHalf};
use tower_lsp::lsp_types::*;
use tower_lsp::{LspService, Server};

const MS: u64 = 1_000_000;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Outcome {
    Findings,
    Clean,
    Unavailable,
    Failed,
    Hangs,
}
/// One state of a document as the editor saw it.
#[derive(Clone)]
struct Entry {
    /// None when closed.
    text: Option<String>,
    version: i32,
}
struct Doc {
    uri: Url,
    open: bool,
    text: String,
    version: i32,
    tag: u64,
    hist: Vec<Entry>,
    /// Tag of the last text saved while checking was on, if nothing has invalidated it since.
    checked: Option<u64>,
    /// First tag of the present session.
    first: u64,
}
#[derive(Default)]
struct Log {
    got: Vec<Value>,
    /// Outcomes of the checker by the tag of the text it was given.
    runs: BTreeMap<u64, Vec<Outcome>>,
    server_over: bool,
}
type H = Host<Log>;

// ---------------------------------------------------------------- the checker

struct Checker(H, u64);
impl FlycheckRunner for Checker {
    fn check(&self, source: &str, _key: &str) -> Option<Vec<FlycheckFinding>> {
        let tag = tag_of(source).map(|t| t.0).unwrap_or(0);
        let o = match pick(10) {
            0..=5 => Outcome::Findings,
            6 => Outcome::Clean,
            7 => Outcome::Unavailable,
            8 => Outcome::Failed,
            _ => one(&[Outcome::Findings, Outcome::Hangs]),
        };
        let d = one(&[0, 1, 40, 149, 160, 700, self.1]) * MS;
        self.0.with(|l| l.runs.entry(tag).or_default().push(o));
        sim::count("checker runs");
        node::sleep(d);
        match o {
            Outcome::Findings => {
                let at = tag_of(source).map(|t| t.1);
                Some(vec![FlycheckFinding { message: format!("check of u{tag}"), suggestion: None, span: at.map(|a| Span { start: a, end: a + 1 }) }])
            }
            Outcome::Clean => Some(Vec::new()),
            Outcome::Unavailable => None,
            Outcome::Failed => {
                sim::count("fault: checker failed");
                panic!("checker failed")
            }
            Outcome::Hangs => {
                sim::count("fault: checker hangs");
                node::sleep(3_600_000 * MS);
                None
            }
        }
    }
}

// ---------------------------------------------------------------- texts and positions

/// The tag of a text and where it stands: the number in its first `Let u<number> be`.
fn tag_of(s: &str) -> Option<(u64, usize)> {
    let at = s.find("Let u")? + 4;
    let n: String = s[at + 1..].chars().take_while(|c| c.is_ascii_digit()).collect();
    if s[at + 1 + n.len()..].starts_with(" be ") {
        Some((n.parse().ok()?, at))
    } else {
        None
    }
}
fn fresh(tag: u64, rough: bool) -> String {
    let eol = if rough && chance(0.2) { "\r\n" } else { "\n" };
    let mut lines = vec!["## Main".to_string()];
    for _ in 0..pick(3) {
        lines.push(one(&["    Let a be 1.", "    Show \"hé 𝄞\".", "    Show 4.", "    Let b be \"ü\"."]).to_string());
    }
    lines.push(format!("    Let u{tag} be {}.", pick(9)));
    for _ in 0..pick(3) {
        lines.push(one(&["    Show 7.", "    Let c be 3.", "    Show \"𝄞𝄞 x\"."]).to_string());
    }
    if rough && chance(0.3) {
        lines.push(one(&["    Let be.", "    Show nothing here.", "    Give a to b.", "## To f (n: Int) -> Int:", "    Return"]).to_string());
    }
    lines.join(eol) + eol
}
/// The position of byte `at` as an editor counts it.
fn pos(s: &str, at: usize) -> Value {
    let line = s[..at].matches('\n').count();
    let start = s[..at].rfind('\n').map_or(0, |i| i + 1);
    let col = s[start..at].encode_utf16().count();
    json!({"line": line, "character": col})
}
/// A random place between characters, never inside a line break.
fn place(s: &str) -> usize {
    let v: Vec<usize> = s.char_indices().map(|c| c.0).chain([s.len()]).filter(|i| !(*i > 0 && s.as_bytes()[i - 1] == b'\r' && s.as_bytes().get(*i) == Some(&b'\n'))).collect();
    v[pick(v.len() as u64) as usize]
}
fn at_line_end(s: &str, at: usize) -> bool {
    s[at..].is_empty() || s[at..].starts_with('\n') || s[at..].starts_with("\r\n")
}
fn edit(s: &mut String, from: usize, to: usize, new: &str, out: &mut Vec<Value>) {
    let mut a = pos(s, from);
    let mut b = pos(s, to);
    // A column past the end of a line means the end of that line.
    for (p, at) in [(&mut a, from), (&mut b, to)] {
        if at_line_end(s, at) && chance(0.1) {
            let c = p["character"].as_u64().unwrap();
            p["character"] = json!(c + one(&[1, 5, 1000]));
            sim::count("columns past the line end");
        }
    }
    out.push(json!({"range": {"start": a, "end": b}, "text": new}));
    s.replace_range(from..to, new);
}

impl Doc {
    fn retag(&mut self, out: &mut Vec<Value>, rough: bool) {
        self.tag += 1;
        match tag_of(&self.text) {
            Some((n, at)) if !chance(0.1) => edit(&mut self.text, at, at + 1 + n.to_string().len(), &format!("u{}", self.tag), out),
            _ => {
                self.text = fresh(self.tag, rough);
                out.push(json!({"text": self.text}));
            }
        }
    }
    fn scribble(&mut self, out: &mut Vec<Value>) {
        for _ in 0..pick(3) {
            let (a, b) = (place(&self.text), place(&self.text));
            let (a, b) = (a.min(b), if chance(0.5) { a.min(b) } else { a.max(b).min(a.min(b) + 12) });
            // Stay between characters.
            let b = (b..=self.text.len()).find(|i| self.text.is_char_boundary(*i) && !(*i > 0 && self.text.as_bytes()[i - 1] == b'\r' && self.text.as_bytes().get(*i) == Some(&b'\n'))).unwrap();
            let new = one(&["", "é", "𝄞", "x", ".", "\"", "\n", "\r\n", "    Show 1.\n", "\n    Let z be 3.", " be "]);
            edit(&mut self.text, a, b, new, out);
        }
    }
}

// ---------------------------------------------------------------- the editor

struct Editor {
    w: WriteHalf<DuplexStream>,
    h: H,
    next: i64,
}
impl Editor {
    async fn send(&mut self, v: Value) {
        let body = v.to_string();
        sim::note("sent", body.clone());
        let msg = format!("Content-Length: {}\r\n\r\n{}", body.len(), body);
        if self.w.write_all(msg.as_bytes()).await.is_err() {
            sim::violation("server-gone", "the server stopped reading".to_string());
        }
    }
    async fn notify(&mut self, method: &str, params: Value) {
        self.send(json!({"jsonrpc": "2.0", "method": method, "params": params})).await
    }
    async fn ask(&mut self, method: &str, params: Value) -> i64 {
        self.next += 1;
        self.send(json!({"jsonrpc": "2.0", "id": self.next, "method": method, "params": params})).await;
        self.next
    }
    fn answer(&self, id: i64) -> Option<Value> {
        self.h.with(|l| l.got.iter().find(|m| m["id"] == json!(id) && m.get("method").is_none()).cloned())
    }
    async fn wait(&mut self, id: i64) -> Value {
        let end = sim::now() + 120_000 * MS;
        loop {
            if let Some(v) = self.answer(id) {
                return v;
            }
            ensure!(sim::now() < end, "no-answer", "request {id} was never answered");
            tokio::time::sleep(std::time::Duration::from_millis(5)).await;
        }
    }
}
async fn listen(mut r: ReadHalf<DuplexStream>, h: H) {
    let mut buf = Vec::new();
    let mut b = [0u8; 4096];
    loop {
        while let Some(e) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            let head = String::from_utf8_lossy(&buf[..e]).to_string();
            let n: usize = head.lines().find_map(|l| l.strip_prefix("Content-Length: ")).and_then(|n| n.parse().ok()).unwrap_or(0);
            if buf.len() < e + 4 + n {
                break;
            }
            let v: Value = serde_json::from_slice(&buf[e + 4..e + 4 + n]).unwrap();
            buf.drain(..e + 4 + n);
            sim::note("got", v.to_string());
            h.with(|l| l.got.push(v));
        }
        match r.read(&mut b).await {
            Ok(0) | Err(_) => break,
            Ok(n) => buf.extend_from_slice(&b[..n]),
        }
    }
}

/// Highlighting data held by the editor: by result id, for one document.
#[derive(Default)]
struct Lit {
    by_id: BTreeMap<String, Vec<u32>>,
    last: Option<String>,
    /// Outstanding requests: id and the result id it refers to.
    out: Vec<(i64, Option<String>)>,
    /// Earliest state of the document the shown data may belong to.
    seen: usize,
    /// Outstanding diagnostic requests and the report held.
    pulls: Vec<(i64, Option<String>)>,
    report: Option<(String, Value)>,
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Diag,
    Data,
    Check,
}

fn scenario(mode: Mode) {
    let h: H = Host::new(Log::default());
    sim::cfg().p_switch = [0.05, 0.2, 0.5, 0.01][pick(4) as usize];
    if chance(0.6) {
        sim::cfg().p_stall = [0.002, 0.01, 0.05][pick(3) as usize];
        sim::cfg().max_stall_ns = [5 * MS, 200 * MS, 1500 * MS][pick(3) as usize];
    }
    sim::cfg().panic_is_violation = false;
    sim::alloc_points([0, 2000, 300, 60][pick(4) as usize]);
    let (mine, theirs) = tokio::io::duplex(one(&[64, 1024, 1 << 20]));
    let srv = node::add("server");
    let edi = node::add("editor");
    let threads = one(&[2, 2, 3, 1]);
    {
        let h = h.clone();
        let longest = one(&[2000, 9000]);
        node::spawn(srv, "main", move || {
            let rt = rtn(threads);
            let hh = h.clone();
            rt.block_on(async move {
                let (service, socket) = LspService::new(move |c| LogicAffeineServer::with_flycheck(c, Box::new(Checker(hh.clone(), longest))));
                let (r, w) = tokio::io::split(theirs);
                // As the shipped binary does, but on a worker thread.
                let _ = tokio::spawn(async move { Server::new(r, w, socket).serve(service).await }).await;
            });
            h.with(|l| l.server_over = true);
            rt.shutdown_background();
        });
    }
    let hh = h.clone();
    node::spawn(edi, "editor", move || {
        let rt = rt1();
        rt.block_on(async move { editor(hh, mine, mode).await });
    });
    let done = node::wait_for(1000 * MS, 3_000_000 * MS, || node::finished(edi));
    ensure!(done, "stuck", "the session did not finish");
}

async fn editor(h: H, mine: DuplexStream, mode: Mode) {
    let (r, w) = tokio::io::split(mine);
    tokio::spawn(listen(r, h.clone()));
    let mut e = Editor { w, h: h.clone(), next: 0 };
    let id = e.ask("initialize", json!({"capabilities": {}})).await;
    e.wait(id).await;
    e.notify("initialized", json!({})).await;

    let rough = mode != Mode::Check;
    let n = if mode == Mode::Diag { range(1, 2) } else { range(1, 3) } as usize;
    let mut docs: Vec<Doc> = (0..n)
        .map(|i| Doc { uri: Url::parse(&format!("file:///w/d{i}.lg")).unwrap(), open: false, text: String::new(), version: 0, tag: 100 * i as u64, hist: Vec::new(), checked: None, first: 0 })
        .collect();
    let mut lit: Vec<Lit> = (0..n).map(|_| Lit::default()).collect();
    let mut enabled = true;
    for _ in 0..range(3, if mode == Mode::Diag { 22 } else { 30 }) {
        let d = pick(n as u64) as usize;
        let doc = &mut docs[d];
        let td = json!({"uri": doc.uri});
        if !doc.open {
            doc.tag += 1;
            doc.first = doc.tag;
            doc.text = fresh(doc.tag, rough);
            // Editors number versions as they like.
            doc.version = if chance(0.7) { 1 } else { doc.version + 1 };
            doc.open = true;
            doc.hist.push(Entry { text: Some(doc.text.clone()), version: doc.version });
            lit[d] = Lit { seen: doc.hist.len() - 1, ..Lit::default() };
            e.notify("textDocument/didOpen", json!({"textDocument": {"uri": doc.uri, "languageId": "logos", "version": doc.version, "text": doc.text}})).await;
        } else {
            let k = match mode {
                Mode::Diag => [0, 0, 0, 0, 1, 2, 2, 3][pick(8) as usize],
                Mode::Data => [0, 0, 0, 2, 4, 4, 5, 5, 5, 6, 7][pick(11) as usize],
                Mode::Check => [0, 0, 0, 1, 1, 1, 1, 2, 3][pick(9) as usize],
            };
            match k {
                0 => {
                    let mut ch = Vec::new();
                    if rough && chance(0.4) {
                        doc.scribble(&mut ch);
                    }
                    doc.retag(&mut ch, rough);
                    doc.version += 1;
                    doc.hist.push(Entry { text: Some(doc.text.clone()), version: doc.version });
                    doc.checked = None;
                    e.notify("textDocument/didChange", json!({"textDocument": {"uri": doc.uri, "version": doc.version}, "contentChanges": ch})).await;
                }
                1 => {
                    if enabled {
                        doc.checked = Some(doc.tag);
                    }
                    e.notify("textDocument/didSave", json!({"textDocument": td})).await;
                }
                2 => {
                    doc.open = false;
                    doc.checked = None;
                    doc.hist.push(Entry { text: None, version: 0 });
                    e.notify("textDocument/didClose", json!({"textDocument": td})).await;
                }
                3 => {
                    if enabled {
                        for d in &mut docs {
                            d.checked = None;
                        }
                    }
                    enabled = !enabled;
                    e.notify("workspace/didChangeConfiguration", json!({"settings": {"logicaffeine": {"flycheck": {"enable": enabled}}}})).await;
                }
                4 => {
                    let id = e.ask("textDocument/semanticTokens/full", json!({"textDocument": td})).await;
                    lit[d].out.push((id, None));
                }
                5 => {
                    if let Some(last) = lit[d].last.clone() {
                        let id = e.ask("textDocument/semanticTokens/full/delta", json!({"textDocument": td, "previousResultId": last})).await;
                        lit[d].out.push((id, Some(last)));
                    }
                }
                6 => {
                    let prev = lit[d].report.as_ref().map(|r| r.0.clone());
                    let id = e.ask("textDocument/diagnostic", json!({"textDocument": td, "previousResultId": prev})).await;
                    lit[d].pulls.push((id, prev));
                }
                _ => {
                    if let Some((id, _)) = lit[d].out.last() {
                        e.notify("$/cancelRequest", json!({"id": id})).await;
                        sim::count("requests cancelled");
                    }
                }
            }
        }
        let ms = one(&[0, 0, 0, 1, 30, 140, 155, 400, 1200]);
        if ms > 0 {
            tokio::time::sleep(std::time::Duration::from_millis(ms)).await;
        }
        if mode == Mode::Data {
            for (d, l) in docs.iter().zip(lit.iter_mut()) {
                take(&e, d, l);
            }
        }
    }
    sim::faults_off();
    // Stalls still in progress, the longest check, the debounce.
    tokio::time::sleep(std::time::Duration::from_millis(15_000)).await;
    ensure!(!h.with(|l| l.server_over), "server-gone", "the server ended by itself");
    for (d, l) in docs.iter().zip(lit.iter_mut()) {
        if d.open && mode != Mode::Check {
            let td = json!({"uri": d.uri});
            take(&e, d, l);
            let full = e.ask("textDocument/semanticTokens/full", json!({"textDocument": td})).await;
            e.wait(full).await;
            l.out.push((full, None));
            take(&e, d, l);
            if let Some(last) = l.last.clone() {
                let delta = e.ask("textDocument/semanticTokens/full/delta", json!({"textDocument": td, "previousResultId": last})).await;
                e.wait(delta).await;
                l.out.push((delta, Some(last)));
            }
            let prev = l.report.as_ref().map(|r| r.0.clone());
            let id = e.ask("textDocument/diagnostic", json!({"textDocument": td, "previousResultId": prev})).await;
            e.wait(id).await;
            l.pulls.push((id, prev));
            l.seen = d.hist.len() - 1;
            take(&e, d, l);
            let want = json_sorted(&serde_json::to_value(expect(d, d.hist.len() - 1)).unwrap());
            let have = json_sorted(&l.report.as_ref().map(|r| split(&r.1).0).unwrap_or(Value::Null));
            ensure!(want == have, "pulled-report", "the report asked for after quiescence is {have} for the text {:?}, whose diagnostics are {want}", d.text);
        }
    }
    let got = h.with(|l| l.got.clone());
    for d in &docs {
        if mode == Mode::Diag {
            published(&got, d);
        }
        if mode == Mode::Check {
            checks(&h, &got, d, enabled);
        }
    }
    sim::count_n("publications", got.iter().filter(|m| m["method"] == "textDocument/publishDiagnostics").count() as u64);
    sim::count_n("text states", docs.iter().map(|d| d.hist.len() as u64).sum());
    if docs.iter().map(|d| d.hist.len()).sum::<usize>() > 3 {
        sim::nontrivial();
    }
    sim::sample(format!("{} documents, {:?} states, {} messages from the server", docs.len(), docs.iter().map(|d| d.hist.len()).collect::<Vec<_>>(), got.len()));
}

fn json_sorted(v: &Value) -> String {
    let mut x: Vec<String> = v.as_array().map(|a| a.iter().map(|d| d.to_string()).collect()).unwrap_or_default();
    x.sort();
    x.join(" ")
}
/// The analysis of state `k` of a document.
fn fresh_analysis(d: &Doc, k: usize) -> DocumentState {
    sim::quiet(|| DocumentState::with_uri(d.hist[k].text.clone().unwrap_or_default(), d.hist[k].version, Some(&d.uri)))
}
fn expect(d: &Doc, k: usize) -> Vec<Diagnostic> {
    if d.hist[k].text.is_none() {
        return Vec::new();
    }
    fresh_analysis(d, k).diagnostics
}
/// Diagnostics of the analysis and of the checker.
fn split(v: &Value) -> (Value, Vec<String>) {
    let (mut a, mut b) = (Vec::new(), Vec::new());
    for d in v.as_array().into_iter().flatten() {
        if d["source"] == FLYCHECK_SOURCE {
            b.push(d["message"].as_str().unwrap_or("").to_string());
        } else {
            a.push(d.clone());
        }
    }
    (Value::Array(a), b)
}

/// Process answers that have arrived for the outstanding requests of a document.
fn take(e: &Editor, d: &Doc, l: &mut Lit) {
    let mut k = 0;
    while k < l.out.len() {
        let (id, base) = l.out[k].clone();
        let Some(a) = e.answer(id) else {
            k += 1;
            continue;
        };
        l.out.remove(k);
        let Some(r) = a.get("result").filter(|r| !r.is_null()) else { continue };
        let rid = r["resultId"].as_str().unwrap_or("").to_string();
        let nums = |v: &Value| v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u32).collect::<Vec<u32>>()).unwrap_or_default();
        let data = if let Some(ed) = r.get("edits") {
            let base = base.unwrap();
            let mut data = l.by_id.get(&base).cloned().unwrap_or_default();
            for x in ed.as_array().unwrap().iter().rev() {
                let (s, n) = (x["start"].as_u64().unwrap() as usize, x["deleteCount"].as_u64().unwrap() as usize);
                ensure!(s + n <= data.len(), "bad-delta", "an update of result {base} removes {s}..{} of {} numbers", s + n, data.len());
                data.splice(s..s + n, nums(&x["data"]));
            }
            sim::count("highlighting updates");
            data
        } else {
            nums(&r["data"])
        };
        l.by_id.insert(rid.clone(), data.clone());
        l.last = Some(rid);
        // The data belongs to a state of the document no older than the one shown before.
        let mut at = None;
        for k in l.seen..d.hist.len() {
            if d.hist[k].text.is_some() && encoded(d, k) == data {
                at = Some(k);
                break;
            }
        }
        match at {
            Some(k) => l.seen = k,
            None => sim::violation(
                "wrong-highlighting",
                format!("the highlighting of {} held by the editor matches no state of the text from {} on (now {:?})", d.uri, l.seen, d.text),
            ),
        }
    }
    let mut k = 0;
    while k < l.pulls.len() {
        let (id, prev) = l.pulls[k].clone();
        let Some(a) = e.answer(id) else {
            k += 1;
            continue;
        };
        l.pulls.remove(k);
        let Some(r) = a.get("result").filter(|r| !r.is_null()) else { continue };
        if r["kind"] == "unchanged" {
            ensure!(prev.is_some() && r["resultId"] == json!(prev), "bad-report", "a report says nothing changed since a result the editor does not hold");
            sim::count("unchanged reports");
        } else {
            l.report = Some((r["resultId"].as_str().unwrap_or("").to_string(), r["items"].clone()));
        }
    }
}
fn encoded(d: &Doc, k: usize) -> Vec<u32> {
    let doc = fresh_analysis(d, k);
    sim::quiet(|| semantic_tokens::encode_document_tokens(&doc)).iter().flat_map(|t| [t.delta_line, t.delta_start, t.length, t.token_type, t.token_modifiers_bitset]).collect()
}

/// Everything published for one document: in the order of its states, ending with the last.
fn published(got: &[Value], d: &Doc) {
    let want: Vec<String> = (0..d.hist.len()).map(|k| json_sorted(&serde_json::to_value(expect(d, k)).unwrap())).collect();
    let mut at = 0;
    let mut last = None;
    for p in got.iter().filter(|m| m["method"] == "textDocument/publishDiagnostics" && m["params"]["uri"] == json!(d.uri)) {
        let (mine, _) = split(&p["params"]["diagnostics"]);
        let mine = json_sorted(&mine);
        let closing = p["params"].get("version").map_or(true, |v| v.is_null());
        match (at..want.len()).find(|k| want[*k] == mine && d.hist[*k].text.is_none() == closing) {
            // The end of a check may be told before anything has been analysed.
            _ if mine.is_empty() && !closing => {}
            Some(k) => at = k,
            None => {
                let old = (0..at).rev().find(|k| want[*k] == mine);
                sim::violation(
                    if old.is_some() { "older-result" } else { "unknown-result" },
                    format!("after the diagnostics of state {at} of {}, those of state {old:?} were published: {mine} (states: {})", d.uri, states(d)),
                )
            }
        }
        last = Some((mine, p["params"]["version"].clone()));
    }
    let Some(fin) = d.hist.last() else { return };
    let Some((mine, version)) = last else {
        sim::violation("never-published", format!("nothing was ever published for {}", d.uri));
    };
    let w = want.last().unwrap();
    ensure!(*w == mine, if fin.text.is_none() { "shown-after-close" } else { "wrong-final" }, "the last diagnostics published for {} are {mine}; those of its text {:?} are {w} (states: {})", d.uri, fin.text, states(d));
    if fin.text.is_some() {
        ensure!(version == json!(fin.version), "wrong-version", "the last diagnostics for {} carry version {version}, the text is at {}", d.uri, fin.version);
    }
}
fn states(d: &Doc) -> String {
    d.hist.iter().map(|e| e.text.as_ref().map_or("closed".to_string(), |t| tag_of(t).map_or("?".into(), |t| format!("u{}", t.0)))).collect::<Vec<_>>().join(" ")
}

/// Findings of the checker among everything published for one document.
fn checks(h: &H, got: &[Value], d: &Doc, enabled: bool) {
    let mut newest = 0;
    let mut shown: Option<u64> = None;
    for p in got.iter().filter(|m| m["method"] == "textDocument/publishDiagnostics" && m["params"]["uri"] == json!(d.uri)) {
        let (mine, found) = split(&p["params"]["diagnostics"]);
        let tag = mine.as_array().unwrap().iter().find_map(|x| x["message"].as_str().and_then(|m| m.strip_prefix("'u")).and_then(|m| m.split('\'').next()).and_then(|n| n.parse::<u64>().ok()));
        let f: Vec<u64> = found.iter().filter_map(|m| m.strip_prefix("check of u").and_then(|n| n.parse().ok())).collect();
        ensure!(f.len() <= 1, "mixed-findings", "findings {found:?} were shown together");
        shown = f.first().copied();
        if let (Some(t), Some(f)) = (tag, shown) {
            ensure!(f >= t, "stale-findings", "findings for text u{f} of {} were shown with the diagnostics of u{t}", d.uri);
        }
        if let Some(f) = shown {
            ensure!(f >= newest, "older-findings", "findings for text u{f} of {} were shown after those of u{newest}", d.uri);
            newest = f;
        }
    }
    let runs = h.with(|l| d.checked.and_then(|t| l.runs.get(&t).cloned()).unwrap_or_default());
    if let Some(f) = shown {
        ensure!(d.open, "findings-after-close", "findings for text u{f} are still shown for {}, which is closed", d.uri);
        ensure!(d.checked == Some(f), "outdated-findings", "findings for text u{f} are shown in the end for {}, whose last check that still counts is {:?} (checking enabled: {enabled}; text u{})", d.uri, d.checked, d.tag);
    } else if !runs.is_empty() && runs.iter().all(|r| *r == Outcome::Findings) {
        sim::violation("missing-findings", format!("the check of text u{} of {} had findings, but none are shown", d.tag, d.uri));
    }
    let _ = d.first;
}

fn l01() {
    scenario(Mode::Diag)
}
fn l02() {
    scenario(Mode::Data)
}
fn l03() {
    scenario(Mode::Check)
}

// ---------------------------------------------------------------- L04

const ROOT: &str = "/sim/disk/ws";
const HOME: &str = "/sim/disk/ws/home.lg";
const HOME_TEXT: &str = "## To helper (n: Int) -> Int:\n    Return n.\n\n## Main\n    Show helper(3).\n";

fn library(k: u64) -> String {
    let mut s = String::new();
    for i in 0..range(1, 3) {
        s += &format!("## To f{k}x{i} (n: Int) -> Int:\n");
        if chance(0.5) {
            s += "    Let m be helper(n).\n";
        }
        s += "    Return n.\n\n";
    }
    if chance(0.4) {
        s += "## Main\n    Show helper(1).\n    Show helper(2).\n";
    }
    s
}
fn l04() {
    let h: H = Host::new(Log::default());
    sim::cfg().p_switch = [0.05, 0.2, 0.5, 0.01][pick(4) as usize];
    if chance(0.7) {
        sim::cfg().p_stall = [0.002, 0.01, 0.05][pick(3) as usize];
        sim::cfg().max_stall_ns = [5 * MS, 200 * MS, 1500 * MS][pick(3) as usize];
    }
    sim::alloc_points([0, 2000, 300][pick(3) as usize]);
    let (mine, theirs) = tokio::io::duplex(1 << 16);
    node::add("disk");
    let srv = node::add("server");
    let edi = node::add("editor");
    sim::fs::mkdirs(&format!("{ROOT}/sub"));
    sim::fs::mkdirs(&format!("{ROOT}/target"));
    sim::fs::poke(HOME, HOME_TEXT.as_bytes());
    for f in 0..pick(4) {
        sim::fs::poke(&file(f), library(f).as_bytes());
    }
    sim::fs::poke(&format!("{ROOT}/target/skipped.lg"), library(99).as_bytes());
    let threads = one(&[2, 2, 3, 1]);
    {
        let h = h.clone();
        node::spawn(srv, "main", move || {
            let rt = rtn(threads);
            let hh = h.clone();
            rt.block_on(async move {
                let (service, socket) = LspService::new(move |c| LogicAffeineServer::with_flycheck(c, Box::new(Checker(hh.clone(), 100))));
                let (r, w) = tokio::io::split(theirs);
                let _ = tokio::spawn(async move { Server::new(r, w, socket).serve(service).await }).await;
            });
            h.with(|l| l.server_over = true);
            rt.shutdown_background();
        });
    }
    let hh = h.clone();
    node::spawn(edi, "editor", move || rt1().block_on(async move { project(hh, mine).await }));
    let done = node::wait_for(1000 * MS, 600_000 * MS, || node::finished(edi));
    ensure!(done, "stuck", "the session did not finish");
}
fn file(k: u64) -> String {
    if k % 3 == 2 {
        format!("{ROOT}/sub/f{k}.lg")
    } else {
        format!("{ROOT}/f{k}.lg")
    }
}
async fn project(h: H, mine: DuplexStream) {
    let (r, w) = tokio::io::split(mine);
    tokio::spawn(listen(r, h.clone()));
    let mut e = Editor { w, h: h.clone(), next: 0 };
    let root = Url::from_directory_path(ROOT).unwrap();
    let id = e.ask("initialize", json!({"capabilities": {}, "workspaceFolders": [{"uri": root, "name": "ws"}]})).await;
    e.wait(id).await;
    let home = Url::from_file_path(HOME).unwrap();
    e.notify("textDocument/didOpen", json!({"textDocument": {"uri": home, "languageId": "logos", "version": 1, "text": HOME_TEXT}})).await;
    e.notify("initialized", json!({})).await;
    // Files whose change the server has not been told yet.
    let mut untold: BTreeMap<String, i32> = BTreeMap::new();
    for step in 0..range(3, 25) {
        match pick(10) {
            0..=3 => {
                let f = file(pick(4));
                let new = std::fs::metadata(&f).is_err();
                if std::fs::write(&f, library(10 + step)).is_ok() {
                    untold.insert(f, if new { 1 } else { 2 });
                }
            }
            4 => {
                let f = file(pick(4));
                if std::fs::remove_file(&f).is_ok() {
                    untold.insert(f, 3);
                    sim::count("files deleted");
                }
            }
            5 => {
                let (a, b) = (file(pick(4)), file(pick(4)));
                if a != b && std::fs::rename(&a, &b).is_ok() {
                    untold.insert(a, 3);
                    untold.insert(b, 1);
                    sim::count("files renamed");
                }
            }
            6..=8 => {
                tell(&mut e, &mut untold).await;
            }
            _ => {
                e.ask("workspace/symbol", json!({"query": "f"})).await;
            }
        }
        let ms = one(&[0, 0, 0, 1, 30, 400]);
        if ms > 0 {
            tokio::time::sleep(std::time::Duration::from_millis(ms)).await;
        }
    }
    tell(&mut e, &mut untold).await;
    sim::faults_off();
    tokio::time::sleep(std::time::Duration::from_millis(5_000)).await;
    ensure!(!h.with(|l| l.server_over), "server-gone", "the server ended by itself");
    let id = e.ask("workspace/symbol", json!({"query": ""})).await;
    let have = e.wait(id).await;
    let line = |u: &Value, r: &Value| format!("{}@{}", u.as_str().unwrap_or("?").rsplit('/').next().unwrap(), r);
    let mut have: Vec<String> = have["result"].as_array().into_iter().flatten().map(|s| format!("{} {}", s["name"].as_str().unwrap_or("?"), line(&s["location"]["uri"], &s["location"]["range"]))).collect();
    have.sort();
    let id = e.ask("textDocument/references", json!({"textDocument": {"uri": home}, "position": {"line": 0, "character": 7}, "context": {"includeDeclaration": false}})).await;
    let refs = e.wait(id).await;
    let mut refs: Vec<String> = refs["result"].as_array().into_iter().flatten().filter(|l| l["uri"] != json!(home)).map(|l| line(&l["uri"], &l["range"])).collect();
    refs.sort();
    let (mut want, mut wrefs) = (Vec::new(), Vec::new());
    for f in (0..4).map(file).chain([HOME.to_string()]) {
        let Ok(text) = std::fs::read_to_string(&f) else { continue };
        let at = |l: usize, c: usize, n: usize| line(&json!(f), &json!({"start": {"line": l, "character": c}, "end": {"line": l, "character": c + n}}));
        for (l, t) in text.lines().enumerate() {
            if let Some((name, _)) = t.strip_prefix("## To ").and_then(|r| r.split_once(' ')) {
                want.push(format!("{name} {}", at(l, 6, name.len())));
            } else if let (Some(c), true) = (t.find("helper("), f != HOME) {
                wrefs.push(at(l, c, 6));
            }
        }
    }
    want.sort();
    wrefs.sort();
    ensure!(have == want, "stale-symbols", "after the last change was told, the server knows the symbols {have:?}; the files have {want:?}");
    ensure!(refs == wrefs, "stale-references", "after the last change was told, the server knows the references {refs:?}; the files have {wrefs:?}");
    sim::note("end", format!("{want:?} {wrefs:?}"));
    sim::count_n("symbols compared", want.len() as u64);
    sim::count_n("references compared", wrefs.len() as u64);
    if want.len() > 2 {
        sim::nontrivial();
    }
    sim::sample(format!("{} symbols and {} references in the end", want.len(), wrefs.len()));
}
/// Report the changed files in one or several notifications.
async fn tell(e: &mut Editor, untold: &mut BTreeMap<String, i32>) {
    let mut v: Vec<(String, i32)> = std::mem::take(untold).into_iter().collect();
    if chance(0.5) {
        v.reverse();
    }
    let mut batch = Vec::new();
    for (f, t) in v {
        let uri = Url::from_file_path(&f).unwrap();
        if t != 3 && chance(0.3) {
            e.notify("textDocument/didSave", json!({"textDocument": {"uri": uri}})).await;
            continue;
        }
        batch.push(json!({"uri": uri, "type": t}));
        if chance(0.4) {
            e.notify("workspace/didChangeWatchedFiles", json!({"changes": std::mem::take(&mut batch)})).await;
        }
    }
    if !batch.is_empty() {
        e.notify("workspace/didChangeWatchedFiles", json!({"changes": batch})).await;
    }
}

const REAL: &[&str] = &["logicaffeine_lsp (server, scheduler, state, documents, analysis pipeline)", "tower-lsp server loop and wire protocol", "tokio runtime and blocking pool"];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "L01",
            scenario: l01,
            runs: 12000,
            rule: "one run = one editing session (open, incremental change, save, close, reopen, settings) over one or two documents against the real server with analyses stalled at random points; non-trivial with more than three document states; distinct by thread-interleaving hash",
            real: REAL,
            stubs: &["the editor", "the external checker"],
            assumptions: &["lines end with LF or CRLF", "edit ranges are ordered"],
        },
        Prop {
            id: "L02",
            scenario: l02,
            runs: 10000,
            rule: "one run = one editing session with overlapping full, incremental and cancelled highlighting requests and diagnostic reports over up to three documents; non-trivial with more than three document states; distinct by thread-interleaving hash",
            real: REAL,
            stubs: &["the editor", "the external checker"],
            assumptions: &["lines end with LF or CRLF", "edit ranges are ordered", "the editor forgets result ids when a document is closed"],
        },
        Prop {
            id: "L03",
            scenario: l03,
            runs: 12000,
            rule: "one run = one editing session with many saves, checker runs of arbitrary duration and outcome (findings, clean, unavailable, failed, hanging) and the setting switched on and off; non-trivial with more than three document states; distinct by thread-interleaving hash",
            real: REAL,
            stubs: &["the editor", "the external checker (duration and outcome)"],
            assumptions: &[],
        },
        Prop {
            id: "L04",
            scenario: l04,
            runs: 14000,
            rule: "one run = one project of up to five files created, changed, renamed and deleted on the simulated disk while the server scans it and is told of the changes in various groupings; non-trivial with more than two symbols at the end; distinct by thread-interleaving hash",
            real: REAL,
            stubs: &["the editor and its file watcher"],
            assumptions: &["the server is told of every change after it happened"],
        },
    ]
}
