//! Stand-in for the HTTP client: the same calls, answered by a function of the harness.
use std::io;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub use serde_json::json;
pub type SerdeValue = serde_json::Value;

pub enum Answer {
    Body(u16, String),
    Unreachable(String),
}
/// One request, as the service sees it.
pub struct Call {
    pub method: &'static str,
    pub url: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
type Service = Arc<dyn Fn(&Call) -> Answer + Send + Sync>;
static SERVICE: Mutex<Option<Service>> = Mutex::new(None);

pub fn stand_in(f: impl Fn(&str, &str) -> Answer + Send + Sync + 'static) {
    stand_in_for_all(move |c| f(&c.url, &String::from_utf8_lossy(&c.body)));
}
pub fn stand_in_for_all(f: impl Fn(&Call) -> Answer + Send + Sync + 'static) {
    *SERVICE.lock().unwrap() = Some(Arc::new(f));
}

#[derive(Debug)]
pub struct Transport(String);
#[derive(Debug)]
pub enum Error {
    Status(u16, Response),
    Transport(Transport),
}
impl std::fmt::Display for Transport {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Error::Status(s, _) => write!(f, "status code {s}"),
            Error::Transport(t) => write!(f, "{t}"),
        }
    }
}
impl std::error::Error for Error {}
impl Error {
    pub fn into_response(self) -> Option<Response> {
        match self {
            Error::Status(_, r) => Some(r),
            _ => None,
        }
    }
}

#[derive(Debug)]
pub struct Response {
    status: u16,
    body: String,
}
impl Response {
    pub fn status(&self) -> u16 {
        self.status
    }
    pub fn into_string(self) -> io::Result<String> {
        Ok(self.body)
    }
    pub fn into_json<T: serde::de::DeserializeOwned>(self) -> io::Result<T> {
        serde_json::from_str(&self.body).map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
    }
}

#[derive(Clone)]
pub struct Request {
    method: &'static str,
    url: String,
    headers: Vec<(String, String)>,
}
impl Request {
    pub fn set(mut self, name: &str, value: &str) -> Self {
        self.headers.retain(|(n, _)| !n.eq_ignore_ascii_case(name));
        self.headers.push((name.into(), value.into()));
        self
    }
    pub fn timeout(self, _: Duration) -> Self {
        self
    }
    pub fn send_json(self, data: impl serde::Serialize) -> Result<Response, Error> {
        self.send_string(&serde_json::to_string(&data).unwrap())
    }
    pub fn send_string(self, data: &str) -> Result<Response, Error> {
        self.send_bytes(data.as_bytes())
    }
    pub fn send(self, mut data: impl io::Read) -> Result<Response, Error> {
        let mut b = Vec::new();
        data.read_to_end(&mut b).map_err(|e| Error::Transport(Transport(e.to_string())))?;
        self.send_bytes(&b)
    }
    pub fn send_bytes(self, data: &[u8]) -> Result<Response, Error> {
        let f = SERVICE.lock().unwrap().clone().expect("no service");
        match f(&Call { method: self.method, url: self.url, headers: self.headers, body: data.to_vec() }) {
            Answer::Unreachable(t) => Err(Error::Transport(Transport(t))),
            Answer::Body(status, body) if status >= 400 => Err(Error::Status(status, Response { status, body })),
            Answer::Body(status, body) => Ok(Response { status, body }),
        }
    }
    pub fn call(self) -> Result<Response, Error> {
        self.send_bytes(b"")
    }
}
pub fn post(url: &str) -> Request {
    Request { method: "POST", url: url.into(), headers: Vec::new() }
}
pub fn get(url: &str) -> Request {
    Request { method: "GET", url: url.into(), headers: Vec::new() }
}

#[derive(Clone, Default)]
pub struct Agent;
impl Agent {
    pub fn new() -> Self {
        Agent
    }
    pub fn post(&self, url: &str) -> Request {
        post(url)
    }
    pub fn get(&self, url: &str) -> Request {
        get(url)
    }
}
pub fn agent() -> Agent {
    Agent
}
#[derive(Default)]
pub struct AgentBuilder;
impl AgentBuilder {
    pub fn new() -> Self {
        AgentBuilder
    }
    pub fn timeout(self, _: Duration) -> Self {
        self
    }
    pub fn timeout_connect(self, _: Duration) -> Self {
        self
    }
    pub fn timeout_read(self, _: Duration) -> Self {
        self
    }
    pub fn timeout_write(self, _: Duration) -> Self {
        self
    }
    pub fn build(self) -> Agent {
        Agent
    }
}
