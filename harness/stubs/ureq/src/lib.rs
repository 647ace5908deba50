//! stands in for the HTTP client where no HTTP is used: every request fails
use std::io::{self, Read};
use std::time::Duration;
pub struct Request;
pub struct Response;
pub struct Agent;
pub fn get(_p: &str) -> Request { Request }
pub fn agent() -> Agent { Agent }
impl Agent {
    pub fn new() -> Agent { Agent }
    pub fn get(&self, _p: &str) -> Request { Request }
    pub fn build(&self) -> Agent { Agent }
    pub fn set(&mut self, _h: &str, _v: &str) -> &mut Agent { self }
}
impl Request {
    pub fn build(&self) -> Request { Request }
    pub fn set(&mut self, _h: &str, _v: &str) -> &mut Request { self }
    pub fn query(&mut self, _h: &str, _v: &str) -> &mut Request { self }
    pub fn timeout(&mut self, _t: Duration) -> &mut Request { self }
    pub fn timeout_connect(&mut self, _t: u64) -> &mut Request { self }
    pub fn timeout_read(&mut self, _t: u64) -> &mut Request { self }
    pub fn timeout_write(&mut self, _t: u64) -> &mut Request { self }
    pub fn redirects(&mut self, _n: u32) -> &mut Request { self }
    pub fn call(&mut self) -> Response { Response }
}
impl Response {
    pub fn ok(&self) -> bool { false }
    pub fn error(&self) -> bool { true }
    pub fn client_error(&self) -> bool { false }
    pub fn server_error(&self) -> bool { true }
    pub fn redirect(&self) -> bool { false }
    pub fn synthetic(&self) -> bool { true }
    pub fn status(&self) -> u16 { 500 }
    pub fn status_text(&self) -> &str { "no network" }
    pub fn status_line(&self) -> &str { "HTTP/1.1 500 no network" }
    pub fn http_version(&self) -> &str { "HTTP/1.1" }
    pub fn get_url(&self) -> &str { "" }
    pub fn header(&self, _name: &str) -> Option<&str> { None }
    pub fn headers_names(&self) -> Vec<String> { vec![] }
    pub fn has(&self, _name: &str) -> bool { false }
    pub fn all(&self, _name: &str) -> Vec<&str> { vec![] }
    pub fn content_type(&self) -> &str { "text/plain" }
    pub fn charset(&self) -> &str { "utf-8" }
    pub fn into_string(self) -> io::Result<String> { Err(io::Error::new(io::ErrorKind::Other, "no network")) }
    pub fn into_reader(self) -> impl Read + Send { io::empty() }
}
