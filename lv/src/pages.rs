//! The page and the script that start a session.
use crate::sys;
use puck::response::encoder::Encoder;
use puck::Response;
use std::io::{Cursor, Read, Write};

const SCRIPT: &str = include_str!("/repo/puck_liveview/client/index.js");

/// accepts so many bytes at once, and one byte less every time after a cut
struct Out { data: Vec<u8>, most: usize, cut: usize }
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut n = b.len().min(self.most);
        let at = self.data.len();
        if at < self.cut { n = n.min(self.cut - at); }
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
struct In(Cursor<Vec<u8>>, usize);
impl Read for In { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(self.1); self.0.read(&mut b[..n]) } }

/// params: 1: any place for a cut
#[no_mangle]
pub extern "C" fn l_pages() {
    let js = sys::boolean();
    let cut = if sys::param(0) > 0 { sys::choose(1, sys::param(0) as u32) as usize } else { 0 };
    let mut o = Out { data: vec![], most: [1 << 20, 1000, 7][sys::choose(0, 2) as usize], cut };
    let r = if js { puck_liveview::init::js() } else { puck_liveview::init::index() };
    sys::check(Encoder::new(r).write_tcp_stream(&mut o).is_ok(), "page: it is sent");
    let most = [1 << 20, 1000][sys::choose(0, 1) as usize];
    let mut r = match Response::parse(In(Cursor::new(o.data), most)) { Ok(Some(r)) => r, _ => { sys::check(false, "page: it is a response"); return; } };
    sys::check(*r.status() == 200, "page: the status is 200");
    let ty: Vec<String> = r.headers().iter().filter(|(k, _)| k.eq_ignore_ascii_case("content-type")).map(|(_, v)| v.to_ascii_lowercase()).collect();
    let starts = |l: &[&str]| ty.len() == 1 && l.iter().any(|t| ty[0].split(';').next().unwrap().trim() == *t);
    let len: Vec<usize> = r.headers().iter().filter(|(k, _)| k.eq_ignore_ascii_case("content-length")).filter_map(|(_, v)| v.trim().parse().ok()).collect();
    let mut b = vec![];
    sys::check(r.take_body().read_to_end(&mut b).is_ok(), "page: it can be read");
    sys::check(len.is_empty() || len == [b.len()], "page: its length is the one stated");
    if js {
        sys::check(starts(&["application/javascript", "text/javascript", "application/x-javascript"]), "page: the script is served as one");
        sys::check(b == SCRIPT.as_bytes(), "page: the script is the client");
        sys::cover("script");
    } else {
        sys::check(starts(&["text/html"]), "page: the page is served as one");
        let s = String::from_utf8(b).unwrap_or_default().replace(' ', "");
        sys::check(["\"./js\"", "'./js'", "=./js", "\"js\"", "'js'", "=js"].iter().any(|x| s.contains(x)) && s.contains("<script"), "page: the page loads the script beside it");
        sys::cover("page");
    }
}
