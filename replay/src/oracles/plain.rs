//! Without the hook: what a server shows over loopback.
use super::conversation::Conversation;
use super::net;
use crate::gen::Gen;
use crate::{Done, Oracle};
use std::io::{Read, Write};
use std::net::TcpStream;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;
use wruster::http::{HttpMethod, Request, Response, StatusCode};
use wruster::router::{HttpHandler, Router};
use wruster::{Server, Timeouts};

pub fn serve(routes: Router, timeouts: Timeouts) -> Conversation {
    let at = net::free();
    let mut server = Server::from_timeouts(timeouts);
    if let Err(e) = server.run(&at.to_string(), routes) {
        net::give_up(std::io::Error::new(std::io::ErrorKind::Other, format!("{:?}", e)));
    }
    let client = match TcpStream::connect(at) {
        Ok(c) => c,
        Err(e) => net::give_up(e),
    };
    let finish = move || {
        let _ = server.shutdown();
        None
    };
    Conversation { client, finish: Box::new(finish) }
}

/// A server whose actions panic more times than it has workers: it must go on
/// answering.
fn panics(g: &mut Gen) -> Done {
    let routes = Router::new();
    let ran = Arc::new(AtomicUsize::new(0));
    let count = Arc::clone(&ran);
    let fails: HttpHandler = Box::new(move |_: &mut Request| {
        count.fetch_add(1, Ordering::SeqCst);
        panic!("the action panics")
    });
    let works: HttpHandler = Box::new(|_: &mut Request| Response::from_status(StatusCode::Accepted));
    routes.add("/panic", HttpMethod::GET, fails);
    routes.add("/works", HttpMethod::GET, works);
    let long = Duration::from_secs(15);
    let at = net::free();
    let mut server = Server::from_timeouts(Timeouts { read_request_timeout: long, write_response_timeout: long });
    if server.run(&at.to_string(), routes).is_err() {
        return g.done(false, None);
    }
    let n = g.range(1, 80);
    g.note(format!("{} requests of an action that panics, then one of another that does not", n));
    let ask = |path: &str| -> std::io::Result<Vec<u8>> {
        let mut c = TcpStream::connect(at)?;
        c.set_read_timeout(Some(long))?;
        c.write_all(format!("GET {} HTTP/1.1\r\nConnection: close\r\n\r\n", path).as_bytes())?;
        let mut got = vec![];
        c.read_to_end(&mut got)?;
        Ok(got)
    };
    let mut bad = None;
    for _ in 0..n {
        let _ = ask("/panic");
    }
    if ran.load(Ordering::SeqCst) != n {
        bad = Some(format!("the action ran {} times", ran.load(Ordering::SeqCst)));
    }
    for _ in 0..20 {
        match ask("/works") {
            Ok(r) if r.starts_with(b"HTTP/1.1 202") => {}
            r => bad = Some(format!("afterwards the server gives {:?}", r.map(|r| String::from_utf8_lossy(&r).to_string()))),
        }
    }
    let _ = server.shutdown();
    g.done(true, bad)
}

/// What stands in for the oracles that need the hook.
pub fn oracles() -> Vec<Oracle> {
    let mut v = vec![Oracle {
        prop: "C15",
        name: "plain_panics",
        rule: "without the hook: a server over loopback whose actions panic up to 80 times, each must run once and the server go on answering",
        weight: 1,
        max: 0,
        limit_ms: 60000,
        run: panics,
    }];
    let as_is = |prop, name, rule, mut o: Oracle| {
        o.prop = prop;
        o.name = name;
        o.rule = rule;
        o
    };
    for o in super::conversation::oracles() {
        v.push(as_is("C12", "plain_conversations", "without the hook: the conversations of C10 over a server", o));
    }
    for o in super::client::oracles().into_iter().filter(|o| o.name == "reuse") {
        v.push(as_is("C16", "plain_reuse", "without the hook: the reuse of connections of C17", o));
    }
    for o in super::server::oracles() {
        match o.name {
            "accepting" => v.push(as_is("C14", "plain_accepting", "without the hook: the servers of C20", o)),
            _ => v.push(as_is("C13", "plain_lifecycle", "without the hook: the servers of C19", o)),
        }
    }
    v
}
