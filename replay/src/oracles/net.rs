//! Sockets over loopback. Every listener has an address of 127/8 of its own, so
//! that a long search does not use up the ports of one address.
use std::io;
use std::net::{Ipv4Addr, SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Once;

static NEXT: AtomicU64 = AtomicU64::new(0);
static SEED: Once = Once::new();

fn address() -> Ipv4Addr {
    SEED.call_once(|| NEXT.store(std::process::id() as u64 * 7919, Ordering::SeqCst));
    let n = NEXT.fetch_add(1, Ordering::SeqCst);
    Ipv4Addr::new(127, 1 + (n / 62_500 % 200) as u8, 1 + (n / 250 % 250) as u8, 1 + (n % 250) as u8)
}

/// A listener on a free port.
pub fn listen() -> TcpListener {
    let mut last = None;
    for i in 0..200 {
        let a = if i % 4 == 3 { Ipv4Addr::LOCALHOST } else { address() };
        match TcpListener::bind((a, 0)) {
            Ok(l) => return l,
            Err(e) => last = Some(e),
        }
        if i > 20 {
            std::thread::sleep(std::time::Duration::from_millis(10));
        }
    }
    give_up(last.unwrap())
}

/// A free address.
pub fn free() -> SocketAddr {
    listen().local_addr().unwrap()
}

/// The two ends of a connection.
pub fn pair() -> (TcpStream, TcpStream) {
    let mut last = None;
    for _ in 0..200 {
        let l = listen();
        let r = l.local_addr().and_then(TcpStream::connect).and_then(|c| Ok((c, l.accept()?)));
        match r {
            Ok((c, (s, a))) if c.local_addr().ok() == Some(a) => return (s, c),
            Ok(_) => {}
            Err(e) => last = Some(e),
        }
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
    give_up(last.unwrap_or_else(|| io::ErrorKind::Other.into()))
}

/// The machine has no resources for the case: it shows nothing about the code.
pub fn give_up(e: io::Error) -> ! {
    std::panic::panic_any(crate::NoResources(e))
}
