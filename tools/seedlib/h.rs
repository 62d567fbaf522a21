//! a scripted broker on the loopback network and the real client against it
#![allow(dead_code, deprecated)]
use futures::StreamExt;
use ruq::{Client, Notification};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::mpsc;
use std::time::Duration;

pub struct S {
    pub client: Client,
    pub broker: TcpStream,
    pub notes: mpsc::Receiver<Notification>,
    pub end: mpsc::Receiver<Result<Result<(), String>, ()>>,
}

pub const CONNACK: &[u8] = &[0x20, 3, 0, 0, 0];

/// connect a client; the CONNECT packet is left unread
pub fn start() -> S {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap();
    let (client, evloop, mut nrx) = Client::new(addr);
    let (ntx, notes) = mpsc::channel();
    let (etx, end) = mpsc::channel();
    std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            rt.block_on(async move {
                tokio::spawn(async move {
                    while let Some(n) = nrx.next().await {
                        let _ = ntx.send(n);
                    }
                });
                let r = evloop.await.map_err(|e| format!("{:?}", e));
                tokio::time::sleep(Duration::from_millis(50)).await;
                r
            })
        }));
        let _ = etx.send(r.map_err(|_| ()));
    });
    let (broker, _) = l.accept().unwrap();
    broker.set_read_timeout(Some(Duration::from_millis(1500))).unwrap();
    broker.set_nodelay(true).unwrap();
    S { client, broker, notes, end }
}

/// connect and complete the handshake
pub fn session() -> S {
    let mut s = start();
    let p = s.pkt().expect("no CONNECT");
    assert_eq!(p[0], 0x10);
    s.put(CONNACK);
    match s.note() {
        Some(Notification::ConnAck(_)) => {}
        n => panic!("no ConnAck notification: {:?}", n),
    }
    s
}

impl S {
    pub fn put(&mut self, b: &[u8]) {
        self.broker.write_all(b).unwrap();
        self.broker.flush().unwrap();
    }
    /// next packet the client wrote, None when there is none in time or the stream ended
    pub fn pkt(&mut self) -> Option<Vec<u8>> {
        let mut v = vec![0u8; 1];
        self.broker.read_exact(&mut v).ok()?;
        let (mut len, mut mul) = (0usize, 1usize);
        loop {
            let mut b = [0u8; 1];
            self.broker.read_exact(&mut b).ok()?;
            v.push(b[0]);
            len += (b[0] & 127) as usize * mul;
            mul *= 128;
            if b[0] & 128 == 0 {
                break;
            }
        }
        let at = v.len();
        v.resize(at + len, 0);
        self.broker.read_exact(&mut v[at..]).ok()?;
        Some(v)
    }
    pub fn note(&mut self) -> Option<Notification> {
        self.notes.recv_timeout(Duration::from_millis(1500)).ok()
    }
    pub fn text(&mut self) -> String {
        format!("{:?}", self.note())
    }
    /// how the event loop ended: None when it still runs after the wait
    pub fn ended(&mut self, ms: u64) -> Option<Result<Result<(), String>, ()>> {
        self.end.recv_timeout(Duration::from_millis(ms)).ok()
    }
}

/// fixed header + body
pub fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![first];
    let mut n = body.len();
    loop {
        let b = (n % 128) as u8;
        n /= 128;
        v.push(if n > 0 { b | 128 } else { b });
        if n == 0 {
            break;
        }
    }
    v.extend_from_slice(body);
    v
}

pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("FAILED: {}", what);
        std::process::exit(1);
    }
}
