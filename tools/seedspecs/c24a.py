ID='C24-reset-is-a-clean-end'; PROP='C24'
NEEDS='the broker resets the TCP connection instead of closing it'
BREAKS='the future completes with success though the session failed'
EDITS=[('src/lib.rs','''                        return f.poll(cx).map_err(|e| e.into());''','''                        return match f.poll(cx) {
                            // the peer is gone, there is nothing left to do
                            Poll::Ready(Err(e)) if e.kind() == ErrorKind::ConnectionReset => {
                                Poll::Ready(Ok(()))
                            }
                            x => x.map_err(|e| e.into()),
                        };''')]
MAIN='''mod h;
use h::*;
fn main() {
    let s = session();
    // unread data on our side makes close a reset
    let mut c = s.client.clone();
    c.subscribe("a", ruq::QoS::AtMostOnce).unwrap();
    std::thread::sleep(std::time::Duration::from_millis(300));
    let S { client: _c, broker, notes: _n, end } = s;
    drop(broker);
    match end.recv_timeout(std::time::Duration::from_secs(3)).ok() {
        Some(Ok(Err(_))) => {}
        e => check(false, &format!("ended with {:?}", e)),
    }
}
'''
