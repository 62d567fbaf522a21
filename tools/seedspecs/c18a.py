ID='C18-any-packet-is-an-answer'; PROP='C18'
NEEDS='a broker that stops answering pings and keeps sending publishes'
BREAKS='the unanswered ping does not end the session'
EDITS=[('src/lib.rs','''                    Some(Ok(x)) => {
                        match x {''','''                    Some(Ok(x)) => {
                        // the connection is alive
                        if pingresp_received == Some(false) {
                            pingresp_received = Some(true);
                        }
                        match x {''')]
MAIN='''mod h;
use h::*;
fn main() {
    let mut s = session();
    let t = std::time::Instant::now();
    while t.elapsed().as_secs() < 22 {
        s.broker.set_read_timeout(Some(std::time::Duration::from_millis(200))).unwrap();
        let _ = s.pkt();
        use std::io::Write;
        let _ = s.broker.write_all(&frame(0x30, &[0, 1, b't', 0, b'x']));
        if let Some(e) = s.ended(800) {
            check(matches!(e, Ok(Err(_))), "wrong end");
            return;
        }
    }
    check(false, "an unanswered ping did not end the session");
}
'''
