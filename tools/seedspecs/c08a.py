ID='C08-unsuback-reason-string'; PROP='C08'
NEEDS='an UNSUBACK carrying a reason string'
BREAKS='the UNSUBACK property table lost its reason string identifier, so such a packet ends the session'
EDITS=[('src/protocol/unsuback.rs','                Some(0x1F) => {','                Some(0x1E) => {')]
MAIN='''mod h;
use h::*;
fn main() {
    let mut s = session();
    s.client.unsubscribe("a").unwrap();
    s.pkt();
    s.put(&frame(0xB0, &[0, 1, 4, 0x1F, 0, 1, b'r', 0]));
    check(s.text().contains("ReasonString"), "UNSUBACK with a reason string was refused");
}
'''
