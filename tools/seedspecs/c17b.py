ID='C17-unsuback-of-unknown-as-message'; PROP='C17'
NEEDS='an UNSUBACK that carries a reason string'
BREAKS='it is delivered as a message, not as an UNSUBACK'
EDITS=[('src/lib.rs','''                                sender.send(Notification::UnsubAck(format!("{:?}", m))).await;''','''                                let text = format!("{:?}", m);
                                let note = if text.contains("ReasonString") {
                                    // something the broker wants the application to read
                                    Notification::Message(text)
                                } else {
                                    Notification::UnsubAck(text)
                                };
                                sender.send(note).await;''')]
MAIN='''mod h;
use h::*;
fn main() {
    let mut s = session();
    s.put(&frame(0xB0, &[0, 1, 5, 0x1F, 0, 2, b'n', b'o', 0]));
    let t = s.text();
    check(t.contains("UnsubAck("), &t);
}
'''
