ID='C19-server-moved'; PROP='C19'
NEEDS='a DISCONNECT with reason 0x9D, server moved'
BREAKS='the event loop ends with success'
EDITS=[('src/lib.rs','''                                    DisconnectReason::Normal => Ok(()),''','''                                    // nothing went wrong in these cases
                                    DisconnectReason::Normal | DisconnectReason::ServerMoved => Ok(()),''')]
MAIN='''mod h;
use h::*;
fn main() {
    let mut s = session();
    s.put(&[0xE0, 2, 0x9D, 0]);
    match s.ended(3000) {
        Some(Ok(Err(_))) => {}
        e => check(false, &format!("ended with {:?}", e)),
    }
}
'''
