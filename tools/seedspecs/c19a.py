ID='C19-malformed-packet-skipped'; PROP='C19'
NEEDS='a packet that does not decode'
BREAKS='the event loop ends with success'
EDITS=[('src/lib.rs','''                        error!("Incoming req error: {:?}", e);
                        return Err(e);''','''                        error!("Incoming req error: {:?}", e);
                        // a packet we do not understand is the broker's problem
                        if e.kind() != ErrorKind::InvalidData {
                            return Err(e);
                        }''')]
MAIN='''mod h;
use h::*;
fn main() {
    let mut s = session();
    s.put(&[0x00, 0x00]);
    match s.ended(3000) {
        Some(Ok(Err(_))) => {}
        e => check(false, &format!("ended with {:?}", e)),
    }
}
'''
