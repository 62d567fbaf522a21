ID='C07-trailing-byte-accepted'; PROP='C07'
NEEDS='an incoming PUBLISH whose property section ends with one stray byte'
BREAKS='a truncated last property is silently dropped instead of being an error'
EDITS=[('src/protocol/properties.rs','            while bytes.len() > 0 {','            while bytes.len() > 1 {')]
MAIN='''mod h;
use h::*;
fn main() {
    let mut s = session();
    s.put(&frame(0x30, &[0, 1, b't', 3, 0x01, 1, 0x26, b'x']));
    check(s.note().is_none(), "a truncated property section was accepted");
}
'''
