ID='C02-waits-for-more'; PROP='C02'
NEEDS='a complete two-byte packet alone in the buffer with nothing behind it'
BREAKS='the decoder asks for more bytes although a complete frame (PINGRESP, short DISCONNECT) is there'
EDITS=[('src/mqtt_codec.rs','''        if src.len() < 2 {''','''        if src.len() <= 2 {''')]
MAIN='''mod h;
use h::*;
fn main() {
    let mut s = session();
    s.put(&[0xE0, 0]);
    check(s.ended(2000) == Some(Ok(Ok(()))), "a complete DISCONNECT was not taken");
}
'''
