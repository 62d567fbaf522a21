ID='C01-string-bound'; PROP='C01'
NEEDS='an incoming PUBLISH whose topic length prefix runs one or two bytes past the end of the frame'
BREAKS='the bound check of the string reader forgets the two length bytes, so the slice goes out of range and the decoder panics'
EDITS=[('src/protocol/mod.rs','if len > 0 && len + 2 <= bytes.len() {','if len > 0 && len <= bytes.len() {')]
MAIN='''mod h;
use h::*;
fn main() {
    for cut in 1..=2usize {
        let mut s = session();
        let mut b = vec![0, (4 + cut) as u8];
        b.extend_from_slice(b"abcd");
        s.put(&frame(0x30, &b));
        let e = s.ended(3000);
        check(e != Some(Err(())), "decoder panicked");
        check(matches!(e, Some(Ok(Err(_)))), "malformed frame must end with an error");
    }
}
'''
