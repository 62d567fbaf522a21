ID='C01-property-no-progress'; PROP='C01'
NEEDS='an incoming packet with a correlation data property of length zero'
BREAKS='an empty binary value reports zero bytes consumed less than it has, so parsing continues inside it; a section of those loops or errors'
EDITS=[('src/protocol/properties.rs','''                let (s, bytes_consumed) = Vec::<u8>::convert_from_mqtt(&bytes[1..])?;
                Ok((CorrelationData(s), bytes_consumed + 1))''','''                let (s, _) = Vec::<u8>::convert_from_mqtt(&bytes[1..])?;
                let bytes_consumed = if s.is_empty() { 0 } else { s.len() + 3 };
                Ok((CorrelationData(s), bytes_consumed))''')]
MAIN='''mod h;
use h::*;
fn main() {
    let mut s = session();
    s.put(&frame(0x30, &[0, 1, b't', 3, 0x09, 0, 0, b'x']));
    check(s.text().contains("CorrelationData([])"), "message with an empty correlation data was not delivered");
}
'''
