ID='C09-length-in-characters'; PROP='C09'
NEEDS='a topic or string payload property with characters outside ASCII'
BREAKS='the length prefix of a string counts characters instead of bytes'
EDITS=[('src/protocol/mod.rs','''impl ToMqttBytes for String {
    fn convert_to_mqtt(&self) -> Vec<u8> {
        let bytes = self.as_bytes();
        let len = bytes.len();
''','''impl ToMqttBytes for String {
    fn convert_to_mqtt(&self) -> Vec<u8> {
        let bytes = self.as_bytes();
        let len = self.chars().count();
''')]
MAIN='''mod h;
use h::*;
fn main() {
    let mut s = session();
    s.client.publish(ruq::PublishBuilder::from_bytes("caf\\u{e9}/t", b"x")).unwrap();
    let p = s.pkt().unwrap_or_default();
    check(p.len() > 4 && p[2..4] == [0, 7], "topic length is not its length in bytes");
}
'''
