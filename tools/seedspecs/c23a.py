ID='C23-same-property-replaced'; PROP='C23'
NEEDS='two user properties on one publish'
BREAKS='the second user property replaces the first'
EDITS=[('src/client.rs','''        self.properties.push(prop);
        self
''','''        let kind = std::mem::discriminant(&prop);
        match self.properties.iter_mut().find(|p| std::mem::discriminant(*p) == kind) {
            Some(p) => *p = prop,
            None => self.properties.push(prop),
        }
        self
''')]
MAIN='''mod h;
use h::*;
use ruq::{Property, PublishBuilder};
fn main() {
    let mut s = session();
    let up = |k: &str| Property::UserProperty(k.to_string(), "v".to_string());
    s.client.publish(PublishBuilder::from_bytes("t", b"x").with_property(up("a")).with_property(up("b"))).unwrap();
    let p = s.pkt().unwrap_or_default();
    check(p.len() == 3 + 2 + 1 + 2 + 7 + 7 + 1, "a user property is missing");
}
'''
