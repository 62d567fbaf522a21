//! notifications are a stream that another thread can own
use futures::Stream;
use ruq::{Client, Notification};
fn stream<S: Stream<Item = Notification> + Send + Unpin + 'static>(_: S) {}
fn sendable<T: Send + 'static>() {}
fn main() {
    let (_client, _evloop, n) = Client::new("127.0.0.1:1");
    stream(n);
    sendable::<Notification>();
    sendable::<ruq::PublishBuilder>();
    sendable::<ruq::Property>();
}
