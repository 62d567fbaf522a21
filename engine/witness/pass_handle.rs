//! the handle can be cloned, sent to and shared with other threads
use ruq::Client;
fn clonable<T: Clone>() {}
fn sendable<T: Send + 'static>() {}
fn shareable<T: Sync>() {}
fn main() {
    clonable::<Client>();
    sendable::<Client>();
    shareable::<Client>();
}
