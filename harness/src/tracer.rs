//! Reads every trace the code under test emits, the way a logging application does.

use std::cell::Cell;
use std::fmt::{Debug, Write};

use tracing::field::{Field, Visit};
use tracing::span::{Attributes, Id, Record};
use tracing::subscriber::Interest;
use tracing::{Event, Metadata, Subscriber};

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
}

struct Reader;

struct Text(String);

impl Visit for Text {
    fn record_debug(&mut self, _: &Field, value: &dyn Debug) {
        let _ = write!(self.0, "{value:?}");
    }
}

fn read(visit: impl FnOnce(&mut Text)) {
    let mut t = Text(String::new());
    visit(&mut t);
    BYTES.with(|b| b.set(b.get() + t.0.len() as u64));
}

impl Subscriber for Reader {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest {
        Interest::sometimes()
    }
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        ON.with(Cell::get) && m.target().starts_with("cosmian_findex")
    }
    fn new_span(&self, span: &Attributes<'_>) -> Id {
        read(|t| span.record(t));
        Id::from_u64(1)
    }
    fn record(&self, _: &Id, values: &Record<'_>) {
        read(|t| values.record(t));
    }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, event: &Event<'_>) {
        read(|t| event.record(t));
    }
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}

pub fn install() {
    let _ = tracing::subscriber::set_global_default(Reader);
}

/// Traces of this thread are read from now on.
pub fn enable(on: bool) {
    ON.with(|x| x.set(on));
    BYTES.with(|b| b.set(0));
}

/// Bytes of text read from traces by this thread.
pub fn bytes() -> u64 {
    BYTES.with(Cell::get)
}
