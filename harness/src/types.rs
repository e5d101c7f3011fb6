//! Plain types shared by the simulator, the model and the clients.

use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

pub type Bytes = Vec<u8>;
pub type LocalBox<T> = Pin<Box<dyn Future<Output = T>>>;
/// Keyword -> set of indexed values.
pub type Assoc = BTreeMap<Bytes, BTreeSet<Iv>>;
pub type Tok = [u8; 32];
pub type Dump = BTreeMap<Tok, Bytes>;

/// Indexed value: pointer to a keyword, or data.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Iv {
    P(Bytes),
    D(Bytes),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Table {
    Et,
    Ct,
}

impl Table {
    pub fn idx(self) -> usize {
        match self {
            Table::Et => 0,
            Table::Ct => 1,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Req {
    Dump,
    Fetch(Vec<Tok>),
    Upsert(Vec<(Tok, Bytes)>, Vec<(Tok, Bytes)>),
    Insert(Vec<(Tok, Bytes)>),
    Delete(Vec<Tok>),
}

impl Req {
    pub fn kind(&self) -> &'static str {
        match self {
            Req::Dump => "dump",
            Req::Fetch(_) => "fetch",
            Req::Upsert(..) => "upsert",
            Req::Insert(_) => "insert",
            Req::Delete(_) => "delete",
        }
    }
    pub fn is_write(&self) -> bool {
        matches!(self, Req::Upsert(..) | Req::Insert(_) | Req::Delete(_))
    }
    /// (number of tokens, number of values)
    pub fn shape(&self) -> (usize, usize) {
        match self {
            Req::Dump => (0, 0),
            Req::Fetch(t) | Req::Delete(t) => (t.len(), 0),
            Req::Upsert(o, n) => (o.len(), n.len()),
            Req::Insert(v) => (v.len(), v.len()),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Reply {
    Tokens(Vec<Tok>),
    Rows(Vec<(Tok, Bytes)>),
    Unit,
}

/// Error of an operation, independent of the library version.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct OpErr {
    pub kind: &'static str,
    pub msg: String,
}

pub type InterruptCb = Rc<dyn Fn(Assoc) -> LocalBox<Result<bool, String>>>;
pub type FilterCb = Rc<dyn Fn(BTreeSet<Bytes>) -> LocalBox<Result<BTreeSet<Bytes>, String>>>;
pub type Items = Vec<(Iv, Vec<Bytes>)>;

/// One client-side index instance, of any version of the library.
pub trait Peer {
    /// Generates a user key.
    fn keygen(&self) -> Bytes;
    /// Generates a random label.
    fn new_label(&self) -> Bytes;
    fn search(
        self: Rc<Self>,
        key: [u8; 16],
        label: Bytes,
        kws: Vec<Bytes>,
        cb: InterruptCb,
    ) -> LocalBox<Result<BTreeMap<Bytes, BTreeSet<Bytes>>, OpErr>>;
    fn modify(
        self: Rc<Self>,
        add: bool,
        key: [u8; 16],
        label: Bytes,
        items: Items,
    ) -> LocalBox<Result<BTreeSet<Bytes>, OpErr>>;
    #[allow(clippy::too_many_arguments)]
    fn compact(
        self: Rc<Self>,
        old_key: [u8; 16],
        new_key: [u8; 16],
        old_label: Bytes,
        new_label: Bytes,
        rate: f64,
        filter: FilterCb,
    ) -> LocalBox<Result<(), OpErr>>;
}

pub fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    const DIGITS: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        s.push(DIGITS[usize::from(x >> 4)] as char);
        s.push(DIGITS[usize::from(x & 15)] as char);
    }
    s
}

pub fn unhex(s: &str) -> Result<Bytes, String> {
    if s == "-" {
        return Ok(vec![]);
    }
    if s.len() % 2 != 0 || !s.is_ascii() {
        return Err(format!("bad hex {s}"));
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(|e| e.to_string()))
        .collect()
}
