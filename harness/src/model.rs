//! Reference model of a YAML document, and its extraction from the real one
//! through the public read API.
use nondestructive::yaml::{Any, Document, Value};

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    /// `empty` if nothing at all represents the null.
    Null { empty: bool },
    Bool(bool),
    /// Number by its exact source text.
    Num(String),
    /// `loose`: the number of trailing newlines depends on what follows it when
    /// it is read back (block scalars).
    Str { s: Vec<u8>, loose: bool },
    Map { flow: bool, items: Vec<(Vec<u8>, M)> },
    Seq { flow: bool, items: Vec<M> },
}

impl M {
    pub fn str(s: impl AsRef<[u8]>) -> M {
        M::Str { s: s.as_ref().to_vec(), loose: false }
    }
    pub fn null() -> M {
        M::Null { empty: false }
    }
    pub fn nodes(&self) -> usize {
        1 + match self {
            M::Map { items, .. } => items.iter().map(|(_, m)| m.nodes()).sum(),
            M::Seq { items, .. } => items.iter().map(M::nodes).sum(),
            _ => 0,
        }
    }
    /// The number of entries.
    pub fn len(&self) -> usize {
        match self {
            M::Map { items, .. } => items.len(),
            M::Seq { items, .. } => items.len(),
            _ => 0,
        }
    }
    pub fn depth(&self) -> usize {
        1 + match self {
            M::Map { items, .. } => items.iter().map(|(_, m)| m.depth()).max().unwrap_or(0),
            M::Seq { items, .. } => items.iter().map(M::depth).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn is_flow(&self) -> bool {
        matches!(self, M::Map { flow: true, .. } | M::Seq { flow: true, .. })
    }
    pub fn is_collection(&self) -> bool {
        matches!(self, M::Map { .. } | M::Seq { .. })
    }
    pub fn get(&self, path: &[Step]) -> Option<&M> {
        let mut m = self;
        for s in path {
            m = match (m, s) {
                (M::Map { items, .. }, Step(i)) => &items.get(*i)?.1,
                (M::Seq { items, .. }, Step(i)) => items.get(*i)?,
                _ => return None,
            };
        }
        Some(m)
    }
    pub fn get_mut(&mut self, path: &[Step]) -> Option<&mut M> {
        let mut m = self;
        for s in path {
            m = match (m, s) {
                (M::Map { items, .. }, Step(i)) => &mut items.get_mut(*i)?.1,
                (M::Seq { items, .. }, Step(i)) => items.get_mut(*i)?,
                _ => return None,
            };
        }
        Some(m)
    }
    /// All paths, in document order.
    pub fn paths(&self) -> Vec<Vec<Step>> {
        fn go(m: &M, at: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
            out.push(at.clone());
            match m {
                M::Map { items, .. } => {
                    for (i, (_, v)) in items.iter().enumerate() {
                        at.push(Step(i));
                        go(v, at, out);
                        at.pop();
                    }
                }
                M::Seq { items, .. } => {
                    for (i, v) in items.iter().enumerate() {
                        at.push(Step(i));
                        go(v, at, out);
                        at.pop();
                    }
                }
                _ => {}
            }
        }
        let mut out = Vec::new();
        go(self, &mut Vec::new(), &mut out);
        out
    }
    pub fn show(&self) -> String {
        match self {
            M::Null { .. } => "null".into(),
            M::Bool(b) => b.to_string(),
            M::Num(n) => format!("n{n}"),
            M::Str { s, .. } => format!("{:?}", bstr::BStr::new(s)),
            M::Map { items, .. } => {
                let v: Vec<_> = items
                    .iter()
                    .map(|(k, v)| format!("{:?}: {}", bstr::BStr::new(k), v.show()))
                    .collect();
                format!("{{{}}}", v.join(", "))
            }
            M::Seq { items, .. } => {
                let v: Vec<_> = items.iter().map(M::show).collect();
                format!("[{}]", v.join(", "))
            }
        }
    }
}

/// Child index (both in mappings and sequences).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Step(pub usize);

/// Extract the model of a value through the public API only.
pub fn canon(v: Value<'_>) -> M {
    match v.into_any() {
        Any::Mapping(m) => M::Map {
            flow: false,
            items: m.iter().map(|(k, v)| (k.to_vec(), canon(v))).collect(),
        },
        Any::Sequence(s) => M::Seq {
            flow: false,
            items: s.iter().map(canon).collect(),
        },
        Any::Null => M::null(),
        Any::Bool(b) => M::Bool(b),
        Any::Number(n) => M::Num(String::from_utf8_lossy(n.as_raw()).into_owned()),
        Any::String(s) => M::Str { s: s.to_vec(), loose: false },
        other => panic!("unexpected any: {other:?}"),
    }
}

pub fn canon_doc(d: &Document) -> M {
    canon(d.as_ref())
}

fn trim_nl(s: &[u8]) -> &[u8] {
    let mut s = s;
    while let Some((b'\n', r)) = s.split_last() {
        s = r;
    }
    s
}

/// Exact agreement of values (representation flags are ignored).
pub fn same(a: &M, b: &M) -> bool {
    diff(a, b, false).is_none()
}

/// First difference between what the model says (`a`) and what was observed
/// (`b`). With `reread`, `b` was observed after writing the document and reading
/// it back: empty block collections are then null, and the number of trailing
/// newlines of block scalars is not compared.
pub fn diff(a: &M, b: &M, reread: bool) -> Option<String> {
    fn go(a: &M, b: &M, reread: bool, at: &str) -> Option<String> {
        let ok = match (a, b) {
            (M::Null { .. }, M::Null { .. }) => true,
            (M::Bool(a), M::Bool(b)) => a == b,
            (M::Num(a), M::Num(b)) => a == b,
            (M::Str { s: x, loose }, M::Str { s: y, .. }) => {
                x == y || (reread && *loose && trim_nl(x) == trim_nl(y))
            }
            (M::Map { flow: false, items }, M::Null { .. }) if reread && items.is_empty() => true,
            (M::Seq { flow: false, items }, M::Null { .. }) if reread && items.is_empty() => true,
            (M::Map { items: x, .. }, M::Map { items: y, .. }) => {
                for (i, ((ka, va), (kb, vb))) in x.iter().zip(y).enumerate() {
                    if ka != kb {
                        return Some(format!(
                            "at {at}: key #{i} should be {:?} but is {:?}",
                            bstr::BStr::new(ka),
                            bstr::BStr::new(kb)
                        ));
                    }
                    let at = format!("{at}.{:?}", bstr::BStr::new(ka));
                    if let Some(d) = go(va, vb, reread, &at) {
                        return Some(d);
                    }
                }
                if x.len() != y.len() {
                    return Some(format!("at {at}: {} entries expected, {} seen", x.len(), y.len()));
                }
                true
            }
            (M::Seq { items: x, .. }, M::Seq { items: y, .. }) => {
                for (i, (va, vb)) in x.iter().zip(y).enumerate() {
                    if let Some(d) = go(va, vb, reread, &format!("{at}[{i}]")) {
                        return Some(d);
                    }
                }
                if x.len() != y.len() {
                    return Some(format!("at {at}: {} items expected, {} seen", x.len(), y.len()));
                }
                true
            }
            _ => false,
        };
        if ok {
            None
        } else {
            Some(format!("at {at}: expected {} but observed {}", a.show(), b.show()))
        }
    }
    go(a, b, reread, "$")
}
