//! Neutral tree both sides of every comparison are mapped to.
//! The converter (conv.rs) maps the library's AST to it, the generator (gen.rs)
//! builds it along with the text, the reference parser (refp.rs) builds it from text.

use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum T {
    A(String),
    N(&'static str, Vec<T>),
}

pub fn a<S: Into<String>>(s: S) -> T {
    T::A(s.into())
}
pub fn n(name: &'static str, kids: Vec<T>) -> T {
    T::N(name, kids)
}
pub fn leaf(name: &'static str) -> T {
    T::N(name, vec![])
}
pub fn opt(x: Option<T>) -> T {
    match x {
        Some(t) => n("some", vec![t]),
        None => leaf("none"),
    }
}
pub fn flag(b: bool) -> T {
    a(if b { "1" } else { "0" })
}

impl T {
    pub fn size(&self) -> usize {
        match self {
            T::A(_) => 1,
            T::N(_, k) => 1 + k.iter().map(T::size).sum::<usize>(),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            T::A(_) => 1,
            T::N(_, k) => 1 + k.iter().map(T::depth).max().unwrap_or(0),
        }
    }
    /// visit every node
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a T)) {
        f(self);
        if let T::N(_, k) = self {
            for x in k {
                x.walk(f)
            }
        }
    }
    /// first place where two trees differ, as a path and the two subtrees
    pub fn diff(&self, other: &T) -> Option<(String, String, String)> {
        fn go(x: &T, y: &T, path: &mut Vec<String>) -> Option<(String, String, String)> {
            match (x, y) {
                (T::N(n1, k1), T::N(n2, k2)) if n1 == n2 => {
                    path.push(n1.to_string());
                    for (i, (p, q)) in k1.iter().zip(k2.iter()).enumerate() {
                        path.push(i.to_string());
                        if let Some(d) = go(p, q, path) {
                            return Some(d);
                        }
                        path.pop();
                    }
                    if k1.len() != k2.len() {
                        return Some((
                            path.join("/"),
                            format!("{} children: {}", k1.len(), x),
                            format!("{} children: {}", k2.len(), y),
                        ));
                    }
                    path.pop();
                    None
                }
                _ if x == y => None,
                _ => Some((path.join("/"), x.to_string(), y.to_string())),
            }
        }
        go(self, other, &mut vec![])
    }
}

impl fmt::Display for T {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            T::A(s) => write!(f, "{:?}", s),
            T::N(name, k) => {
                write!(f, "({}", name)?;
                for x in k {
                    write!(f, " {}", x)?;
                }
                write!(f, ")")
            }
        }
    }
}
impl fmt::Debug for T {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
