//! Values as the specification sees them, the primitives users define, and the context.
use harness::json::J;
use serdere::{Deserialize, Deserializer, Serialize, Serializer, Value};

/// A value of the specification.
#[derive(Clone, PartialEq, Debug)]
pub enum A {
    Lit(String),
    Unit,
    None,
    Some(Box<A>),
    Seq(Vec<A>),
    Rec(Vec<A>),
    Var(usize, Vec<A>),
}

pub trait Abs: Sized {
    fn to_a(&self) -> A;
    fn of_a(a: &A) -> Self;
}

pub fn bad(a: &A) -> ! {
    panic!("the value {a:?} is not of this type")
}

const PLACES: [(&str, &str); 6] =
    [("<q>", "\""), ("<b>", "\\"), ("<u>", "é"), ("<w>", "😀"), ("<0>", "\0"), ("<n>", "\n")];
/// The text for which a string of the specification stands.
pub fn text(s: &str) -> String {
    let mut s = s.to_string();
    for (p, c) in PLACES {
        s = s.replace(p, c);
    }
    s
}
pub fn place(s: &str) -> String {
    let mut s = s.to_string();
    for (p, c) in PLACES {
        s = s.replace(c, p);
    }
    s
}

impl A {
    pub fn load(j: &J) -> A {
        let a = j.arr();
        let all = |j: &J| j.arr().iter().map(A::load).collect();
        match a[0].str() {
            "lit" => A::Lit(text(a[1].str())),
            "unit" => A::Unit,
            "none" => A::None,
            "some" => A::Some(Box::new(A::load(&a[1]))),
            "seq" => A::Seq(all(&a[1])),
            "rec" => A::Rec(all(&a[1])),
            "var" => A::Var(a[1].int() as usize, all(&a[2])),
            k => panic!("value kind {k}"),
        }
    }
    pub fn show(&self) -> String {
        let all = |v: &[A]| v.iter().map(A::show).collect::<Vec<_>>().join(",");
        match self {
            A::Lit(s) => format!("[\"lit\",{}]", harness::json::quote(&place(s))),
            A::Unit => "[\"unit\"]".into(),
            A::None => "[\"none\"]".into(),
            A::Some(a) => format!("[\"some\",{}]", a.show()),
            A::Seq(v) => format!("[\"seq\",[{}]]", all(v)),
            A::Rec(v) => format!("[\"rec\",[{}]]", all(v)),
            A::Var(i, v) => format!("[\"var\",{i},[{}]]", all(v)),
        }
    }
}

macro_rules! prim {
    ($($t:ty),*) => {$(
        impl Abs for $t {
            fn to_a(&self) -> A {
                A::Lit(self.to_string())
            }
            fn of_a(a: &A) -> Self {
                let A::Lit(s) = a else { bad(a) };
                s.parse().unwrap_or_else(|_| bad(a))
            }
        }
    )*};
}
use std::num::*;
prim!(bool, i8, i16, i32, i64, u8, u16, u32, u64, char, String);
prim!(NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64);
macro_rules! float {
    ($($t:ty),*) => {$(
        impl Abs for $t {
            fn to_a(&self) -> A {
                A::Lit(format!("{self:?}"))
            }
            fn of_a(a: &A) -> Self {
                let A::Lit(s) = a else { bad(a) };
                s.parse().unwrap_or_else(|_| bad(a))
            }
        }
    )*};
}
float!(f32, f64);
impl Abs for () {
    fn to_a(&self) -> A {
        A::Unit
    }
    fn of_a(a: &A) -> Self {
        if *a != A::Unit {
            bad(a)
        }
    }
}
impl<T: Abs> Abs for Option<T> {
    fn to_a(&self) -> A {
        match self {
            Some(x) => A::Some(Box::new(x.to_a())),
            None => A::None,
        }
    }
    fn of_a(a: &A) -> Self {
        match a {
            A::None => None,
            A::Some(x) => Some(T::of_a(x)),
            _ => bad(a),
        }
    }
}
fn seq(a: &A) -> &[A] {
    let A::Seq(v) = a else { bad(a) };
    v
}
impl<T: Abs> Abs for Vec<T> {
    fn to_a(&self) -> A {
        A::Seq(self.iter().map(T::to_a).collect())
    }
    fn of_a(a: &A) -> Self {
        seq(a).iter().map(T::of_a).collect()
    }
}
impl<T: Abs, const N: usize> Abs for [T; N] {
    fn to_a(&self) -> A {
        A::Seq(self.iter().map(T::to_a).collect())
    }
    fn of_a(a: &A) -> Self {
        std::array::from_fn(|i| T::of_a(&seq(a)[i]))
    }
}
impl<T: Abs, U: Abs> Abs for (T, U) {
    fn to_a(&self) -> A {
        A::Seq(vec![self.0.to_a(), self.1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        (T::of_a(&seq(a)[0]), U::of_a(&seq(a)[1]))
    }
}
impl<T: Abs, U: Abs, V: Abs> Abs for (T, U, V) {
    fn to_a(&self) -> A {
        A::Seq(vec![self.0.to_a(), self.1.to_a(), self.2.to_a()])
    }
    fn of_a(a: &A) -> Self {
        (T::of_a(&seq(a)[0]), U::of_a(&seq(a)[1]), V::of_a(&seq(a)[2]))
    }
}

/// The context: what it is shown, in order.
#[derive(Default, Debug, PartialEq)]
pub struct Log(pub Vec<String>);
pub trait Logs {
    fn note(&mut self, n: u32);
}
impl Logs for Log {
    fn note(&mut self, n: u32) {
        self.0.push(n.to_string());
    }
}

/// A number that notes itself in the context.
#[derive(Default)]
pub struct Leaf(pub u32);
impl<S: Serializer + ?Sized, Ctx: Logs + ?Sized> Serialize<S, Ctx> for Leaf {
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, context: &mut Ctx) -> Result<(), S::Error> {
        context.note(self.0);
        value.put_u32(self.0)
    }
}
impl<D: Deserializer + ?Sized, Ctx: Logs + ?Sized> Deserialize<D, Ctx> for Leaf {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, context: &mut Ctx) -> Result<Self, D::Error> {
        let n = value.get_u32()?;
        context.note(n);
        Ok(Leaf(n))
    }
}
impl Abs for Leaf {
    fn to_a(&self) -> A {
        self.0.to_a()
    }
    fn of_a(a: &A) -> Self {
        Leaf(u32::of_a(a))
    }
}

/// A number that has to be even.
#[derive(Default)]
pub struct Even(pub u32);
#[derive(Debug)]
pub struct OddError(pub u32);
impl std::fmt::Display for OddError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{} is odd", self.0)
    }
}
impl std::error::Error for OddError {}
impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for Even {
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, _: &mut Ctx) -> Result<(), S::Error> {
        value.put_u32(self.0)
    }
}
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for Even {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, _: &mut Ctx) -> Result<Self, D::Error> {
        value.validate_with(|value| {
            let n = value.get_u32()?;
            Ok(if n % 2 == 0 { Ok(Even(n)) } else { Err(OddError(n)) })
        })
    }
}
impl Abs for Even {
    fn to_a(&self) -> A {
        self.0.to_a()
    }
    fn of_a(a: &A) -> Self {
        Even(u32::of_a(a))
    }
}

/// What a proxy turns into.
#[derive(Default)]
pub struct Px<T>(pub T);
impl<T> From<T> for Px<T> {
    fn from(x: T) -> Self {
        Px(x)
    }
}
impl<T: Abs> Abs for Px<T> {
    fn to_a(&self) -> A {
        self.0.to_a()
    }
    fn of_a(a: &A) -> Self {
        Px(T::of_a(a))
    }
}
