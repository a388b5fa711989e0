// Generated by gen_types.py from spec/CodecTypes.tla; do not edit.
use crate::abs::*;
use crate::run::{r, rw, Entry};
use serdere::{Deserialize, Serialize};

#[derive(Serialize, Deserialize)]
pub struct Gen<T> {
    pub g: T,
    #[serde(rename = "h")] pub renamed1: Leaf,
}

impl<T: Abs> Abs for Gen<T> {
    fn to_a(&self) -> A {
        A::Rec(vec![self.g.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { g: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct GenA<T, const N: usize> {
    pub xs: [T; N],
    #[serde(rename = "ys")] #[serde(default)] pub renamed1: Vec<T>,
    pub z: T,
}

impl<T: Abs, const N: usize> Abs for GenA<T, N> {
    fn to_a(&self) -> A {
        A::Rec(vec![self.xs.to_a(), self.renamed1.to_a(), self.z.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { xs: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), z: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "gtag")]
pub enum GenE<T> {
    N,
    #[serde(rename = "F")] V1 { g: T, #[serde(rename = "o")] renamed1: Option<T> },
    #[serde(transparent)] I { inner: T },
}

impl<T: Abs> Abs for GenE<T> {
    fn to_a(&self) -> A {
        match self {
            Self::N => A::Var(1, vec![]),
            Self::V1 { g: b0, renamed1: b1 } => A::Var(2, vec![b0.to_a(), b1.to_a()]),
            Self::I { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::N,
            2 => Self::V1 { g: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            3 => Self::I { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct OptPrims {
    pub o_bool: Option<bool>,
    #[serde(rename = "o_i8")] pub renamed1: Option<i8>,
    pub o_i16: Option<i16>,
    pub o_i32: Option<i32>,
    #[serde(rename = "o_i64")] pub renamed4: Option<i64>,
    pub o_u8: Option<u8>,
    pub o_u16: Option<u16>,
    #[serde(rename = "o_u32")] pub renamed7: Option<u32>,
    pub o_u64: Option<u64>,
    pub o_f32: Option<f32>,
    #[serde(rename = "o_f64")] pub renamed10: Option<f64>,
    pub o_char: Option<char>,
    pub o_str: Option<String>,
    #[serde(rename = "o_leaf")] pub renamed13: Option<Leaf>,
    pub o_even: Option<Even>,
    pub o_nz_i8: Option<std::num::NonZeroI8>,
    #[serde(rename = "o_nz_i16")] pub renamed16: Option<std::num::NonZeroI16>,
    pub o_nz_i32: Option<std::num::NonZeroI32>,
    pub o_nz_i64: Option<std::num::NonZeroI64>,
    #[serde(rename = "o_nz_u8")] pub renamed19: Option<std::num::NonZeroU8>,
    pub o_nz_u16: Option<std::num::NonZeroU16>,
    pub o_nz_u32: Option<std::num::NonZeroU32>,
    #[serde(rename = "o_nz_u64")] pub renamed22: Option<std::num::NonZeroU64>,
}

impl Abs for OptPrims {
    fn to_a(&self) -> A {
        A::Rec(vec![self.o_bool.to_a(), self.renamed1.to_a(), self.o_i16.to_a(), self.o_i32.to_a(), self.renamed4.to_a(), self.o_u8.to_a(), self.o_u16.to_a(), self.renamed7.to_a(), self.o_u64.to_a(), self.o_f32.to_a(), self.renamed10.to_a(), self.o_char.to_a(), self.o_str.to_a(), self.renamed13.to_a(), self.o_even.to_a(), self.o_nz_i8.to_a(), self.renamed16.to_a(), self.o_nz_i32.to_a(), self.o_nz_i64.to_a(), self.renamed19.to_a(), self.o_nz_u16.to_a(), self.o_nz_u32.to_a(), self.renamed22.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { o_bool: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), o_i16: Abs::of_a(&v[2]), o_i32: Abs::of_a(&v[3]), renamed4: Abs::of_a(&v[4]), o_u8: Abs::of_a(&v[5]), o_u16: Abs::of_a(&v[6]), renamed7: Abs::of_a(&v[7]), o_u64: Abs::of_a(&v[8]), o_f32: Abs::of_a(&v[9]), renamed10: Abs::of_a(&v[10]), o_char: Abs::of_a(&v[11]), o_str: Abs::of_a(&v[12]), renamed13: Abs::of_a(&v[13]), o_even: Abs::of_a(&v[14]), o_nz_i8: Abs::of_a(&v[15]), renamed16: Abs::of_a(&v[16]), o_nz_i32: Abs::of_a(&v[17]), o_nz_i64: Abs::of_a(&v[18]), renamed19: Abs::of_a(&v[19]), o_nz_u16: Abs::of_a(&v[20]), o_nz_u32: Abs::of_a(&v[21]), renamed22: Abs::of_a(&v[22]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct DefaultPrims {
    #[serde(default)] pub d_bool: bool,
    #[serde(rename = "d_i8")] #[serde(default)] pub renamed1: i8,
    #[serde(default)] pub d_i16: i16,
    #[serde(default)] pub d_i32: i32,
    #[serde(rename = "d_i64", default)] pub renamed4: i64,
    #[serde(default)] pub d_u8: u8,
    #[serde(default)] pub d_u16: u16,
    #[serde(rename = "d_u32")] #[serde(default)] pub renamed7: u32,
    #[serde(default)] pub d_u64: u64,
    #[serde(default)] pub d_f32: f32,
    #[serde(rename = "d_f64", default)] pub renamed10: f64,
    #[serde(default)] pub d_char: char,
    #[serde(default)] pub d_str: String,
    #[serde(rename = "d_leaf")] #[serde(default)] pub renamed13: Leaf,
    #[serde(default)] pub d_even: Even,
}

impl Abs for DefaultPrims {
    fn to_a(&self) -> A {
        A::Rec(vec![self.d_bool.to_a(), self.renamed1.to_a(), self.d_i16.to_a(), self.d_i32.to_a(), self.renamed4.to_a(), self.d_u8.to_a(), self.d_u16.to_a(), self.renamed7.to_a(), self.d_u64.to_a(), self.d_f32.to_a(), self.renamed10.to_a(), self.d_char.to_a(), self.d_str.to_a(), self.renamed13.to_a(), self.d_even.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { d_bool: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), d_i16: Abs::of_a(&v[2]), d_i32: Abs::of_a(&v[3]), renamed4: Abs::of_a(&v[4]), d_u8: Abs::of_a(&v[5]), d_u16: Abs::of_a(&v[6]), renamed7: Abs::of_a(&v[7]), d_u64: Abs::of_a(&v[8]), d_f32: Abs::of_a(&v[9]), renamed10: Abs::of_a(&v[10]), d_char: Abs::of_a(&v[11]), d_str: Abs::of_a(&v[12]), renamed13: Abs::of_a(&v[13]), d_even: Abs::of_a(&v[14]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct Point {
    pub x: Leaf,
    #[serde(rename = "y")] pub renamed1: Option<u8>,
}

impl Abs for Point {
    fn to_a(&self) -> A {
        A::Rec(vec![self.x.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { x: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum Color {
    Red,
    #[serde(rename = "green")] V1,
    Blue = 7,
    #[serde(rename = "é")] V3,
}

impl Abs for Color {
    fn to_a(&self) -> A {
        match self {
            Self::Red => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::Blue => A::Var(3, vec![]),
            Self::V3 => A::Var(4, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::Red,
            2 => Self::V1,
            3 => Self::Blue,
            4 => Self::V3,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum Shape {
    Empty,
    #[serde(rename = "Circle")] V1 { r: Leaf },
    #[serde(transparent)] At { inner: Point },
    Two { b: Leaf, #[serde(rename = "a")] renamed1: Option<Leaf> },
}

impl Abs for Shape {
    fn to_a(&self) -> A {
        match self {
            Self::Empty => A::Var(1, vec![]),
            Self::V1 { r: b0 } => A::Var(2, vec![b0.to_a()]),
            Self::At { inner } => A::Var(3, vec![inner.to_a()]),
            Self::Two { b: b0, renamed1: b1 } => A::Var(4, vec![b0.to_a(), b1.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::Empty,
            2 => Self::V1 { r: Abs::of_a(&v[0]) },
            3 => Self::At { inner: Abs::of_a(&v[0]) },
            4 => Self::Two { b: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct SP1 {
    pub first: Leaf,
    #[serde(rename = "mid")] pub renamed1: Leaf,
    pub last: Leaf,
}

impl Abs for SP1 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.renamed1.to_a(), self.last.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), last: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct SP2 {
    pub first: Leaf,
    #[serde(rename = "mid")] pub renamed1: u8,
    pub last: Leaf,
}

impl Abs for SP2 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.renamed1.to_a(), self.last.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), last: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct SP3 {
    pub first: Leaf,
    #[serde(rename = "mid")] pub renamed1: String,
    pub last: Leaf,
}

impl Abs for SP3 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.renamed1.to_a(), self.last.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), last: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct SP4 {
    pub first: Leaf,
    #[serde(rename = "mid")] pub renamed1: Option<u8>,
    pub last: Leaf,
}

impl Abs for SP4 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.renamed1.to_a(), self.last.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), last: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct SP5 {
    pub first: Leaf,
    #[serde(rename = "mid")] pub renamed1: Option<Option<Leaf>>,
    pub last: Leaf,
}

impl Abs for SP5 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.renamed1.to_a(), self.last.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), last: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct SP6 {
    pub first: Leaf,
    #[serde(rename = "mid")] pub renamed1: Vec<Leaf>,
    pub last: Leaf,
}

impl Abs for SP6 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.renamed1.to_a(), self.last.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), last: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct SP7 {
    pub first: Leaf,
    #[serde(rename = "mid")] pub renamed1: (Leaf, String),
    pub last: Leaf,
}

impl Abs for SP7 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.renamed1.to_a(), self.last.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), last: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct SP8 {
    pub first: Leaf,
    #[serde(rename = "mid")] pub renamed1: [Leaf; 2],
    pub last: Leaf,
}

impl Abs for SP8 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.renamed1.to_a(), self.last.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), last: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct SP9 {
    pub first: Leaf,
    #[serde(rename = "mid")] pub renamed1: (),
    pub last: Leaf,
}

impl Abs for SP9 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.renamed1.to_a(), self.last.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), last: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct SP10 {
    pub first: Leaf,
    #[serde(rename = "mid")] pub renamed1: Point,
    pub last: Leaf,
}

impl Abs for SP10 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.renamed1.to_a(), self.last.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), last: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct SP11 {
    pub first: Leaf,
    #[serde(rename = "mid")] pub renamed1: Color,
    pub last: Leaf,
}

impl Abs for SP11 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.renamed1.to_a(), self.last.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), last: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct SP12 {
    pub first: Leaf,
    #[serde(rename = "mid")] pub renamed1: Shape,
    pub last: Leaf,
}

impl Abs for SP12 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.renamed1.to_a(), self.last.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), last: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct SD1 {
    pub first: Leaf,
    #[serde(rename = "mid")] #[serde(default)] pub renamed1: Leaf,
}

impl Abs for SD1 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct SD2 {
    pub first: Leaf,
    #[serde(rename = "mid")] #[serde(default)] pub renamed1: u8,
}

impl Abs for SD2 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct SD3 {
    pub first: Leaf,
    #[serde(rename = "mid")] #[serde(default)] pub renamed1: String,
}

impl Abs for SD3 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct SD4 {
    pub first: Leaf,
    #[serde(rename = "mid")] #[serde(default)] pub renamed1: Option<u8>,
}

impl Abs for SD4 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct SD5 {
    pub first: Leaf,
    #[serde(rename = "mid")] #[serde(default)] pub renamed1: Option<Option<Leaf>>,
}

impl Abs for SD5 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct SD6 {
    pub first: Leaf,
    #[serde(rename = "mid")] #[serde(default)] pub renamed1: Vec<Leaf>,
}

impl Abs for SD6 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct SD7 {
    pub first: Leaf,
    #[serde(rename = "mid")] #[serde(default)] pub renamed1: (Leaf, String),
}

impl Abs for SD7 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct SD8 {
    pub first: Leaf,
    #[serde(rename = "mid")] #[serde(default)] pub renamed1: [Leaf; 2],
}

impl Abs for SD8 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct SD9 {
    pub first: Leaf,
    #[serde(rename = "mid")] #[serde(default)] pub renamed1: (),
}

impl Abs for SD9 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct SD10 {
    pub first: Leaf,
    #[serde(rename = "mid")] #[serde(default)] pub renamed1: Point,
}

impl Abs for SD10 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct SF9 {
    pub first: Leaf,
    #[serde(flatten)] pub inner_1: (),
    pub last: Option<Leaf>,
}

impl Abs for SF9 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.inner_1.to_a(), self.last.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), last: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct SF10 {
    pub first: Leaf,
    #[serde(flatten)] pub inner_1: Point,
    pub last: Option<Leaf>,
}

impl Abs for SF10 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.inner_1.to_a(), self.last.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), last: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct SF12 {
    pub first: Leaf,
    #[serde(flatten)] pub inner_1: Shape,
    pub last: Option<Leaf>,
}

impl Abs for SF12 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.first.to_a(), self.inner_1.to_a(), self.last.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { first: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), last: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum EF1 {
    A { p: Leaf, #[serde(rename = "q")] renamed1: Leaf },
    #[serde(rename = "B")] V1,
}

impl Abs for EF1 {
    fn to_a(&self) -> A {
        match self {
            Self::A { p: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::A { p: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum EF2 {
    A { p: u8, #[serde(rename = "q")] renamed1: Leaf },
    #[serde(rename = "B")] V1,
}

impl Abs for EF2 {
    fn to_a(&self) -> A {
        match self {
            Self::A { p: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::A { p: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum EF3 {
    A { p: String, #[serde(rename = "q")] renamed1: Leaf },
    #[serde(rename = "B")] V1,
}

impl Abs for EF3 {
    fn to_a(&self) -> A {
        match self {
            Self::A { p: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::A { p: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum EF4 {
    A { p: Option<u8>, #[serde(rename = "q")] renamed1: Leaf },
    #[serde(rename = "B")] V1,
}

impl Abs for EF4 {
    fn to_a(&self) -> A {
        match self {
            Self::A { p: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::A { p: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum EF5 {
    A { p: Option<Option<Leaf>>, #[serde(rename = "q")] renamed1: Leaf },
    #[serde(rename = "B")] V1,
}

impl Abs for EF5 {
    fn to_a(&self) -> A {
        match self {
            Self::A { p: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::A { p: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum EF6 {
    A { p: Vec<Leaf>, #[serde(rename = "q")] renamed1: Leaf },
    #[serde(rename = "B")] V1,
}

impl Abs for EF6 {
    fn to_a(&self) -> A {
        match self {
            Self::A { p: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::A { p: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum EF7 {
    A { p: (Leaf, String), #[serde(rename = "q")] renamed1: Leaf },
    #[serde(rename = "B")] V1,
}

impl Abs for EF7 {
    fn to_a(&self) -> A {
        match self {
            Self::A { p: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::A { p: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum EF8 {
    A { p: [Leaf; 2], #[serde(rename = "q")] renamed1: Leaf },
    #[serde(rename = "B")] V1,
}

impl Abs for EF8 {
    fn to_a(&self) -> A {
        match self {
            Self::A { p: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::A { p: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum EF9 {
    A { p: (), #[serde(rename = "q")] renamed1: Leaf },
    #[serde(rename = "B")] V1,
}

impl Abs for EF9 {
    fn to_a(&self) -> A {
        match self {
            Self::A { p: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::A { p: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum EF10 {
    A { p: Point, #[serde(rename = "q")] renamed1: Leaf },
    #[serde(rename = "B")] V1,
}

impl Abs for EF10 {
    fn to_a(&self) -> A {
        match self {
            Self::A { p: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::A { p: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum EF11 {
    A { p: Color, #[serde(rename = "q")] renamed1: Leaf },
    #[serde(rename = "B")] V1,
}

impl Abs for EF11 {
    fn to_a(&self) -> A {
        match self {
            Self::A { p: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::A { p: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum EF12 {
    A { p: Shape, #[serde(rename = "q")] renamed1: Leaf },
    #[serde(rename = "B")] V1,
}

impl Abs for EF12 {
    fn to_a(&self) -> A {
        match self {
            Self::A { p: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::A { p: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "tag")]
pub enum EI9 {
    B,
    #[serde(rename = "A", transparent)] V1(()),
}

impl Abs for EI9 {
    fn to_a(&self) -> A {
        match self {
            Self::B => A::Var(1, vec![]),
            Self::V1(x) => A::Var(2, vec![x.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::B,
            2 => Self::V1(Abs::of_a(&v[0])),
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "tag")]
pub enum EI10 {
    B,
    #[serde(rename = "A", transparent)] V1(Point),
}

impl Abs for EI10 {
    fn to_a(&self) -> A {
        match self {
            Self::B => A::Var(1, vec![]),
            Self::V1(x) => A::Var(2, vec![x.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::B,
            2 => Self::V1(Abs::of_a(&v[0])),
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "tag")]
pub enum EI12 {
    B,
    #[serde(rename = "A", transparent)] V1(Shape),
}

impl Abs for EI12 {
    fn to_a(&self) -> A {
        match self {
            Self::B => A::Var(1, vec![]),
            Self::V1(x) => A::Var(2, vec![x.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::B,
            2 => Self::V1(Abs::of_a(&v[0])),
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct AllPrims {
    pub f_bool: bool,
    #[serde(rename = "f_i8")] pub renamed1: i8,
    pub f_i16: i16,
    pub f_i32: i32,
    #[serde(rename = "f_i64")] pub renamed4: i64,
    pub f_u8: u8,
    pub f_u16: u16,
    #[serde(rename = "f_u32")] pub renamed7: u32,
    pub f_u64: u64,
    pub f_f32: f32,
    #[serde(rename = "f_f64")] pub renamed10: f64,
    pub f_char: char,
    pub f_str: String,
    #[serde(rename = "f_leaf")] pub renamed13: Leaf,
    pub f_even: Even,
    pub f_nz_i8: std::num::NonZeroI8,
    #[serde(rename = "f_nz_i16")] pub renamed16: std::num::NonZeroI16,
    pub f_nz_i32: std::num::NonZeroI32,
    pub f_nz_i64: std::num::NonZeroI64,
    #[serde(rename = "f_nz_u8")] pub renamed19: std::num::NonZeroU8,
    pub f_nz_u16: std::num::NonZeroU16,
    pub f_nz_u32: std::num::NonZeroU32,
    #[serde(rename = "f_nz_u64")] pub renamed22: std::num::NonZeroU64,
}

impl Abs for AllPrims {
    fn to_a(&self) -> A {
        A::Rec(vec![self.f_bool.to_a(), self.renamed1.to_a(), self.f_i16.to_a(), self.f_i32.to_a(), self.renamed4.to_a(), self.f_u8.to_a(), self.f_u16.to_a(), self.renamed7.to_a(), self.f_u64.to_a(), self.f_f32.to_a(), self.renamed10.to_a(), self.f_char.to_a(), self.f_str.to_a(), self.renamed13.to_a(), self.f_even.to_a(), self.f_nz_i8.to_a(), self.renamed16.to_a(), self.f_nz_i32.to_a(), self.f_nz_i64.to_a(), self.renamed19.to_a(), self.f_nz_u16.to_a(), self.f_nz_u32.to_a(), self.renamed22.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { f_bool: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), f_i16: Abs::of_a(&v[2]), f_i32: Abs::of_a(&v[3]), renamed4: Abs::of_a(&v[4]), f_u8: Abs::of_a(&v[5]), f_u16: Abs::of_a(&v[6]), renamed7: Abs::of_a(&v[7]), f_u64: Abs::of_a(&v[8]), f_f32: Abs::of_a(&v[9]), renamed10: Abs::of_a(&v[10]), f_char: Abs::of_a(&v[11]), f_str: Abs::of_a(&v[12]), renamed13: Abs::of_a(&v[13]), f_even: Abs::of_a(&v[14]), f_nz_i8: Abs::of_a(&v[15]), renamed16: Abs::of_a(&v[16]), f_nz_i32: Abs::of_a(&v[17]), f_nz_i64: Abs::of_a(&v[18]), renamed19: Abs::of_a(&v[19]), f_nz_u16: Abs::of_a(&v[20]), f_nz_u32: Abs::of_a(&v[21]), renamed22: Abs::of_a(&v[22]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct Names {
    #[serde(rename = "")] pub renamed0: Leaf,
    #[serde(rename = "a")] pub renamed1: Leaf,
    pub ab: Option<Leaf>,
    #[serde(default)] pub abc: Leaf,
    #[serde(rename = "\"")] pub renamed4: Leaf,
    #[serde(rename = "é😀")] pub renamed5: Leaf,
    #[serde(rename = "a b")] pub renamed6: Leaf,
    #[serde(rename = "type")] pub renamed7: Leaf,
    #[serde(rename = "self")] pub renamed8: Leaf,
    #[serde(rename = "\0")] pub renamed9: Leaf,
}

impl Abs for Names {
    fn to_a(&self) -> A {
        A::Rec(vec![self.renamed0.to_a(), self.renamed1.to_a(), self.ab.to_a(), self.abc.to_a(), self.renamed4.to_a(), self.renamed5.to_a(), self.renamed6.to_a(), self.renamed7.to_a(), self.renamed8.to_a(), self.renamed9.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { renamed0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), ab: Abs::of_a(&v[2]), abc: Abs::of_a(&v[3]), renamed4: Abs::of_a(&v[4]), renamed5: Abs::of_a(&v[5]), renamed6: Abs::of_a(&v[6]), renamed7: Abs::of_a(&v[7]), renamed8: Abs::of_a(&v[8]), renamed9: Abs::of_a(&v[9]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct Hygiene {
    pub st: Leaf,
    pub ctx: Leaf,
    pub value: Leaf,
    pub de: Leaf,
    pub index: Leaf,
    pub err: Leaf,
    pub done_flag: Leaf,
    pub inner: Leaf,
}

impl Abs for Hygiene {
    fn to_a(&self) -> A {
        A::Rec(vec![self.st.to_a(), self.ctx.to_a(), self.value.to_a(), self.de.to_a(), self.index.to_a(), self.err.to_a(), self.done_flag.to_a(), self.inner.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { st: Abs::of_a(&v[0]), ctx: Abs::of_a(&v[1]), value: Abs::of_a(&v[2]), de: Abs::of_a(&v[3]), index: Abs::of_a(&v[4]), err: Abs::of_a(&v[5]), done_flag: Abs::of_a(&v[6]), inner: Abs::of_a(&v[7]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct Mid {
    pub m1: Leaf,
    #[serde(flatten)] pub inner_1: Point,
    #[serde(default)] pub m2: Leaf,
}

impl Abs for Mid {
    fn to_a(&self) -> A {
        A::Rec(vec![self.m1.to_a(), self.inner_1.to_a(), self.m2.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { m1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), m2: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct Pos {
    pub px: Leaf,
    #[serde(rename = "py")] pub renamed1: Option<u8>,
}

impl Abs for Pos {
    fn to_a(&self) -> A {
        A::Rec(vec![self.px.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { px: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum Shape3 {
    Dot,
    #[serde(rename = "Circle")] V1 { r: Leaf },
    #[serde(transparent)] At { inner: Pos },
}

impl Abs for Shape3 {
    fn to_a(&self) -> A {
        match self {
            Self::Dot => A::Var(1, vec![]),
            Self::V1 { r: b0 } => A::Var(2, vec![b0.to_a()]),
            Self::At { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::Dot,
            2 => Self::V1 { r: Abs::of_a(&v[0]) },
            3 => Self::At { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct Chain {
    pub c1: Leaf,
    #[serde(flatten)] pub inner_1: Mid,
    #[serde(flatten)] pub inner_2: (),
    #[serde(flatten)] pub inner_3: Shape3,
    #[serde(rename = "c2")] pub renamed4: Leaf,
}

impl Abs for Chain {
    fn to_a(&self) -> A {
        A::Rec(vec![self.c1.to_a(), self.inner_1.to_a(), self.inner_2.to_a(), self.inner_3.to_a(), self.renamed4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { c1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]), inner_3: Abs::of_a(&v[3]), renamed4: Abs::of_a(&v[4]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "tag2")]
pub enum Shape2 {
    Dot,
    #[serde(rename = "Line")] V1 { len: Leaf },
}

impl Abs for Shape2 {
    fn to_a(&self) -> A {
        match self {
            Self::Dot => A::Var(1, vec![]),
            Self::V1 { len: b0 } => A::Var(2, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::Dot,
            2 => Self::V1 { len: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct Mid2 {
    pub n1: Leaf,
    #[serde(flatten)] pub inner_1: Shape2,
}

impl Abs for Mid2 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.n1.to_a(), self.inner_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { n1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct Ends {
    #[serde(flatten)] pub inner_0: Point,
    #[serde(rename = "e1")] pub renamed1: Leaf,
    #[serde(flatten)] pub inner_2: Mid2,
}

impl Abs for Ends {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.inner_2.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct Many {
    pub f1: Leaf,
    #[serde(rename = "f2")] pub renamed1: Leaf,
    pub f3: Leaf,
    pub f4: Leaf,
    #[serde(rename = "f5", default)] pub renamed4: Leaf,
    pub f6: Leaf,
    pub f7: Option<Leaf>,
    #[serde(rename = "f8")] pub renamed7: Leaf,
    pub f9: Leaf,
    #[serde(default)] pub f10: Leaf,
    #[serde(rename = "f11")] pub renamed10: Leaf,
    pub f12: Leaf,
    pub f13: Leaf,
    #[serde(rename = "f14")] pub renamed13: Option<Leaf>,
    #[serde(default)] pub f15: Leaf,
    pub f16: Leaf,
    #[serde(rename = "f17")] pub renamed16: Leaf,
    pub f18: Leaf,
    pub f19: Leaf,
    #[serde(rename = "f20")] #[serde(default)] pub renamed19: Leaf,
    pub f21: Option<Leaf>,
    pub f22: Leaf,
    #[serde(rename = "f23")] pub renamed22: Leaf,
    pub f24: Leaf,
}

impl Abs for Many {
    fn to_a(&self) -> A {
        A::Rec(vec![self.f1.to_a(), self.renamed1.to_a(), self.f3.to_a(), self.f4.to_a(), self.renamed4.to_a(), self.f6.to_a(), self.f7.to_a(), self.renamed7.to_a(), self.f9.to_a(), self.f10.to_a(), self.renamed10.to_a(), self.f12.to_a(), self.f13.to_a(), self.renamed13.to_a(), self.f15.to_a(), self.f16.to_a(), self.renamed16.to_a(), self.f18.to_a(), self.f19.to_a(), self.renamed19.to_a(), self.f21.to_a(), self.f22.to_a(), self.renamed22.to_a(), self.f24.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { f1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), f3: Abs::of_a(&v[2]), f4: Abs::of_a(&v[3]), renamed4: Abs::of_a(&v[4]), f6: Abs::of_a(&v[5]), f7: Abs::of_a(&v[6]), renamed7: Abs::of_a(&v[7]), f9: Abs::of_a(&v[8]), f10: Abs::of_a(&v[9]), renamed10: Abs::of_a(&v[10]), f12: Abs::of_a(&v[11]), f13: Abs::of_a(&v[12]), renamed13: Abs::of_a(&v[13]), f15: Abs::of_a(&v[14]), f16: Abs::of_a(&v[15]), renamed16: Abs::of_a(&v[16]), f18: Abs::of_a(&v[17]), f19: Abs::of_a(&v[18]), renamed19: Abs::of_a(&v[19]), f21: Abs::of_a(&v[20]), f22: Abs::of_a(&v[21]), renamed22: Abs::of_a(&v[22]), f24: Abs::of_a(&v[23]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct Defaults {
    #[serde(default)] pub a: u8,
    #[serde(rename = "b")] #[serde(default)] pub renamed1: Option<Leaf>,
    #[serde(default)] pub c: Option<Option<Leaf>>,
    #[serde(default)] pub d: Vec<Leaf>,
    #[serde(rename = "e", default)] pub renamed4: Point,
    #[serde(default)] pub f: (Leaf, bool),
    #[serde(default)] pub g: String,
    #[serde(rename = "h")] #[serde(default)] pub renamed7: f64,
    #[serde(default)] pub i: [u8; 2],
    #[serde(default)] pub j: (),
}

impl Abs for Defaults {
    fn to_a(&self) -> A {
        A::Rec(vec![self.a.to_a(), self.renamed1.to_a(), self.c.to_a(), self.d.to_a(), self.renamed4.to_a(), self.f.to_a(), self.g.to_a(), self.renamed7.to_a(), self.i.to_a(), self.j.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { a: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), c: Abs::of_a(&v[2]), d: Abs::of_a(&v[3]), renamed4: Abs::of_a(&v[4]), f: Abs::of_a(&v[5]), g: Abs::of_a(&v[6]), renamed7: Abs::of_a(&v[7]), i: Abs::of_a(&v[8]), j: Abs::of_a(&v[9]) }
    }
}

#[derive(Deserialize, Default)]
pub struct Prox {
    #[serde(proxy = Leaf)] pub a: Px<Leaf>,
    #[serde(rename = "b")] #[serde(default)] #[serde(proxy = Vec<Leaf>)] pub renamed1: Px<Vec<Leaf>>,
    #[serde(flatten, proxy = Point)] pub inner_2: Px<Point>,
    pub c: Leaf,
    #[serde(rename = "d", proxy = Option<Leaf>)] pub renamed4: Px<Option<Leaf>>,
}

impl Abs for Prox {
    fn to_a(&self) -> A {
        A::Rec(vec![self.a.to_a(), self.renamed1.to_a(), self.inner_2.to_a(), self.c.to_a(), self.renamed4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { a: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]), c: Abs::of_a(&v[3]), renamed4: Abs::of_a(&v[4]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum Big {
    v0,
    #[serde(rename = "v1")] V1,
    v2,
    v3,
    #[serde(rename = "v4")] V4,
    v5,
    v6,
    #[serde(rename = "v7")] V7,
    v8,
    v9,
    #[serde(rename = "v10")] V10,
    v11,
    v12,
    #[serde(rename = "v13")] V13,
    v14,
    v15,
    #[serde(rename = "v16")] V16,
    v17,
    v18,
    #[serde(rename = "v19")] V19,
    v20,
    v21,
    #[serde(rename = "v22")] V22,
    v23,
    v24,
    #[serde(rename = "v25")] V25,
    v26,
    v27,
    #[serde(rename = "v28")] V28,
    v29,
    v30,
    #[serde(rename = "v31")] V31,
    v32,
    v33,
    #[serde(rename = "v34")] V34,
    v35,
    v36,
    #[serde(rename = "v37")] V37,
    v38,
    v39,
    #[serde(rename = "v40")] V40,
    v41,
    v42,
    #[serde(rename = "v43")] V43,
    v44,
    v45,
    #[serde(rename = "v46")] V46,
    v47,
    v48,
    #[serde(rename = "v49")] V49,
    v50,
    v51,
    #[serde(rename = "v52")] V52,
    v53,
    v54,
    #[serde(rename = "v55")] V55,
    v56,
    v57,
    #[serde(rename = "v58")] V58,
    v59,
    v60,
    #[serde(rename = "v61")] V61,
    v62,
    v63,
    #[serde(rename = "v64")] V64,
    v65,
    v66,
    #[serde(rename = "v67")] V67,
    v68,
    v69,
    #[serde(rename = "v70")] V70,
    v71,
    v72,
    #[serde(rename = "v73")] V73,
    v74,
    v75,
    #[serde(rename = "v76")] V76,
    v77,
    v78,
    #[serde(rename = "v79")] V79,
    v80,
    v81,
    #[serde(rename = "v82")] V82,
    v83,
    v84,
    #[serde(rename = "v85")] V85,
    v86,
    v87,
    #[serde(rename = "v88")] V88,
    v89,
    v90,
    #[serde(rename = "v91")] V91,
    v92,
    v93,
    #[serde(rename = "v94")] V94,
    v95,
    v96,
    #[serde(rename = "v97")] V97,
    v98,
    v99,
    #[serde(rename = "v100")] V100,
    v101,
    v102,
    #[serde(rename = "v103")] V103,
    v104,
    v105,
    #[serde(rename = "v106")] V106,
    v107,
    v108,
    #[serde(rename = "v109")] V109,
    v110,
    v111,
    #[serde(rename = "v112")] V112,
    v113,
    v114,
    #[serde(rename = "v115")] V115,
    v116,
    v117,
    #[serde(rename = "v118")] V118,
    v119,
    v120,
    #[serde(rename = "v121")] V121,
    v122,
    v123,
    #[serde(rename = "v124")] V124,
    v125,
    v126,
    #[serde(rename = "v127")] V127,
    v128,
    v129,
    #[serde(rename = "v130")] V130,
    v131,
    v132,
    #[serde(rename = "v133")] V133,
    v134,
    v135,
    #[serde(rename = "v136")] V136,
    v137,
    v138,
    #[serde(rename = "v139")] V139,
    v140,
    v141,
    #[serde(rename = "v142")] V142,
    v143,
    v144,
    #[serde(rename = "v145")] V145,
    v146,
    v147,
    #[serde(rename = "v148")] V148,
    v149,
    v150,
    #[serde(rename = "v151")] V151,
    v152,
    v153,
    #[serde(rename = "v154")] V154,
    v155,
    v156,
    #[serde(rename = "v157")] V157,
    v158,
    v159,
    #[serde(rename = "v160")] V160,
    v161,
    v162,
    #[serde(rename = "v163")] V163,
    v164,
    v165,
    #[serde(rename = "v166")] V166,
    v167,
    v168,
    #[serde(rename = "v169")] V169,
    v170,
    v171,
    #[serde(rename = "v172")] V172,
    v173,
    v174,
    #[serde(rename = "v175")] V175,
    v176,
    v177,
    #[serde(rename = "v178")] V178,
    v179,
    v180,
    #[serde(rename = "v181")] V181,
    v182,
    v183,
    #[serde(rename = "v184")] V184,
    v185,
    v186,
    #[serde(rename = "v187")] V187,
    v188,
    v189,
    #[serde(rename = "v190")] V190,
    v191,
    v192,
    #[serde(rename = "v193")] V193,
    v194,
    v195,
    #[serde(rename = "v196")] V196,
    v197,
    v198,
    #[serde(rename = "v199")] V199,
    v200,
    v201,
    #[serde(rename = "v202")] V202,
    v203,
    v204,
    #[serde(rename = "v205")] V205,
    v206,
    v207,
    #[serde(rename = "v208")] V208,
    v209,
    v210,
    #[serde(rename = "v211")] V211,
    v212,
    v213,
    #[serde(rename = "v214")] V214,
    v215,
    v216,
    #[serde(rename = "v217")] V217,
    v218,
    v219,
    #[serde(rename = "v220")] V220,
    v221,
    v222,
    #[serde(rename = "v223")] V223,
    v224,
    v225,
    #[serde(rename = "v226")] V226,
    v227,
    v228,
    #[serde(rename = "v229")] V229,
    v230,
    v231,
    #[serde(rename = "v232")] V232,
    v233,
    v234,
    #[serde(rename = "v235")] V235,
    v236,
    v237,
    #[serde(rename = "v238")] V238,
    v239,
    v240,
    #[serde(rename = "v241")] V241,
    v242,
    v243,
    #[serde(rename = "v244")] V244,
    v245,
    v246,
    #[serde(rename = "v247")] V247,
    v248,
    v249,
    #[serde(rename = "v250")] V250,
    v251,
    v252,
    #[serde(rename = "v253")] V253,
    v254,
    v255,
    #[serde(rename = "v256")] V256,
    v257,
    v258,
    #[serde(rename = "v259")] V259,
    v260,
    v261,
    #[serde(rename = "v262")] V262,
    v263,
    v264,
    #[serde(rename = "v265")] V265,
    v266,
    v267,
    #[serde(rename = "v268")] V268,
    v269,
    v270,
    #[serde(rename = "v271")] V271,
    v272,
    v273,
    #[serde(rename = "v274")] V274,
    v275,
    v276,
    #[serde(rename = "v277")] V277,
    v278,
    v279,
    #[serde(rename = "v280")] V280,
    v281,
    v282,
    #[serde(rename = "v283")] V283,
    v284,
    v285,
    #[serde(rename = "v286")] V286,
    v287,
    v288,
    #[serde(rename = "v289")] V289,
    v290,
    v291,
    #[serde(rename = "v292")] V292,
    v293,
    v294,
    #[serde(rename = "v295")] V295,
    v296,
    v297,
    #[serde(rename = "v298")] V298,
    v299,
}

impl Abs for Big {
    fn to_a(&self) -> A {
        match self {
            Self::v0 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v2 => A::Var(3, vec![]),
            Self::v3 => A::Var(4, vec![]),
            Self::V4 => A::Var(5, vec![]),
            Self::v5 => A::Var(6, vec![]),
            Self::v6 => A::Var(7, vec![]),
            Self::V7 => A::Var(8, vec![]),
            Self::v8 => A::Var(9, vec![]),
            Self::v9 => A::Var(10, vec![]),
            Self::V10 => A::Var(11, vec![]),
            Self::v11 => A::Var(12, vec![]),
            Self::v12 => A::Var(13, vec![]),
            Self::V13 => A::Var(14, vec![]),
            Self::v14 => A::Var(15, vec![]),
            Self::v15 => A::Var(16, vec![]),
            Self::V16 => A::Var(17, vec![]),
            Self::v17 => A::Var(18, vec![]),
            Self::v18 => A::Var(19, vec![]),
            Self::V19 => A::Var(20, vec![]),
            Self::v20 => A::Var(21, vec![]),
            Self::v21 => A::Var(22, vec![]),
            Self::V22 => A::Var(23, vec![]),
            Self::v23 => A::Var(24, vec![]),
            Self::v24 => A::Var(25, vec![]),
            Self::V25 => A::Var(26, vec![]),
            Self::v26 => A::Var(27, vec![]),
            Self::v27 => A::Var(28, vec![]),
            Self::V28 => A::Var(29, vec![]),
            Self::v29 => A::Var(30, vec![]),
            Self::v30 => A::Var(31, vec![]),
            Self::V31 => A::Var(32, vec![]),
            Self::v32 => A::Var(33, vec![]),
            Self::v33 => A::Var(34, vec![]),
            Self::V34 => A::Var(35, vec![]),
            Self::v35 => A::Var(36, vec![]),
            Self::v36 => A::Var(37, vec![]),
            Self::V37 => A::Var(38, vec![]),
            Self::v38 => A::Var(39, vec![]),
            Self::v39 => A::Var(40, vec![]),
            Self::V40 => A::Var(41, vec![]),
            Self::v41 => A::Var(42, vec![]),
            Self::v42 => A::Var(43, vec![]),
            Self::V43 => A::Var(44, vec![]),
            Self::v44 => A::Var(45, vec![]),
            Self::v45 => A::Var(46, vec![]),
            Self::V46 => A::Var(47, vec![]),
            Self::v47 => A::Var(48, vec![]),
            Self::v48 => A::Var(49, vec![]),
            Self::V49 => A::Var(50, vec![]),
            Self::v50 => A::Var(51, vec![]),
            Self::v51 => A::Var(52, vec![]),
            Self::V52 => A::Var(53, vec![]),
            Self::v53 => A::Var(54, vec![]),
            Self::v54 => A::Var(55, vec![]),
            Self::V55 => A::Var(56, vec![]),
            Self::v56 => A::Var(57, vec![]),
            Self::v57 => A::Var(58, vec![]),
            Self::V58 => A::Var(59, vec![]),
            Self::v59 => A::Var(60, vec![]),
            Self::v60 => A::Var(61, vec![]),
            Self::V61 => A::Var(62, vec![]),
            Self::v62 => A::Var(63, vec![]),
            Self::v63 => A::Var(64, vec![]),
            Self::V64 => A::Var(65, vec![]),
            Self::v65 => A::Var(66, vec![]),
            Self::v66 => A::Var(67, vec![]),
            Self::V67 => A::Var(68, vec![]),
            Self::v68 => A::Var(69, vec![]),
            Self::v69 => A::Var(70, vec![]),
            Self::V70 => A::Var(71, vec![]),
            Self::v71 => A::Var(72, vec![]),
            Self::v72 => A::Var(73, vec![]),
            Self::V73 => A::Var(74, vec![]),
            Self::v74 => A::Var(75, vec![]),
            Self::v75 => A::Var(76, vec![]),
            Self::V76 => A::Var(77, vec![]),
            Self::v77 => A::Var(78, vec![]),
            Self::v78 => A::Var(79, vec![]),
            Self::V79 => A::Var(80, vec![]),
            Self::v80 => A::Var(81, vec![]),
            Self::v81 => A::Var(82, vec![]),
            Self::V82 => A::Var(83, vec![]),
            Self::v83 => A::Var(84, vec![]),
            Self::v84 => A::Var(85, vec![]),
            Self::V85 => A::Var(86, vec![]),
            Self::v86 => A::Var(87, vec![]),
            Self::v87 => A::Var(88, vec![]),
            Self::V88 => A::Var(89, vec![]),
            Self::v89 => A::Var(90, vec![]),
            Self::v90 => A::Var(91, vec![]),
            Self::V91 => A::Var(92, vec![]),
            Self::v92 => A::Var(93, vec![]),
            Self::v93 => A::Var(94, vec![]),
            Self::V94 => A::Var(95, vec![]),
            Self::v95 => A::Var(96, vec![]),
            Self::v96 => A::Var(97, vec![]),
            Self::V97 => A::Var(98, vec![]),
            Self::v98 => A::Var(99, vec![]),
            Self::v99 => A::Var(100, vec![]),
            Self::V100 => A::Var(101, vec![]),
            Self::v101 => A::Var(102, vec![]),
            Self::v102 => A::Var(103, vec![]),
            Self::V103 => A::Var(104, vec![]),
            Self::v104 => A::Var(105, vec![]),
            Self::v105 => A::Var(106, vec![]),
            Self::V106 => A::Var(107, vec![]),
            Self::v107 => A::Var(108, vec![]),
            Self::v108 => A::Var(109, vec![]),
            Self::V109 => A::Var(110, vec![]),
            Self::v110 => A::Var(111, vec![]),
            Self::v111 => A::Var(112, vec![]),
            Self::V112 => A::Var(113, vec![]),
            Self::v113 => A::Var(114, vec![]),
            Self::v114 => A::Var(115, vec![]),
            Self::V115 => A::Var(116, vec![]),
            Self::v116 => A::Var(117, vec![]),
            Self::v117 => A::Var(118, vec![]),
            Self::V118 => A::Var(119, vec![]),
            Self::v119 => A::Var(120, vec![]),
            Self::v120 => A::Var(121, vec![]),
            Self::V121 => A::Var(122, vec![]),
            Self::v122 => A::Var(123, vec![]),
            Self::v123 => A::Var(124, vec![]),
            Self::V124 => A::Var(125, vec![]),
            Self::v125 => A::Var(126, vec![]),
            Self::v126 => A::Var(127, vec![]),
            Self::V127 => A::Var(128, vec![]),
            Self::v128 => A::Var(129, vec![]),
            Self::v129 => A::Var(130, vec![]),
            Self::V130 => A::Var(131, vec![]),
            Self::v131 => A::Var(132, vec![]),
            Self::v132 => A::Var(133, vec![]),
            Self::V133 => A::Var(134, vec![]),
            Self::v134 => A::Var(135, vec![]),
            Self::v135 => A::Var(136, vec![]),
            Self::V136 => A::Var(137, vec![]),
            Self::v137 => A::Var(138, vec![]),
            Self::v138 => A::Var(139, vec![]),
            Self::V139 => A::Var(140, vec![]),
            Self::v140 => A::Var(141, vec![]),
            Self::v141 => A::Var(142, vec![]),
            Self::V142 => A::Var(143, vec![]),
            Self::v143 => A::Var(144, vec![]),
            Self::v144 => A::Var(145, vec![]),
            Self::V145 => A::Var(146, vec![]),
            Self::v146 => A::Var(147, vec![]),
            Self::v147 => A::Var(148, vec![]),
            Self::V148 => A::Var(149, vec![]),
            Self::v149 => A::Var(150, vec![]),
            Self::v150 => A::Var(151, vec![]),
            Self::V151 => A::Var(152, vec![]),
            Self::v152 => A::Var(153, vec![]),
            Self::v153 => A::Var(154, vec![]),
            Self::V154 => A::Var(155, vec![]),
            Self::v155 => A::Var(156, vec![]),
            Self::v156 => A::Var(157, vec![]),
            Self::V157 => A::Var(158, vec![]),
            Self::v158 => A::Var(159, vec![]),
            Self::v159 => A::Var(160, vec![]),
            Self::V160 => A::Var(161, vec![]),
            Self::v161 => A::Var(162, vec![]),
            Self::v162 => A::Var(163, vec![]),
            Self::V163 => A::Var(164, vec![]),
            Self::v164 => A::Var(165, vec![]),
            Self::v165 => A::Var(166, vec![]),
            Self::V166 => A::Var(167, vec![]),
            Self::v167 => A::Var(168, vec![]),
            Self::v168 => A::Var(169, vec![]),
            Self::V169 => A::Var(170, vec![]),
            Self::v170 => A::Var(171, vec![]),
            Self::v171 => A::Var(172, vec![]),
            Self::V172 => A::Var(173, vec![]),
            Self::v173 => A::Var(174, vec![]),
            Self::v174 => A::Var(175, vec![]),
            Self::V175 => A::Var(176, vec![]),
            Self::v176 => A::Var(177, vec![]),
            Self::v177 => A::Var(178, vec![]),
            Self::V178 => A::Var(179, vec![]),
            Self::v179 => A::Var(180, vec![]),
            Self::v180 => A::Var(181, vec![]),
            Self::V181 => A::Var(182, vec![]),
            Self::v182 => A::Var(183, vec![]),
            Self::v183 => A::Var(184, vec![]),
            Self::V184 => A::Var(185, vec![]),
            Self::v185 => A::Var(186, vec![]),
            Self::v186 => A::Var(187, vec![]),
            Self::V187 => A::Var(188, vec![]),
            Self::v188 => A::Var(189, vec![]),
            Self::v189 => A::Var(190, vec![]),
            Self::V190 => A::Var(191, vec![]),
            Self::v191 => A::Var(192, vec![]),
            Self::v192 => A::Var(193, vec![]),
            Self::V193 => A::Var(194, vec![]),
            Self::v194 => A::Var(195, vec![]),
            Self::v195 => A::Var(196, vec![]),
            Self::V196 => A::Var(197, vec![]),
            Self::v197 => A::Var(198, vec![]),
            Self::v198 => A::Var(199, vec![]),
            Self::V199 => A::Var(200, vec![]),
            Self::v200 => A::Var(201, vec![]),
            Self::v201 => A::Var(202, vec![]),
            Self::V202 => A::Var(203, vec![]),
            Self::v203 => A::Var(204, vec![]),
            Self::v204 => A::Var(205, vec![]),
            Self::V205 => A::Var(206, vec![]),
            Self::v206 => A::Var(207, vec![]),
            Self::v207 => A::Var(208, vec![]),
            Self::V208 => A::Var(209, vec![]),
            Self::v209 => A::Var(210, vec![]),
            Self::v210 => A::Var(211, vec![]),
            Self::V211 => A::Var(212, vec![]),
            Self::v212 => A::Var(213, vec![]),
            Self::v213 => A::Var(214, vec![]),
            Self::V214 => A::Var(215, vec![]),
            Self::v215 => A::Var(216, vec![]),
            Self::v216 => A::Var(217, vec![]),
            Self::V217 => A::Var(218, vec![]),
            Self::v218 => A::Var(219, vec![]),
            Self::v219 => A::Var(220, vec![]),
            Self::V220 => A::Var(221, vec![]),
            Self::v221 => A::Var(222, vec![]),
            Self::v222 => A::Var(223, vec![]),
            Self::V223 => A::Var(224, vec![]),
            Self::v224 => A::Var(225, vec![]),
            Self::v225 => A::Var(226, vec![]),
            Self::V226 => A::Var(227, vec![]),
            Self::v227 => A::Var(228, vec![]),
            Self::v228 => A::Var(229, vec![]),
            Self::V229 => A::Var(230, vec![]),
            Self::v230 => A::Var(231, vec![]),
            Self::v231 => A::Var(232, vec![]),
            Self::V232 => A::Var(233, vec![]),
            Self::v233 => A::Var(234, vec![]),
            Self::v234 => A::Var(235, vec![]),
            Self::V235 => A::Var(236, vec![]),
            Self::v236 => A::Var(237, vec![]),
            Self::v237 => A::Var(238, vec![]),
            Self::V238 => A::Var(239, vec![]),
            Self::v239 => A::Var(240, vec![]),
            Self::v240 => A::Var(241, vec![]),
            Self::V241 => A::Var(242, vec![]),
            Self::v242 => A::Var(243, vec![]),
            Self::v243 => A::Var(244, vec![]),
            Self::V244 => A::Var(245, vec![]),
            Self::v245 => A::Var(246, vec![]),
            Self::v246 => A::Var(247, vec![]),
            Self::V247 => A::Var(248, vec![]),
            Self::v248 => A::Var(249, vec![]),
            Self::v249 => A::Var(250, vec![]),
            Self::V250 => A::Var(251, vec![]),
            Self::v251 => A::Var(252, vec![]),
            Self::v252 => A::Var(253, vec![]),
            Self::V253 => A::Var(254, vec![]),
            Self::v254 => A::Var(255, vec![]),
            Self::v255 => A::Var(256, vec![]),
            Self::V256 => A::Var(257, vec![]),
            Self::v257 => A::Var(258, vec![]),
            Self::v258 => A::Var(259, vec![]),
            Self::V259 => A::Var(260, vec![]),
            Self::v260 => A::Var(261, vec![]),
            Self::v261 => A::Var(262, vec![]),
            Self::V262 => A::Var(263, vec![]),
            Self::v263 => A::Var(264, vec![]),
            Self::v264 => A::Var(265, vec![]),
            Self::V265 => A::Var(266, vec![]),
            Self::v266 => A::Var(267, vec![]),
            Self::v267 => A::Var(268, vec![]),
            Self::V268 => A::Var(269, vec![]),
            Self::v269 => A::Var(270, vec![]),
            Self::v270 => A::Var(271, vec![]),
            Self::V271 => A::Var(272, vec![]),
            Self::v272 => A::Var(273, vec![]),
            Self::v273 => A::Var(274, vec![]),
            Self::V274 => A::Var(275, vec![]),
            Self::v275 => A::Var(276, vec![]),
            Self::v276 => A::Var(277, vec![]),
            Self::V277 => A::Var(278, vec![]),
            Self::v278 => A::Var(279, vec![]),
            Self::v279 => A::Var(280, vec![]),
            Self::V280 => A::Var(281, vec![]),
            Self::v281 => A::Var(282, vec![]),
            Self::v282 => A::Var(283, vec![]),
            Self::V283 => A::Var(284, vec![]),
            Self::v284 => A::Var(285, vec![]),
            Self::v285 => A::Var(286, vec![]),
            Self::V286 => A::Var(287, vec![]),
            Self::v287 => A::Var(288, vec![]),
            Self::v288 => A::Var(289, vec![]),
            Self::V289 => A::Var(290, vec![]),
            Self::v290 => A::Var(291, vec![]),
            Self::v291 => A::Var(292, vec![]),
            Self::V292 => A::Var(293, vec![]),
            Self::v293 => A::Var(294, vec![]),
            Self::v294 => A::Var(295, vec![]),
            Self::V295 => A::Var(296, vec![]),
            Self::v296 => A::Var(297, vec![]),
            Self::v297 => A::Var(298, vec![]),
            Self::V298 => A::Var(299, vec![]),
            Self::v299 => A::Var(300, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v0,
            2 => Self::V1,
            3 => Self::v2,
            4 => Self::v3,
            5 => Self::V4,
            6 => Self::v5,
            7 => Self::v6,
            8 => Self::V7,
            9 => Self::v8,
            10 => Self::v9,
            11 => Self::V10,
            12 => Self::v11,
            13 => Self::v12,
            14 => Self::V13,
            15 => Self::v14,
            16 => Self::v15,
            17 => Self::V16,
            18 => Self::v17,
            19 => Self::v18,
            20 => Self::V19,
            21 => Self::v20,
            22 => Self::v21,
            23 => Self::V22,
            24 => Self::v23,
            25 => Self::v24,
            26 => Self::V25,
            27 => Self::v26,
            28 => Self::v27,
            29 => Self::V28,
            30 => Self::v29,
            31 => Self::v30,
            32 => Self::V31,
            33 => Self::v32,
            34 => Self::v33,
            35 => Self::V34,
            36 => Self::v35,
            37 => Self::v36,
            38 => Self::V37,
            39 => Self::v38,
            40 => Self::v39,
            41 => Self::V40,
            42 => Self::v41,
            43 => Self::v42,
            44 => Self::V43,
            45 => Self::v44,
            46 => Self::v45,
            47 => Self::V46,
            48 => Self::v47,
            49 => Self::v48,
            50 => Self::V49,
            51 => Self::v50,
            52 => Self::v51,
            53 => Self::V52,
            54 => Self::v53,
            55 => Self::v54,
            56 => Self::V55,
            57 => Self::v56,
            58 => Self::v57,
            59 => Self::V58,
            60 => Self::v59,
            61 => Self::v60,
            62 => Self::V61,
            63 => Self::v62,
            64 => Self::v63,
            65 => Self::V64,
            66 => Self::v65,
            67 => Self::v66,
            68 => Self::V67,
            69 => Self::v68,
            70 => Self::v69,
            71 => Self::V70,
            72 => Self::v71,
            73 => Self::v72,
            74 => Self::V73,
            75 => Self::v74,
            76 => Self::v75,
            77 => Self::V76,
            78 => Self::v77,
            79 => Self::v78,
            80 => Self::V79,
            81 => Self::v80,
            82 => Self::v81,
            83 => Self::V82,
            84 => Self::v83,
            85 => Self::v84,
            86 => Self::V85,
            87 => Self::v86,
            88 => Self::v87,
            89 => Self::V88,
            90 => Self::v89,
            91 => Self::v90,
            92 => Self::V91,
            93 => Self::v92,
            94 => Self::v93,
            95 => Self::V94,
            96 => Self::v95,
            97 => Self::v96,
            98 => Self::V97,
            99 => Self::v98,
            100 => Self::v99,
            101 => Self::V100,
            102 => Self::v101,
            103 => Self::v102,
            104 => Self::V103,
            105 => Self::v104,
            106 => Self::v105,
            107 => Self::V106,
            108 => Self::v107,
            109 => Self::v108,
            110 => Self::V109,
            111 => Self::v110,
            112 => Self::v111,
            113 => Self::V112,
            114 => Self::v113,
            115 => Self::v114,
            116 => Self::V115,
            117 => Self::v116,
            118 => Self::v117,
            119 => Self::V118,
            120 => Self::v119,
            121 => Self::v120,
            122 => Self::V121,
            123 => Self::v122,
            124 => Self::v123,
            125 => Self::V124,
            126 => Self::v125,
            127 => Self::v126,
            128 => Self::V127,
            129 => Self::v128,
            130 => Self::v129,
            131 => Self::V130,
            132 => Self::v131,
            133 => Self::v132,
            134 => Self::V133,
            135 => Self::v134,
            136 => Self::v135,
            137 => Self::V136,
            138 => Self::v137,
            139 => Self::v138,
            140 => Self::V139,
            141 => Self::v140,
            142 => Self::v141,
            143 => Self::V142,
            144 => Self::v143,
            145 => Self::v144,
            146 => Self::V145,
            147 => Self::v146,
            148 => Self::v147,
            149 => Self::V148,
            150 => Self::v149,
            151 => Self::v150,
            152 => Self::V151,
            153 => Self::v152,
            154 => Self::v153,
            155 => Self::V154,
            156 => Self::v155,
            157 => Self::v156,
            158 => Self::V157,
            159 => Self::v158,
            160 => Self::v159,
            161 => Self::V160,
            162 => Self::v161,
            163 => Self::v162,
            164 => Self::V163,
            165 => Self::v164,
            166 => Self::v165,
            167 => Self::V166,
            168 => Self::v167,
            169 => Self::v168,
            170 => Self::V169,
            171 => Self::v170,
            172 => Self::v171,
            173 => Self::V172,
            174 => Self::v173,
            175 => Self::v174,
            176 => Self::V175,
            177 => Self::v176,
            178 => Self::v177,
            179 => Self::V178,
            180 => Self::v179,
            181 => Self::v180,
            182 => Self::V181,
            183 => Self::v182,
            184 => Self::v183,
            185 => Self::V184,
            186 => Self::v185,
            187 => Self::v186,
            188 => Self::V187,
            189 => Self::v188,
            190 => Self::v189,
            191 => Self::V190,
            192 => Self::v191,
            193 => Self::v192,
            194 => Self::V193,
            195 => Self::v194,
            196 => Self::v195,
            197 => Self::V196,
            198 => Self::v197,
            199 => Self::v198,
            200 => Self::V199,
            201 => Self::v200,
            202 => Self::v201,
            203 => Self::V202,
            204 => Self::v203,
            205 => Self::v204,
            206 => Self::V205,
            207 => Self::v206,
            208 => Self::v207,
            209 => Self::V208,
            210 => Self::v209,
            211 => Self::v210,
            212 => Self::V211,
            213 => Self::v212,
            214 => Self::v213,
            215 => Self::V214,
            216 => Self::v215,
            217 => Self::v216,
            218 => Self::V217,
            219 => Self::v218,
            220 => Self::v219,
            221 => Self::V220,
            222 => Self::v221,
            223 => Self::v222,
            224 => Self::V223,
            225 => Self::v224,
            226 => Self::v225,
            227 => Self::V226,
            228 => Self::v227,
            229 => Self::v228,
            230 => Self::V229,
            231 => Self::v230,
            232 => Self::v231,
            233 => Self::V232,
            234 => Self::v233,
            235 => Self::v234,
            236 => Self::V235,
            237 => Self::v236,
            238 => Self::v237,
            239 => Self::V238,
            240 => Self::v239,
            241 => Self::v240,
            242 => Self::V241,
            243 => Self::v242,
            244 => Self::v243,
            245 => Self::V244,
            246 => Self::v245,
            247 => Self::v246,
            248 => Self::V247,
            249 => Self::v248,
            250 => Self::v249,
            251 => Self::V250,
            252 => Self::v251,
            253 => Self::v252,
            254 => Self::V253,
            255 => Self::v254,
            256 => Self::v255,
            257 => Self::V256,
            258 => Self::v257,
            259 => Self::v258,
            260 => Self::V259,
            261 => Self::v260,
            262 => Self::v261,
            263 => Self::V262,
            264 => Self::v263,
            265 => Self::v264,
            266 => Self::V265,
            267 => Self::v266,
            268 => Self::v267,
            269 => Self::V268,
            270 => Self::v269,
            271 => Self::v270,
            272 => Self::V271,
            273 => Self::v272,
            274 => Self::v273,
            275 => Self::V274,
            276 => Self::v275,
            277 => Self::v276,
            278 => Self::V277,
            279 => Self::v278,
            280 => Self::v279,
            281 => Self::V280,
            282 => Self::v281,
            283 => Self::v282,
            284 => Self::V283,
            285 => Self::v284,
            286 => Self::v285,
            287 => Self::V286,
            288 => Self::v287,
            289 => Self::v288,
            290 => Self::V289,
            291 => Self::v290,
            292 => Self::v291,
            293 => Self::V292,
            294 => Self::v293,
            295 => Self::v294,
            296 => Self::V295,
            297 => Self::v296,
            298 => Self::v297,
            299 => Self::V298,
            300 => Self::v299,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum Prefixed {
    ab,
    #[serde(rename = "abc")] V1,
    a,
    b,
    #[serde(rename = "")] V4,
    #[serde(rename = "é")] V5,
    #[serde(rename = "éé")] V6,
    #[serde(rename = "\"")] V7,
    A,
    #[serde(rename = "0")] V9,
    #[serde(rename = "1")] V10,
}

impl Abs for Prefixed {
    fn to_a(&self) -> A {
        match self {
            Self::ab => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::a => A::Var(3, vec![]),
            Self::b => A::Var(4, vec![]),
            Self::V4 => A::Var(5, vec![]),
            Self::V5 => A::Var(6, vec![]),
            Self::V6 => A::Var(7, vec![]),
            Self::V7 => A::Var(8, vec![]),
            Self::A => A::Var(9, vec![]),
            Self::V9 => A::Var(10, vec![]),
            Self::V10 => A::Var(11, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::ab,
            2 => Self::V1,
            3 => Self::a,
            4 => Self::b,
            5 => Self::V4,
            6 => Self::V5,
            7 => Self::V6,
            8 => Self::V7,
            9 => Self::A,
            10 => Self::V9,
            11 => Self::V10,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum Reindexed {
    #[serde(reindex = 5)] A,
    #[serde(rename = "B")] V1,
    #[serde(reindex = 0)] C,
    #[serde(reindex = 2000000000)] D,
    #[serde(rename = "E")] V4,
}

impl Abs for Reindexed {
    fn to_a(&self) -> A {
        match self {
            Self::A => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::C => A::Var(3, vec![]),
            Self::D => A::Var(4, vec![]),
            Self::V4 => A::Var(5, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::A,
            2 => Self::V1,
            3 => Self::C,
            4 => Self::D,
            5 => Self::V4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum Discrim {
    A = 3,
    #[serde(rename = "B")] V1,
    C = 1,
    D,
    #[serde(rename = "E", reindex = 7)] V4 = 300,
    F,
    #[serde(reindex = 255)] G,
}

impl Abs for Discrim {
    fn to_a(&self) -> A {
        match self {
            Self::A => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::C => A::Var(3, vec![]),
            Self::D => A::Var(4, vec![]),
            Self::V4 => A::Var(5, vec![]),
            Self::F => A::Var(6, vec![]),
            Self::G => A::Var(7, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::A,
            2 => Self::V1,
            3 => Self::C,
            4 => Self::D,
            5 => Self::V4,
            6 => Self::F,
            7 => Self::G,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum Single {
    Only,
}

impl Abs for Single {
    fn to_a(&self) -> A {
        match self {
            Self::Only => A::Var(1, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::Only,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "kind")]
pub enum Kind {
    A,
    #[serde(rename = "B")] V1,
    C = 256,
}

impl Abs for Kind {
    fn to_a(&self) -> A {
        match self {
            Self::A => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::C => A::Var(3, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::A,
            2 => Self::V1,
            3 => Self::C,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "type")]
pub enum TypeTag {
    #[serde(rename = "type")] V0,
    #[serde(rename = "kind")] V1 { kind: Leaf },
}

impl Abs for TypeTag {
    fn to_a(&self) -> A {
        match self {
            Self::V0 => A::Var(1, vec![]),
            Self::V1 { kind: b0 } => A::Var(2, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::V0,
            2 => Self::V1 { kind: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum Overlap {
    A { x: Leaf },
    #[serde(rename = "B")] V1 { x: String, #[serde(rename = "y")] renamed1: Option<Leaf> },
    C { y: Leaf, #[serde(rename = "x")] renamed1: Leaf },
    D {  },
    #[serde(rename = "E")] V4 { #[serde(default)] x: Leaf, #[serde(rename = "z")] #[serde(default)] renamed1: Option<Leaf> },
    F,
}

impl Abs for Overlap {
    fn to_a(&self) -> A {
        match self {
            Self::A { x: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 { x: b0, renamed1: b1 } => A::Var(2, vec![b0.to_a(), b1.to_a()]),
            Self::C { y: b0, renamed1: b1 } => A::Var(3, vec![b0.to_a(), b1.to_a()]),
            Self::D {  } => A::Var(4, vec![]),
            Self::V4 { x: b0, renamed1: b1 } => A::Var(5, vec![b0.to_a(), b1.to_a()]),
            Self::F => A::Var(6, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::A { x: Abs::of_a(&v[0]) },
            2 => Self::V1 { x: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            3 => Self::C { y: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            4 => Self::D {  },
            5 => Self::V4 { x: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            6 => Self::F,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[repr(u32)]
#[serde(rename = "a trans", tag = "t")]
pub enum E_a_trans {
    #[serde(transparent)] P { inner: Point } = 4,
    #[serde(rename = "M", reindex = 20, transparent)] V1(Mid),
    #[serde(transparent)] K { inner: Kind },
    #[serde(transparent)] U(()),
    #[serde(rename = "Fl")] V4 { #[serde(flatten)] inner_0: Point, #[serde(rename = "w")] renamed1: Leaf },
    N,
}

impl Abs for E_a_trans {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner } => A::Var(1, vec![inner.to_a()]),
            Self::V1(x) => A::Var(2, vec![x.to_a()]),
            Self::K { inner } => A::Var(3, vec![inner.to_a()]),
            Self::U(x) => A::Var(4, vec![x.to_a()]),
            Self::V4 { inner_0: b0, renamed1: b1 } => A::Var(5, vec![b0.to_a(), b1.to_a()]),
            Self::N => A::Var(6, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner: Abs::of_a(&v[0]) },
            2 => Self::V1(Abs::of_a(&v[0])),
            3 => Self::K { inner: Abs::of_a(&v[0]) },
            4 => Self::U(Abs::of_a(&v[0])),
            5 => Self::V4 { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            6 => Self::N,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[repr(u32)]
pub enum Mixed {
    #[serde(reindex = 2)] st { st: Leaf, ctx: Leaf },
    #[serde(rename = "B")] V1 { index: Leaf } = 10,
    C,
    #[serde(transparent)] Sh(Shape2),
}

impl Abs for Mixed {
    fn to_a(&self) -> A {
        match self {
            Self::st { st: b0, ctx: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 { index: b0 } => A::Var(2, vec![b0.to_a()]),
            Self::C => A::Var(3, vec![]),
            Self::Sh(x) => A::Var(4, vec![x.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::st { st: Abs::of_a(&v[0]), ctx: Abs::of_a(&v[1]) },
            2 => Self::V1 { index: Abs::of_a(&v[0]) },
            3 => Self::C,
            4 => Self::Sh(Abs::of_a(&v[0])),
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct Empty {
}

impl Abs for Empty {
    fn to_a(&self) -> A {
        A::Rec(vec![])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self {  }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct Opts {
    pub a: Option<Leaf>,
    #[serde(rename = "b")] pub renamed1: Option<Option<Leaf>>,
    pub c: Option<Vec<Leaf>>,
    pub d: Option<Point>,
    #[serde(rename = "e", default)] pub renamed4: Option<Option<Leaf>>,
    pub f: Option<Kind>,
}

impl Abs for Opts {
    fn to_a(&self) -> A {
        A::Rec(vec![self.a.to_a(), self.renamed1.to_a(), self.c.to_a(), self.d.to_a(), self.renamed4.to_a(), self.f.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { a: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), c: Abs::of_a(&v[2]), d: Abs::of_a(&v[3]), renamed4: Abs::of_a(&v[4]), f: Abs::of_a(&v[5]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct Valid2 {
    pub e: std::num::NonZeroI64,
}

impl Abs for Valid2 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.e.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { e: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct Valid {
    pub a: Even,
    #[serde(rename = "b")] #[serde(default)] pub renamed1: Even,
    pub c: Option<std::num::NonZeroU8>,
    pub d: Vec<Even>,
    #[serde(flatten)] pub inner_4: Valid2,
}

impl Abs for Valid {
    fn to_a(&self) -> A {
        A::Rec(vec![self.a.to_a(), self.renamed1.to_a(), self.c.to_a(), self.d.to_a(), self.inner_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { a: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), c: Abs::of_a(&v[2]), d: Abs::of_a(&v[3]), inner_4: Abs::of_a(&v[4]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct Spaces {
    #[serde(rename = " a")] pub renamed0: Leaf,
    #[serde(rename = "a ")] pub renamed1: Option<Leaf>,
    pub a: Leaf,
    #[serde(rename = "\na")] #[serde(default)] pub renamed3: Leaf,
    #[serde(rename = " ")] pub renamed4: Leaf,
    #[serde(rename = "  ")] pub renamed5: Leaf,
    pub A: Leaf,
    #[serde(rename = "a-b")] pub renamed7: Leaf,
    pub a_b: Leaf,
    #[serde(rename = "é")] pub renamed9: Leaf,
    #[serde(rename = "r#type")] pub renamed10: Leaf,
}

impl Abs for Spaces {
    fn to_a(&self) -> A {
        A::Rec(vec![self.renamed0.to_a(), self.renamed1.to_a(), self.a.to_a(), self.renamed3.to_a(), self.renamed4.to_a(), self.renamed5.to_a(), self.A.to_a(), self.renamed7.to_a(), self.a_b.to_a(), self.renamed9.to_a(), self.renamed10.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { renamed0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), a: Abs::of_a(&v[2]), renamed3: Abs::of_a(&v[3]), renamed4: Abs::of_a(&v[4]), renamed5: Abs::of_a(&v[5]), A: Abs::of_a(&v[6]), renamed7: Abs::of_a(&v[7]), a_b: Abs::of_a(&v[8]), renamed9: Abs::of_a(&v[9]), renamed10: Abs::of_a(&v[10]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(rename = " padded ", tag = " ")]
pub enum E__padded_ {
    #[serde(rename = " A")] V0,
    #[serde(rename = "A ")] V1,
    A { #[serde(rename = "a ")] renamed0: Leaf, #[serde(rename = " a")] renamed1: Option<Leaf> },
    #[serde(rename = " ")] V3,
    #[serde(rename = "", transparent)] V4 { inner: Point },
    #[serde(rename = "a-b")] V5,
    a_b,
}

impl Abs for E__padded_ {
    fn to_a(&self) -> A {
        match self {
            Self::V0 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::A { renamed0: b0, renamed1: b1 } => A::Var(3, vec![b0.to_a(), b1.to_a()]),
            Self::V3 => A::Var(4, vec![]),
            Self::V4 { inner } => A::Var(5, vec![inner.to_a()]),
            Self::V5 => A::Var(6, vec![]),
            Self::a_b => A::Var(7, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::V0,
            2 => Self::V1,
            3 => Self::A { renamed0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            4 => Self::V3,
            5 => Self::V4 { inner: Abs::of_a(&v[0]) },
            6 => Self::V5,
            7 => Self::a_b,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(rename = "Space names")]
pub enum E_Space_names {
    #[serde(rename = " A")] V0,
    #[serde(rename = "A ")] V1,
    A,
    #[serde(rename = " ")] V3,
    #[serde(rename = "")] V4,
    a,
    #[serde(rename = "\n")] V6,
    #[serde(rename = "A-b")] V7,
    A_b,
    AB,
    #[serde(rename = "aB")] V10,
}

impl Abs for E_Space_names {
    fn to_a(&self) -> A {
        match self {
            Self::V0 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::A => A::Var(3, vec![]),
            Self::V3 => A::Var(4, vec![]),
            Self::V4 => A::Var(5, vec![]),
            Self::a => A::Var(6, vec![]),
            Self::V6 => A::Var(7, vec![]),
            Self::V7 => A::Var(8, vec![]),
            Self::A_b => A::Var(9, vec![]),
            Self::AB => A::Var(10, vec![]),
            Self::V10 => A::Var(11, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::V0,
            2 => Self::V1,
            3 => Self::A,
            4 => Self::V3,
            5 => Self::V4,
            6 => Self::a,
            7 => Self::V6,
            8 => Self::V7,
            9 => Self::A_b,
            10 => Self::AB,
            11 => Self::V10,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "")]
pub enum EmptyTag {
    A,
    #[serde(rename = "B")] V1 { #[serde(rename = "type")] renamed0: Leaf, #[serde(rename = "b")] renamed1: Option<Leaf> },
    #[serde(transparent)] C { inner: Point },
}

impl Abs for EmptyTag {
    fn to_a(&self) -> A {
        match self {
            Self::A => A::Var(1, vec![]),
            Self::V1 { renamed0: b0, renamed1: b1 } => A::Var(2, vec![b0.to_a(), b1.to_a()]),
            Self::C { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::A,
            2 => Self::V1 { renamed0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            3 => Self::C { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "")]
pub enum EmptyTag2 {
    A,
    #[serde(rename = "B")] V1,
}

impl Abs for EmptyTag2 {
    fn to_a(&self) -> A {
        match self {
            Self::A => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::A,
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct Nest1 {
    pub a: Option<[Option<Leaf>; 2]>,
    #[serde(rename = "b")] pub renamed1: Option<(Option<Leaf>, Option<u8>)>,
    pub c: Option<Vec<Option<Leaf>>>,
    pub d: Option<(Option<Leaf>, (), Option<u8>)>,
}

impl Abs for Nest1 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.a.to_a(), self.renamed1.to_a(), self.c.to_a(), self.d.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { a: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), c: Abs::of_a(&v[2]), d: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct Nest2 {
    pub a: Option<[(); 2]>,
    #[serde(rename = "b")] pub renamed1: Option<Gen<Option<Leaf>>>,
    pub c: Option<GenE<Point>>,
    pub d: Option<GenA<Option<Leaf>, 1>>,
    #[serde(rename = "e", default)] pub renamed4: [Option<Leaf>; 2],
}

impl Abs for Nest2 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.a.to_a(), self.renamed1.to_a(), self.c.to_a(), self.d.to_a(), self.renamed4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { a: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), c: Abs::of_a(&v[2]), d: Abs::of_a(&v[3]), renamed4: Abs::of_a(&v[4]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct Nest3 {
    pub a: Option<Defaults>,
    #[serde(rename = "b")] pub renamed1: Option<Empty>,
    pub c: Option<[Empty; 0]>,
    pub d: Option<Option<[Option<Leaf>; 1]>>,
}

impl Abs for Nest3 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.a.to_a(), self.renamed1.to_a(), self.c.to_a(), self.d.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { a: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), c: Abs::of_a(&v[2]), d: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct Wide {
    pub w1: Leaf,
    #[serde(rename = "w2")] pub renamed1: Leaf,
    pub w3: Leaf,
    pub w4: Leaf,
    #[serde(rename = "w5")] pub renamed4: Leaf,
    pub w6: Leaf,
    pub w7: Leaf,
    #[serde(rename = "w8")] pub renamed7: Leaf,
    #[serde(default)] pub w9: Leaf,
    pub w10: Leaf,
    #[serde(rename = "w11")] pub renamed10: Option<Leaf>,
    pub w12: Leaf,
    pub w13: Leaf,
    #[serde(rename = "w14")] pub renamed13: Leaf,
    pub w15: Leaf,
    pub w16: Leaf,
    #[serde(rename = "w17")] pub renamed16: Leaf,
    #[serde(default)] pub w18: Leaf,
    pub w19: Leaf,
    #[serde(rename = "w20")] pub renamed19: Leaf,
    pub w21: Leaf,
    pub w22: Option<Leaf>,
    #[serde(rename = "w23")] pub renamed22: Leaf,
    pub w24: Leaf,
    pub w25: Leaf,
    #[serde(rename = "w26")] pub renamed25: Leaf,
    #[serde(default)] pub w27: Leaf,
    pub w28: Leaf,
    #[serde(rename = "w29")] pub renamed28: Leaf,
    pub w30: Leaf,
    pub w31: Leaf,
    #[serde(rename = "w32")] pub renamed31: Leaf,
    pub w33: Option<Leaf>,
    pub w34: Leaf,
    #[serde(rename = "w35")] pub renamed34: Leaf,
    #[serde(default)] pub w36: Leaf,
    pub w37: Leaf,
    #[serde(rename = "w38")] pub renamed37: Leaf,
    pub w39: Leaf,
    pub w40: Leaf,
    #[serde(rename = "w41")] pub renamed40: Leaf,
    pub w42: Leaf,
    pub w43: Leaf,
    #[serde(rename = "w44")] pub renamed43: Option<Leaf>,
    #[serde(default)] pub w45: Leaf,
    pub w46: Leaf,
    #[serde(rename = "w47")] pub renamed46: Leaf,
    pub w48: Leaf,
    pub w49: Leaf,
    #[serde(rename = "w50")] pub renamed49: Leaf,
    pub w51: Leaf,
    pub w52: Leaf,
    #[serde(rename = "w53")] pub renamed52: Leaf,
    #[serde(default)] pub w54: Leaf,
    pub w55: Option<Leaf>,
    #[serde(rename = "w56")] pub renamed55: Leaf,
    pub w57: Leaf,
    pub w58: Leaf,
    #[serde(rename = "w59")] pub renamed58: Leaf,
    pub w60: Leaf,
    pub w61: Leaf,
    #[serde(rename = "w62")] pub renamed61: Leaf,
    #[serde(default)] pub w63: Leaf,
    pub w64: Leaf,
    #[serde(rename = "w65")] pub renamed64: Leaf,
    pub w66: Option<Leaf>,
    pub w67: Leaf,
    #[serde(rename = "w68")] pub renamed67: Leaf,
    pub w69: Leaf,
    pub w70: Leaf,
}

impl Abs for Wide {
    fn to_a(&self) -> A {
        A::Rec(vec![self.w1.to_a(), self.renamed1.to_a(), self.w3.to_a(), self.w4.to_a(), self.renamed4.to_a(), self.w6.to_a(), self.w7.to_a(), self.renamed7.to_a(), self.w9.to_a(), self.w10.to_a(), self.renamed10.to_a(), self.w12.to_a(), self.w13.to_a(), self.renamed13.to_a(), self.w15.to_a(), self.w16.to_a(), self.renamed16.to_a(), self.w18.to_a(), self.w19.to_a(), self.renamed19.to_a(), self.w21.to_a(), self.w22.to_a(), self.renamed22.to_a(), self.w24.to_a(), self.w25.to_a(), self.renamed25.to_a(), self.w27.to_a(), self.w28.to_a(), self.renamed28.to_a(), self.w30.to_a(), self.w31.to_a(), self.renamed31.to_a(), self.w33.to_a(), self.w34.to_a(), self.renamed34.to_a(), self.w36.to_a(), self.w37.to_a(), self.renamed37.to_a(), self.w39.to_a(), self.w40.to_a(), self.renamed40.to_a(), self.w42.to_a(), self.w43.to_a(), self.renamed43.to_a(), self.w45.to_a(), self.w46.to_a(), self.renamed46.to_a(), self.w48.to_a(), self.w49.to_a(), self.renamed49.to_a(), self.w51.to_a(), self.w52.to_a(), self.renamed52.to_a(), self.w54.to_a(), self.w55.to_a(), self.renamed55.to_a(), self.w57.to_a(), self.w58.to_a(), self.renamed58.to_a(), self.w60.to_a(), self.w61.to_a(), self.renamed61.to_a(), self.w63.to_a(), self.w64.to_a(), self.renamed64.to_a(), self.w66.to_a(), self.w67.to_a(), self.renamed67.to_a(), self.w69.to_a(), self.w70.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { w1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), w3: Abs::of_a(&v[2]), w4: Abs::of_a(&v[3]), renamed4: Abs::of_a(&v[4]), w6: Abs::of_a(&v[5]), w7: Abs::of_a(&v[6]), renamed7: Abs::of_a(&v[7]), w9: Abs::of_a(&v[8]), w10: Abs::of_a(&v[9]), renamed10: Abs::of_a(&v[10]), w12: Abs::of_a(&v[11]), w13: Abs::of_a(&v[12]), renamed13: Abs::of_a(&v[13]), w15: Abs::of_a(&v[14]), w16: Abs::of_a(&v[15]), renamed16: Abs::of_a(&v[16]), w18: Abs::of_a(&v[17]), w19: Abs::of_a(&v[18]), renamed19: Abs::of_a(&v[19]), w21: Abs::of_a(&v[20]), w22: Abs::of_a(&v[21]), renamed22: Abs::of_a(&v[22]), w24: Abs::of_a(&v[23]), w25: Abs::of_a(&v[24]), renamed25: Abs::of_a(&v[25]), w27: Abs::of_a(&v[26]), w28: Abs::of_a(&v[27]), renamed28: Abs::of_a(&v[28]), w30: Abs::of_a(&v[29]), w31: Abs::of_a(&v[30]), renamed31: Abs::of_a(&v[31]), w33: Abs::of_a(&v[32]), w34: Abs::of_a(&v[33]), renamed34: Abs::of_a(&v[34]), w36: Abs::of_a(&v[35]), w37: Abs::of_a(&v[36]), renamed37: Abs::of_a(&v[37]), w39: Abs::of_a(&v[38]), w40: Abs::of_a(&v[39]), renamed40: Abs::of_a(&v[40]), w42: Abs::of_a(&v[41]), w43: Abs::of_a(&v[42]), renamed43: Abs::of_a(&v[43]), w45: Abs::of_a(&v[44]), w46: Abs::of_a(&v[45]), renamed46: Abs::of_a(&v[46]), w48: Abs::of_a(&v[47]), w49: Abs::of_a(&v[48]), renamed49: Abs::of_a(&v[49]), w51: Abs::of_a(&v[50]), w52: Abs::of_a(&v[51]), renamed52: Abs::of_a(&v[52]), w54: Abs::of_a(&v[53]), w55: Abs::of_a(&v[54]), renamed55: Abs::of_a(&v[55]), w57: Abs::of_a(&v[56]), w58: Abs::of_a(&v[57]), renamed58: Abs::of_a(&v[58]), w60: Abs::of_a(&v[59]), w61: Abs::of_a(&v[60]), renamed61: Abs::of_a(&v[61]), w63: Abs::of_a(&v[62]), w64: Abs::of_a(&v[63]), renamed64: Abs::of_a(&v[64]), w66: Abs::of_a(&v[65]), w67: Abs::of_a(&v[66]), renamed67: Abs::of_a(&v[67]), w69: Abs::of_a(&v[68]), w70: Abs::of_a(&v[69]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum WideE {
    A { w1: u8, #[serde(rename = "w2")] renamed1: u8, w3: u8, w4: u8, #[serde(rename = "w5")] renamed4: u8, w6: u8, w7: u8, #[serde(rename = "w8")] renamed7: u8, w9: u8, w10: u8, #[serde(rename = "w11")] renamed10: u8, w12: u8, w13: u8, #[serde(rename = "w14")] renamed13: u8, w15: u8, w16: u8, #[serde(rename = "w17")] renamed16: u8, w18: u8, w19: u8, #[serde(rename = "w20")] renamed19: u8, w21: u8, w22: u8, #[serde(rename = "w23")] renamed22: u8, w24: u8, w25: u8, #[serde(rename = "w26")] renamed25: u8, w27: u8, w28: u8, #[serde(rename = "w29")] renamed28: u8, w30: u8, w31: u8, #[serde(rename = "w32")] renamed31: u8, w33: u8, w34: u8, #[serde(rename = "w35")] renamed34: u8, w36: u8, w37: u8, #[serde(rename = "w38")] renamed37: u8, w39: u8, w40: u8, #[serde(rename = "w41")] renamed40: u8, w42: u8, w43: u8, #[serde(rename = "w44")] renamed43: u8, w45: u8, w46: u8, #[serde(rename = "w47")] renamed46: u8, w48: u8, w49: u8, #[serde(rename = "w50")] renamed49: u8, w51: u8, w52: u8, #[serde(rename = "w53")] renamed52: u8, w54: u8, w55: u8, #[serde(rename = "w56")] renamed55: u8, w57: u8, w58: u8, #[serde(rename = "w59")] renamed58: u8, w60: u8, w61: u8, #[serde(rename = "w62")] renamed61: u8, w63: u8, w64: u8, #[serde(rename = "w65")] renamed64: u8, w66: u8 },
    #[serde(rename = "B")] V1,
    #[serde(transparent)] C { inner: Wide },
}

impl Abs for WideE {
    fn to_a(&self) -> A {
        match self {
            Self::A { w1: b0, renamed1: b1, w3: b2, w4: b3, renamed4: b4, w6: b5, w7: b6, renamed7: b7, w9: b8, w10: b9, renamed10: b10, w12: b11, w13: b12, renamed13: b13, w15: b14, w16: b15, renamed16: b16, w18: b17, w19: b18, renamed19: b19, w21: b20, w22: b21, renamed22: b22, w24: b23, w25: b24, renamed25: b25, w27: b26, w28: b27, renamed28: b28, w30: b29, w31: b30, renamed31: b31, w33: b32, w34: b33, renamed34: b34, w36: b35, w37: b36, renamed37: b37, w39: b38, w40: b39, renamed40: b40, w42: b41, w43: b42, renamed43: b43, w45: b44, w46: b45, renamed46: b46, w48: b47, w49: b48, renamed49: b49, w51: b50, w52: b51, renamed52: b52, w54: b53, w55: b54, renamed55: b55, w57: b56, w58: b57, renamed58: b58, w60: b59, w61: b60, renamed61: b61, w63: b62, w64: b63, renamed64: b64, w66: b65 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a(), b3.to_a(), b4.to_a(), b5.to_a(), b6.to_a(), b7.to_a(), b8.to_a(), b9.to_a(), b10.to_a(), b11.to_a(), b12.to_a(), b13.to_a(), b14.to_a(), b15.to_a(), b16.to_a(), b17.to_a(), b18.to_a(), b19.to_a(), b20.to_a(), b21.to_a(), b22.to_a(), b23.to_a(), b24.to_a(), b25.to_a(), b26.to_a(), b27.to_a(), b28.to_a(), b29.to_a(), b30.to_a(), b31.to_a(), b32.to_a(), b33.to_a(), b34.to_a(), b35.to_a(), b36.to_a(), b37.to_a(), b38.to_a(), b39.to_a(), b40.to_a(), b41.to_a(), b42.to_a(), b43.to_a(), b44.to_a(), b45.to_a(), b46.to_a(), b47.to_a(), b48.to_a(), b49.to_a(), b50.to_a(), b51.to_a(), b52.to_a(), b53.to_a(), b54.to_a(), b55.to_a(), b56.to_a(), b57.to_a(), b58.to_a(), b59.to_a(), b60.to_a(), b61.to_a(), b62.to_a(), b63.to_a(), b64.to_a(), b65.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::C { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::A { w1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), w3: Abs::of_a(&v[2]), w4: Abs::of_a(&v[3]), renamed4: Abs::of_a(&v[4]), w6: Abs::of_a(&v[5]), w7: Abs::of_a(&v[6]), renamed7: Abs::of_a(&v[7]), w9: Abs::of_a(&v[8]), w10: Abs::of_a(&v[9]), renamed10: Abs::of_a(&v[10]), w12: Abs::of_a(&v[11]), w13: Abs::of_a(&v[12]), renamed13: Abs::of_a(&v[13]), w15: Abs::of_a(&v[14]), w16: Abs::of_a(&v[15]), renamed16: Abs::of_a(&v[16]), w18: Abs::of_a(&v[17]), w19: Abs::of_a(&v[18]), renamed19: Abs::of_a(&v[19]), w21: Abs::of_a(&v[20]), w22: Abs::of_a(&v[21]), renamed22: Abs::of_a(&v[22]), w24: Abs::of_a(&v[23]), w25: Abs::of_a(&v[24]), renamed25: Abs::of_a(&v[25]), w27: Abs::of_a(&v[26]), w28: Abs::of_a(&v[27]), renamed28: Abs::of_a(&v[28]), w30: Abs::of_a(&v[29]), w31: Abs::of_a(&v[30]), renamed31: Abs::of_a(&v[31]), w33: Abs::of_a(&v[32]), w34: Abs::of_a(&v[33]), renamed34: Abs::of_a(&v[34]), w36: Abs::of_a(&v[35]), w37: Abs::of_a(&v[36]), renamed37: Abs::of_a(&v[37]), w39: Abs::of_a(&v[38]), w40: Abs::of_a(&v[39]), renamed40: Abs::of_a(&v[40]), w42: Abs::of_a(&v[41]), w43: Abs::of_a(&v[42]), renamed43: Abs::of_a(&v[43]), w45: Abs::of_a(&v[44]), w46: Abs::of_a(&v[45]), renamed46: Abs::of_a(&v[46]), w48: Abs::of_a(&v[47]), w49: Abs::of_a(&v[48]), renamed49: Abs::of_a(&v[49]), w51: Abs::of_a(&v[50]), w52: Abs::of_a(&v[51]), renamed52: Abs::of_a(&v[52]), w54: Abs::of_a(&v[53]), w55: Abs::of_a(&v[54]), renamed55: Abs::of_a(&v[55]), w57: Abs::of_a(&v[56]), w58: Abs::of_a(&v[57]), renamed58: Abs::of_a(&v[58]), w60: Abs::of_a(&v[59]), w61: Abs::of_a(&v[60]), renamed61: Abs::of_a(&v[61]), w63: Abs::of_a(&v[62]), w64: Abs::of_a(&v[63]), renamed64: Abs::of_a(&v[64]), w66: Abs::of_a(&v[65]) },
            2 => Self::V1,
            3 => Self::C { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_80194 {
    v1_80194_1,
    #[serde(rename = "v1_80194_2", reindex = 114)] V1,
}

impl Abs for R1_80194 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_80194_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_80194_1,
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_88113 {
    #[serde(default)] pub k1_88113_1: Leaf,
    #[serde(rename = "k1_88113_2")] pub renamed1: Even,
    pub k1_88113_3: Leaf,
}

impl Abs for R1_88113 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_88113_1.to_a(), self.renamed1.to_a(), self.k1_88113_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_88113_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_88113_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_66756 {
    pub k2_66756_1: R1_80194,
    #[serde(rename = "k2_66756_2")] #[serde(default)] pub renamed1: R1_88113,
    pub k2_66756_3: [Leaf; 2],
}

impl Abs for R2_66756 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_66756_1.to_a(), self.renamed1.to_a(), self.k2_66756_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_66756_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_66756_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_17208 {
    pub k1_17208_1: std::num::NonZeroI16,
    #[serde(rename = "k1_17208_2")] pub renamed1: Leaf,
    pub k1_17208_3: std::num::NonZeroU32,
    pub k1_17208_4: Leaf,
}

impl Abs for R1_17208 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_17208_1.to_a(), self.renamed1.to_a(), self.k1_17208_3.to_a(), self.k1_17208_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_17208_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_17208_3: Abs::of_a(&v[2]), k1_17208_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_33412 {
    pub k1_33412_1: std::num::NonZeroI64,
    #[serde(rename = "k1_33412_2")] pub renamed1: Leaf,
    pub k1_33412_3: Leaf,
    pub k1_33412_4: std::num::NonZeroI8,
}

impl Abs for R1_33412 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_33412_1.to_a(), self.renamed1.to_a(), self.k1_33412_3.to_a(), self.k1_33412_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_33412_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_33412_3: Abs::of_a(&v[2]), k1_33412_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_95720 {
    #[serde(flatten)] pub inner_0: R2_66756,
    #[serde(rename = "k3_95720_2")] #[serde(default)] pub renamed1: Option<R1_17208>,
    pub k3_95720_3: Vec<R1_33412>,
}

impl Abs for R3_95720 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k3_95720_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_95720_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R4_86711 {
    v4_86711_1,
}

impl Abs for R4_86711 {
    fn to_a(&self) -> A {
        match self {
            Self::v4_86711_1 => A::Var(1, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v4_86711_1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_77702")]
pub enum R2_77702 {
    P { #[serde(flatten)] inner_0: (), #[serde(rename = "k2_77702_2")] renamed1: [Leaf; 1] },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_77702: (Leaf, Leaf) },
}

impl Abs for R2_77702 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_77702: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x2_77702: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_54018 {
    pub k1_54018_1: Leaf,
    #[serde(rename = "k1_54018_2")] pub renamed1: std::num::NonZeroI16,
}

impl Abs for R1_54018 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_54018_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_54018_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_23298")]
pub enum R1_23298 {
    P { k1_23298_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_23298: Leaf },
}

impl Abs for R1_23298 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_23298_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_23298: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_23298_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_23298: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_31217 {
    pub k1_31217_1: Leaf,
    #[serde(rename = "k1_31217_2")] pub renamed1: Leaf,
}

impl Abs for R1_31217 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_31217_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_31217_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_50675 {
    pub k2_50675_1: R1_23298,
    #[serde(rename = "k2_50675_2")] #[serde(default)] pub renamed1: R1_31217,
    pub k2_50675_3: Option<Leaf>,
}

impl Abs for R2_50675 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_50675_1.to_a(), self.renamed1.to_a(), self.k2_50675_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_50675_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_50675_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_10347")]
pub enum R1_10347 {
    P { k1_10347_1: std::num::NonZeroU8, #[serde(rename = "k1_10347_2")] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_10347: f64 },
}

impl Abs for R1_10347 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_10347_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_10347: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_10347_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_10347: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_18266 {
    pub k1_18266_1: f64,
    #[serde(rename = "k1_18266_2")] pub renamed1: i16,
    #[serde(default)] pub k1_18266_3: Leaf,
    #[serde(default)] pub k1_18266_4: f32,
}

impl Abs for R1_18266 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_18266_1.to_a(), self.renamed1.to_a(), self.k1_18266_3.to_a(), self.k1_18266_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_18266_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_18266_3: Abs::of_a(&v[2]), k1_18266_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_31148")]
pub enum R1_31148 {
    P { k1_31148_1: Leaf, #[serde(rename = "k1_31148_2")] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_31148: Leaf },
}

impl Abs for R1_31148 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_31148_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_31148: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_31148_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_31148: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_74601")]
pub enum R2_74601 {
    P { k2_74601_1: R1_10347, #[serde(flatten)] inner_1: R1_18266 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_31148 },
}

impl Abs for R2_74601 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_74601_1: b0, inner_1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_74601_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_26551")]
pub enum R1_26551 {
    P { k1_26551_1: std::num::NonZeroU32 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_26551: char },
}

impl Abs for R1_26551 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_26551_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_26551: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_26551_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_26551: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_34470 {
    v1_34470_1,
    #[serde(rename = "v1_34470_2", reindex = 114)] V1,
    v1_34470_3,
    v1_34470_4,
    #[serde(rename = "v1_34470_5", reindex = 135)] V4,
}

impl Abs for R1_34470 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_34470_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_34470_3 => A::Var(3, vec![]),
            Self::v1_34470_4 => A::Var(4, vec![]),
            Self::V4 => A::Var(5, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_34470_1,
            2 => Self::V1,
            3 => Self::v1_34470_3,
            4 => Self::v1_34470_4,
            5 => Self::V4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_82520 {
    #[serde(flatten)] pub inner_0: R1_26551,
    #[serde(rename = "k2_82520_2")] pub renamed1: R1_34470,
    #[serde(default)] pub k2_82520_3: (),
    pub k2_82520_4: [Leaf; 1],
}

impl Abs for R2_82520 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_82520_3.to_a(), self.k2_82520_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_82520_3: Abs::of_a(&v[2]), k2_82520_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_63556")]
pub enum R1_63556 {
    P { k1_63556_1: u16 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_63556: std::num::NonZeroU16 },
}

impl Abs for R1_63556 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_63556_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_63556: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_63556_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_63556: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_79760")]
pub enum R1_79760 {
    P { k1_79760_1: u64 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_79760: bool },
}

impl Abs for R1_79760 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_79760_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_79760: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_79760_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_79760: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_98358")]
pub enum R2_98358 {
    P { k2_98358_1: Vec<Leaf> },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_79760 },
}

impl Abs for R2_98358 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_98358_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_98358_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_41666 {
    #[serde(flatten)] pub inner_0: R2_74601,
    #[serde(flatten)] pub inner_1: R2_82520,
    pub k3_41666_3: (R1_63556, Option<u16>),
    pub k3_41666_4: R2_98358,
}

impl Abs for R3_41666 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.inner_1.to_a(), self.k3_41666_3.to_a(), self.k3_41666_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k3_41666_3: Abs::of_a(&v[2]), k3_41666_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R4_32657 {
    v4_32657_1,
    #[serde(rename = "v4_32657_2", reindex = 114)] V1,
}

impl Abs for R4_32657 {
    fn to_a(&self) -> A {
        match self {
            Self::v4_32657_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v4_32657_1,
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_84162 {
    #[serde(default)] pub k1_84162_1: Leaf,
    #[serde(rename = "k1_84162_2")] #[serde(default)] pub renamed1: i64,
    pub k1_84162_3: Leaf,
}

impl Abs for R1_84162 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_84162_1.to_a(), self.renamed1.to_a(), self.k1_84162_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_84162_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_84162_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_95769")]
pub enum R1_95769 {
    P { #[serde(default)] k1_95769_1: f64, #[serde(rename = "k1_95769_2")] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_95769: i8 },
}

impl Abs for R1_95769 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_95769_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_95769: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_95769_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_95769: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_3697 {
    pub k1_3697_1: i8,
}

impl Abs for R1_3697 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_3697_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_3697_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_11616 {
    pub k1_11616_1: std::num::NonZeroI32,
    #[serde(rename = "k1_11616_2")] pub renamed1: f32,
    #[serde(default)] pub k1_11616_3: Leaf,
    pub k1_11616_4: Even,
}

impl Abs for R1_11616 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_11616_1.to_a(), self.renamed1.to_a(), self.k1_11616_3.to_a(), self.k1_11616_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_11616_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_11616_3: Abs::of_a(&v[2]), k1_11616_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_65167 {
    #[serde(flatten)] pub inner_0: R1_95769,
    #[serde(flatten)] pub inner_1: R1_3697,
    pub k2_65167_3: R1_11616,
    pub k2_65167_4: (Leaf, Leaf),
}

impl Abs for R2_65167 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.inner_1.to_a(), self.k2_65167_3.to_a(), self.k2_65167_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k2_65167_3: Abs::of_a(&v[2]), k2_65167_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_39062 {
    v1_39062_1,
}

impl Abs for R1_39062 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_39062_1 => A::Var(1, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_39062_1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_46981 {
    #[serde(default)] pub k1_46981_1: u16,
    #[serde(rename = "k1_46981_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_46981_3: Leaf,
}

impl Abs for R1_46981 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_46981_1.to_a(), self.renamed1.to_a(), self.k1_46981_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_46981_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_46981_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_96612 {
    pub k2_96612_1: [Leaf; 2],
    #[serde(rename = "k2_96612_2")] pub renamed1: R1_39062,
    #[serde(default)] pub k2_96612_3: R1_46981,
    pub k2_96612_4: Option<Leaf>,
}

impl Abs for R2_96612 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_96612_1.to_a(), self.renamed1.to_a(), self.k2_96612_3.to_a(), self.k2_96612_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_96612_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_96612_3: Abs::of_a(&v[2]), k2_96612_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R3_87603 {
    v3_87603_1,
    #[serde(rename = "v3_87603_2", reindex = 114)] V1,
    v3_87603_3,
}

impl Abs for R3_87603 {
    fn to_a(&self) -> A {
        match self {
            Self::v3_87603_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v3_87603_3 => A::Var(3, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v3_87603_1,
            2 => Self::V1,
            3 => Self::v3_87603_3,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_57577")]
pub enum R1_57577 {
    P { #[serde(default)] k1_57577_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_57577: Leaf },
}

impl Abs for R1_57577 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_57577_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_57577: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_57577_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_57577: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_65496 {
    pub k1_65496_1: std::num::NonZeroU16,
}

impl Abs for R1_65496 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_65496_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_65496_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_81334")]
pub enum R1_81334 {
    P { #[serde(default)] k1_81334_1: u16, #[serde(rename = "k1_81334_2")] #[serde(default)] renamed1: Leaf, k1_81334_3: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_81334: std::num::NonZeroU8 },
}

impl Abs for R1_81334 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_81334_1: b0, renamed1: b1, k1_81334_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_81334: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_81334_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_81334_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_81334: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_45515 {
    #[serde(flatten)] pub inner_0: R1_57577,
    #[serde(flatten)] pub inner_1: R1_65496,
    #[serde(default)] pub k2_45515_3: Option<u8>,
    pub k2_45515_4: R1_81334,
}

impl Abs for R2_45515 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.inner_1.to_a(), self.k2_45515_3.to_a(), self.k2_45515_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k2_45515_3: Abs::of_a(&v[2]), k2_45515_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_11366 {
    pub k1_11366_1: std::num::NonZeroI32,
    #[serde(rename = "k1_11366_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_11366_3: i8,
}

impl Abs for R1_11366 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_11366_1.to_a(), self.renamed1.to_a(), self.k1_11366_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_11366_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_11366_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_66316 {
    pub k2_66316_1: Option<Leaf>,
    #[serde(rename = "k2_66316_2")] pub renamed1: Vec<Leaf>,
    pub k2_66316_3: R1_11366,
    pub k2_66316_4: (),
}

impl Abs for R2_66316 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_66316_1.to_a(), self.renamed1.to_a(), self.k2_66316_3.to_a(), self.k2_66316_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_66316_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_66316_3: Abs::of_a(&v[2]), k2_66316_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_33758")]
pub enum R3_33758 {
    P { #[serde(flatten)] inner_0: R2_45515 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R2_66316 },
}

impl Abs for R3_33758 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R3_54559 {
    v3_54559_1,
    #[serde(rename = "v3_54559_2", reindex = 114)] V1,
    v3_54559_3,
}

impl Abs for R3_54559 {
    fn to_a(&self) -> A {
        match self {
            Self::v3_54559_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v3_54559_3 => A::Var(3, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v3_54559_1,
            2 => Self::V1,
            3 => Self::v3_54559_3,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t4_78594")]
pub enum R4_78594 {
    P { k4_78594_1: R3_33758 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x4_78594: R3_54559 },
}

impl Abs for R4_78594 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k4_78594_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x4_78594: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k4_78594_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x4_78594: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_5871 {
    #[serde(default)] pub k1_5871_1: String,
    #[serde(rename = "k1_5871_2")] pub renamed1: Leaf,
}

impl Abs for R1_5871 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_5871_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_5871_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_1433 {
    pub k1_1433_1: f32,
    #[serde(rename = "k1_1433_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_1433_3: std::num::NonZeroI16,
}

impl Abs for R1_1433 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_1433_1.to_a(), self.renamed1.to_a(), self.k1_1433_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_1433_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_1433_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_57174 {
    pub k2_57174_1: Vec<Leaf>,
    #[serde(flatten)] pub inner_1: R1_1433,
    #[serde(default)] pub k2_57174_3: (),
    #[serde(default)] pub k2_57174_4: Option<f32>,
}

impl Abs for R2_57174 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_57174_1.to_a(), self.inner_1.to_a(), self.k2_57174_3.to_a(), self.k2_57174_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_57174_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k2_57174_3: Abs::of_a(&v[2]), k2_57174_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_29104")]
pub enum R1_29104 {
    P { k1_29104_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_29104: Leaf },
}

impl Abs for R1_29104 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_29104_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_29104: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_29104_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_29104: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_22551")]
pub enum R1_22551 {
    P { #[serde(default)] k1_22551_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_22551: Leaf },
}

impl Abs for R1_22551 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_22551_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_22551: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_22551_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_22551: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_60127 {
    #[serde(default)] pub k1_60127_1: Leaf,
    #[serde(rename = "k1_60127_2")] #[serde(default)] pub renamed1: f32,
    pub k1_60127_3: Leaf,
}

impl Abs for R1_60127 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_60127_1.to_a(), self.renamed1.to_a(), self.k1_60127_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_60127_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_60127_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_3523")]
pub enum R3_3523 {
    P { #[serde(flatten)] inner_0: (), #[serde(rename = "k3_3523_2")] #[serde(default)] renamed1: Vec<R1_22551> },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x3_3523: ([i16; 3], R1_60127) },
}

impl Abs for R3_3523 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x3_3523: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x3_3523: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_51567 {
    #[serde(flatten)] pub inner_0: (),
    #[serde(rename = "k4_51567_2")] #[serde(default)] pub renamed1: Option<(Option<Leaf>, R1_29104)>,
    pub k4_51567_3: R3_3523,
}

impl Abs for R4_51567 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k4_51567_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k4_51567_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_54826")]
pub enum R1_54826 {
    P { k1_54826_1: Leaf, #[serde(rename = "k1_54826_2")] renamed1: char, k1_54826_3: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_54826: char },
}

impl Abs for R1_54826 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_54826_1: b0, renamed1: b1, k1_54826_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_54826: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_54826_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_54826_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_54826: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_62745 {
    pub k1_62745_1: Leaf,
    #[serde(rename = "k1_62745_2")] #[serde(default)] pub renamed1: i64,
    #[serde(default)] pub k1_62745_3: Leaf,
    pub k1_62745_4: char,
}

impl Abs for R1_62745 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_62745_1.to_a(), self.renamed1.to_a(), self.k1_62745_3.to_a(), self.k1_62745_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_62745_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_62745_3: Abs::of_a(&v[2]), k1_62745_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_42558 {
    pub k2_42558_1: Option<i64>,
    #[serde(rename = "k2_42558_2")] pub renamed1: (std::num::NonZeroU8, i16),
    pub k2_42558_3: R1_54826,
    #[serde(default)] pub k2_42558_4: R1_62745,
}

impl Abs for R2_42558 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_42558_1.to_a(), self.renamed1.to_a(), self.k2_42558_3.to_a(), self.k2_42558_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_42558_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_42558_3: Abs::of_a(&v[2]), k2_42558_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_18890")]
pub enum R1_18890 {
    P { k1_18890_1: Leaf, #[serde(rename = "k1_18890_2")] renamed1: std::num::NonZeroU32 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_18890: Leaf },
}

impl Abs for R1_18890 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_18890_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_18890: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_18890_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_18890: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_6138 {
    #[serde(default)] pub k2_6138_1: Option<String>,
    #[serde(rename = "k2_6138_2")] #[serde(default)] pub renamed1: (u8, Leaf),
    pub k2_6138_3: R1_18890,
}

impl Abs for R2_6138 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_6138_1.to_a(), self.renamed1.to_a(), self.k2_6138_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_6138_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_6138_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_29387 {
    pub k1_29387_1: u16,
    #[serde(rename = "k1_29387_2")] pub renamed1: std::num::NonZeroU32,
    pub k1_29387_3: Leaf,
}

impl Abs for R1_29387 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_29387_1.to_a(), self.renamed1.to_a(), self.k1_29387_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_29387_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_29387_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_33549")]
pub enum R3_33549 {
    P { k3_33549_1: [Vec<Leaf>; 3], #[serde(rename = "k3_33549_2")] renamed1: Vec<Vec<Leaf>>, #[serde(flatten)] inner_2: R2_6138 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x3_33549: [R1_29387; 2] },
}

impl Abs for R3_33549 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_33549_1: b0, renamed1: b1, inner_2: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x3_33549: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_33549_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x3_33549: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_27347 {
    pub k1_27347_1: Leaf,
}

impl Abs for R1_27347 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_27347_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_27347_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R2_96460 {
    pub k2_96460_1: R1_27347,
}

impl Abs for R2_96460 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_96460_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_96460_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_59755 {
    pub k1_59755_1: u8,
}

impl Abs for R1_59755 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_59755_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_59755_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_80556 {
    pub k1_80556_1: Leaf,
}

impl Abs for R1_80556 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_80556_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_80556_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_12307")]
pub enum R2_12307 {
    P { #[serde(default)] k2_12307_1: R1_59755 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_80556 },
}

impl Abs for R2_12307 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_12307_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_12307_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_20428")]
pub enum R1_20428 {
    P { #[serde(default)] k1_20428_1: Leaf, #[serde(rename = "k1_20428_2")] renamed1: std::num::NonZeroU32, k1_20428_3: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_20428: Leaf },
}

impl Abs for R1_20428 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_20428_1: b0, renamed1: b1, k1_20428_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_20428: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_20428_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_20428_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_20428: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_28347 {
    pub k1_28347_1: Leaf,
}

impl Abs for R1_28347 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_28347_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_28347_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_41229 {
    #[serde(default)] pub k1_41229_1: Leaf,
    #[serde(rename = "k1_41229_2")] pub renamed1: u8,
    pub k1_41229_3: Leaf,
}

impl Abs for R1_41229 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_41229_1.to_a(), self.renamed1.to_a(), self.k1_41229_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_41229_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_41229_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_91863")]
pub enum R2_91863 {
    P { k2_91863_1: R1_20428, #[serde(flatten)] inner_1: R1_28347 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_41229 },
}

impl Abs for R2_91863 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_91863_1: b0, inner_1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_91863_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_36632")]
pub enum R1_36632 {
    P { #[serde(default)] k1_36632_1: u64 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_36632: Leaf },
}

impl Abs for R1_36632 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_36632_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_36632: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_36632_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_36632: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_44551 {
    pub k1_44551_1: i8,
}

impl Abs for R1_44551 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_44551_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_44551_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_60389")]
pub enum R1_60389 {
    P { #[serde(default)] k1_60389_1: u64 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_60389: i8 },
}

impl Abs for R1_60389 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_60389_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_60389: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_60389_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_60389: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_99782 {
    #[serde(flatten)] pub inner_0: R1_36632,
    #[serde(rename = "k2_99782_2")] #[serde(default)] pub renamed1: R1_44551,
    #[serde(default)] pub k2_99782_3: Option<u64>,
    pub k2_99782_4: R1_60389,
}

impl Abs for R2_99782 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_99782_3.to_a(), self.k2_99782_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_99782_3: Abs::of_a(&v[2]), k2_99782_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_73637")]
pub enum R1_73637 {
    P { #[serde(default)] k1_73637_1: Leaf, #[serde(rename = "k1_73637_2")] renamed1: u64, k1_73637_3: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_73637: Leaf },
}

impl Abs for R1_73637 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_73637_1: b0, renamed1: b1, k1_73637_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_73637: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_73637_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_73637_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_73637: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R2_12673 {
    pub k2_12673_1: [Leaf; 2],
}

impl Abs for R2_12673 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_12673_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_12673_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_49522")]
pub enum R3_49522 {
    P { k3_49522_1: R2_91863, #[serde(rename = "k3_49522_2")] renamed1: R2_99782, k3_49522_3: (R1_73637, Option<std::num::NonZeroI16>) },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R2_12673 },
}

impl Abs for R3_49522 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_49522_1: b0, renamed1: b1, k3_49522_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_49522_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_49522_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_8076")]
pub enum R2_8076 {
    P { #[serde(flatten)] inner_0: (), #[serde(rename = "k2_8076_2")] renamed1: Option<Leaf>, k2_8076_3: Vec<Leaf> },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: () },
}

impl Abs for R2_8076 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0, renamed1: b1, k2_8076_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_8076_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_67655 {
    #[serde(default)] pub k1_67655_1: Leaf,
    #[serde(rename = "k1_67655_2")] pub renamed1: f32,
}

impl Abs for R1_67655 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_67655_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_67655_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_83493")]
pub enum R1_83493 {
    P { k1_83493_1: i32 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_83493: std::num::NonZeroI64 },
}

impl Abs for R1_83493 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_83493_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_83493: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_83493_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_83493: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_15995 {
    #[serde(flatten)] pub inner_0: R1_67655,
    #[serde(rename = "k2_15995_2")] #[serde(default)] pub renamed1: Option<Leaf>,
    pub k2_15995_3: R1_83493,
}

impl Abs for R2_15995 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_15995_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_15995_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_20873 {
    pub k1_20873_1: Leaf,
    #[serde(rename = "k1_20873_2")] pub renamed1: std::num::NonZeroU32,
}

impl Abs for R1_20873 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_20873_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_20873_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_57441 {
    #[serde(flatten)] pub inner_0: R2_8076,
    #[serde(flatten)] pub inner_1: R2_15995,
    #[serde(default)] pub k3_57441_3: (),
    pub k3_57441_4: [R1_20873; 1],
}

impl Abs for R3_57441 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.inner_1.to_a(), self.k3_57441_3.to_a(), self.k3_57441_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k3_57441_3: Abs::of_a(&v[2]), k3_57441_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_99940")]
pub enum R1_99940 {
    P { k1_99940_1: std::num::NonZeroI32, #[serde(rename = "k1_99940_2")] renamed1: u64, k1_99940_3: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_99940: u64 },
}

impl Abs for R1_99940 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_99940_1: b0, renamed1: b1, k1_99940_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_99940: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_99940_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_99940_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_99940: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_3271 {
    v1_3271_1,
    #[serde(rename = "v1_3271_2", reindex = 114)] V1,
    v1_3271_3,
    v1_3271_4,
    #[serde(rename = "v1_3271_5", reindex = 135)] V4,
}

impl Abs for R1_3271 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_3271_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_3271_3 => A::Var(3, vec![]),
            Self::v1_3271_4 => A::Var(4, vec![]),
            Self::V4 => A::Var(5, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_3271_1,
            2 => Self::V1,
            3 => Self::v1_3271_3,
            4 => Self::v1_3271_4,
            5 => Self::V4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_16153")]
pub enum R1_16153 {
    P { k1_16153_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_16153: Leaf },
}

impl Abs for R1_16153 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_16153_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_16153: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_16153_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_16153: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_21529")]
pub enum R2_21529 {
    P { #[serde(default)] k2_21529_1: [Leaf; 2], #[serde(rename = "k2_21529_2")] renamed1: R1_3271 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_16153 },
}

impl Abs for R2_21529 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_21529_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_21529_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_19475 {
    pub k1_19475_1: u16,
    #[serde(rename = "k1_19475_2")] #[serde(default)] pub renamed1: Leaf,
    #[serde(default)] pub k1_19475_3: String,
    pub k1_19475_4: i64,
}

impl Abs for R1_19475 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_19475_1.to_a(), self.renamed1.to_a(), self.k1_19475_3.to_a(), self.k1_19475_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_19475_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_19475_3: Abs::of_a(&v[2]), k1_19475_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R2_29448 {
    pub k2_29448_1: [u8; 3],
    #[serde(rename = "k2_29448_2")] pub renamed1: R1_19475,
}

impl Abs for R2_29448 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_29448_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_29448_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_62404")]
pub enum R3_62404 {
    P { k3_62404_1: Option<R1_99940>, #[serde(rename = "k3_62404_2")] renamed1: R2_21529, k3_62404_3: R2_29448 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x3_62404: Vec<Option<Even>> },
}

impl Abs for R3_62404 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_62404_1: b0, renamed1: b1, k3_62404_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x3_62404: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_62404_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_62404_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x3_62404: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t4_24540")]
pub enum R4_24540 {
    P { k4_24540_1: (R2_96460, R2_12307), #[serde(rename = "k4_24540_2")] renamed1: R3_49522, #[serde(flatten)] inner_2: R3_57441 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R3_62404 },
}

impl Abs for R4_24540 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k4_24540_1: b0, renamed1: b1, inner_2: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k4_24540_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_13716 {
    v1_13716_1,
    #[serde(rename = "v1_13716_2", reindex = 114)] V1,
}

impl Abs for R1_13716 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_13716_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_13716_1,
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R2_65019 {
    #[serde(default)] pub k2_65019_1: (Leaf, Leaf),
    #[serde(rename = "k2_65019_2")] pub renamed1: Vec<Leaf>,
}

impl Abs for R2_65019 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_65019_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_65019_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R3_95521 {
    v3_95521_1,
    #[serde(rename = "v3_95521_2", reindex = 114)] V1,
}

impl Abs for R3_95521 {
    fn to_a(&self) -> A {
        match self {
            Self::v3_95521_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v3_95521_1,
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R3_19287 {
    v3_19287_1,
}

impl Abs for R3_19287 {
    fn to_a(&self) -> A {
        match self {
            Self::v3_19287_1 => A::Var(1, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v3_19287_1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_97504 {
    pub k4_97504_1: R3_95521,
    #[serde(flatten)] pub inner_1: (),
    #[serde(default)] pub k4_97504_3: [Option<Option<Leaf>>; 1],
    pub k4_97504_4: R3_19287,
}

impl Abs for R4_97504 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k4_97504_1.to_a(), self.inner_1.to_a(), self.k4_97504_3.to_a(), self.k4_97504_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k4_97504_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k4_97504_3: Abs::of_a(&v[2]), k4_97504_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_46833 {
    pub k1_46833_1: i32,
    #[serde(rename = "k1_46833_2")] pub renamed1: Leaf,
}

impl Abs for R1_46833 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_46833_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_46833_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R2_88495 {
    #[serde(flatten)] pub inner_0: R1_46833,
}

impl Abs for R2_88495 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_16626 {
    pub k1_16626_1: Even,
    #[serde(rename = "k1_16626_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_16626_3: std::num::NonZeroU16,
}

impl Abs for R1_16626 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_16626_1.to_a(), self.renamed1.to_a(), self.k1_16626_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_16626_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_16626_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_98136 {
    #[serde(flatten)] pub inner_0: (),
    #[serde(rename = "k2_98136_2")] #[serde(default)] pub renamed1: Vec<Leaf>,
    pub k2_98136_3: R1_16626,
}

impl Abs for R2_98136 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_98136_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_98136_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_53631 {
    pub k1_53631_1: std::num::NonZeroU64,
    #[serde(rename = "k1_53631_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_53631_3: u16,
}

impl Abs for R1_53631 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_53631_1.to_a(), self.renamed1.to_a(), self.k1_53631_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_53631_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_53631_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_59531 {
    pub k1_59531_1: std::num::NonZeroI32,
}

impl Abs for R1_59531 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_59531_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_59531_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_79486")]
pub enum R3_79486 {
    P { k3_79486_1: R2_98136, #[serde(rename = "k3_79486_2")] renamed1: (Option<Leaf>, R1_53631) },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x3_79486: Option<R1_59531> },
}

impl Abs for R3_79486 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_79486_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x3_79486: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_79486_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x3_79486: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_59166 {
    pub k1_59166_1: std::num::NonZeroI8,
    #[serde(rename = "k1_59166_2")] pub renamed1: Leaf,
}

impl Abs for R1_59166 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_59166_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_59166_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_67085 {
    pub k1_67085_1: u64,
    #[serde(rename = "k1_67085_2")] pub renamed1: Leaf,
    pub k1_67085_3: Even,
    #[serde(default)] pub k1_67085_4: u8,
}

impl Abs for R1_67085 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_67085_1.to_a(), self.renamed1.to_a(), self.k1_67085_3.to_a(), self.k1_67085_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_67085_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_67085_3: Abs::of_a(&v[2]), k1_67085_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_26613 {
    pub k2_26613_1: R1_59166,
    #[serde(rename = "k2_26613_2")] #[serde(default)] pub renamed1: R1_67085,
    pub k2_26613_3: Option<Even>,
}

impl Abs for R2_26613 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_26613_1.to_a(), self.renamed1.to_a(), self.k2_26613_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_26613_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_26613_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_6036")]
pub enum R1_6036 {
    P { k1_6036_1: f64 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_6036: i16 },
}

impl Abs for R1_6036 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_6036_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_6036: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_6036_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_6036: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_42817")]
pub enum R2_42817 {
    P { #[serde(default)] k2_42817_1: Option<Leaf>, #[serde(rename = "k2_42817_2")] renamed1: Option<Leaf>, k2_42817_3: R1_6036 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_42817: Option<Leaf> },
}

impl Abs for R2_42817 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_42817_1: b0, renamed1: b1, k2_42817_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_42817: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_42817_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_42817_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x2_42817: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_69710 {
    pub k1_69710_1: Leaf,
    #[serde(rename = "k1_69710_2")] pub renamed1: i64,
    pub k1_69710_3: Leaf,
    #[serde(default)] pub k1_69710_4: char,
}

impl Abs for R1_69710 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_69710_1.to_a(), self.renamed1.to_a(), self.k1_69710_3.to_a(), self.k1_69710_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_69710_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_69710_3: Abs::of_a(&v[2]), k1_69710_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t4_70477")]
pub enum R4_70477 {
    P { #[serde(default)] k4_70477_1: Option<R2_26613>, #[serde(rename = "k4_70477_2")] renamed1: Vec<R2_42817> },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x4_70477: [[R1_69710; 3]; 1] },
}

impl Abs for R4_70477 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k4_70477_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x4_70477: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k4_70477_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x4_70477: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_21561")]
pub enum R1_21561 {
    P { #[serde(default)] k1_21561_1: Leaf, #[serde(rename = "k1_21561_2")] #[serde(default)] renamed1: f32 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_21561: Leaf },
}

impl Abs for R1_21561 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_21561_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_21561: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_21561_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_21561: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R2_72864 {
    v2_72864_1,
}

impl Abs for R2_72864 {
    fn to_a(&self) -> A {
        match self {
            Self::v2_72864_1 => A::Var(1, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v2_72864_1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_87129")]
pub enum R1_87129 {
    P { #[serde(default)] k1_87129_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_87129: std::num::NonZeroU16 },
}

impl Abs for R1_87129 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_87129_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_87129: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_87129_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_87129: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_20884 {
    pub k2_20884_1: R1_87129,
}

impl Abs for R2_20884 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_20884_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_20884_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_3375")]
pub enum R3_3375 {
    P { k3_3375_1: R2_20884 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x3_3375: Option<(f64, Leaf)> },
}

impl Abs for R3_3375 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_3375_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x3_3375: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_3375_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x3_3375: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_43450 {
    pub k4_43450_1: R3_3375,
}

impl Abs for R4_43450 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k4_43450_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k4_43450_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_54678 {
    v1_54678_1,
}

impl Abs for R1_54678 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_54678_1 => A::Var(1, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_54678_1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_34441 {
    pub k2_34441_1: R1_54678,
    #[serde(flatten)] pub inner_1: (),
}

impl Abs for R2_34441 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_34441_1.to_a(), self.inner_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_34441_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_30932 {
    pub k1_30932_1: Leaf,
    #[serde(rename = "k1_30932_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_30932_3: bool,
}

impl Abs for R1_30932 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_30932_1.to_a(), self.renamed1.to_a(), self.k1_30932_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_30932_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_30932_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R2_5990 {
    pub k2_5990_1: R1_30932,
    #[serde(flatten)] pub inner_1: (),
}

impl Abs for R2_5990 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_5990_1.to_a(), self.inner_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_5990_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_67937 {
    #[serde(default)] pub k1_67937_1: Leaf,
    #[serde(rename = "k1_67937_2")] pub renamed1: std::num::NonZeroI64,
    pub k1_67937_3: f64,
}

impl Abs for R1_67937 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_67937_1.to_a(), self.renamed1.to_a(), self.k1_67937_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_67937_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_67937_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_63340 {
    pub k1_63340_1: std::num::NonZeroU32,
    #[serde(rename = "k1_63340_2")] pub renamed1: Leaf,
    pub k1_63340_3: Leaf,
}

impl Abs for R1_63340 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_63340_1.to_a(), self.renamed1.to_a(), self.k1_63340_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_63340_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_63340_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_84141 {
    #[serde(default)] pub k1_84141_1: Leaf,
    #[serde(rename = "k1_84141_2")] pub renamed1: std::num::NonZeroU8,
    pub k1_84141_3: Leaf,
}

impl Abs for R1_84141 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_84141_1.to_a(), self.renamed1.to_a(), self.k1_84141_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_84141_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_84141_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_21828")]
pub enum R2_21828 {
    P { #[serde(flatten)] inner_0: R1_63340, #[serde(rename = "k2_21828_2")] #[serde(default)] renamed1: Option<u8>, k2_21828_3: Vec<std::num::NonZeroU16> },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_84141 },
}

impl Abs for R2_21828 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0, renamed1: b1, k2_21828_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_21828_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_25432")]
pub enum R3_25432 {
    P { #[serde(default)] k3_25432_1: R2_5990, #[serde(rename = "k3_25432_2")] renamed1: Option<R1_67937>, #[serde(flatten)] inner_2: R2_21828 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: () },
}

impl Abs for R3_25432 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_25432_1: b0, renamed1: b1, inner_2: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_25432_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_73844 {
    pub k1_73844_1: f32,
    #[serde(rename = "k1_73844_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_73844_3: Leaf,
}

impl Abs for R1_73844 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_73844_1.to_a(), self.renamed1.to_a(), self.k1_73844_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_73844_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_73844_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_69247 {
    pub k1_69247_1: Leaf,
    #[serde(rename = "k1_69247_2")] pub renamed1: std::num::NonZeroI32,
    pub k1_69247_3: f32,
}

impl Abs for R1_69247 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_69247_1.to_a(), self.renamed1.to_a(), self.k1_69247_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_69247_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_69247_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_43875 {
    pub k2_43875_1: R1_69247,
    #[serde(rename = "k2_43875_2")] #[serde(default)] pub renamed1: Option<Leaf>,
    pub k2_43875_3: Vec<i32>,
}

impl Abs for R2_43875 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_43875_1.to_a(), self.renamed1.to_a(), self.k2_43875_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_43875_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_43875_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_85451 {
    #[serde(default)] pub k1_85451_1: Leaf,
    #[serde(rename = "k1_85451_2")] pub renamed1: Leaf,
    pub k1_85451_3: char,
}

impl Abs for R1_85451 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_85451_1.to_a(), self.renamed1.to_a(), self.k1_85451_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_85451_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_85451_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R2_51794 {
    pub k2_51794_1: R1_85451,
    #[serde(rename = "k2_51794_2")] pub renamed1: Option<Leaf>,
}

impl Abs for R2_51794 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_51794_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_51794_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_57293 {
    pub k3_57293_1: Vec<R1_73844>,
    #[serde(rename = "k3_57293_2")] pub renamed1: R2_43875,
    pub k3_57293_3: R2_51794,
}

impl Abs for R3_57293 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_57293_1.to_a(), self.renamed1.to_a(), self.k3_57293_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_57293_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_57293_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_42818 {
    pub k1_42818_1: Leaf,
    #[serde(rename = "k1_42818_2")] pub renamed1: Even,
}

impl Abs for R1_42818 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_42818_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_42818_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_75226 {
    pub k1_75226_1: Leaf,
}

impl Abs for R1_75226 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_75226_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_75226_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_35899")]
pub enum R1_35899 {
    P { #[serde(default)] k1_35899_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_35899: Leaf },
}

impl Abs for R1_35899 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_35899_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_35899: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_35899_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_35899: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_52103")]
pub enum R1_52103 {
    P { #[serde(default)] k1_52103_1: Leaf, #[serde(rename = "k1_52103_2")] renamed1: std::num::NonZeroU64 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_52103: Leaf },
}

impl Abs for R1_52103 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_52103_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_52103: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_52103_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_52103: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_76283")]
pub enum R2_76283 {
    P { k2_76283_1: (std::num::NonZeroI8, std::num::NonZeroU32) },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_52103 },
}

impl Abs for R2_76283 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_76283_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_76283_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_84202 {
    pub k2_84202_1: (std::num::NonZeroI16, Leaf),
}

impl Abs for R2_84202 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_84202_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_84202_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_73131")]
pub enum R3_73131 {
    P { k3_73131_1: Option<R1_35899>, #[serde(flatten)] inner_1: R2_76283, #[serde(flatten)] inner_2: R2_84202 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x3_73131: Vec<Option<i32>> },
}

impl Abs for R3_73131 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_73131_1: b0, inner_1: b1, inner_2: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x3_73131: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_73131_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x3_73131: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_58624")]
pub enum R1_58624 {
    P { k1_58624_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_58624: std::num::NonZeroI8 },
}

impl Abs for R1_58624 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_58624_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_58624: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_58624_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_58624: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_73898 {
    #[serde(default)] pub k2_73898_1: (),
    #[serde(rename = "k2_73898_2")] #[serde(default)] pub renamed1: Vec<std::num::NonZeroU64>,
    pub k2_73898_3: R1_58624,
}

impl Abs for R2_73898 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_73898_1.to_a(), self.renamed1.to_a(), self.k2_73898_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_73898_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_73898_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_95629 {
    pub k1_95629_1: u64,
    #[serde(rename = "k1_95629_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_95629_3: Leaf,
}

impl Abs for R1_95629 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_95629_1.to_a(), self.renamed1.to_a(), self.k1_95629_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_95629_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_95629_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_78094 {
    #[serde(flatten)] pub inner_0: R2_73898,
    #[serde(rename = "k3_78094_2")] #[serde(default)] pub renamed1: (Option<std::num::NonZeroI8>, R1_95629),
    pub k3_78094_3: Vec<Option<std::num::NonZeroI64>>,
}

impl Abs for R3_78094 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k3_78094_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_78094_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t4_16423")]
pub enum R4_16423 {
    P { #[serde(flatten)] inner_0: R3_57293, #[serde(rename = "k4_16423_2")] #[serde(default)] renamed1: (Vec<R1_42818>, Option<R1_75226>), k4_16423_3: R3_73131 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R3_78094 },
}

impl Abs for R4_16423 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0, renamed1: b1, k4_16423_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k4_16423_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_20594")]
pub enum R1_20594 {
    P { #[serde(default)] k1_20594_1: Leaf, #[serde(rename = "k1_20594_2")] renamed1: char },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_20594: char },
}

impl Abs for R1_20594 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_20594_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_20594: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_20594_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_20594: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_56899 {
    #[serde(default)] pub k1_56899_1: Leaf,
    #[serde(rename = "k1_56899_2")] pub renamed1: Leaf,
}

impl Abs for R1_56899 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_56899_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_56899_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_72737")]
pub enum R1_72737 {
    P { k1_72737_1: f64, #[serde(rename = "k1_72737_2")] #[serde(default)] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_72737: i16 },
}

impl Abs for R1_72737 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_72737_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_72737: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_72737_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_72737: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_71829 {
    #[serde(default)] pub k2_71829_1: R1_56899,
    #[serde(rename = "k2_71829_2")] #[serde(default)] pub renamed1: Option<f32>,
    pub k2_71829_3: R1_72737,
}

impl Abs for R2_71829 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_71829_1.to_a(), self.renamed1.to_a(), self.k2_71829_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_71829_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_71829_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_49980")]
pub enum R1_49980 {
    P { k1_49980_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_49980: std::num::NonZeroU32 },
}

impl Abs for R1_49980 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_49980_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_49980: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_49980_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_49980: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_57899 {
    pub k1_57899_1: bool,
    #[serde(rename = "k1_57899_2")] pub renamed1: Leaf,
}

impl Abs for R1_57899 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_57899_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_57899_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_67232 {
    pub k2_67232_1: R1_49980,
    #[serde(rename = "k2_67232_2")] pub renamed1: R1_57899,
    pub k2_67232_3: Option<u32>,
}

impl Abs for R2_67232 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_67232_1.to_a(), self.renamed1.to_a(), self.k2_67232_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_67232_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_67232_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_86985")]
pub enum R1_86985 {
    P { #[serde(default)] k1_86985_1: Leaf, #[serde(rename = "k1_86985_2")] #[serde(default)] renamed1: u64, k1_86985_3: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_86985: Leaf },
}

impl Abs for R1_86985 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_86985_1: b0, renamed1: b1, k1_86985_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_86985: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_86985_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_86985_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_86985: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_3198")]
pub enum R1_3198 {
    P { #[serde(default)] k1_3198_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_3198: Leaf },
}

impl Abs for R1_3198 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_3198_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_3198: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_3198_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_3198: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_19139 {
    #[serde(flatten)] pub inner_0: R2_67232,
    #[serde(rename = "k3_19139_2")] #[serde(default)] pub renamed1: Option<R1_86985>,
    pub k3_19139_3: Option<R1_3198>,
}

impl Abs for R3_19139 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k3_19139_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_19139_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_89387 {
    pub k4_89387_1: Vec<R2_71829>,
    #[serde(rename = "k4_89387_2")] pub renamed1: R3_19139,
}

impl Abs for R4_89387 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k4_89387_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k4_89387_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_62523")]
pub enum R1_62523 {
    P { k1_62523_1: u64, #[serde(rename = "k1_62523_2")] renamed1: Leaf, k1_62523_3: std::num::NonZeroI8 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_62523: Leaf },
}

impl Abs for R1_62523 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_62523_1: b0, renamed1: b1, k1_62523_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_62523: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_62523_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_62523_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_62523: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_70442 {
    v1_70442_1,
    #[serde(rename = "v1_70442_2", reindex = 114)] V1,
    v1_70442_3,
}

impl Abs for R1_70442 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_70442_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_70442_3 => A::Var(3, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_70442_1,
            2 => Self::V1,
            3 => Self::v1_70442_3,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_78361 {
    pub k1_78361_1: std::num::NonZeroI32,
    #[serde(rename = "k1_78361_2")] #[serde(default)] pub renamed1: Leaf,
    #[serde(default)] pub k1_78361_3: Leaf,
}

impl Abs for R1_78361 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_78361_1.to_a(), self.renamed1.to_a(), self.k1_78361_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_78361_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_78361_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_80378 {
    pub k2_80378_1: R1_62523,
    #[serde(rename = "k2_80378_2")] pub renamed1: R1_70442,
    #[serde(flatten)] pub inner_2: R1_78361,
}

impl Abs for R2_80378 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_80378_1.to_a(), self.renamed1.to_a(), self.inner_2.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_80378_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R2_13835 {
    v2_13835_1,
    #[serde(rename = "v2_13835_2", reindex = 114)] V1,
    v2_13835_3,
    v2_13835_4,
    #[serde(rename = "v2_13835_5", reindex = 135)] V4,
}

impl Abs for R2_13835 {
    fn to_a(&self) -> A {
        match self {
            Self::v2_13835_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v2_13835_3 => A::Var(3, vec![]),
            Self::v2_13835_4 => A::Var(4, vec![]),
            Self::V4 => A::Var(5, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v2_13835_1,
            2 => Self::V1,
            3 => Self::v2_13835_3,
            4 => Self::v2_13835_4,
            5 => Self::V4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_77280 {
    v1_77280_1,
    #[serde(rename = "v1_77280_2", reindex = 114)] V1,
    v1_77280_3,
}

impl Abs for R1_77280 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_77280_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_77280_3 => A::Var(3, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_77280_1,
            2 => Self::V1,
            3 => Self::v1_77280_3,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_85199 {
    pub k1_85199_1: std::num::NonZeroU64,
    #[serde(rename = "k1_85199_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_85199_3: u8,
}

impl Abs for R1_85199 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_85199_1.to_a(), self.renamed1.to_a(), self.k1_85199_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_85199_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_85199_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_21754 {
    pub k2_21754_1: R1_77280,
    #[serde(rename = "k2_21754_2")] pub renamed1: R1_85199,
}

impl Abs for R2_21754 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_21754_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_21754_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_6946")]
pub enum R1_6946 {
    P { #[serde(default)] k1_6946_1: Leaf, #[serde(rename = "k1_6946_2")] renamed1: std::num::NonZeroI64 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_6946: Leaf },
}

impl Abs for R1_6946 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_6946_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_6946: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_6946_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_6946: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_14865 {
    pub k1_14865_1: Leaf,
}

impl Abs for R1_14865 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_14865_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_14865_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_34636 {
    pub k2_34636_1: Option<i16>,
    #[serde(flatten)] pub inner_1: R1_6946,
    #[serde(default)] pub k2_34636_3: R1_14865,
    pub k2_34636_4: Option<Leaf>,
}

impl Abs for R2_34636 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_34636_1.to_a(), self.inner_1.to_a(), self.k2_34636_3.to_a(), self.k2_34636_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_34636_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k2_34636_3: Abs::of_a(&v[2]), k2_34636_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_71369")]
pub enum R3_71369 {
    P { k3_71369_1: R2_13835, #[serde(rename = "k3_71369_2")] renamed1: R2_21754 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R2_34636 },
}

impl Abs for R3_71369 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_71369_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_71369_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R2_4051 {
    v2_4051_1,
    #[serde(rename = "v2_4051_2", reindex = 114)] V1,
    v2_4051_3,
}

impl Abs for R2_4051 {
    fn to_a(&self) -> A {
        match self {
            Self::v2_4051_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v2_4051_3 => A::Var(3, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v2_4051_1,
            2 => Self::V1,
            3 => Self::v2_4051_3,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_85939 {
    pub k3_85939_1: R2_4051,
}

impl Abs for R3_85939 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_85939_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_85939_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_37251 {
    pub k1_37251_1: bool,
    #[serde(rename = "k1_37251_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_37251_3: Leaf,
}

impl Abs for R1_37251 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_37251_1.to_a(), self.renamed1.to_a(), self.k1_37251_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_37251_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_37251_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_34900 {
    #[serde(default)] pub k1_34900_1: bool,
    #[serde(rename = "k1_34900_2")] pub renamed1: Leaf,
}

impl Abs for R1_34900 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_34900_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_34900_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R2_18186 {
    v2_18186_1,
}

impl Abs for R2_18186 {
    fn to_a(&self) -> A {
        match self {
            Self::v2_18186_1 => A::Var(1, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v2_18186_1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_35333 {
    #[serde(default)] pub k4_35333_1: (),
    #[serde(rename = "k4_35333_2")] pub renamed1: [R2_18186; 1],
}

impl Abs for R4_35333 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k4_35333_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k4_35333_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_78287")]
pub enum R1_78287 {
    P { k1_78287_1: std::num::NonZeroI16, #[serde(rename = "k1_78287_2")] #[serde(default)] renamed1: u16 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_78287: u16 },
}

impl Abs for R1_78287 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_78287_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_78287: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_78287_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_78287: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_86206 {
    pub k1_86206_1: Leaf,
    #[serde(rename = "k1_86206_2")] pub renamed1: std::num::NonZeroU64,
}

impl Abs for R1_86206 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_86206_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_86206_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_26324 {
    pub k2_26324_1: Option<std::num::NonZeroI8>,
    #[serde(rename = "k2_26324_2")] pub renamed1: R1_78287,
    pub k2_26324_3: R1_86206,
}

impl Abs for R2_26324 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_26324_1.to_a(), self.renamed1.to_a(), self.k2_26324_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_26324_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_26324_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_37090")]
pub enum R1_37090 {
    P { k1_37090_1: Leaf, #[serde(rename = "k1_37090_2")] #[serde(default)] renamed1: u16, #[serde(default)] k1_37090_3: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_37090: Leaf },
}

impl Abs for R1_37090 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_37090_1: b0, renamed1: b1, k1_37090_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_37090: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_37090_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_37090_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_37090: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_45009 {
    #[serde(default)] pub k1_45009_1: Leaf,
    #[serde(rename = "k1_45009_2")] pub renamed1: std::num::NonZeroU16,
    pub k1_45009_3: String,
}

impl Abs for R1_45009 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_45009_1.to_a(), self.renamed1.to_a(), self.k1_45009_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_45009_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_45009_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_42481")]
pub enum R2_42481 {
    P { k2_42481_1: Option<Leaf>, #[serde(rename = "k2_42481_2")] renamed1: R1_37090, #[serde(flatten)] inner_2: R1_45009 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_42481: [std::num::NonZeroU16; 3] },
}

impl Abs for R2_42481 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_42481_1: b0, renamed1: b1, inner_2: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_42481: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_42481_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x2_42481: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_6433")]
pub enum R1_6433 {
    P { k1_6433_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_6433: Leaf },
}

impl Abs for R1_6433 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_6433_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_6433: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_6433_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_6433: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_27234")]
pub enum R1_27234 {
    P { #[serde(default)] k1_27234_1: i64, #[serde(rename = "k1_27234_2")] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_27234: std::num::NonZeroU16 },
}

impl Abs for R1_27234 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_27234_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_27234: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_27234_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_27234: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_34195")]
pub enum R2_34195 {
    P { k2_34195_1: R1_6433 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_27234 },
}

impl Abs for R2_34195 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_34195_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_34195_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_22637")]
pub enum R1_22637 {
    P { k1_22637_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_22637: Leaf },
}

impl Abs for R1_22637 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_22637_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_22637: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_22637_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_22637: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_42114 {
    #[serde(flatten)] pub inner_0: R1_22637,
}

impl Abs for R2_42114 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_59642")]
pub enum R1_59642 {
    P { k1_59642_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_59642: Leaf },
}

impl Abs for R1_59642 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_59642_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_59642: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_59642_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_59642: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_62964 {
    v1_62964_1,
    #[serde(rename = "v1_62964_2", reindex = 114)] V1,
    v1_62964_3,
    v1_62964_4,
}

impl Abs for R1_62964 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_62964_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_62964_3 => A::Var(3, vec![]),
            Self::v1_62964_4 => A::Var(4, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_62964_1,
            2 => Self::V1,
            3 => Self::v1_62964_3,
            4 => Self::v1_62964_4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_70883 {
    #[serde(default)] pub k1_70883_1: Leaf,
    #[serde(rename = "k1_70883_2")] #[serde(default)] pub renamed1: i16,
    pub k1_70883_3: Leaf,
}

impl Abs for R1_70883 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_70883_1.to_a(), self.renamed1.to_a(), self.k1_70883_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_70883_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_70883_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_75846")]
pub enum R1_75846 {
    P { k1_75846_1: Leaf, #[serde(rename = "k1_75846_2")] renamed1: i8, k1_75846_3: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_75846: Leaf },
}

impl Abs for R1_75846 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_75846_1: b0, renamed1: b1, k1_75846_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_75846: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_75846_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_75846_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_75846: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_57952")]
pub enum R2_57952 {
    P { k2_57952_1: [std::num::NonZeroI64; 2], #[serde(rename = "k2_57952_2")] renamed1: R1_62964, #[serde(flatten)] inner_2: R1_70883 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_75846 },
}

impl Abs for R2_57952 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_57952_1: b0, renamed1: b1, inner_2: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_57952_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_93784 {
    #[serde(flatten)] pub inner_0: R2_34195,
    #[serde(rename = "k3_93784_2")] pub renamed1: R2_42114,
    #[serde(default)] pub k3_93784_3: Option<R1_59642>,
    pub k3_93784_4: R2_57952,
}

impl Abs for R3_93784 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k3_93784_3.to_a(), self.k3_93784_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_93784_3: Abs::of_a(&v[2]), k3_93784_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_45096 {
    pub k1_45096_1: Leaf,
}

impl Abs for R1_45096 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_45096_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_45096_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_6301 {
    pub k1_6301_1: Leaf,
}

impl Abs for R1_6301 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_6301_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_6301_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_22139")]
pub enum R1_22139 {
    P { #[serde(default)] k1_22139_1: Leaf, #[serde(rename = "k1_22139_2")] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_22139: std::num::NonZeroU32 },
}

impl Abs for R1_22139 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_22139_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_22139: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_22139_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_22139: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_75598 {
    #[serde(flatten)] pub inner_0: R1_6301,
    #[serde(rename = "k2_75598_2")] #[serde(default)] pub renamed1: Option<Leaf>,
    pub k2_75598_3: R1_22139,
}

impl Abs for R2_75598 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_75598_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_75598_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_90279 {
    pub k3_90279_1: R2_75598,
    #[serde(rename = "k3_90279_2")] pub renamed1: Option<Option<std::num::NonZeroU64>>,
}

impl Abs for R3_90279 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_90279_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_90279_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_3405 {
    pub k1_3405_1: f64,
    #[serde(rename = "k1_3405_2")] #[serde(default)] pub renamed1: bool,
    #[serde(default)] pub k1_3405_3: Leaf,
    pub k1_3405_4: u32,
}

impl Abs for R1_3405 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_3405_1.to_a(), self.renamed1.to_a(), self.k1_3405_3.to_a(), self.k1_3405_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_3405_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_3405_3: Abs::of_a(&v[2]), k1_3405_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R3_26910 {
    pub k3_26910_1: [R1_3405; 2],
}

impl Abs for R3_26910 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_26910_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_26910_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_51569")]
pub enum R1_51569 {
    P { k1_51569_1: std::num::NonZeroI32, #[serde(rename = "k1_51569_2")] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_51569: f32 },
}

impl Abs for R1_51569 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_51569_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_51569: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_51569_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_51569: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_59488 {
    pub k1_59488_1: f64,
}

impl Abs for R1_59488 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_59488_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_59488_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_72370 {
    #[serde(default)] pub k1_72370_1: Leaf,
    #[serde(rename = "k1_72370_2")] pub renamed1: std::num::NonZeroI8,
}

impl Abs for R1_72370 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_72370_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_72370_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_48330")]
pub enum R2_48330 {
    P { k2_48330_1: R1_51569, #[serde(flatten)] inner_1: R1_59488 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_72370 },
}

impl Abs for R2_48330 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_48330_1: b0, inner_1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_48330_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_65451")]
pub enum R1_65451 {
    P { k1_65451_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_65451: Leaf },
}

impl Abs for R1_65451 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_65451_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_65451: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_65451_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_65451: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_42748")]
pub enum R3_42748 {
    P { k3_42748_1: [R1_65451; 3] },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x3_42748: [(); 1] },
}

impl Abs for R3_42748 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_42748_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x3_42748: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_42748_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x3_42748: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_81270 {
    #[serde(default)] pub k4_81270_1: R3_26910,
    #[serde(rename = "k4_81270_2")] #[serde(default)] pub renamed1: Option<R2_48330>,
    pub k4_81270_3: R3_42748,
}

impl Abs for R4_81270 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k4_81270_1.to_a(), self.renamed1.to_a(), self.k4_81270_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k4_81270_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k4_81270_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_94051 {
    v1_94051_1,
    #[serde(rename = "v1_94051_2", reindex = 114)] V1,
    v1_94051_3,
    v1_94051_4,
    #[serde(rename = "v1_94051_5", reindex = 135)] V4,
}

impl Abs for R1_94051 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_94051_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_94051_3 => A::Var(3, vec![]),
            Self::v1_94051_4 => A::Var(4, vec![]),
            Self::V4 => A::Var(5, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_94051_1,
            2 => Self::V1,
            3 => Self::v1_94051_3,
            4 => Self::v1_94051_4,
            5 => Self::V4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_72261")]
pub enum R2_72261 {
    P { #[serde(flatten)] inner_0: (), #[serde(rename = "k2_72261_2")] renamed1: [Leaf; 3], k2_72261_3: R1_94051 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_72261: (String, std::num::NonZeroU8) },
}

impl Abs for R2_72261 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0, renamed1: b1, k2_72261_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_72261: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_72261_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x2_72261: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_64339")]
pub enum R2_64339 {
    P { k2_64339_1: (Leaf, f64) },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_64339: (Leaf, Leaf) },
}

impl Abs for R2_64339 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_64339_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_64339: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_64339_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x2_64339: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_76194 {
    pub k1_76194_1: Leaf,
}

impl Abs for R1_76194 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_76194_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_76194_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_85140")]
pub enum R2_85140 {
    P { #[serde(flatten)] inner_0: R1_76194, #[serde(rename = "k2_85140_2")] #[serde(default)] renamed1: Option<Leaf> },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_85140: Option<Even> },
}

impl Abs for R2_85140 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_85140: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x2_85140: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_1638")]
pub enum R3_1638 {
    P { k3_1638_1: R2_64339 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R2_85140 },
}

impl Abs for R3_1638 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_1638_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_1638_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_36445 {
    #[serde(default)] pub k1_36445_1: Leaf,
    #[serde(rename = "k1_36445_2")] pub renamed1: i16,
}

impl Abs for R1_36445 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_36445_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_36445_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_83443")]
pub enum R2_83443 {
    P { #[serde(flatten)] inner_0: R1_36445 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: () },
}

impl Abs for R2_83443 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_52649 {
    pub k1_52649_1: Leaf,
    #[serde(rename = "k1_52649_2")] pub renamed1: i32,
}

impl Abs for R1_52649 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_52649_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_52649_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_60568 {
    pub k1_60568_1: Leaf,
}

impl Abs for R1_60568 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_60568_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_60568_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_76406")]
pub enum R1_76406 {
    P { #[serde(default)] k1_76406_1: String },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_76406: i64 },
}

impl Abs for R1_76406 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_76406_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_76406: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_76406_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_76406: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_91362 {
    #[serde(flatten)] pub inner_0: R1_52649,
    #[serde(flatten)] pub inner_1: R1_60568,
    #[serde(default)] pub k2_91362_3: Option<char>,
    pub k2_91362_4: R1_76406,
}

impl Abs for R2_91362 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.inner_1.to_a(), self.k2_91362_3.to_a(), self.k2_91362_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k2_91362_3: Abs::of_a(&v[2]), k2_91362_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_89654 {
    pub k1_89654_1: Leaf,
    #[serde(rename = "k1_89654_2")] pub renamed1: String,
}

impl Abs for R1_89654 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_89654_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_89654_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_36225 {
    pub k3_36225_1: R2_83443,
    #[serde(rename = "k3_36225_2")] pub renamed1: R2_91362,
    pub k3_36225_3: Option<R1_89654>,
}

impl Abs for R3_36225 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_36225_1.to_a(), self.renamed1.to_a(), self.k3_36225_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_36225_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_36225_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_35224 {
    v1_35224_1,
    #[serde(rename = "v1_35224_2", reindex = 114)] V1,
    v1_35224_3,
}

impl Abs for R1_35224 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_35224_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_35224_3 => A::Var(3, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_35224_1,
            2 => Self::V1,
            3 => Self::v1_35224_3,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_30627")]
pub enum R1_30627 {
    P { k1_30627_1: std::num::NonZeroI64 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_30627: Leaf },
}

impl Abs for R1_30627 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_30627_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_30627: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_30627_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_30627: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_51428")]
pub enum R1_51428 {
    P { k1_51428_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_51428: Leaf },
}

impl Abs for R1_51428 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_51428_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_51428: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_51428_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_51428: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_49388")]
pub enum R2_49388 {
    P { k2_49388_1: R1_30627 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_51428 },
}

impl Abs for R2_49388 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_49388_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_49388_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R2_57307 {
    pub k2_57307_1: Option<String>,
}

impl Abs for R2_57307 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_57307_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_57307_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_34755 {
    #[serde(default)] pub k3_34755_1: Option<R1_35224>,
    #[serde(rename = "k3_34755_2")] pub renamed1: R2_49388,
    pub k3_34755_3: R2_57307,
}

impl Abs for R3_34755 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_34755_1.to_a(), self.renamed1.to_a(), self.k3_34755_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_34755_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_34755_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_4198")]
pub enum R1_4198 {
    P { k1_4198_1: std::num::NonZeroI8, #[serde(rename = "k1_4198_2")] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_4198: Leaf },
}

impl Abs for R1_4198 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_4198_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_4198: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_4198_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_4198: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_35221 {
    pub k1_35221_1: Leaf,
    #[serde(rename = "k1_35221_2")] pub renamed1: std::num::NonZeroI16,
}

impl Abs for R1_35221 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_35221_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_35221_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_44506")]
pub enum R1_44506 {
    P { #[serde(default)] k1_44506_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_44506: Leaf },
}

impl Abs for R1_44506 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_44506_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_44506: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_44506_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_44506: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R2_5928 {
    v2_5928_1,
}

impl Abs for R2_5928 {
    fn to_a(&self) -> A {
        match self {
            Self::v2_5928_1 => A::Var(1, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v2_5928_1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_82082 {
    pub k1_82082_1: Leaf,
    #[serde(rename = "k1_82082_2")] #[serde(default)] pub renamed1: char,
    pub k1_82082_3: i32,
    pub k1_82082_4: Leaf,
}

impl Abs for R1_82082 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_82082_1.to_a(), self.renamed1.to_a(), self.k1_82082_3.to_a(), self.k1_82082_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_82082_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_82082_3: Abs::of_a(&v[2]), k1_82082_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_58512")]
pub enum R3_58512 {
    P { #[serde(flatten)] inner_0: (), #[serde(rename = "k3_58512_2")] renamed1: [R1_44506; 2], k3_58512_3: R2_5928 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x3_58512: ((), R1_82082) },
}

impl Abs for R3_58512 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0, renamed1: b1, k3_58512_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x3_58512: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_58512_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x3_58512: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_27216 {
    #[serde(flatten)] pub inner_0: R3_34755,
    #[serde(rename = "k4_27216_2")] #[serde(default)] pub renamed1: Option<Option<R1_4198>>,
    #[serde(default)] pub k4_27216_3: Option<(R1_35221, Vec<Leaf>)>,
    pub k4_27216_4: R3_58512,
}

impl Abs for R4_27216 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k4_27216_3.to_a(), self.k4_27216_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k4_27216_3: Abs::of_a(&v[2]), k4_27216_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_6868 {
    pub k1_6868_1: Leaf,
    #[serde(rename = "k1_6868_2")] pub renamed1: i32,
    pub k1_6868_3: Leaf,
    #[serde(default)] pub k1_6868_4: f64,
}

impl Abs for R1_6868 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_6868_1.to_a(), self.renamed1.to_a(), self.k1_6868_3.to_a(), self.k1_6868_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_6868_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_6868_3: Abs::of_a(&v[2]), k1_6868_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_55823 {
    pub k1_55823_1: Leaf,
    #[serde(rename = "k1_55823_2")] #[serde(default)] pub renamed1: String,
    pub k1_55823_3: Leaf,
}

impl Abs for R1_55823 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_55823_1.to_a(), self.renamed1.to_a(), self.k1_55823_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_55823_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_55823_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R2_91171 {
    #[serde(default)] pub k2_91171_1: [i32; 2],
    #[serde(rename = "k2_91171_2")] pub renamed1: Vec<Leaf>,
    pub k2_91171_3: R1_55823,
}

impl Abs for R2_91171 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_91171_1.to_a(), self.renamed1.to_a(), self.k2_91171_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_91171_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_91171_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_66589 {
    v1_66589_1,
    #[serde(rename = "v1_66589_2", reindex = 114)] V1,
    v1_66589_3,
    v1_66589_4,
}

impl Abs for R1_66589 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_66589_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_66589_3 => A::Var(3, vec![]),
            Self::v1_66589_4 => A::Var(4, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_66589_1,
            2 => Self::V1,
            3 => Self::v1_66589_3,
            4 => Self::v1_66589_4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_87390 {
    pub k1_87390_1: u8,
    #[serde(rename = "k1_87390_2")] pub renamed1: Leaf,
    #[serde(default)] pub k1_87390_3: char,
    pub k1_87390_4: i32,
}

impl Abs for R1_87390 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_87390_1.to_a(), self.renamed1.to_a(), self.k1_87390_3.to_a(), self.k1_87390_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_87390_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_87390_3: Abs::of_a(&v[2]), k1_87390_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_91288")]
pub enum R2_91288 {
    P { k2_91288_1: R1_66589 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_87390 },
}

impl Abs for R2_91288 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_91288_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_91288_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_82793")]
pub enum R1_82793 {
    P { k1_82793_1: Leaf, #[serde(rename = "k1_82793_2")] #[serde(default)] renamed1: Even },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_82793: Leaf },
}

impl Abs for R1_82793 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_82793_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_82793: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_82793_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_82793: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_90712 {
    #[serde(default)] pub k1_90712_1: Leaf,
    #[serde(rename = "k1_90712_2")] pub renamed1: u32,
}

impl Abs for R1_90712 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_90712_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_90712_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_3603 {
    pub k1_3603_1: u16,
    #[serde(rename = "k1_3603_2")] pub renamed1: std::num::NonZeroU32,
    pub k1_3603_3: Leaf,
    pub k1_3603_4: u8,
}

impl Abs for R1_3603 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_3603_1.to_a(), self.renamed1.to_a(), self.k1_3603_3.to_a(), self.k1_3603_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_3603_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_3603_3: Abs::of_a(&v[2]), k1_3603_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_99207")]
pub enum R2_99207 {
    P { k2_99207_1: R1_82793, #[serde(rename = "k2_99207_2")] renamed1: R1_90712, k2_99207_3: Option<std::num::NonZeroU64> },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_3603 },
}

impl Abs for R2_99207 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_99207_1: b0, renamed1: b1, k2_99207_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_99207_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_99207_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_98997")]
pub enum R1_98997 {
    P { k1_98997_1: Leaf, #[serde(rename = "k1_98997_2")] #[serde(default)] renamed1: Leaf, k1_98997_3: u64 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_98997: Leaf },
}

impl Abs for R1_98997 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_98997_1: b0, renamed1: b1, k1_98997_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_98997: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_98997_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_98997_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_98997: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_7135 {
    #[serde(flatten)] pub inner_0: R1_98997,
}

impl Abs for R2_7135 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_82162 {
    #[serde(flatten)] pub inner_0: R2_91288,
    #[serde(rename = "k3_82162_2")] pub renamed1: R2_99207,
    pub k3_82162_3: R2_7135,
}

impl Abs for R3_82162 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k3_82162_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_82162_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R4_73153 {
    v4_73153_1,
    #[serde(rename = "v4_73153_2", reindex = 114)] V1,
    v4_73153_3,
    v4_73153_4,
    #[serde(rename = "v4_73153_5", reindex = 135)] V4,
}

impl Abs for R4_73153 {
    fn to_a(&self) -> A {
        match self {
            Self::v4_73153_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v4_73153_3 => A::Var(3, vec![]),
            Self::v4_73153_4 => A::Var(4, vec![]),
            Self::V4 => A::Var(5, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v4_73153_1,
            2 => Self::V1,
            3 => Self::v4_73153_3,
            4 => Self::v4_73153_4,
            5 => Self::V4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_14713 {
    #[serde(default)] pub k1_14713_1: Leaf,
    #[serde(rename = "k1_14713_2")] pub renamed1: std::num::NonZeroI64,
    pub k1_14713_3: Leaf,
}

impl Abs for R1_14713 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_14713_1.to_a(), self.renamed1.to_a(), self.k1_14713_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_14713_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_14713_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_19612")]
pub enum R1_19612 {
    P { k1_19612_1: f32 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_19612: i8 },
}

impl Abs for R1_19612 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_19612_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_19612: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_19612_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_19612: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_27531 {
    pub k1_27531_1: i8,
    #[serde(rename = "k1_27531_2")] pub renamed1: Leaf,
    #[serde(default)] pub k1_27531_3: Leaf,
    pub k1_27531_4: std::num::NonZeroU64,
}

impl Abs for R1_27531 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_27531_1.to_a(), self.renamed1.to_a(), self.k1_27531_3.to_a(), self.k1_27531_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_27531_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_27531_3: Abs::of_a(&v[2]), k1_27531_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_43369")]
pub enum R1_43369 {
    P { k1_43369_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_43369: Leaf },
}

impl Abs for R1_43369 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_43369_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_43369: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_43369_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_43369: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_66016 {
    #[serde(flatten)] pub inner_0: R1_19612,
    #[serde(flatten)] pub inner_1: R1_27531,
    #[serde(default)] pub k2_66016_3: Option<Leaf>,
    pub k2_66016_4: R1_43369,
}

impl Abs for R2_66016 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.inner_1.to_a(), self.k2_66016_3.to_a(), self.k2_66016_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k2_66016_3: Abs::of_a(&v[2]), k2_66016_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_59939 {
    pub k1_59939_1: Leaf,
    #[serde(rename = "k1_59939_2")] pub renamed1: std::num::NonZeroU16,
    #[serde(default)] pub k1_59939_3: Leaf,
}

impl Abs for R1_59939 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_59939_1.to_a(), self.renamed1.to_a(), self.k1_59939_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_59939_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_59939_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_72821 {
    v1_72821_1,
    #[serde(rename = "v1_72821_2", reindex = 114)] V1,
    v1_72821_3,
    v1_72821_4,
}

impl Abs for R1_72821 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_72821_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_72821_3 => A::Var(3, vec![]),
            Self::v1_72821_4 => A::Var(4, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_72821_1,
            2 => Self::V1,
            3 => Self::v1_72821_3,
            4 => Self::v1_72821_4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_81854")]
pub enum R2_81854 {
    P { k2_81854_1: Vec<i64>, #[serde(rename = "k2_81854_2")] renamed1: R1_59939, #[serde(flatten)] inner_2: () },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_81854: R1_72821 },
}

impl Abs for R2_81854 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_81854_1: b0, renamed1: b1, inner_2: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_81854: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_81854_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x2_81854: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_47830 {
    pub k1_47830_1: Leaf,
    #[serde(rename = "k1_47830_2")] pub renamed1: std::num::NonZeroI32,
    #[serde(default)] pub k1_47830_3: Leaf,
    pub k1_47830_4: Leaf,
}

impl Abs for R1_47830 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_47830_1.to_a(), self.renamed1.to_a(), self.k1_47830_3.to_a(), self.k1_47830_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_47830_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_47830_3: Abs::of_a(&v[2]), k1_47830_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_63668")]
pub enum R1_63668 {
    P { k1_63668_1: Leaf, #[serde(rename = "k1_63668_2")] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_63668: i16 },
}

impl Abs for R1_63668 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_63668_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_63668: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_63668_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_63668: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_71587 {
    pub k1_71587_1: i32,
    #[serde(rename = "k1_71587_2")] pub renamed1: Leaf,
    #[serde(default)] pub k1_71587_3: f32,
    pub k1_71587_4: Leaf,
}

impl Abs for R1_71587 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_71587_1.to_a(), self.renamed1.to_a(), self.k1_71587_3.to_a(), self.k1_71587_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_71587_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_71587_3: Abs::of_a(&v[2]), k1_71587_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_37117 {
    #[serde(flatten)] pub inner_0: R1_47830,
    #[serde(rename = "k2_37117_2")] pub renamed1: (Leaf, std::num::NonZeroI16),
    pub k2_37117_3: R1_63668,
    pub k2_37117_4: R1_71587,
}

impl Abs for R2_37117 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_37117_3.to_a(), self.k2_37117_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_37117_3: Abs::of_a(&v[2]), k2_37117_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R3_28108 {
    v3_28108_1,
    #[serde(rename = "v3_28108_2", reindex = 114)] V1,
}

impl Abs for R3_28108 {
    fn to_a(&self) -> A {
        match self {
            Self::v3_28108_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v3_28108_1,
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_17012")]
pub enum R1_17012 {
    P { #[serde(default)] k1_17012_1: bool, #[serde(rename = "k1_17012_2")] renamed1: Leaf, k1_17012_3: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_17012: std::num::NonZeroI16 },
}

impl Abs for R1_17012 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_17012_1: b0, renamed1: b1, k1_17012_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_17012: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_17012_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_17012_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_17012: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_17970 {
    pub k2_17970_1: Option<bool>,
    #[serde(rename = "k2_17970_2")] pub renamed1: R1_17012,
}

impl Abs for R2_17970 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_17970_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_17970_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_58364")]
pub enum R3_58364 {
    P { k3_58364_1: R2_17970, #[serde(rename = "k3_58364_2")] renamed1: Option<Option<Leaf>> },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: () },
}

impl Abs for R3_58364 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_58364_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_58364_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_40116")]
pub enum R1_40116 {
    P { k1_40116_1: Leaf, #[serde(rename = "k1_40116_2")] #[serde(default)] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_40116: Leaf },
}

impl Abs for R1_40116 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_40116_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_40116: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_40116_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_40116: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_48035 {
    #[serde(default)] pub k1_48035_1: char,
    #[serde(rename = "k1_48035_2")] pub renamed1: Leaf,
}

impl Abs for R1_48035 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_48035_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_48035_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_34174 {
    pub k2_34174_1: R1_40116,
    #[serde(flatten)] pub inner_1: R1_48035,
}

impl Abs for R2_34174 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_34174_1.to_a(), self.inner_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_34174_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_66283 {
    #[serde(flatten)] pub inner_0: R2_34174,
}

impl Abs for R3_66283 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_39708")]
pub enum R2_39708 {
    P { #[serde(flatten)] inner_0: () },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_39708: (Leaf, Leaf) },
}

impl Abs for R2_39708 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_39708: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x2_39708: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_99846 {
    v1_99846_1,
    #[serde(rename = "v1_99846_2", reindex = 114)] V1,
    v1_99846_3,
}

impl Abs for R1_99846 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_99846_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_99846_3 => A::Var(3, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_99846_1,
            2 => Self::V1,
            3 => Self::v1_99846_3,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_47627 {
    #[serde(flatten)] pub inner_0: (),
    #[serde(rename = "k2_47627_2")] pub renamed1: [std::num::NonZeroU64; 1],
    pub k2_47627_3: R1_99846,
}

impl Abs for R2_47627 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_47627_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_47627_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_5755 {
    pub k1_5755_1: Leaf,
}

impl Abs for R1_5755 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_5755_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_5755_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_13674 {
    pub k1_13674_1: f32,
    #[serde(rename = "k1_13674_2")] pub renamed1: Leaf,
    pub k1_13674_3: std::num::NonZeroI16,
    #[serde(default)] pub k1_13674_4: Leaf,
}

impl Abs for R1_13674 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_13674_1.to_a(), self.renamed1.to_a(), self.k1_13674_3.to_a(), self.k1_13674_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_13674_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_13674_3: Abs::of_a(&v[2]), k1_13674_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_26556 {
    pub k1_26556_1: i8,
}

impl Abs for R1_26556 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_26556_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_26556_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_60509")]
pub enum R2_60509 {
    P { k2_60509_1: R1_5755, #[serde(flatten)] inner_1: R1_13674, k2_60509_3: Option<Leaf> },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_26556 },
}

impl Abs for R2_60509 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_60509_1: b0, inner_1: b1, k2_60509_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_60509_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k2_60509_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_71246")]
pub enum R3_71246 {
    P { #[serde(flatten)] inner_0: R2_39708, #[serde(rename = "k3_71246_2")] renamed1: R2_47627 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R2_60509 },
}

impl Abs for R3_71246 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t4_19099")]
pub enum R4_19099 {
    P { k4_19099_1: Option<()>, #[serde(flatten)] inner_1: R3_58364, #[serde(flatten)] inner_2: R3_66283 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R3_71246 },
}

impl Abs for R4_19099 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k4_19099_1: b0, inner_1: b1, inner_2: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k4_19099_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_22558")]
pub enum R1_22558 {
    P { k1_22558_1: Leaf, #[serde(rename = "k1_22558_2")] renamed1: Leaf, k1_22558_3: bool },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_22558: u64 },
}

impl Abs for R1_22558 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_22558_1: b0, renamed1: b1, k1_22558_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_22558: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_22558_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_22558_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_22558: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_49756")]
pub enum R1_49756 {
    P { k1_49756_1: std::num::NonZeroU16, #[serde(rename = "k1_49756_2")] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_49756: String },
}

impl Abs for R1_49756 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_49756_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_49756: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_49756_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_49756: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_57675 {
    pub k1_57675_1: Leaf,
    #[serde(rename = "k1_57675_2")] pub renamed1: Leaf,
}

impl Abs for R1_57675 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_57675_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_57675_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_65594 {
    pub k1_65594_1: Leaf,
    #[serde(rename = "k1_65594_2")] pub renamed1: std::num::NonZeroU8,
    #[serde(default)] pub k1_65594_3: Leaf,
    #[serde(default)] pub k1_65594_4: i32,
}

impl Abs for R1_65594 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_65594_1.to_a(), self.renamed1.to_a(), self.k1_65594_3.to_a(), self.k1_65594_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_65594_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_65594_3: Abs::of_a(&v[2]), k1_65594_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_73861 {
    pub k2_73861_1: R1_49756,
    #[serde(rename = "k2_73861_2")] pub renamed1: R1_57675,
    pub k2_73861_3: R1_65594,
}

impl Abs for R2_73861 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_73861_1.to_a(), self.renamed1.to_a(), self.k2_73861_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_73861_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_73861_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_2974")]
pub enum R1_2974 {
    P { #[serde(default)] k1_2974_1: u32 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_2974: std::num::NonZeroU64 },
}

impl Abs for R1_2974 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_2974_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_2974: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_2974_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_2974: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R3_4372 {
    v3_4372_1,
    #[serde(rename = "v3_4372_2", reindex = 114)] V1,
    v3_4372_3,
    v3_4372_4,
    #[serde(rename = "v3_4372_5", reindex = 135)] V4,
}

impl Abs for R3_4372 {
    fn to_a(&self) -> A {
        match self {
            Self::v3_4372_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v3_4372_3 => A::Var(3, vec![]),
            Self::v3_4372_4 => A::Var(4, vec![]),
            Self::V4 => A::Var(5, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v3_4372_1,
            2 => Self::V1,
            3 => Self::v3_4372_3,
            4 => Self::v3_4372_4,
            5 => Self::V4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_95799 {
    v1_95799_1,
    #[serde(rename = "v1_95799_2", reindex = 114)] V1,
}

impl Abs for R1_95799 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_95799_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_95799_1,
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_91202")]
pub enum R1_91202 {
    P { k1_91202_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_91202: Leaf },
}

impl Abs for R1_91202 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_91202_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_91202: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_91202_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_91202: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_12012 {
    pub k1_12012_1: Leaf,
    #[serde(rename = "k1_12012_2")] #[serde(default)] pub renamed1: u8,
    #[serde(default)] pub k1_12012_3: Leaf,
    pub k1_12012_4: f64,
}

impl Abs for R1_12012 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_12012_1.to_a(), self.renamed1.to_a(), self.k1_12012_3.to_a(), self.k1_12012_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_12012_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_12012_3: Abs::of_a(&v[2]), k1_12012_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_40961")]
pub enum R2_40961 {
    P { #[serde(flatten)] inner_0: R1_91202 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_12012 },
}

impl Abs for R2_40961 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_7415")]
pub enum R1_7415 {
    P { k1_7415_1: Leaf, #[serde(rename = "k1_7415_2")] #[serde(default)] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_7415: std::num::NonZeroU64 },
}

impl Abs for R1_7415 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_7415_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_7415: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_7415_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_7415: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_15334 {
    pub k1_15334_1: bool,
    #[serde(rename = "k1_15334_2")] pub renamed1: Leaf,
}

impl Abs for R1_15334 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_15334_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_15334_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_48880 {
    pub k2_48880_1: R1_7415,
    #[serde(rename = "k2_48880_2")] pub renamed1: R1_15334,
}

impl Abs for R2_48880 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_48880_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_48880_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_12291 {
    #[serde(default)] pub k3_12291_1: Option<R1_95799>,
    #[serde(rename = "k3_12291_2")] pub renamed1: R2_40961,
    pub k3_12291_3: R2_48880,
}

impl Abs for R3_12291 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_12291_1.to_a(), self.renamed1.to_a(), self.k3_12291_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_12291_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_12291_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_64773")]
pub enum R1_64773 {
    P { #[serde(default)] k1_64773_1: Leaf, #[serde(rename = "k1_64773_2")] renamed1: Leaf, k1_64773_3: f32 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_64773: Leaf },
}

impl Abs for R1_64773 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_64773_1: b0, renamed1: b1, k1_64773_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_64773: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_64773_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_64773_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_64773: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_84299 {
    v1_84299_1,
}

impl Abs for R1_84299 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_84299_1 => A::Var(1, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_84299_1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_85885 {
    pub k2_85885_1: [Even; 3],
    #[serde(rename = "k2_85885_2")] pub renamed1: R1_84299,
}

impl Abs for R2_85885 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_85885_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_85885_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_92063 {
    pub k4_92063_1: R3_4372,
    #[serde(rename = "k4_92063_2")] pub renamed1: R3_12291,
    pub k4_92063_3: (Vec<R1_64773>, R2_85885),
}

impl Abs for R4_92063 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k4_92063_1.to_a(), self.renamed1.to_a(), self.k4_92063_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k4_92063_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k4_92063_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_55675 {
    pub k1_55675_1: std::num::NonZeroI32,
    #[serde(rename = "k1_55675_2")] pub renamed1: Leaf,
}

impl Abs for R1_55675 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_55675_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_55675_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_71513")]
pub enum R1_71513 {
    P { k1_71513_1: i8 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_71513: std::num::NonZeroI32 },
}

impl Abs for R1_71513 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_71513_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_71513: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_71513_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_71513: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_79432 {
    pub k1_79432_1: std::num::NonZeroI32,
    #[serde(rename = "k1_79432_2")] pub renamed1: f32,
}

impl Abs for R1_79432 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_79432_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_79432_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_83054 {
    #[serde(flatten)] pub inner_0: R1_55675,
    #[serde(rename = "k2_83054_2")] pub renamed1: Option<i8>,
    pub k2_83054_3: R1_71513,
    pub k2_83054_4: R1_79432,
}

impl Abs for R2_83054 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_83054_3.to_a(), self.k2_83054_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_83054_3: Abs::of_a(&v[2]), k2_83054_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_34805")]
pub enum R1_34805 {
    P { k1_34805_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_34805: u8 },
}

impl Abs for R1_34805 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_34805_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_34805: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_34805_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_34805: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_42724 {
    pub k1_42724_1: Leaf,
    #[serde(rename = "k1_42724_2")] pub renamed1: std::num::NonZeroU32,
    #[serde(default)] pub k1_42724_3: char,
    pub k1_42724_4: Leaf,
}

impl Abs for R1_42724 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_42724_1.to_a(), self.renamed1.to_a(), self.k1_42724_3.to_a(), self.k1_42724_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_42724_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_42724_3: Abs::of_a(&v[2]), k1_42724_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_6987 {
    pub k2_6987_1: (String, Leaf),
    #[serde(rename = "k2_6987_2")] pub renamed1: R1_34805,
    pub k2_6987_3: R1_42724,
    pub k2_6987_4: Option<Leaf>,
}

impl Abs for R2_6987 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_6987_1.to_a(), self.renamed1.to_a(), self.k2_6987_3.to_a(), self.k2_6987_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_6987_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_6987_3: Abs::of_a(&v[2]), k2_6987_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_79729 {
    pub k1_79729_1: Even,
    #[serde(rename = "k1_79729_2")] pub renamed1: u16,
    #[serde(default)] pub k1_79729_3: Leaf,
    pub k1_79729_4: char,
}

impl Abs for R1_79729 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_79729_1.to_a(), self.renamed1.to_a(), self.k1_79729_3.to_a(), self.k1_79729_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_79729_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_79729_3: Abs::of_a(&v[2]), k1_79729_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_74045")]
pub enum R3_74045 {
    P { k3_74045_1: R2_6987, #[serde(rename = "k3_74045_2")] renamed1: ((std::num::NonZeroU32, u8), R1_79729) },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x3_74045: Option<Option<Leaf>> },
}

impl Abs for R3_74045 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_74045_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x3_74045: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_74045_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x3_74045: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_55750")]
pub enum R1_55750 {
    P { k1_55750_1: f64 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_55750: Leaf },
}

impl Abs for R1_55750 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_55750_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_55750: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_55750_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_55750: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_63669 {
    pub k1_63669_1: Leaf,
}

impl Abs for R1_63669 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_63669_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_63669_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_52711 {
    pub k2_52711_1: Option<f64>,
    #[serde(rename = "k2_52711_2")] pub renamed1: R1_55750,
    #[serde(default)] pub k2_52711_3: R1_63669,
    pub k2_52711_4: Option<Leaf>,
}

impl Abs for R2_52711 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_52711_1.to_a(), self.renamed1.to_a(), self.k2_52711_3.to_a(), self.k2_52711_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_52711_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_52711_3: Abs::of_a(&v[2]), k2_52711_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_78854")]
pub enum R1_78854 {
    P { #[serde(default)] k1_78854_1: u8 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_78854: std::num::NonZeroU8 },
}

impl Abs for R1_78854 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_78854_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_78854: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_78854_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_78854: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_86773 {
    pub k1_86773_1: std::num::NonZeroU16,
}

impl Abs for R1_86773 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_86773_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_86773_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_68915 {
    #[serde(flatten)] pub inner_0: R1_78854,
    #[serde(rename = "k2_68915_2")] pub renamed1: R1_86773,
    pub k2_68915_3: Option<u8>,
}

impl Abs for R2_68915 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_68915_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_68915_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_37574")]
pub enum R1_37574 {
    P { k1_37574_1: u64 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_37574: Leaf },
}

impl Abs for R1_37574 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_37574_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_37574: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_37574_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_37574: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_45493 {
    v1_45493_1,
}

impl Abs for R1_45493 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_45493_1 => A::Var(1, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_45493_1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_53412 {
    pub k1_53412_1: std::num::NonZeroI32,
    #[serde(rename = "k1_53412_2")] #[serde(default)] pub renamed1: f32,
    pub k1_53412_3: Leaf,
}

impl Abs for R1_53412 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_53412_1.to_a(), self.renamed1.to_a(), self.k1_53412_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_53412_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_53412_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_58375")]
pub enum R1_58375 {
    P { k1_58375_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_58375: Leaf },
}

impl Abs for R1_58375 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_58375_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_58375: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_58375_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_58375: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_90653")]
pub enum R2_90653 {
    P { k2_90653_1: R1_37574, #[serde(rename = "k2_90653_2")] renamed1: R1_45493, #[serde(flatten)] inner_2: R1_53412 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_58375 },
}

impl Abs for R2_90653 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_90653_1: b0, renamed1: b1, inner_2: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_90653_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t4_65036")]
pub enum R4_65036 {
    P { k4_65036_1: Option<R2_52711>, #[serde(rename = "k4_65036_2")] renamed1: Vec<R2_68915> },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x4_65036: [R2_90653; 2] },
}

impl Abs for R4_65036 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k4_65036_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x4_65036: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k4_65036_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x4_65036: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_46241 {
    pub k1_46241_1: Leaf,
}

impl Abs for R1_46241 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_46241_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_46241_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_8211 {
    pub k1_8211_1: String,
    #[serde(rename = "k1_8211_2")] #[serde(default)] pub renamed1: i64,
    #[serde(default)] pub k1_8211_3: Leaf,
    pub k1_8211_4: f32,
}

impl Abs for R1_8211 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_8211_1.to_a(), self.renamed1.to_a(), self.k1_8211_3.to_a(), self.k1_8211_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_8211_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_8211_3: Abs::of_a(&v[2]), k1_8211_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_24049")]
pub enum R1_24049 {
    P { k1_24049_1: Leaf, #[serde(rename = "k1_24049_2")] renamed1: char },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_24049: Leaf },
}

impl Abs for R1_24049 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_24049_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_24049: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_24049_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_24049: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_31968 {
    pub k1_31968_1: Leaf,
    #[serde(rename = "k1_31968_2")] pub renamed1: i64,
    pub k1_31968_3: std::num::NonZeroI64,
    pub k1_31968_4: Leaf,
}

impl Abs for R1_31968 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_31968_1.to_a(), self.renamed1.to_a(), self.k1_31968_3.to_a(), self.k1_31968_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_31968_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_31968_3: Abs::of_a(&v[2]), k1_31968_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_62820 {
    #[serde(flatten)] pub inner_0: R1_8211,
    #[serde(rename = "k2_62820_2")] pub renamed1: (Leaf, Leaf),
    pub k2_62820_3: R1_24049,
    pub k2_62820_4: R1_31968,
}

impl Abs for R2_62820 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_62820_3.to_a(), self.k2_62820_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_62820_3: Abs::of_a(&v[2]), k2_62820_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_34546 {
    pub k1_34546_1: Leaf,
    #[serde(rename = "k1_34546_2")] #[serde(default)] pub renamed1: String,
    pub k1_34546_3: Leaf,
}

impl Abs for R1_34546 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_34546_1.to_a(), self.renamed1.to_a(), self.k1_34546_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_34546_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_34546_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_12217")]
pub enum R3_12217 {
    P { #[serde(default)] k3_12217_1: (), #[serde(rename = "k3_12217_2")] renamed1: [Option<u64>; 1], #[serde(flatten)] inner_2: R2_62820 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x3_12217: (R1_34546, Vec<Leaf>) },
}

impl Abs for R3_12217 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_12217_1: b0, renamed1: b1, inner_2: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x3_12217: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_12217_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x3_12217: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R3_20136 {
    pub k3_20136_1: (),
}

impl Abs for R3_20136 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_20136_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_20136_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_58650 {
    pub k1_58650_1: Leaf,
    #[serde(rename = "k1_58650_2")] pub renamed1: Leaf,
    #[serde(default)] pub k1_58650_3: Leaf,
    pub k1_58650_4: f64,
}

impl Abs for R1_58650 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_58650_1.to_a(), self.renamed1.to_a(), self.k1_58650_3.to_a(), self.k1_58650_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_58650_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_58650_3: Abs::of_a(&v[2]), k1_58650_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_74854 {
    pub k1_74854_1: Even,
    #[serde(rename = "k1_74854_2")] #[serde(default)] pub renamed1: u16,
    pub k1_74854_3: Leaf,
    pub k1_74854_4: char,
}

impl Abs for R1_74854 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_74854_1.to_a(), self.renamed1.to_a(), self.k1_74854_3.to_a(), self.k1_74854_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_74854_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_74854_3: Abs::of_a(&v[2]), k1_74854_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_70257")]
pub enum R1_70257 {
    P { k1_70257_1: Leaf, #[serde(rename = "k1_70257_2")] #[serde(default)] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_70257: i16 },
}

impl Abs for R1_70257 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_70257_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_70257: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_70257_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_70257: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_78176 {
    pub k1_78176_1: i16,
    #[serde(rename = "k1_78176_2")] pub renamed1: Leaf,
}

impl Abs for R1_78176 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_78176_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_78176_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_95228 {
    #[serde(flatten)] pub inner_0: R1_70257,
    #[serde(rename = "k2_95228_2")] #[serde(default)] pub renamed1: R1_78176,
    pub k2_95228_3: Option<f32>,
}

impl Abs for R2_95228 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_95228_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_95228_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_86461")]
pub enum R1_86461 {
    P { #[serde(default)] k1_86461_1: char, #[serde(rename = "k1_86461_2")] #[serde(default)] renamed1: Leaf, k1_86461_3: std::num::NonZeroI64 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_86461: i32 },
}

impl Abs for R1_86461 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_86461_1: b0, renamed1: b1, k1_86461_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_86461: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_86461_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_86461_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_86461: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_94380 {
    pub k1_94380_1: i64,
    #[serde(rename = "k1_94380_2")] pub renamed1: Leaf,
}

impl Abs for R1_94380 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_94380_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_94380_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_3156 {
    pub k2_3156_1: R1_86461,
    #[serde(rename = "k2_3156_2")] pub renamed1: R1_94380,
}

impl Abs for R2_3156 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_3156_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_3156_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_28055 {
    pub k3_28055_1: Option<R1_58650>,
    #[serde(rename = "k3_28055_2")] pub renamed1: Vec<R1_74854>,
    pub k3_28055_3: R2_95228,
    pub k3_28055_4: R2_3156,
}

impl Abs for R3_28055 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_28055_1.to_a(), self.renamed1.to_a(), self.k3_28055_3.to_a(), self.k3_28055_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_28055_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_28055_3: Abs::of_a(&v[2]), k3_28055_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_27624 {
    #[serde(default)] pub k1_27624_1: Leaf,
    #[serde(rename = "k1_27624_2")] pub renamed1: std::num::NonZeroU16,
}

impl Abs for R1_27624 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_27624_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_27624_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_47150 {
    v1_47150_1,
}

impl Abs for R1_47150 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_47150_1 => A::Var(1, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_47150_1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_55069 {
    pub k1_55069_1: Leaf,
    #[serde(rename = "k1_55069_2")] #[serde(default)] pub renamed1: i8,
    pub k1_55069_3: Leaf,
}

impl Abs for R1_55069 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_55069_1.to_a(), self.renamed1.to_a(), self.k1_55069_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_55069_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_55069_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_32242 {
    pub k2_32242_1: [std::num::NonZeroI8; 3],
    #[serde(rename = "k2_32242_2")] pub renamed1: R1_47150,
    pub k2_32242_3: R1_55069,
}

impl Abs for R2_32242 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_32242_1.to_a(), self.renamed1.to_a(), self.k2_32242_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_32242_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_32242_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_38009 {
    #[serde(flatten)] pub inner_0: R3_12217,
    #[serde(flatten)] pub inner_1: R3_20136,
    pub k4_38009_3: R3_28055,
    pub k4_38009_4: (Option<R1_27624>, R2_32242),
}

impl Abs for R4_38009 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.inner_1.to_a(), self.k4_38009_3.to_a(), self.k4_38009_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k4_38009_3: Abs::of_a(&v[2]), k4_38009_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_63520 {
    v1_63520_1,
    #[serde(rename = "v1_63520_2", reindex = 114)] V1,
    v1_63520_3,
    v1_63520_4,
}

impl Abs for R1_63520 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_63520_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_63520_3 => A::Var(3, vec![]),
            Self::v1_63520_4 => A::Var(4, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_63520_1,
            2 => Self::V1,
            3 => Self::v1_63520_3,
            4 => Self::v1_63520_4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_29000 {
    pub k2_29000_1: R1_63520,
}

impl Abs for R2_29000 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_29000_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_29000_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_64949")]
pub enum R1_64949 {
    P { #[serde(default)] k1_64949_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_64949: std::num::NonZeroI16 },
}

impl Abs for R1_64949 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_64949_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_64949: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_64949_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_64949: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_14832 {
    pub k2_14832_1: Option<i8>,
    #[serde(flatten)] pub inner_1: R1_64949,
}

impl Abs for R2_14832 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_14832_1.to_a(), self.inner_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_14832_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_94972 {
    #[serde(default)] pub k1_94972_1: Even,
    #[serde(rename = "k1_94972_2")] pub renamed1: Leaf,
    pub k1_94972_3: std::num::NonZeroU8,
}

impl Abs for R1_94972 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_94972_1.to_a(), self.renamed1.to_a(), self.k1_94972_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_94972_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_94972_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_35633 {
    pub k2_35633_1: R1_94972,
    #[serde(rename = "k2_35633_2")] pub renamed1: Option<std::num::NonZeroU32>,
}

impl Abs for R2_35633 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_35633_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_35633_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_19991")]
pub enum R3_19991 {
    P { k3_19991_1: R2_14832 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R2_35633 },
}

impl Abs for R3_19991 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_19991_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_19991_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_49627 {
    pub k1_49627_1: std::num::NonZeroU8,
    #[serde(rename = "k1_49627_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_49627_3: i32,
}

impl Abs for R1_49627 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_49627_1.to_a(), self.renamed1.to_a(), self.k1_49627_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_49627_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_49627_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_62509 {
    v1_62509_1,
    #[serde(rename = "v1_62509_2", reindex = 114)] V1,
    v1_62509_3,
    v1_62509_4,
}

impl Abs for R1_62509 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_62509_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_62509_3 => A::Var(3, vec![]),
            Self::v1_62509_4 => A::Var(4, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_62509_1,
            2 => Self::V1,
            3 => Self::v1_62509_3,
            4 => Self::v1_62509_4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_62054")]
pub enum R2_62054 {
    P { k2_62054_1: Vec<Leaf>, #[serde(flatten)] inner_1: R1_49627, #[serde(flatten)] inner_2: () },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_62054: R1_62509 },
}

impl Abs for R2_62054 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_62054_1: b0, inner_1: b1, inner_2: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_62054: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_62054_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x2_62054: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_65831 {
    pub k1_65831_1: std::num::NonZeroU32,
    #[serde(rename = "k1_65831_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_65831_3: u8,
}

impl Abs for R1_65831 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_65831_1.to_a(), self.renamed1.to_a(), self.k1_65831_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_65831_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_65831_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_69973 {
    pub k2_69973_1: Vec<Leaf>,
    #[serde(rename = "k2_69973_2")] pub renamed1: R1_65831,
    #[serde(default)] pub k2_69973_3: (),
    pub k2_69973_4: Option<std::num::NonZeroU16>,
}

impl Abs for R2_69973 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_69973_1.to_a(), self.renamed1.to_a(), self.k2_69973_3.to_a(), self.k2_69973_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_69973_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_69973_3: Abs::of_a(&v[2]), k2_69973_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_11130")]
pub enum R1_11130 {
    P { k1_11130_1: Leaf, #[serde(rename = "k1_11130_2")] #[serde(default)] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_11130: Leaf },
}

impl Abs for R1_11130 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_11130_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_11130: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_11130_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_11130: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_66135 {
    #[serde(flatten)] pub inner_0: R2_62054,
    #[serde(rename = "k3_66135_2")] pub renamed1: R2_69973,
    pub k3_66135_3: (),
    pub k3_66135_4: [R1_11130; 1],
}

impl Abs for R3_66135 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k3_66135_3.to_a(), self.k3_66135_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_66135_3: Abs::of_a(&v[2]), k3_66135_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_52252 {
    pub k1_52252_1: i16,
    #[serde(rename = "k1_52252_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_52252_3: u32,
}

impl Abs for R1_52252 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_52252_1.to_a(), self.renamed1.to_a(), self.k1_52252_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_52252_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_52252_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_47655")]
pub enum R1_47655 {
    P { #[serde(default)] k1_47655_1: Leaf, #[serde(rename = "k1_47655_2")] #[serde(default)] renamed1: f64 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_47655: Leaf },
}

impl Abs for R1_47655 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_47655_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_47655: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_47655_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_47655: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_68456 {
    #[serde(default)] pub k1_68456_1: i64,
    #[serde(rename = "k1_68456_2")] pub renamed1: Leaf,
    pub k1_68456_3: Leaf,
}

impl Abs for R1_68456 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_68456_1.to_a(), self.renamed1.to_a(), self.k1_68456_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_68456_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_68456_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_7924")]
pub enum R2_7924 {
    P { k2_7924_1: R1_47655 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_68456 },
}

impl Abs for R2_7924 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_7924_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_7924_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_63859")]
pub enum R1_63859 {
    P { #[serde(default)] k1_63859_1: Leaf, #[serde(rename = "k1_63859_2")] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_63859: Leaf },
}

impl Abs for R1_63859 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_63859_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_63859: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_63859_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_63859: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_15843 {
    pub k2_15843_1: R1_63859,
}

impl Abs for R2_15843 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_15843_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_15843_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_86936 {
    pub k3_86936_1: Option<R1_52252>,
    #[serde(rename = "k3_86936_2")] pub renamed1: R2_7924,
    pub k3_86936_3: R2_15843,
}

impl Abs for R3_86936 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_86936_1.to_a(), self.renamed1.to_a(), self.k3_86936_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_86936_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_86936_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t4_10982")]
pub enum R4_10982 {
    P { k4_10982_1: R3_66135, #[serde(rename = "k4_10982_2")] renamed1: () },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R3_86936 },
}

impl Abs for R4_10982 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k4_10982_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k4_10982_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_66365")]
pub enum R1_66365 {
    P { k1_66365_1: Leaf, #[serde(rename = "k1_66365_2")] #[serde(default)] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_66365: Leaf },
}

impl Abs for R1_66365 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_66365_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_66365: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_66365_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_66365: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R4_83946 {
    pub k4_83946_1: Option<Option<R1_66365>>,
}

impl Abs for R4_83946 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k4_83946_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k4_83946_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_79284")]
pub enum R1_79284 {
    P { k1_79284_1: Leaf, #[serde(rename = "k1_79284_2")] renamed1: u32, k1_79284_3: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_79284: Leaf },
}

impl Abs for R1_79284 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_79284_1: b0, renamed1: b1, k1_79284_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_79284: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_79284_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_79284_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_79284: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_92166")]
pub enum R1_92166 {
    P { #[serde(default)] k1_92166_1: u16, #[serde(rename = "k1_92166_2")] renamed1: Leaf, k1_92166_3: String },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_92166: std::num::NonZeroU32 },
}

impl Abs for R1_92166 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_92166_1: b0, renamed1: b1, k1_92166_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_92166: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_92166_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_92166_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_92166: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_74937")]
pub enum R2_74937 {
    P { k2_74937_1: (Leaf, Leaf), #[serde(flatten)] inner_1: R1_79284 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_92166 },
}

impl Abs for R2_74937 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_74937_1: b0, inner_1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_74937_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_87174 {
    pub k1_87174_1: std::num::NonZeroU8,
}

impl Abs for R1_87174 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_87174_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_87174_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_22677")]
pub enum R2_22677 {
    P { #[serde(flatten)] inner_0: R1_87174, #[serde(rename = "k2_22677_2")] renamed1: Option<u8> },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_22677: Option<Leaf> },
}

impl Abs for R2_22677 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_22677: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x2_22677: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_3387 {
    pub k1_3387_1: Leaf,
}

impl Abs for R1_3387 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_3387_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_3387_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_19225")]
pub enum R1_19225 {
    P { #[serde(default)] k1_19225_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_19225: Leaf },
}

impl Abs for R1_19225 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_19225_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_19225: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_19225_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_19225: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_30596 {
    #[serde(default)] pub k2_30596_1: R1_3387,
    #[serde(rename = "k2_30596_2")] #[serde(default)] pub renamed1: Option<u16>,
    pub k2_30596_3: R1_19225,
}

impl Abs for R2_30596 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_30596_1.to_a(), self.renamed1.to_a(), self.k2_30596_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_30596_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_30596_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R2_43478 {
    v2_43478_1,
    #[serde(rename = "v2_43478_2", reindex = 114)] V1,
    v2_43478_3,
    v2_43478_4,
}

impl Abs for R2_43478 {
    fn to_a(&self) -> A {
        match self {
            Self::v2_43478_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v2_43478_3 => A::Var(3, vec![]),
            Self::v2_43478_4 => A::Var(4, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v2_43478_1,
            2 => Self::V1,
            3 => Self::v2_43478_3,
            4 => Self::v2_43478_4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_65928")]
pub enum R3_65928 {
    P { k3_65928_1: R2_22677, #[serde(rename = "k3_65928_2")] renamed1: R2_30596 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x3_65928: R2_43478 },
}

impl Abs for R3_65928 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_65928_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x3_65928: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_65928_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x3_65928: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_84071")]
pub enum R1_84071 {
    P { k1_84071_1: std::num::NonZeroI8 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_84071: u64 },
}

impl Abs for R1_84071 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_84071_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_84071: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_84071_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_84071: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_284")]
pub enum R1_284 {
    P { #[serde(default)] k1_284_1: Leaf, #[serde(rename = "k1_284_2")] #[serde(default)] renamed1: f32 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_284: f32 },
}

impl Abs for R1_284 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_284_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_284: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_284_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_284: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R3_94781 {
    pub k3_94781_1: Option<R1_84071>,
    #[serde(rename = "k3_94781_2")] pub renamed1: Option<R1_284>,
}

impl Abs for R3_94781 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_94781_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_94781_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_46093 {
    pub k1_46093_1: Leaf,
    #[serde(rename = "k1_46093_2")] #[serde(default)] pub renamed1: u8,
    pub k1_46093_3: std::num::NonZeroU8,
}

impl Abs for R1_46093 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_46093_1.to_a(), self.renamed1.to_a(), self.k1_46093_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_46093_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_46093_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R2_76595 {
    pub k2_76595_1: Vec<std::num::NonZeroI64>,
}

impl Abs for R2_76595 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_76595_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_76595_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_42582")]
pub enum R1_42582 {
    P { #[serde(default)] k1_42582_1: Leaf, #[serde(rename = "k1_42582_2")] renamed1: Even },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_42582: Leaf },
}

impl Abs for R1_42582 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_42582_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_42582: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_42582_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_42582: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_92433")]
pub enum R2_92433 {
    P { #[serde(default)] k2_92433_1: Option<std::num::NonZeroU32>, #[serde(rename = "k2_92433_2")] renamed1: R1_42582 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_92433: Vec<u8> },
}

impl Abs for R2_92433 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_92433_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_92433: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_92433_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x2_92433: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R2_361 {
    pub k2_361_1: Option<Leaf>,
}

impl Abs for R2_361 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_361_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_361_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_38901 {
    #[serde(flatten)] pub inner_0: R2_76595,
    #[serde(rename = "k3_38901_2")] pub renamed1: Option<Vec<Leaf>>,
    #[serde(flatten)] pub inner_2: R2_92433,
    #[serde(default)] pub k3_38901_4: R2_361,
}

impl Abs for R3_38901 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.inner_2.to_a(), self.k3_38901_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]), k3_38901_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R4_29892 {
    pub k4_29892_1: (),
}

impl Abs for R4_29892 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k4_29892_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k4_29892_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_20883")]
pub enum R2_20883 {
    P { #[serde(default)] k2_20883_1: Option<Leaf> },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_20883: Vec<String> },
}

impl Abs for R2_20883 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_20883_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_20883: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_20883_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x2_20883: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_38128 {
    #[serde(default)] pub k1_38128_1: Leaf,
    #[serde(rename = "k1_38128_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_38128_3: std::num::NonZeroU32,
}

impl Abs for R1_38128 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_38128_1.to_a(), self.renamed1.to_a(), self.k1_38128_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_38128_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_38128_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_63188 {
    v1_63188_1,
    #[serde(rename = "v1_63188_2", reindex = 114)] V1,
}

impl Abs for R1_63188 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_63188_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_63188_1,
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_76070")]
pub enum R1_76070 {
    P { k1_76070_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_76070: Leaf },
}

impl Abs for R1_76070 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_76070_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_76070: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_76070_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_76070: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_51323")]
pub enum R2_51323 {
    P { #[serde(default)] k2_51323_1: [Leaf; 2], #[serde(rename = "k2_51323_2")] renamed1: R1_63188 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_76070 },
}

impl Abs for R2_51323 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_51323_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_51323_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_11874")]
pub enum R3_11874 {
    P { k3_11874_1: (R1_38128, Vec<std::num::NonZeroI8>) },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R2_51323 },
}

impl Abs for R3_11874 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_11874_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_11874_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R3_2635 {
    v3_2635_1,
    #[serde(rename = "v3_2635_2", reindex = 114)] V1,
    v3_2635_3,
}

impl Abs for R3_2635 {
    fn to_a(&self) -> A {
        match self {
            Self::v3_2635_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v3_2635_3 => A::Var(3, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v3_2635_1,
            2 => Self::V1,
            3 => Self::v3_2635_3,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_53938 {
    pub k1_53938_1: i64,
}

impl Abs for R1_53938 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_53938_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_53938_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_48237 {
    pub k1_48237_1: Leaf,
    #[serde(rename = "k1_48237_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_48237_3: Leaf,
}

impl Abs for R1_48237 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_48237_1.to_a(), self.renamed1.to_a(), self.k1_48237_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_48237_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_48237_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R2_84440 {
    #[serde(default)] pub k2_84440_1: Option<u16>,
    #[serde(rename = "k2_84440_2")] #[serde(default)] pub renamed1: Vec<std::num::NonZeroU32>,
    pub k2_84440_3: R1_48237,
}

impl Abs for R2_84440 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_84440_1.to_a(), self.renamed1.to_a(), self.k2_84440_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_84440_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_84440_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R3_84838 {
    pub k3_84838_1: R2_84440,
}

impl Abs for R3_84838 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_84838_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_84838_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_79179 {
    pub k1_79179_1: std::num::NonZeroU16,
    #[serde(rename = "k1_79179_2")] #[serde(default)] pub renamed1: Leaf,
    #[serde(default)] pub k1_79179_3: i64,
}

impl Abs for R1_79179 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_79179_1.to_a(), self.renamed1.to_a(), self.k1_79179_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_79179_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_79179_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_37423 {
    #[serde(default)] pub k2_37423_1: [Leaf; 2],
    #[serde(rename = "k2_37423_2")] pub renamed1: R1_79179,
}

impl Abs for R2_37423 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_37423_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_37423_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_35752 {
    #[serde(flatten)] pub inner_0: R2_37423,
}

impl Abs for R3_35752 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_48153")]
pub enum R1_48153 {
    P { k1_48153_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_48153: Leaf },
}

impl Abs for R1_48153 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_48153_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_48153: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_48153_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_48153: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_74428 {
    #[serde(default)] pub k2_74428_1: Option<String>,
    #[serde(rename = "k2_74428_2")] pub renamed1: R1_48153,
}

impl Abs for R2_74428 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_74428_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_74428_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_75829 {
    pub k4_75829_1: R3_35752,
    #[serde(rename = "k4_75829_2")] pub renamed1: Option<R2_74428>,
}

impl Abs for R4_75829 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k4_75829_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k4_75829_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_66820")]
pub enum R2_66820 {
    P { #[serde(default)] k2_66820_1: (), #[serde(rename = "k2_66820_2")] #[serde(default)] renamed1: [String; 2], k2_66820_3: Vec<u8> },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: () },
}

impl Abs for R2_66820 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_66820_1: b0, renamed1: b1, k2_66820_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_66820_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_66820_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_68272 {
    v1_68272_1,
    #[serde(rename = "v1_68272_2", reindex = 114)] V1,
    v1_68272_3,
    v1_68272_4,
}

impl Abs for R1_68272 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_68272_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_68272_3 => A::Var(3, vec![]),
            Self::v1_68272_4 => A::Var(4, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_68272_1,
            2 => Self::V1,
            3 => Self::v1_68272_3,
            4 => Self::v1_68272_4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_71594 {
    #[serde(default)] pub k1_71594_1: Leaf,
    #[serde(rename = "k1_71594_2")] #[serde(default)] pub renamed1: u8,
    pub k1_71594_3: Leaf,
}

impl Abs for R1_71594 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_71594_1.to_a(), self.renamed1.to_a(), self.k1_71594_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_71594_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_71594_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_84476 {
    v1_84476_1,
}

impl Abs for R1_84476 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_84476_1 => A::Var(1, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_84476_1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_46286")]
pub enum R2_46286 {
    P { #[serde(default)] k2_46286_1: Vec<Leaf>, #[serde(rename = "k2_46286_2")] #[serde(default)] renamed1: R1_71594 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_46286: R1_84476 },
}

impl Abs for R2_46286 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_46286_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_46286: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_46286_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x2_46286: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_79879")]
pub enum R1_79879 {
    P { k1_79879_1: i8 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_79879: Even },
}

impl Abs for R1_79879 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_79879_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_79879: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_79879_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_79879: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_689 {
    v1_689_1,
    #[serde(rename = "v1_689_2", reindex = 114)] V1,
    v1_689_3,
}

impl Abs for R1_689 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_689_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_689_3 => A::Var(3, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_689_1,
            2 => Self::V1,
            3 => Self::v1_689_3,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_54205")]
pub enum R2_54205 {
    P { k2_54205_1: R1_79879 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_54205: R1_689 },
}

impl Abs for R2_54205 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_54205_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_54205: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_54205_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x2_54205: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_57811")]
pub enum R3_57811 {
    P { k3_57811_1: Option<R1_68272>, #[serde(rename = "k3_57811_2")] renamed1: R2_46286, k3_57811_3: R2_54205 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x3_57811: Option<Option<Leaf>> },
}

impl Abs for R3_57811 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_57811_1: b0, renamed1: b1, k3_57811_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x3_57811: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_57811_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_57811_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x3_57811: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_64859")]
pub enum R1_64859 {
    P { #[serde(default)] k1_64859_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_64859: Leaf },
}

impl Abs for R1_64859 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_64859_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_64859: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_64859_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_64859: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_72778 {
    v1_72778_1,
    #[serde(rename = "v1_72778_2", reindex = 114)] V1,
}

impl Abs for R1_72778 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_72778_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_72778_1,
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_80697 {
    pub k1_80697_1: i64,
    #[serde(rename = "k1_80697_2")] pub renamed1: Leaf,
    #[serde(default)] pub k1_80697_3: f64,
    pub k1_80697_4: i16,
}

impl Abs for R1_80697 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_80697_1.to_a(), self.renamed1.to_a(), self.k1_80697_3.to_a(), self.k1_80697_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_80697_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_80697_3: Abs::of_a(&v[2]), k1_80697_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_11247 {
    #[serde(flatten)] pub inner_0: R1_64859,
    #[serde(rename = "k2_11247_2")] pub renamed1: R1_72778,
    #[serde(default)] pub k2_11247_3: R1_80697,
    pub k2_11247_4: (f64, Leaf),
}

impl Abs for R2_11247 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_11247_3.to_a(), self.k2_11247_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_11247_3: Abs::of_a(&v[2]), k2_11247_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_18077")]
pub enum R1_18077 {
    P { k1_18077_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_18077: Leaf },
}

impl Abs for R1_18077 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_18077_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_18077: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_18077_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_18077: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_61783")]
pub enum R1_61783 {
    P { k1_61783_1: std::num::NonZeroI64 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_61783: char },
}

impl Abs for R1_61783 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_61783_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_61783: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_61783_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_61783: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_62543 {
    pub k1_62543_1: i16,
    #[serde(rename = "k1_62543_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_62543_3: f32,
}

impl Abs for R1_62543 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_62543_1.to_a(), self.renamed1.to_a(), self.k1_62543_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_62543_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_62543_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_78381 {
    v1_78381_1,
    #[serde(rename = "v1_78381_2", reindex = 114)] V1,
    v1_78381_3,
    v1_78381_4,
}

impl Abs for R1_78381 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_78381_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_78381_3 => A::Var(3, vec![]),
            Self::v1_78381_4 => A::Var(4, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_78381_1,
            2 => Self::V1,
            3 => Self::v1_78381_3,
            4 => Self::v1_78381_4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_92285")]
pub enum R2_92285 {
    P { k2_92285_1: R1_62543, #[serde(rename = "k2_92285_2")] renamed1: (f32, std::num::NonZeroI8), k2_92285_3: R1_78381 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_92285: Option<Leaf> },
}

impl Abs for R2_92285 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_92285_1: b0, renamed1: b1, k2_92285_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_92285: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_92285_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_92285_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x2_92285: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R2_213 {
    v2_213_1,
    #[serde(rename = "v2_213_2", reindex = 114)] V1,
    v2_213_3,
    v2_213_4,
    #[serde(rename = "v2_213_5", reindex = 135)] V4,
}

impl Abs for R2_213 {
    fn to_a(&self) -> A {
        match self {
            Self::v2_213_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v2_213_3 => A::Var(3, vec![]),
            Self::v2_213_4 => A::Var(4, vec![]),
            Self::V4 => A::Var(5, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v2_213_1,
            2 => Self::V1,
            3 => Self::v2_213_3,
            4 => Self::v2_213_4,
            5 => Self::V4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_30784 {
    pub k3_30784_1: R2_92285,
    #[serde(rename = "k3_30784_2")] pub renamed1: R2_213,
}

impl Abs for R3_30784 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_30784_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_30784_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_19292 {
    pub k1_19292_1: std::num::NonZeroU32,
    #[serde(rename = "k1_19292_2")] pub renamed1: Leaf,
    pub k1_19292_3: i64,
    pub k1_19292_4: std::num::NonZeroU8,
}

impl Abs for R1_19292 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_19292_1.to_a(), self.renamed1.to_a(), self.k1_19292_3.to_a(), self.k1_19292_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_19292_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_19292_3: Abs::of_a(&v[2]), k1_19292_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_35130")]
pub enum R1_35130 {
    P { #[serde(default)] k1_35130_1: Leaf, #[serde(rename = "k1_35130_2")] renamed1: std::num::NonZeroU16, k1_35130_3: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_35130: Leaf },
}

impl Abs for R1_35130 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_35130_1: b0, renamed1: b1, k1_35130_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_35130: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_35130_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_35130_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_35130: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_75486 {
    pub k2_75486_1: R1_19292,
    #[serde(rename = "k2_75486_2")] pub renamed1: Option<i64>,
    pub k2_75486_3: R1_35130,
}

impl Abs for R2_75486 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_75486_1.to_a(), self.renamed1.to_a(), self.k2_75486_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_75486_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_75486_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_43597 {
    #[serde(default)] pub k3_43597_1: Vec<Option<Leaf>>,
    #[serde(rename = "k3_43597_2")] pub renamed1: R2_75486,
    pub k3_43597_3: Option<Option<Leaf>>,
}

impl Abs for R3_43597 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_43597_1.to_a(), self.renamed1.to_a(), self.k3_43597_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_43597_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_43597_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_83771")]
pub enum R2_83771 {
    P { k2_83771_1: Vec<Leaf> },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_83771: Vec<Leaf> },
}

impl Abs for R2_83771 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_83771_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_83771: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_83771_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x2_83771: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_58234")]
pub enum R1_58234 {
    P { k1_58234_1: bool, #[serde(rename = "k1_58234_2")] #[serde(default)] renamed1: Leaf, k1_58234_3: u16 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_58234: std::num::NonZeroI8 },
}

impl Abs for R1_58234 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_58234_1: b0, renamed1: b1, k1_58234_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_58234: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_58234_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_58234_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_58234: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_66153 {
    pub k1_66153_1: std::num::NonZeroI16,
    #[serde(rename = "k1_66153_2")] pub renamed1: Leaf,
}

impl Abs for R1_66153 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_66153_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_66153_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_91690 {
    #[serde(default)] pub k2_91690_1: Option<std::num::NonZeroU64>,
    #[serde(rename = "k2_91690_2")] pub renamed1: R1_58234,
    #[serde(flatten)] pub inner_2: R1_66153,
}

impl Abs for R2_91690 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_91690_1.to_a(), self.renamed1.to_a(), self.inner_2.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_91690_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_51516 {
    pub k3_51516_1: R2_83771,
    #[serde(rename = "k3_51516_2")] pub renamed1: R2_91690,
}

impl Abs for R3_51516 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_51516_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_51516_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_11004")]
pub enum R1_11004 {
    P { k1_11004_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_11004: u8 },
}

impl Abs for R1_11004 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_11004_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_11004: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_11004_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_11004: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_23886")]
pub enum R1_23886 {
    P { k1_23886_1: u8 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_23886: Leaf },
}

impl Abs for R1_23886 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_23886_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_23886: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_23886_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_23886: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_20785")]
pub enum R2_20785 {
    P { k2_20785_1: Option<Leaf>, #[serde(rename = "k2_20785_2")] renamed1: R1_11004 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_23886 },
}

impl Abs for R2_20785 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_20785_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_20785_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_21775 {
    pub k4_21775_1: R3_43597,
    #[serde(rename = "k4_21775_2")] pub renamed1: R3_51516,
    pub k4_21775_3: Option<R2_20785>,
}

impl Abs for R4_21775 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k4_21775_1.to_a(), self.renamed1.to_a(), self.k4_21775_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k4_21775_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k4_21775_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_94900 {
    v1_94900_1,
    #[serde(rename = "v1_94900_2", reindex = 114)] V1,
    v1_94900_3,
    v1_94900_4,
    #[serde(rename = "v1_94900_5", reindex = 135)] V4,
}

impl Abs for R1_94900 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_94900_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_94900_3 => A::Var(3, vec![]),
            Self::v1_94900_4 => A::Var(4, vec![]),
            Self::V4 => A::Var(5, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_94900_1,
            2 => Self::V1,
            3 => Self::v1_94900_3,
            4 => Self::v1_94900_4,
            5 => Self::V4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_15710 {
    pub k1_15710_1: i16,
}

impl Abs for R1_15710 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_15710_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_15710_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_12766")]
pub enum R2_12766 {
    P { k2_12766_1: R1_94900 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_15710 },
}

impl Abs for R2_12766 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_12766_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_12766_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_4606")]
pub enum R1_4606 {
    P { k1_4606_1: i32, #[serde(rename = "k1_4606_2")] renamed1: Leaf, k1_4606_3: f32 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_4606: std::num::NonZeroI64 },
}

impl Abs for R1_4606 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_4606_1: b0, renamed1: b1, k1_4606_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_4606: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_4606_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_4606_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_4606: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_12525 {
    pub k1_12525_1: std::num::NonZeroI64,
    #[serde(rename = "k1_12525_2")] pub renamed1: f32,
    #[serde(default)] pub k1_12525_3: Leaf,
    pub k1_12525_4: std::num::NonZeroI16,
}

impl Abs for R1_12525 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_12525_1.to_a(), self.renamed1.to_a(), self.k1_12525_3.to_a(), self.k1_12525_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_12525_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_12525_3: Abs::of_a(&v[2]), k1_12525_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_41391")]
pub enum R2_41391 {
    P { k2_41391_1: (i16, f32), #[serde(flatten)] inner_1: R1_4606, #[serde(flatten)] inner_2: R1_12525 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_41391: (Leaf, Leaf) },
}

impl Abs for R2_41391 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_41391_1: b0, inner_1: b1, inner_2: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_41391: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_41391_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x2_41391: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_13497 {
    pub k1_13497_1: Leaf,
    #[serde(rename = "k1_13497_2")] pub renamed1: String,
    pub k1_13497_3: Leaf,
    pub k1_13497_4: std::num::NonZeroI64,
}

impl Abs for R1_13497 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_13497_1.to_a(), self.renamed1.to_a(), self.k1_13497_3.to_a(), self.k1_13497_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_13497_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_13497_3: Abs::of_a(&v[2]), k1_13497_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_8900 {
    v1_8900_1,
    #[serde(rename = "v1_8900_2", reindex = 114)] V1,
}

impl Abs for R1_8900 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_8900_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_8900_1,
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_16819 {
    pub k1_16819_1: u64,
    #[serde(rename = "k1_16819_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_16819_3: Leaf,
}

impl Abs for R1_16819 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_16819_1.to_a(), self.renamed1.to_a(), self.k1_16819_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_16819_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_16819_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_29701 {
    pub k1_29701_1: Leaf,
    #[serde(rename = "k1_29701_2")] pub renamed1: Leaf,
    #[serde(default)] pub k1_29701_3: Leaf,
    pub k1_29701_4: Leaf,
}

impl Abs for R1_29701 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_29701_1.to_a(), self.renamed1.to_a(), self.k1_29701_3.to_a(), self.k1_29701_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_29701_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_29701_3: Abs::of_a(&v[2]), k1_29701_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_8058")]
pub enum R2_8058 {
    P { k2_8058_1: R1_8900, #[serde(rename = "k2_8058_2")] renamed1: R1_16819 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_29701 },
}

impl Abs for R2_8058 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_8058_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_8058_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_25104 {
    v1_25104_1,
    #[serde(rename = "v1_25104_2", reindex = 114)] V1,
    v1_25104_3,
    v1_25104_4,
}

impl Abs for R1_25104 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_25104_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_25104_3 => A::Var(3, vec![]),
            Self::v1_25104_4 => A::Var(4, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_25104_1,
            2 => Self::V1,
            3 => Self::v1_25104_3,
            4 => Self::v1_25104_4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_15977 {
    pub k2_15977_1: R1_25104,
}

impl Abs for R2_15977 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_15977_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_15977_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_76721 {
    #[serde(default)] pub k3_76721_1: Option<R1_13497>,
    #[serde(rename = "k3_76721_2")] pub renamed1: R2_8058,
    pub k3_76721_3: R2_15977,
}

impl Abs for R3_76721 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_76721_1.to_a(), self.renamed1.to_a(), self.k3_76721_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_76721_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_76721_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_93650")]
pub enum R1_93650 {
    P { k1_93650_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_93650: Leaf },
}

impl Abs for R1_93650 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_93650_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_93650: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_93650_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_93650: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R3_59361 {
    v3_59361_1,
    #[serde(rename = "v3_59361_2", reindex = 114)] V1,
    v3_59361_3,
    v3_59361_4,
}

impl Abs for R3_59361 {
    fn to_a(&self) -> A {
        match self {
            Self::v3_59361_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v3_59361_3 => A::Var(3, vec![]),
            Self::v3_59361_4 => A::Var(4, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v3_59361_1,
            2 => Self::V1,
            3 => Self::v3_59361_3,
            4 => Self::v3_59361_4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_86728")]
pub enum R1_86728 {
    P { k1_86728_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_86728: Leaf },
}

impl Abs for R1_86728 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_86728_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_86728: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_86728_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_86728: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_67712 {
    pub k4_67712_1: [[R1_93650; 1]; 1],
    #[serde(rename = "k4_67712_2")] pub renamed1: R3_59361,
    pub k4_67712_3: (),
    pub k4_67712_4: [[R1_86728; 2]; 1],
}

impl Abs for R4_67712 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k4_67712_1.to_a(), self.renamed1.to_a(), self.k4_67712_3.to_a(), self.k4_67712_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k4_67712_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k4_67712_3: Abs::of_a(&v[2]), k4_67712_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_23555 {
    pub k1_23555_1: std::num::NonZeroI16,
    #[serde(rename = "k1_23555_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_23555_3: Leaf,
}

impl Abs for R1_23555 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_23555_1.to_a(), self.renamed1.to_a(), self.k1_23555_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_23555_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_23555_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_45710 {
    #[serde(default)] pub k1_45710_1: Leaf,
    #[serde(rename = "k1_45710_2")] pub renamed1: std::num::NonZeroI16,
}

impl Abs for R1_45710 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_45710_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_45710_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_74858 {
    #[serde(flatten)] pub inner_0: R1_45710,
}

impl Abs for R2_74858 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_43641 {
    #[serde(default)] pub k1_43641_1: Leaf,
    #[serde(rename = "k1_43641_2")] pub renamed1: bool,
}

impl Abs for R1_43641 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_43641_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_43641_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_59845 {
    pub k1_59845_1: Leaf,
    #[serde(rename = "k1_59845_2")] pub renamed1: i16,
}

impl Abs for R1_59845 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_59845_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_59845_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_55248")]
pub enum R1_55248 {
    P { k1_55248_1: u8 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_55248: std::num::NonZeroU16 },
}

impl Abs for R1_55248 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_55248_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_55248: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_55248_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_55248: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_63167 {
    pub k1_63167_1: std::num::NonZeroU32,
    #[serde(rename = "k1_63167_2")] pub renamed1: Leaf,
    #[serde(default)] pub k1_63167_3: Leaf,
    pub k1_63167_4: std::num::NonZeroI64,
}

impl Abs for R1_63167 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_63167_1.to_a(), self.renamed1.to_a(), self.k1_63167_3.to_a(), self.k1_63167_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_63167_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_63167_3: Abs::of_a(&v[2]), k1_63167_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_23822 {
    #[serde(flatten)] pub inner_0: R1_55248,
    #[serde(rename = "k2_23822_2")] pub renamed1: R1_63167,
    pub k2_23822_3: (),
}

impl Abs for R2_23822 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_23822_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_23822_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_22667 {
    pub k3_22667_1: Option<R1_43641>,
    #[serde(rename = "k3_22667_2")] #[serde(default)] pub renamed1: Vec<R1_59845>,
    pub k3_22667_3: R2_23822,
}

impl Abs for R3_22667 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_22667_1.to_a(), self.renamed1.to_a(), self.k3_22667_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_22667_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_22667_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R4_13658 {
    v4_13658_1,
    #[serde(rename = "v4_13658_2", reindex = 114)] V1,
    v4_13658_3,
    v4_13658_4,
}

impl Abs for R4_13658 {
    fn to_a(&self) -> A {
        match self {
            Self::v4_13658_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v4_13658_3 => A::Var(3, vec![]),
            Self::v4_13658_4 => A::Var(4, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v4_13658_1,
            2 => Self::V1,
            3 => Self::v4_13658_3,
            4 => Self::v4_13658_4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_31400")]
pub enum R1_31400 {
    P { k1_31400_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_31400: Leaf },
}

impl Abs for R1_31400 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_31400_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_31400: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_31400_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_31400: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_75854 {
    pub k1_75854_1: Leaf,
    #[serde(rename = "k1_75854_2")] #[serde(default)] pub renamed1: i64,
    pub k1_75854_3: Leaf,
}

impl Abs for R1_75854 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_75854_1.to_a(), self.renamed1.to_a(), self.k1_75854_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_75854_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_75854_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_96655 {
    pub k1_96655_1: std::num::NonZeroU8,
    #[serde(rename = "k1_96655_2")] #[serde(default)] pub renamed1: Leaf,
    #[serde(default)] pub k1_96655_3: i16,
}

impl Abs for R1_96655 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_96655_1.to_a(), self.renamed1.to_a(), self.k1_96655_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_96655_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_96655_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_82703")]
pub enum R2_82703 {
    P { #[serde(default)] k2_82703_1: R1_75854, #[serde(rename = "k2_82703_2")] #[serde(default)] renamed1: () },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_96655 },
}

impl Abs for R2_82703 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_82703_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_82703_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_29072 {
    #[serde(default)] pub k1_29072_1: Leaf,
    #[serde(rename = "k1_29072_2")] #[serde(default)] pub renamed1: Even,
    pub k1_29072_3: Leaf,
}

impl Abs for R1_29072 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_29072_1.to_a(), self.renamed1.to_a(), self.k1_29072_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_29072_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_29072_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_64517 {
    pub k1_64517_1: Leaf,
    #[serde(rename = "k1_64517_2")] pub renamed1: bool,
}

impl Abs for R1_64517 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_64517_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_64517_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R2_77613 {
    #[serde(flatten)] pub inner_0: R1_64517,
    #[serde(rename = "k2_77613_2")] #[serde(default)] pub renamed1: Option<Leaf>,
    pub k2_77613_3: Option<Leaf>,
}

impl Abs for R2_77613 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_77613_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_77613_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R3_68604 {
    v3_68604_1,
}

impl Abs for R3_68604 {
    fn to_a(&self) -> A {
        match self {
            Self::v3_68604_1 => A::Var(1, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v3_68604_1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_42077 {
    v1_42077_1,
    #[serde(rename = "v1_42077_2", reindex = 114)] V1,
    v1_42077_3,
    v1_42077_4,
}

impl Abs for R1_42077 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_42077_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_42077_3 => A::Var(3, vec![]),
            Self::v1_42077_4 => A::Var(4, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_42077_1,
            2 => Self::V1,
            3 => Self::v1_42077_3,
            4 => Self::v1_42077_4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_16760 {
    #[serde(default)] pub k2_16760_1: (),
    #[serde(rename = "k2_16760_2")] pub renamed1: [std::num::NonZeroU8; 3],
    pub k2_16760_3: R1_42077,
}

impl Abs for R2_16760 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_16760_1.to_a(), self.renamed1.to_a(), self.k2_16760_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_16760_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_16760_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t4_59595")]
pub enum R4_59595 {
    P { k4_59595_1: Option<Option<Option<std::num::NonZeroU8>>> },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x4_59595: Option<R2_16760> },
}

impl Abs for R4_59595 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k4_59595_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x4_59595: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k4_59595_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x4_59595: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_26808")]
pub enum R1_26808 {
    P { k1_26808_1: u32 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_26808: std::num::NonZeroU64 },
}

impl Abs for R1_26808 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_26808_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_26808: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_26808_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_26808: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_10329")]
pub enum R1_10329 {
    P { k1_10329_1: u32 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_10329: bool },
}

impl Abs for R1_10329 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_10329_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_10329: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_10329_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_10329: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_93881")]
pub enum R2_93881 {
    P { k2_93881_1: Option<u32>, #[serde(rename = "k2_93881_2")] renamed1: R1_10329 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_93881: Vec<Leaf> },
}

impl Abs for R2_93881 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_93881_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_93881: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_93881_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x2_93881: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_32130 {
    #[serde(default)] pub k1_32130_1: Leaf,
    #[serde(rename = "k1_32130_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_32130_3: std::num::NonZeroI64,
}

impl Abs for R1_32130 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_32130_1.to_a(), self.renamed1.to_a(), self.k1_32130_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_32130_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_32130_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_11695 {
    pub k1_11695_1: std::num::NonZeroU64,
}

impl Abs for R1_11695 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_11695_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_11695_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_97203")]
pub enum R2_97203 {
    P { k2_97203_1: R1_11695, #[serde(rename = "k2_97203_2")] renamed1: Option<Leaf> },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_97203: Option<Leaf> },
}

impl Abs for R2_97203 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_97203_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_97203: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_97203_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x2_97203: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_27899 {
    pub k1_27899_1: Leaf,
}

impl Abs for R1_27899 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_27899_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_27899_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_51656")]
pub enum R1_51656 {
    P { k1_51656_1: Leaf, #[serde(rename = "k1_51656_2")] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_51656: Leaf },
}

impl Abs for R1_51656 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_51656_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_51656: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_51656_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_51656: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_5131 {
    #[serde(flatten)] pub inner_0: R1_27899,
    #[serde(rename = "k2_5131_2")] pub renamed1: Option<Leaf>,
    #[serde(default)] pub k2_5131_3: (Leaf, Leaf),
    pub k2_5131_4: R1_51656,
}

impl Abs for R2_5131 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_5131_3.to_a(), self.k2_5131_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_5131_3: Abs::of_a(&v[2]), k2_5131_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_33433")]
pub enum R1_33433 {
    P { k1_33433_1: i16 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_33433: Leaf },
}

impl Abs for R1_33433 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_33433_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_33433: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_33433_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_33433: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_41352 {
    pub k1_41352_1: std::num::NonZeroI64,
    #[serde(rename = "k1_41352_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_41352_3: i16,
}

impl Abs for R1_41352 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_41352_1.to_a(), self.renamed1.to_a(), self.k1_41352_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_41352_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_41352_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_54234 {
    v1_54234_1,
    #[serde(rename = "v1_54234_2", reindex = 114)] V1,
    v1_54234_3,
    v1_54234_4,
    #[serde(rename = "v1_54234_5", reindex = 135)] V4,
}

impl Abs for R1_54234 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_54234_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_54234_3 => A::Var(3, vec![]),
            Self::v1_54234_4 => A::Var(4, vec![]),
            Self::V4 => A::Var(5, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_54234_1,
            2 => Self::V1,
            3 => Self::v1_54234_3,
            4 => Self::v1_54234_4,
            5 => Self::V4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_10094")]
pub enum R2_10094 {
    P { k2_10094_1: R1_33433, #[serde(rename = "k2_10094_2")] renamed1: R1_41352, k2_10094_3: Option<i16> },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_10094: R1_54234 },
}

impl Abs for R2_10094 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_10094_1: b0, renamed1: b1, k2_10094_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_10094: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_10094_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_10094_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x2_10094: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_28978")]
pub enum R3_28978 {
    P { k3_28978_1: (Option<Leaf>, R1_32130), #[serde(flatten)] inner_1: R2_97203, #[serde(flatten)] inner_2: R2_5131 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R2_10094 },
}

impl Abs for R3_28978 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_28978_1: b0, inner_1: b1, inner_2: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_28978_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_50637")]
pub enum R1_50637 {
    P { k1_50637_1: i16, #[serde(rename = "k1_50637_2")] #[serde(default)] renamed1: Leaf, k1_50637_3: u64 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_50637: std::num::NonZeroI32 },
}

impl Abs for R1_50637 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_50637_1: b0, renamed1: b1, k1_50637_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_50637: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_50637_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_50637_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_50637: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_58556 {
    pub k1_58556_1: std::num::NonZeroI32,
    #[serde(rename = "k1_58556_2")] pub renamed1: Leaf,
}

impl Abs for R1_58556 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_58556_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_58556_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_13416")]
pub enum R2_13416 {
    P { k2_13416_1: Option<i8>, #[serde(flatten)] inner_1: R1_50637, #[serde(flatten)] inner_2: R1_58556 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_13416: [Leaf; 1] },
}

impl Abs for R2_13416 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_13416_1: b0, inner_1: b1, inner_2: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_13416: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_13416_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x2_13416: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_66841")]
pub enum R1_66841 {
    P { k1_66841_1: i32 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_66841: std::num::NonZeroU8 },
}

impl Abs for R1_66841 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_66841_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_66841: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_66841_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_66841: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_74760 {
    pub k1_74760_1: Leaf,
    #[serde(rename = "k1_74760_2")] pub renamed1: char,
}

impl Abs for R1_74760 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_74760_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_74760_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_82679 {
    pub k1_82679_1: Leaf,
}

impl Abs for R1_82679 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_82679_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_82679_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_21335 {
    pub k2_21335_1: Option<i32>,
    #[serde(flatten)] pub inner_1: R1_66841,
    #[serde(default)] pub k2_21335_3: R1_74760,
    pub k2_21335_4: R1_82679,
}

impl Abs for R2_21335 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_21335_1.to_a(), self.inner_1.to_a(), self.k2_21335_3.to_a(), self.k2_21335_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_21335_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k2_21335_3: Abs::of_a(&v[2]), k2_21335_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_36897 {
    pub k3_36897_1: ([Leaf; 3], ()),
    #[serde(flatten)] pub inner_1: R2_13416,
    pub k3_36897_3: R2_21335,
    pub k3_36897_4: (),
}

impl Abs for R3_36897 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_36897_1.to_a(), self.inner_1.to_a(), self.k3_36897_3.to_a(), self.k3_36897_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_36897_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k3_36897_3: Abs::of_a(&v[2]), k3_36897_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_32568 {
    pub k4_32568_1: (R2_93881, Option<Option<Leaf>>),
    #[serde(rename = "k4_32568_2")] pub renamed1: R3_28978,
    pub k4_32568_3: R3_36897,
}

impl Abs for R4_32568 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k4_32568_1.to_a(), self.renamed1.to_a(), self.k4_32568_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k4_32568_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k4_32568_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_80281 {
    pub k1_80281_1: Even,
    #[serde(rename = "k1_80281_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_80281_3: std::num::NonZeroU32,
}

impl Abs for R1_80281 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_80281_1.to_a(), self.renamed1.to_a(), self.k1_80281_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_80281_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_80281_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_23559 {
    pub k2_23559_1: Vec<Leaf>,
    #[serde(flatten)] pub inner_1: R1_80281,
    #[serde(default)] pub k2_23559_3: Option<std::num::NonZeroU64>,
    pub k2_23559_4: Vec<Leaf>,
}

impl Abs for R2_23559 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_23559_1.to_a(), self.inner_1.to_a(), self.k2_23559_3.to_a(), self.k2_23559_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_23559_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k2_23559_3: Abs::of_a(&v[2]), k2_23559_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R3_14550 {
    v3_14550_1,
    #[serde(rename = "v3_14550_2", reindex = 114)] V1,
}

impl Abs for R3_14550 {
    fn to_a(&self) -> A {
        match self {
            Self::v3_14550_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v3_14550_1,
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_44239")]
pub enum R1_44239 {
    P { #[serde(default)] k1_44239_1: Even },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_44239: Leaf },
}

impl Abs for R1_44239 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_44239_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_44239: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_44239_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_44239: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_52158 {
    pub k1_52158_1: u32,
}

impl Abs for R1_52158 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_52158_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_52158_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_34022 {
    pub k2_34022_1: Option<Leaf>,
    #[serde(rename = "k2_34022_2")] pub renamed1: R1_44239,
    pub k2_34022_3: R1_52158,
}

impl Abs for R2_34022 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_34022_1.to_a(), self.renamed1.to_a(), self.k2_34022_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_34022_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_34022_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_95778 {
    pub k3_95778_1: Vec<Vec<std::num::NonZeroI64>>,
    #[serde(rename = "k3_95778_2")] pub renamed1: R2_34022,
    #[serde(default)] pub k3_95778_3: (),
    pub k3_95778_4: [Option<Leaf>; 1],
}

impl Abs for R3_95778 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_95778_1.to_a(), self.renamed1.to_a(), self.k3_95778_3.to_a(), self.k3_95778_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_95778_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_95778_3: Abs::of_a(&v[2]), k3_95778_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_62928 {
    pub k1_62928_1: std::num::NonZeroU32,
    #[serde(rename = "k1_62928_2")] #[serde(default)] pub renamed1: String,
    pub k1_62928_3: Leaf,
}

impl Abs for R1_62928 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_62928_1.to_a(), self.renamed1.to_a(), self.k1_62928_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_62928_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_62928_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_98200 {
    pub k1_98200_1: Leaf,
    #[serde(rename = "k1_98200_2")] pub renamed1: std::num::NonZeroU16,
    pub k1_98200_3: String,
}

impl Abs for R1_98200 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_98200_1.to_a(), self.renamed1.to_a(), self.k1_98200_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_98200_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_98200_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_77592 {
    #[serde(flatten)] pub inner_0: R1_98200,
    #[serde(rename = "k2_77592_2")] #[serde(default)] pub renamed1: (),
    pub k2_77592_3: [Leaf; 1],
}

impl Abs for R2_77592 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_77592_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_77592_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_35214 {
    pub k1_35214_1: std::num::NonZeroI8,
    #[serde(rename = "k1_35214_2")] #[serde(default)] pub renamed1: u32,
    pub k1_35214_3: Leaf,
}

impl Abs for R1_35214 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_35214_1.to_a(), self.renamed1.to_a(), self.k1_35214_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_35214_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_35214_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R2_93430 {
    v2_93430_1,
    #[serde(rename = "v2_93430_2", reindex = 114)] V1,
    v2_93430_3,
    v2_93430_4,
}

impl Abs for R2_93430 {
    fn to_a(&self) -> A {
        match self {
            Self::v2_93430_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v2_93430_3 => A::Var(3, vec![]),
            Self::v2_93430_4 => A::Var(4, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v2_93430_1,
            2 => Self::V1,
            3 => Self::v2_93430_3,
            4 => Self::v2_93430_4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_87514 {
    #[serde(flatten)] pub inner_0: R2_77592,
    #[serde(rename = "k3_87514_2")] pub renamed1: [R1_35214; 1],
    pub k3_87514_3: R2_93430,
}

impl Abs for R3_87514 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k3_87514_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_87514_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_48111 {
    pub k1_48111_1: std::num::NonZeroU8,
}

impl Abs for R1_48111 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_48111_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_48111_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_36823")]
pub enum R3_36823 {
    P { k3_36823_1: Option<R1_48111> },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x3_36823: Vec<Vec<Leaf>> },
}

impl Abs for R3_36823 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_36823_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x3_36823: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_36823_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x3_36823: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_11185")]
pub enum R1_11185 {
    P { k1_11185_1: std::num::NonZeroI16 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_11185: u32 },
}

impl Abs for R1_11185 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_11185_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_11185: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_11185_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_11185: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_44742 {
    #[serde(default)] pub k3_44742_1: Option<Option<Leaf>>,
    #[serde(rename = "k3_44742_2")] pub renamed1: (Option<Leaf>, R1_11185),
}

impl Abs for R3_44742 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_44742_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_44742_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_48108 {
    pub k1_48108_1: std::num::NonZeroU32,
    #[serde(rename = "k1_48108_2")] pub renamed1: Leaf,
    #[serde(default)] pub k1_48108_3: i64,
    pub k1_48108_4: std::num::NonZeroU8,
}

impl Abs for R1_48108 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_48108_1.to_a(), self.renamed1.to_a(), self.k1_48108_3.to_a(), self.k1_48108_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_48108_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_48108_3: Abs::of_a(&v[2]), k1_48108_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_78505 {
    pub k4_78505_1: Option<Vec<Option<u8>>>,
    #[serde(rename = "k4_78505_2")] pub renamed1: R3_36823,
    pub k4_78505_3: R3_44742,
    pub k4_78505_4: Option<Option<R1_48108>>,
}

impl Abs for R4_78505 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k4_78505_1.to_a(), self.renamed1.to_a(), self.k4_78505_3.to_a(), self.k4_78505_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k4_78505_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k4_78505_3: Abs::of_a(&v[2]), k4_78505_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R2_69496 {
    v2_69496_1,
    #[serde(rename = "v2_69496_2", reindex = 114)] V1,
    v2_69496_3,
}

impl Abs for R2_69496 {
    fn to_a(&self) -> A {
        match self {
            Self::v2_69496_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v2_69496_3 => A::Var(3, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v2_69496_1,
            2 => Self::V1,
            3 => Self::v2_69496_3,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_45323 {
    pub k1_45323_1: std::num::NonZeroU64,
    #[serde(rename = "k1_45323_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_45323_3: i64,
    pub k1_45323_4: Leaf,
}

impl Abs for R1_45323 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_45323_1.to_a(), self.renamed1.to_a(), self.k1_45323_3.to_a(), self.k1_45323_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_45323_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_45323_3: Abs::of_a(&v[2]), k1_45323_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_39438 {
    #[serde(default)] pub k2_39438_1: (),
    #[serde(rename = "k2_39438_2")] pub renamed1: Vec<std::num::NonZeroU16>,
    pub k2_39438_3: R1_45323,
}

impl Abs for R2_39438 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_39438_1.to_a(), self.renamed1.to_a(), self.k2_39438_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_39438_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_39438_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R2_52320 {
    v2_52320_1,
    #[serde(rename = "v2_52320_2", reindex = 114)] V1,
}

impl Abs for R2_52320 {
    fn to_a(&self) -> A {
        match self {
            Self::v2_52320_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v2_52320_1,
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_60487")]
pub enum R3_60487 {
    P { k3_60487_1: Vec<(char, Leaf)>, #[serde(flatten)] inner_1: R2_39438 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x3_60487: R2_52320 },
}

impl Abs for R3_60487 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_60487_1: b0, inner_1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x3_60487: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_60487_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x3_60487: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_88574")]
pub enum R1_88574 {
    P { k1_88574_1: i64 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_88574: Leaf },
}

impl Abs for R1_88574 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_88574_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_88574: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_88574_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_88574: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_68139 {
    pub k1_68139_1: Leaf,
    #[serde(rename = "k1_68139_2")] pub renamed1: Leaf,
    pub k1_68139_3: std::num::NonZeroU16,
    pub k1_68139_4: Leaf,
}

impl Abs for R1_68139 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_68139_1.to_a(), self.renamed1.to_a(), self.k1_68139_3.to_a(), self.k1_68139_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_68139_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_68139_3: Abs::of_a(&v[2]), k1_68139_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_83977")]
pub enum R1_83977 {
    P { k1_83977_1: Leaf, #[serde(rename = "k1_83977_2")] renamed1: String },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_83977: String },
}

impl Abs for R1_83977 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_83977_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_83977: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_83977_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_83977: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_64166")]
pub enum R2_64166 {
    P { #[serde(flatten)] inner_0: R1_68139, #[serde(rename = "k2_64166_2")] renamed1: Option<std::num::NonZeroU16>, #[serde(flatten)] inner_2: R1_83977 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_64166: Option<Leaf> },
}

impl Abs for R2_64166 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0, renamed1: b1, inner_2: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_64166: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x2_64166: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_3632 {
    pub k3_3632_1: (Option<Leaf>, R1_88574),
    #[serde(rename = "k3_3632_2")] pub renamed1: R2_64166,
}

impl Abs for R3_3632 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_3632_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_3632_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_54935 {
    pub k1_54935_1: i64,
    #[serde(rename = "k1_54935_2")] pub renamed1: std::num::NonZeroU8,
    #[serde(default)] pub k1_54935_3: Leaf,
    pub k1_54935_4: i8,
}

impl Abs for R1_54935 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_54935_1.to_a(), self.renamed1.to_a(), self.k1_54935_3.to_a(), self.k1_54935_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_54935_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_54935_3: Abs::of_a(&v[2]), k1_54935_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_28353")]
pub enum R1_28353 {
    P { k1_28353_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_28353: Leaf },
}

impl Abs for R1_28353 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_28353_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_28353: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_28353_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_28353: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_85437 {
    #[serde(flatten)] pub inner_0: R1_28353,
}

impl Abs for R2_85437 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_65358 {
    v1_65358_1,
}

impl Abs for R1_65358 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_65358_1 => A::Var(1, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_65358_1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_81562 {
    v1_81562_1,
    #[serde(rename = "v1_81562_2", reindex = 114)] V1,
    v1_81562_3,
}

impl Abs for R1_81562 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_81562_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_81562_3 => A::Var(3, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_81562_1,
            2 => Self::V1,
            3 => Self::v1_81562_3,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_1284")]
pub enum R2_1284 {
    P { #[serde(default)] k2_1284_1: Vec<Leaf> },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_1284: R1_81562 },
}

impl Abs for R2_1284 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_1284_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_1284: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_1284_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x2_1284: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_97766 {
    v1_97766_1,
    #[serde(rename = "v1_97766_2", reindex = 114)] V1,
    v1_97766_3,
    v1_97766_4,
    #[serde(rename = "v1_97766_5", reindex = 135)] V4,
}

impl Abs for R1_97766 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_97766_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_97766_3 => A::Var(3, vec![]),
            Self::v1_97766_4 => A::Var(4, vec![]),
            Self::V4 => A::Var(5, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_97766_1,
            2 => Self::V1,
            3 => Self::v1_97766_3,
            4 => Self::v1_97766_4,
            5 => Self::V4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_9203")]
pub enum R2_9203 {
    P { k2_9203_1: Vec<Even> },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_9203: R1_97766 },
}

impl Abs for R2_9203 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_9203_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_9203: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_9203_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x2_9203: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_33460 {
    #[serde(flatten)] pub inner_0: R2_85437,
    #[serde(rename = "k3_33460_2")] pub renamed1: Option<R1_65358>,
    pub k3_33460_3: R2_1284,
    pub k3_33460_4: R2_9203,
}

impl Abs for R3_33460 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k3_33460_3.to_a(), self.k3_33460_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_33460_3: Abs::of_a(&v[2]), k3_33460_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_76352")]
pub enum R1_76352 {
    P { #[serde(default)] k1_76352_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_76352: std::num::NonZeroU8 },
}

impl Abs for R1_76352 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_76352_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_76352: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_76352_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_76352: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_84271 {
    pub k1_84271_1: Leaf,
}

impl Abs for R1_84271 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_84271_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_84271_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_49215 {
    pub k2_49215_1: Option<char>,
    #[serde(rename = "k2_49215_2")] #[serde(default)] pub renamed1: Vec<i64>,
    pub k2_49215_3: R1_76352,
    pub k2_49215_4: R1_84271,
}

impl Abs for R2_49215 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_49215_1.to_a(), self.renamed1.to_a(), self.k2_49215_3.to_a(), self.k2_49215_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_49215_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_49215_3: Abs::of_a(&v[2]), k2_49215_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_36749 {
    #[serde(default)] pub k3_36749_1: (),
    #[serde(rename = "k3_36749_2")] pub renamed1: Vec<[Leaf; 3]>,
    pub k3_36749_3: R2_49215,
}

impl Abs for R3_36749 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_36749_1.to_a(), self.renamed1.to_a(), self.k3_36749_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_36749_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_36749_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_24451 {
    #[serde(flatten)] pub inner_0: R3_36749,
}

impl Abs for R4_24451 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_15442")]
pub enum R2_15442 {
    P { k2_15442_1: Option<std::num::NonZeroU8> },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_15442: Option<i32> },
}

impl Abs for R2_15442 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_15442_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_15442: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_15442_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x2_15442: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_80064")]
pub enum R1_80064 {
    P { k1_80064_1: std::num::NonZeroI8, #[serde(rename = "k1_80064_2")] renamed1: u16 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_80064: Leaf },
}

impl Abs for R1_80064 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_80064_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_80064: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_80064_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_80064: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_2177 {
    #[serde(default)] pub k1_2177_1: String,
    #[serde(rename = "k1_2177_2")] pub renamed1: Leaf,
    pub k1_2177_3: std::num::NonZeroI64,
}

impl Abs for R1_2177 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_2177_1.to_a(), self.renamed1.to_a(), self.k1_2177_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_2177_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_2177_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_6433")]
pub enum R3_6433 {
    P { k3_6433_1: (Option<std::num::NonZeroU64>, R1_80064) },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x3_6433: (R1_2177, Vec<String>) },
}

impl Abs for R3_6433 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_6433_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x3_6433: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_6433_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x3_6433: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_42506")]
pub enum R1_42506 {
    P { k1_42506_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_42506: u16 },
}

impl Abs for R1_42506 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_42506_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_42506: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_42506_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_42506: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_62780")]
pub enum R1_62780 {
    P { k1_62780_1: Leaf, #[serde(rename = "k1_62780_2")] renamed1: f32 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_62780: Leaf },
}

impl Abs for R1_62780 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_62780_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_62780: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_62780_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_62780: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_66416")]
pub enum R1_66416 {
    P { k1_66416_1: Leaf, #[serde(rename = "k1_66416_2")] renamed1: String },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_66416: Leaf },
}

impl Abs for R1_66416 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_66416_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_66416: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_66416_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_66416: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_74335 {
    pub k1_74335_1: Leaf,
    #[serde(rename = "k1_74335_2")] pub renamed1: u8,
    pub k1_74335_3: std::num::NonZeroU16,
    pub k1_74335_4: Leaf,
}

impl Abs for R1_74335 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_74335_1.to_a(), self.renamed1.to_a(), self.k1_74335_3.to_a(), self.k1_74335_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_74335_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_74335_3: Abs::of_a(&v[2]), k1_74335_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_93282 {
    pub k2_93282_1: (Leaf, Leaf),
    #[serde(rename = "k2_93282_2")] pub renamed1: R1_66416,
    pub k2_93282_3: R1_74335,
}

impl Abs for R2_93282 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_93282_1.to_a(), self.renamed1.to_a(), self.k2_93282_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_93282_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_93282_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_82620")]
pub enum R1_82620 {
    P { k1_82620_1: Leaf, #[serde(rename = "k1_82620_2")] renamed1: Leaf, k1_82620_3: u16 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_82620: Leaf },
}

impl Abs for R1_82620 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_82620_1: b0, renamed1: b1, k1_82620_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_82620: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_82620_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_82620_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_82620: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_1210 {
    #[serde(default)] pub k2_1210_1: (Leaf, Leaf),
    #[serde(rename = "k2_1210_2")] pub renamed1: R1_82620,
}

impl Abs for R2_1210 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_1210_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_1210_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_22956 {
    pub k1_22956_1: std::num::NonZeroU8,
    #[serde(rename = "k1_22956_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_22956_3: i16,
}

impl Abs for R1_22956 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_22956_1.to_a(), self.renamed1.to_a(), self.k1_22956_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_22956_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_22956_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_17048")]
pub enum R2_17048 {
    P { k2_17048_1: [i16; 1], #[serde(rename = "k2_17048_2")] renamed1: Vec<std::num::NonZeroI64>, k2_17048_3: R1_22956 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_17048: [Leaf; 1] },
}

impl Abs for R2_17048 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_17048_1: b0, renamed1: b1, k2_17048_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_17048: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_17048_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_17048_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x2_17048: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_79397 {
    #[serde(flatten)] pub inner_0: R2_93282,
    #[serde(flatten)] pub inner_1: R2_1210,
    pub k3_79397_3: Option<[Leaf; 3]>,
    pub k3_79397_4: R2_17048,
}

impl Abs for R3_79397 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.inner_1.to_a(), self.k3_79397_3.to_a(), self.k3_79397_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k3_79397_3: Abs::of_a(&v[2]), k3_79397_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_59925 {
    pub k1_59925_1: u32,
    #[serde(rename = "k1_59925_2")] pub renamed1: Leaf,
}

impl Abs for R1_59925 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_59925_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_59925_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_75763")]
pub enum R1_75763 {
    P { k1_75763_1: std::num::NonZeroI8 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_75763: u16 },
}

impl Abs for R1_75763 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_75763_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_75763: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_75763_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_75763: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_63521 {
    #[serde(flatten)] pub inner_0: R1_59925,
    #[serde(rename = "k2_63521_2")] #[serde(default)] pub renamed1: Option<std::num::NonZeroI8>,
    pub k2_63521_3: R1_75763,
}

impl Abs for R2_63521 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_63521_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_63521_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_44594 {
    #[serde(flatten)] pub inner_0: R2_63521,
}

impl Abs for R3_44594 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_70388 {
    pub k4_70388_1: R3_44594,
}

impl Abs for R4_70388 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k4_70388_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k4_70388_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_95897 {
    #[serde(default)] pub k1_95897_1: Leaf,
    #[serde(rename = "k1_95897_2")] pub renamed1: char,
}

impl Abs for R1_95897 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_95897_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_95897_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_61379")]
pub enum R2_61379 {
    P { #[serde(default)] k2_61379_1: R1_95897, #[serde(rename = "k2_61379_2")] renamed1: Option<Leaf>, k2_61379_3: Vec<Leaf> },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: () },
}

impl Abs for R2_61379 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_61379_1: b0, renamed1: b1, k2_61379_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_61379_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_61379_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_73569 {
    pub k1_73569_1: Leaf,
}

impl Abs for R1_73569 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_73569_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_73569_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_89407")]
pub enum R1_89407 {
    P { #[serde(default)] k1_89407_1: Leaf, #[serde(rename = "k1_89407_2")] renamed1: Leaf, k1_89407_3: i16 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_89407: Leaf },
}

impl Abs for R1_89407 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_89407_1: b0, renamed1: b1, k1_89407_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_89407: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_89407_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_89407_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_89407: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_97326")]
pub enum R1_97326 {
    P { k1_97326_1: char, #[serde(rename = "k1_97326_2")] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_97326: Leaf },
}

impl Abs for R1_97326 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_97326_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_97326: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_97326_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_97326: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_47209 {
    #[serde(flatten)] pub inner_0: R1_73569,
    #[serde(rename = "k2_47209_2")] pub renamed1: Option<Leaf>,
    pub k2_47209_3: R1_89407,
    pub k2_47209_4: R1_97326,
}

impl Abs for R2_47209 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_47209_3.to_a(), self.k2_47209_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_47209_3: Abs::of_a(&v[2]), k2_47209_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_10583 {
    pub k1_10583_1: std::num::NonZeroU8,
}

impl Abs for R1_10583 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_10583_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_10583_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_5986 {
    v1_5986_1,
    #[serde(rename = "v1_5986_2", reindex = 114)] V1,
    v1_5986_3,
}

impl Abs for R1_5986 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_5986_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_5986_3 => A::Var(3, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_5986_1,
            2 => Self::V1,
            3 => Self::v1_5986_3,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_13905 {
    pub k1_13905_1: Leaf,
    #[serde(rename = "k1_13905_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_13905_3: Even,
}

impl Abs for R1_13905 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_13905_1.to_a(), self.renamed1.to_a(), self.k1_13905_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_13905_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_13905_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_26787 {
    pub k1_26787_1: Leaf,
}

impl Abs for R1_26787 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_26787_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_26787_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_63047")]
pub enum R2_63047 {
    P { k2_63047_1: R1_5986, #[serde(rename = "k2_63047_2")] renamed1: R1_13905, k2_63047_3: (Even, std::num::NonZeroU32) },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_26787 },
}

impl Abs for R2_63047 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_63047_1: b0, renamed1: b1, k2_63047_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_63047_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_63047_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_32321 {
    v1_32321_1,
    #[serde(rename = "v1_32321_2", reindex = 114)] V1,
    v1_32321_3,
    v1_32321_4,
    #[serde(rename = "v1_32321_5", reindex = 135)] V4,
}

impl Abs for R1_32321 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_32321_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_32321_3 => A::Var(3, vec![]),
            Self::v1_32321_4 => A::Var(4, vec![]),
            Self::V4 => A::Var(5, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_32321_1,
            2 => Self::V1,
            3 => Self::v1_32321_3,
            4 => Self::v1_32321_4,
            5 => Self::V4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_52370")]
pub enum R3_52370 {
    P { k3_52370_1: R2_47209, #[serde(rename = "k3_52370_2")] renamed1: Option<R1_10583>, k3_52370_3: R2_63047 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x3_52370: Option<R1_32321> },
}

impl Abs for R3_52370 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_52370_1: b0, renamed1: b1, k3_52370_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x3_52370: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_52370_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_52370_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x3_52370: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_85932 {
    #[serde(default)] pub k1_85932_1: i16,
    #[serde(rename = "k1_85932_2")] pub renamed1: std::num::NonZeroI32,
    pub k1_85932_3: Leaf,
}

impl Abs for R1_85932 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_85932_1.to_a(), self.renamed1.to_a(), self.k1_85932_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_85932_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_85932_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_53183")]
pub enum R2_53183 {
    P { k2_53183_1: R1_85932 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: () },
}

impl Abs for R2_53183 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_53183_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_53183_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R3_25343 {
    pub k3_25343_1: [Vec<std::num::NonZeroI8>; 1],
}

impl Abs for R3_25343 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_25343_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_25343_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R2_93665 {
    v2_93665_1,
    #[serde(rename = "v2_93665_2", reindex = 114)] V1,
}

impl Abs for R2_93665 {
    fn to_a(&self) -> A {
        match self {
            Self::v2_93665_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v2_93665_1,
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_7957")]
pub enum R1_7957 {
    P { k1_7957_1: Leaf, #[serde(rename = "k1_7957_2")] renamed1: std::num::NonZeroI8, k1_7957_3: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_7957: Leaf },
}

impl Abs for R1_7957 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_7957_1: b0, renamed1: b1, k1_7957_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_7957: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_7957_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_7957_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_7957: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_15876 {
    pub k1_15876_1: Leaf,
}

impl Abs for R1_15876 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_15876_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_15876_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_1593 {
    #[serde(flatten)] pub inner_0: R1_7957,
    #[serde(rename = "k2_1593_2")] #[serde(default)] pub renamed1: R1_15876,
    pub k2_1593_3: Option<Leaf>,
}

impl Abs for R2_1593 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_1593_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_1593_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_14475 {
    pub k2_14475_1: [std::num::NonZeroI64; 1],
}

impl Abs for R2_14475 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_14475_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_14475_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_52439")]
pub enum R3_52439 {
    P { k3_52439_1: R2_93665, #[serde(rename = "k3_52439_2")] renamed1: R2_1593 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R2_14475 },
}

impl Abs for R3_52439 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_52439_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_52439_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R2_9878 {
    v2_9878_1,
    #[serde(rename = "v2_9878_2", reindex = 114)] V1,
    v2_9878_3,
}

impl Abs for R2_9878 {
    fn to_a(&self) -> A {
        match self {
            Self::v2_9878_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v2_9878_3 => A::Var(3, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v2_9878_1,
            2 => Self::V1,
            3 => Self::v2_9878_3,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_38980 {
    pub k1_38980_1: f32,
}

impl Abs for R1_38980 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_38980_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_38980_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_54818")]
pub enum R1_54818 {
    P { #[serde(default)] k1_54818_1: Leaf, #[serde(rename = "k1_54818_2")] #[serde(default)] renamed1: f64 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_54818: Leaf },
}

impl Abs for R1_54818 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_54818_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_54818: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_54818_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_54818: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_17797 {
    #[serde(flatten)] pub inner_0: R1_38980,
    #[serde(rename = "k2_17797_2")] #[serde(default)] pub renamed1: Option<std::num::NonZeroI64>,
    pub k2_17797_3: R1_54818,
}

impl Abs for R2_17797 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_17797_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_17797_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_60358 {
    pub k3_60358_1: R2_9878,
    #[serde(rename = "k3_60358_2")] pub renamed1: R2_17797,
}

impl Abs for R3_60358 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_60358_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_60358_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_16334 {
    pub k4_16334_1: R3_52439,
    #[serde(rename = "k4_16334_2")] pub renamed1: R3_60358,
}

impl Abs for R4_16334 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k4_16334_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k4_16334_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_3751 {
    v1_3751_1,
    #[serde(rename = "v1_3751_2", reindex = 114)] V1,
    v1_3751_3,
    v1_3751_4,
}

impl Abs for R1_3751 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_3751_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_3751_3 => A::Var(3, vec![]),
            Self::v1_3751_4 => A::Var(4, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_3751_1,
            2 => Self::V1,
            3 => Self::v1_3751_3,
            4 => Self::v1_3751_4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_11670 {
    pub k1_11670_1: i16,
    #[serde(rename = "k1_11670_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_11670_3: u64,
    pub k1_11670_4: Leaf,
}

impl Abs for R1_11670 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_11670_1.to_a(), self.renamed1.to_a(), self.k1_11670_3.to_a(), self.k1_11670_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_11670_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_11670_3: Abs::of_a(&v[2]), k1_11670_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_24552 {
    pub k1_24552_1: Leaf,
}

impl Abs for R1_24552 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_24552_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_24552_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_7325")]
pub enum R2_7325 {
    P { k2_7325_1: R1_3751, #[serde(rename = "k2_7325_2")] #[serde(default)] renamed1: R1_11670 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_24552 },
}

impl Abs for R2_7325 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_7325_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_7325_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_3722 {
    #[serde(default)] pub k1_3722_1: Leaf,
    #[serde(rename = "k1_3722_2")] pub renamed1: Even,
}

impl Abs for R1_3722 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_3722_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_3722_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_11641 {
    pub k1_11641_1: Leaf,
}

impl Abs for R1_11641 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_11641_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_11641_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R2_55054 {
    #[serde(default)] pub k2_55054_1: R1_3722,
    #[serde(rename = "k2_55054_2")] pub renamed1: R1_11641,
}

impl Abs for R2_55054 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_55054_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_55054_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_40727 {
    #[serde(default)] pub k1_40727_1: u64,
    #[serde(rename = "k1_40727_2")] pub renamed1: Leaf,
}

impl Abs for R1_40727 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_40727_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_40727_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_98307")]
pub enum R3_98307 {
    P { #[serde(flatten)] inner_0: R2_55054, #[serde(rename = "k3_98307_2")] #[serde(default)] renamed1: Option<R1_40727> },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: () },
}

impl Abs for R3_98307 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_85343 {
    pub k1_85343_1: String,
    #[serde(rename = "k1_85343_2")] #[serde(default)] pub renamed1: i64,
    #[serde(default)] pub k1_85343_3: Leaf,
}

impl Abs for R1_85343 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_85343_1.to_a(), self.renamed1.to_a(), self.k1_85343_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_85343_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_85343_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R2_67489 {
    #[serde(default)] pub k2_67489_1: R1_85343,
    #[serde(rename = "k2_67489_2")] pub renamed1: (),
}

impl Abs for R2_67489 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_67489_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_67489_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_16900")]
pub enum R2_16900 {
    P { #[serde(default)] k2_16900_1: Option<Leaf> },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_16900: Option<u8> },
}

impl Abs for R2_16900 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_16900_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_16900: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_16900_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x2_16900: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_71280 {
    pub k3_71280_1: Option<Option<i32>>,
    #[serde(rename = "k3_71280_2")] pub renamed1: R2_16900,
}

impl Abs for R3_71280 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_71280_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_71280_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R2_44619 {
    #[serde(default)] pub k2_44619_1: Option<u64>,
    #[serde(rename = "k2_44619_2")] pub renamed1: Option<i8>,
}

impl Abs for R2_44619 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_44619_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_44619_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R3_68203 {
    v3_68203_1,
    #[serde(rename = "v3_68203_2", reindex = 114)] V1,
}

impl Abs for R3_68203 {
    fn to_a(&self) -> A {
        match self {
            Self::v3_68203_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v3_68203_1,
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R2_64145 {
    v2_64145_1,
}

impl Abs for R2_64145 {
    fn to_a(&self) -> A {
        match self {
            Self::v2_64145_1 => A::Var(1, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v2_64145_1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_18035 {
    pub k1_18035_1: Even,
}

impl Abs for R1_18035 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_18035_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_18035_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_33873")]
pub enum R1_33873 {
    P { #[serde(default)] k1_33873_1: Leaf, #[serde(rename = "k1_33873_2")] renamed1: Leaf, k1_33873_3: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_33873: Leaf },
}

impl Abs for R1_33873 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_33873_1: b0, renamed1: b1, k1_33873_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_33873: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_33873_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_33873_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_33873: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_72064 {
    #[serde(flatten)] pub inner_0: R1_18035,
    #[serde(rename = "k2_72064_2")] #[serde(default)] pub renamed1: Option<std::num::NonZeroU16>,
    pub k2_72064_3: R1_33873,
}

impl Abs for R2_72064 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_72064_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_72064_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_76122 {
    #[serde(default)] pub k3_76122_1: [Option<Leaf>; 1],
    #[serde(rename = "k3_76122_2")] pub renamed1: R2_64145,
    pub k3_76122_3: R2_72064,
}

impl Abs for R3_76122 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_76122_1.to_a(), self.renamed1.to_a(), self.k3_76122_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_76122_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_76122_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_62271 {
    #[serde(default)] pub k4_62271_1: [R2_44619; 3],
    #[serde(rename = "k4_62271_2")] pub renamed1: R3_68203,
    pub k4_62271_3: R3_76122,
}

impl Abs for R4_62271 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k4_62271_1.to_a(), self.renamed1.to_a(), self.k4_62271_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k4_62271_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k4_62271_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_11596")]
pub enum R1_11596 {
    P { #[serde(default)] k1_11596_1: bool },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_11596: std::num::NonZeroI16 },
}

impl Abs for R1_11596 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_11596_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_11596: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_11596_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_11596: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_19515 {
    pub k1_19515_1: std::num::NonZeroI16,
    #[serde(rename = "k1_19515_2")] pub renamed1: u64,
}

impl Abs for R1_19515 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_19515_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_19515_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_32397 {
    pub k1_32397_1: u32,
    #[serde(rename = "k1_32397_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_32397_3: Even,
}

impl Abs for R1_32397 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_32397_1.to_a(), self.renamed1.to_a(), self.k1_32397_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_32397_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_32397_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_53262")]
pub enum R2_53262 {
    P { #[serde(flatten)] inner_0: R1_11596, #[serde(rename = "k2_53262_2")] renamed1: R1_19515, k2_53262_3: Option<Leaf> },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_32397 },
}

impl Abs for R2_53262 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0, renamed1: b1, k2_53262_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_53262_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R2_83700 {
    v2_83700_1,
    #[serde(rename = "v2_83700_2", reindex = 114)] V1,
    v2_83700_3,
    v2_83700_4,
}

impl Abs for R2_83700 {
    fn to_a(&self) -> A {
        match self {
            Self::v2_83700_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v2_83700_3 => A::Var(3, vec![]),
            Self::v2_83700_4 => A::Var(4, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v2_83700_1,
            2 => Self::V1,
            3 => Self::v2_83700_3,
            4 => Self::v2_83700_4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_79220 {
    pub k1_79220_1: std::num::NonZeroU32,
}

impl Abs for R1_79220 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_79220_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_79220_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_76832")]
pub enum R2_76832 {
    P { #[serde(flatten)] inner_0: R1_79220, #[serde(rename = "k2_76832_2")] #[serde(default)] renamed1: Option<Leaf> },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_76832: Option<Leaf> },
}

impl Abs for R2_76832 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_76832: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x2_76832: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_95424 {
    pub k1_95424_1: bool,
}

impl Abs for R1_95424 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_95424_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_95424_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R2_84751 {
    #[serde(default)] pub k2_84751_1: R1_95424,
    #[serde(rename = "k2_84751_2")] pub renamed1: Option<u64>,
}

impl Abs for R2_84751 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_84751_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_84751_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_35012 {
    pub k3_35012_1: R2_76832,
    #[serde(rename = "k3_35012_2")] pub renamed1: R2_84751,
}

impl Abs for R3_35012 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_35012_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_35012_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R3_17226 {
    #[serde(default)] pub k3_17226_1: (),
    #[serde(rename = "k3_17226_2")] pub renamed1: Vec<()>,
}

impl Abs for R3_17226 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_17226_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_17226_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_93333 {
    pub k1_93333_1: Leaf,
}

impl Abs for R1_93333 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_93333_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_93333_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_1261 {
    pub k1_1261_1: Leaf,
    #[serde(rename = "k1_1261_2")] pub renamed1: std::num::NonZeroI16,
    #[serde(default)] pub k1_1261_3: Leaf,
    pub k1_1261_4: Leaf,
}

impl Abs for R1_1261 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_1261_1.to_a(), self.renamed1.to_a(), self.k1_1261_3.to_a(), self.k1_1261_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_1261_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_1261_3: Abs::of_a(&v[2]), k1_1261_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_14143 {
    pub k1_14143_1: std::num::NonZeroI8,
}

impl Abs for R1_14143 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_14143_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_14143_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_74763")]
pub enum R2_74763 {
    P { #[serde(flatten)] inner_0: R1_93333, #[serde(flatten)] inner_1: R1_1261, #[serde(default)] k2_74763_3: (Leaf, Even) },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_14143 },
}

impl Abs for R2_74763 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0, inner_1: b1, k2_74763_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k2_74763_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_7224")]
pub enum R1_7224 {
    P { k1_7224_1: std::num::NonZeroU32, #[serde(rename = "k1_7224_2")] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_7224: String },
}

impl Abs for R1_7224 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_7224_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_7224: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_7224_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_7224: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_10546 {
    v1_10546_1,
    #[serde(rename = "v1_10546_2", reindex = 114)] V1,
    v1_10546_3,
}

impl Abs for R1_10546 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_10546_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_10546_3 => A::Var(3, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_10546_1,
            2 => Self::V1,
            3 => Self::v1_10546_3,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_18465 {
    pub k1_18465_1: bool,
    #[serde(rename = "k1_18465_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_18465_3: u32,
}

impl Abs for R1_18465 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_18465_1.to_a(), self.renamed1.to_a(), self.k1_18465_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_18465_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_18465_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_23428")]
pub enum R1_23428 {
    P { k1_23428_1: bool, #[serde(rename = "k1_23428_2")] renamed1: Even, k1_23428_3: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_23428: Leaf },
}

impl Abs for R1_23428 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_23428_1: b0, renamed1: b1, k1_23428_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_23428: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_23428_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_23428_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_23428: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_78085")]
pub enum R2_78085 {
    P { #[serde(default)] k2_78085_1: [Leaf; 1], #[serde(rename = "k2_78085_2")] renamed1: R1_10546, #[serde(flatten)] inner_2: R1_18465 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_23428 },
}

impl Abs for R2_78085 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_78085_1: b0, renamed1: b1, inner_2: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_78085_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_40203")]
pub enum R1_40203 {
    P { #[serde(default)] k1_40203_1: Leaf, #[serde(rename = "k1_40203_2")] renamed1: std::num::NonZeroI64 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_40203: Leaf },
}

impl Abs for R1_40203 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_40203_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_40203: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_40203_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_40203: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_90967")]
pub enum R2_90967 {
    P { k2_90967_1: Option<char>, #[serde(rename = "k2_90967_2")] #[serde(default)] renamed1: Option<i16>, k2_90967_3: R1_40203 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_90967: Option<Leaf> },
}

impl Abs for R2_90967 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_90967_1: b0, renamed1: b1, k2_90967_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_90967: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_90967_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_90967_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x2_90967: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_76048")]
pub enum R3_76048 {
    P { #[serde(default)] k3_76048_1: Option<R1_7224>, #[serde(rename = "k3_76048_2")] renamed1: R2_78085 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R2_90967 },
}

impl Abs for R3_76048 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_76048_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_76048_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_38247 {
    #[serde(default)] pub k1_38247_1: u32,
    #[serde(rename = "k1_38247_2")] pub renamed1: Leaf,
}

impl Abs for R1_38247 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_38247_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_38247_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_7180")]
pub enum R2_7180 {
    P { k2_7180_1: Vec<std::num::NonZeroU16> },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_7180: Vec<Leaf> },
}

impl Abs for R2_7180 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_7180_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_7180: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_7180_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x2_7180: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_83967")]
pub enum R3_83967 {
    P { k3_83967_1: Option<R1_38247> },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R2_7180 },
}

impl Abs for R3_83967 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_83967_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_83967_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_8217 {
    pub k4_8217_1: Option<R2_74763>,
    #[serde(rename = "k4_8217_2")] pub renamed1: R3_76048,
    pub k4_8217_3: R3_83967,
}

impl Abs for R4_8217 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k4_8217_1.to_a(), self.renamed1.to_a(), self.k4_8217_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k4_8217_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k4_8217_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_1961 {
    pub k1_1961_1: i64,
    #[serde(rename = "k1_1961_2")] pub renamed1: Leaf,
    #[serde(default)] pub k1_1961_3: f64,
    pub k1_1961_4: Leaf,
}

impl Abs for R1_1961 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_1961_1.to_a(), self.renamed1.to_a(), self.k1_1961_3.to_a(), self.k1_1961_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_1961_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_1961_3: Abs::of_a(&v[2]), k1_1961_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_91545")]
pub enum R2_91545 {
    P { #[serde(flatten)] inner_0: R1_1961 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_91545: Option<Leaf> },
}

impl Abs for R2_91545 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_91545: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x2_91545: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R3_42857 {
    v3_42857_1,
    #[serde(rename = "v3_42857_2", reindex = 114)] V1,
    v3_42857_3,
}

impl Abs for R3_42857 {
    fn to_a(&self) -> A {
        match self {
            Self::v3_42857_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v3_42857_3 => A::Var(3, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v3_42857_1,
            2 => Self::V1,
            3 => Self::v3_42857_3,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_73359")]
pub enum R1_73359 {
    P { k1_73359_1: std::num::NonZeroU64, #[serde(rename = "k1_73359_2")] renamed1: Leaf, k1_73359_3: u8 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_73359: Even },
}

impl Abs for R1_73359 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_73359_1: b0, renamed1: b1, k1_73359_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_73359: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_73359_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_73359_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_73359: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_81278 {
    pub k1_81278_1: Even,
}

impl Abs for R1_81278 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_81278_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_81278_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_72172 {
    pub k2_72172_1: R1_73359,
    #[serde(rename = "k2_72172_2")] pub renamed1: R1_81278,
}

impl Abs for R2_72172 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_72172_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_72172_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_79082 {
    v1_79082_1,
    #[serde(rename = "v1_79082_2", reindex = 114)] V1,
}

impl Abs for R1_79082 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_79082_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_79082_1,
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_87001 {
    pub k1_87001_1: Leaf,
    #[serde(rename = "k1_87001_2")] pub renamed1: char,
    pub k1_87001_3: Leaf,
}

impl Abs for R1_87001 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_87001_1.to_a(), self.renamed1.to_a(), self.k1_87001_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_87001_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_87001_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_2848 {
    v1_2848_1,
    #[serde(rename = "v1_2848_2", reindex = 114)] V1,
}

impl Abs for R1_2848 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_2848_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_2848_1,
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_24671 {
    pub k2_24671_1: R1_79082,
    #[serde(flatten)] pub inner_1: R1_87001,
    #[serde(default)] pub k2_24671_3: [i64; 2],
    pub k2_24671_4: R1_2848,
}

impl Abs for R2_24671 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_24671_1.to_a(), self.inner_1.to_a(), self.k2_24671_3.to_a(), self.k2_24671_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_24671_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k2_24671_3: Abs::of_a(&v[2]), k2_24671_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_32300 {
    pub k1_32300_1: std::num::NonZeroI8,
    #[serde(rename = "k1_32300_2")] pub renamed1: Leaf,
    pub k1_32300_3: std::num::NonZeroU64,
    pub k1_32300_4: Leaf,
}

impl Abs for R1_32300 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_32300_1.to_a(), self.renamed1.to_a(), self.k1_32300_3.to_a(), self.k1_32300_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_32300_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_32300_3: Abs::of_a(&v[2]), k1_32300_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_63163 {
    pub k3_63163_1: R2_24671,
    #[serde(rename = "k3_63163_2")] #[serde(default)] pub renamed1: (),
    pub k3_63163_3: [R1_32300; 1],
}

impl Abs for R3_63163 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_63163_1.to_a(), self.renamed1.to_a(), self.k3_63163_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_63163_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_63163_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R3_75974 {
    pub k3_75974_1: Option<()>,
}

impl Abs for R3_75974 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_75974_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_75974_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_14904 {
    v1_14904_1,
    #[serde(rename = "v1_14904_2", reindex = 114)] V1,
    v1_14904_3,
}

impl Abs for R1_14904 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_14904_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_14904_3 => A::Var(3, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_14904_1,
            2 => Self::V1,
            3 => Self::v1_14904_3,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_42858 {
    pub k2_42858_1: R1_14904,
    #[serde(rename = "k2_42858_2")] #[serde(default)] pub renamed1: (),
    #[serde(default)] pub k2_42858_3: [Leaf; 3],
    pub k2_42858_4: Vec<Leaf>,
}

impl Abs for R2_42858 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_42858_1.to_a(), self.renamed1.to_a(), self.k2_42858_3.to_a(), self.k2_42858_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_42858_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_42858_3: Abs::of_a(&v[2]), k2_42858_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t4_54154")]
pub enum R4_54154 {
    P { #[serde(flatten)] inner_0: R3_75974 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x4_54154: Option<R2_42858> },
}

impl Abs for R4_54154 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x4_54154: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x4_54154: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_52906 {
    pub k1_52906_1: Leaf,
    #[serde(rename = "k1_52906_2")] pub renamed1: Even,
}

impl Abs for R1_52906 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_52906_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_52906_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_89123 {
    pub k1_89123_1: Leaf,
    #[serde(rename = "k1_89123_2")] pub renamed1: std::num::NonZeroU8,
    pub k1_89123_3: Leaf,
}

impl Abs for R1_89123 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_89123_1.to_a(), self.renamed1.to_a(), self.k1_89123_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_89123_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_89123_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_18118 {
    pub k2_18118_1: Vec<Leaf>,
    #[serde(rename = "k2_18118_2")] pub renamed1: R1_89123,
    pub k2_18118_3: (),
}

impl Abs for R2_18118 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_18118_1.to_a(), self.renamed1.to_a(), self.k2_18118_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_18118_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_18118_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R3_9109 {
    v3_9109_1,
    #[serde(rename = "v3_9109_2", reindex = 114)] V1,
    v3_9109_3,
    v3_9109_4,
    #[serde(rename = "v3_9109_5", reindex = 135)] V4,
}

impl Abs for R3_9109 {
    fn to_a(&self) -> A {
        match self {
            Self::v3_9109_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v3_9109_3 => A::Var(3, vec![]),
            Self::v3_9109_4 => A::Var(4, vec![]),
            Self::V4 => A::Var(5, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v3_9109_1,
            2 => Self::V1,
            3 => Self::v3_9109_3,
            4 => Self::v3_9109_4,
            5 => Self::V4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_8781 {
    pub k1_8781_1: std::num::NonZeroU64,
}

impl Abs for R1_8781 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_8781_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_8781_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_24619")]
pub enum R1_24619 {
    P { #[serde(default)] k1_24619_1: u64 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_24619: std::num::NonZeroU64 },
}

impl Abs for R1_24619 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_24619_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_24619: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_24619_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_24619: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_29582 {
    pub k1_29582_1: Leaf,
}

impl Abs for R1_29582 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_29582_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_29582_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_52201")]
pub enum R2_52201 {
    P { k2_52201_1: R1_8781, #[serde(rename = "k2_52201_2")] renamed1: Option<u32>, #[serde(flatten)] inner_2: R1_24619 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_29582 },
}

impl Abs for R2_52201 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_52201_1: b0, renamed1: b1, inner_2: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_52201_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_24985 {
    pub k1_24985_1: i8,
}

impl Abs for R1_24985 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_24985_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_24985_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_32904 {
    pub k1_32904_1: std::num::NonZeroI32,
    #[serde(rename = "k1_32904_2")] pub renamed1: Leaf,
    #[serde(default)] pub k1_32904_3: bool,
    pub k1_32904_4: std::num::NonZeroI8,
}

impl Abs for R1_32904 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_32904_1.to_a(), self.renamed1.to_a(), self.k1_32904_3.to_a(), self.k1_32904_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_32904_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_32904_3: Abs::of_a(&v[2]), k1_32904_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_48742")]
pub enum R1_48742 {
    P { k1_48742_1: Leaf, #[serde(rename = "k1_48742_2")] renamed1: std::num::NonZeroI16, k1_48742_3: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_48742: Leaf },
}

impl Abs for R1_48742 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_48742_1: b0, renamed1: b1, k1_48742_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_48742: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_48742_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_48742_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_48742: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_60120 {
    #[serde(flatten)] pub inner_0: R1_24985,
    #[serde(flatten)] pub inner_1: R1_32904,
    #[serde(default)] pub k2_60120_3: (bool, Leaf),
    pub k2_60120_4: R1_48742,
}

impl Abs for R2_60120 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.inner_1.to_a(), self.k2_60120_3.to_a(), self.k2_60120_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k2_60120_3: Abs::of_a(&v[2]), k2_60120_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_61990 {
    pub k1_61990_1: Leaf,
}

impl Abs for R1_61990 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_61990_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_61990_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_57393 {
    v1_57393_1,
    #[serde(rename = "v1_57393_2", reindex = 114)] V1,
    v1_57393_3,
    v1_57393_4,
}

impl Abs for R1_57393 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_57393_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_57393_3 => A::Var(3, vec![]),
            Self::v1_57393_4 => A::Var(4, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_57393_1,
            2 => Self::V1,
            3 => Self::v1_57393_3,
            4 => Self::v1_57393_4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_65312 {
    pub k1_65312_1: Leaf,
    #[serde(rename = "k1_65312_2")] #[serde(default)] pub renamed1: String,
    pub k1_65312_3: Leaf,
}

impl Abs for R1_65312 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_65312_1.to_a(), self.renamed1.to_a(), self.k1_65312_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_65312_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_65312_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_78194 {
    pub k1_78194_1: Leaf,
    #[serde(rename = "k1_78194_2")] pub renamed1: Leaf,
    pub k1_78194_3: std::num::NonZeroI64,
    #[serde(default)] pub k1_78194_4: Leaf,
}

impl Abs for R1_78194 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_78194_1.to_a(), self.renamed1.to_a(), self.k1_78194_3.to_a(), self.k1_78194_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_78194_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_78194_3: Abs::of_a(&v[2]), k1_78194_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_75958")]
pub enum R2_75958 {
    P { k2_75958_1: R1_57393, #[serde(flatten)] inner_1: R1_65312, k2_75958_3: (Leaf, Leaf) },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_78194 },
}

impl Abs for R2_75958 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_75958_1: b0, inner_1: b1, k2_75958_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_75958_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k2_75958_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_4629 {
    #[serde(flatten)] pub inner_0: R2_52201,
    #[serde(flatten)] pub inner_1: R2_60120,
    #[serde(default)] pub k3_4629_3: Option<R1_61990>,
    pub k3_4629_4: R2_75958,
}

impl Abs for R3_4629 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.inner_1.to_a(), self.k3_4629_3.to_a(), self.k3_4629_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k3_4629_3: Abs::of_a(&v[2]), k3_4629_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_22894")]
pub enum R1_22894 {
    P { k1_22894_1: Leaf, #[serde(rename = "k1_22894_2")] renamed1: i8, k1_22894_3: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_22894: Leaf },
}

impl Abs for R1_22894 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_22894_1: b0, renamed1: b1, k1_22894_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_22894: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_22894_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_22894_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_22894: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_30813 {
    pub k1_30813_1: Leaf,
    #[serde(rename = "k1_30813_2")] pub renamed1: std::num::NonZeroI16,
    #[serde(default)] pub k1_30813_3: Leaf,
    pub k1_30813_4: Leaf,
}

impl Abs for R1_30813 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_30813_1.to_a(), self.renamed1.to_a(), self.k1_30813_3.to_a(), self.k1_30813_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_30813_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_30813_3: Abs::of_a(&v[2]), k1_30813_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_43695 {
    pub k1_43695_1: std::num::NonZeroI8,
    #[serde(rename = "k1_43695_2")] pub renamed1: Leaf,
}

impl Abs for R1_43695 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_43695_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_43695_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_50132")]
pub enum R2_50132 {
    P { k2_50132_1: R1_22894, #[serde(flatten)] inner_1: R1_30813, k2_50132_3: Option<Leaf> },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_43695 },
}

impl Abs for R2_50132 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_50132_1: b0, inner_1: b1, k2_50132_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_50132_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k2_50132_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_36776")]
pub enum R1_36776 {
    P { k1_36776_1: std::num::NonZeroU64, #[serde(rename = "k1_36776_2")] renamed1: String, k1_36776_3: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_36776: Leaf },
}

impl Abs for R1_36776 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_36776_1: b0, renamed1: b1, k1_36776_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_36776: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_36776_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_36776_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_36776: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_53917 {
    pub k1_53917_1: std::num::NonZeroU8,
}

impl Abs for R1_53917 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_53917_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_53917_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_66336")]
pub enum R2_66336 {
    P { #[serde(flatten)] inner_0: R1_53917 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_66336: Option<Leaf> },
}

impl Abs for R2_66336 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_66336: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x2_66336: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_45665")]
pub enum R3_45665 {
    P { k3_45665_1: [R1_36776; 2] },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R2_66336 },
}

impl Abs for R3_45665 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_45665_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_45665_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_67799 {
    #[serde(default)] pub k1_67799_1: u64,
    #[serde(rename = "k1_67799_2")] pub renamed1: Leaf,
}

impl Abs for R1_67799 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_67799_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_67799_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_63202")]
pub enum R1_63202 {
    P { k1_63202_1: Leaf, #[serde(rename = "k1_63202_2")] renamed1: std::num::NonZeroI64, k1_63202_3: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_63202: std::num::NonZeroI64 },
}

impl Abs for R1_63202 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_63202_1: b0, renamed1: b1, k1_63202_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_63202: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_63202_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_63202_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_63202: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_71121 {
    pub k1_71121_1: Leaf,
}

impl Abs for R1_71121 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_71121_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_71121_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_69658 {
    #[serde(flatten)] pub inner_0: R1_63202,
    #[serde(rename = "k2_69658_2")] #[serde(default)] pub renamed1: R1_71121,
    pub k2_69658_3: Option<Leaf>,
    pub k2_69658_4: (Leaf, i16),
}

impl Abs for R2_69658 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_69658_3.to_a(), self.k2_69658_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_69658_3: Abs::of_a(&v[2]), k2_69658_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_79406")]
pub enum R1_79406 {
    P { k1_79406_1: Leaf, #[serde(rename = "k1_79406_2")] renamed1: std::num::NonZeroU16 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_79406: Leaf },
}

impl Abs for R1_79406 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_79406_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_79406: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_79406_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_79406: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_87325 {
    v1_87325_1,
    #[serde(rename = "v1_87325_2", reindex = 114)] V1,
    v1_87325_3,
}

impl Abs for R1_87325 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_87325_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_87325_3 => A::Var(3, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_87325_1,
            2 => Self::V1,
            3 => Self::v1_87325_3,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_77577 {
    pub k2_77577_1: R1_79406,
    #[serde(rename = "k2_77577_2")] pub renamed1: R1_87325,
}

impl Abs for R2_77577 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_77577_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_77577_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_53584 {
    #[serde(default)] pub k3_53584_1: Vec<R1_67799>,
    #[serde(rename = "k3_53584_2")] pub renamed1: R2_69658,
    #[serde(flatten)] pub inner_2: R2_77577,
}

impl Abs for R3_53584 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_53584_1.to_a(), self.renamed1.to_a(), self.inner_2.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_53584_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_73064 {
    #[serde(default)] pub k4_73064_1: Option<R2_50132>,
    #[serde(rename = "k4_73064_2")] pub renamed1: R3_45665,
    pub k4_73064_3: R3_53584,
}

impl Abs for R4_73064 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k4_73064_1.to_a(), self.renamed1.to_a(), self.k4_73064_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k4_73064_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k4_73064_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_96968")]
pub enum R1_96968 {
    P { k1_96968_1: std::num::NonZeroU8 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_96968: Leaf },
}

impl Abs for R1_96968 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_96968_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_96968: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_96968_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_96968: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_4896 {
    pub k1_4896_1: String,
    #[serde(rename = "k1_4896_2")] pub renamed1: Leaf,
    pub k1_4896_3: std::num::NonZeroU8,
    pub k1_4896_4: f32,
}

impl Abs for R1_4896 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_4896_1.to_a(), self.renamed1.to_a(), self.k1_4896_3.to_a(), self.k1_4896_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_4896_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_4896_3: Abs::of_a(&v[2]), k1_4896_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_64055 {
    pub k2_64055_1: (Leaf, Leaf),
    #[serde(flatten)] pub inner_1: R1_96968,
    pub k2_64055_3: R1_4896,
    pub k2_64055_4: (),
}

impl Abs for R2_64055 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_64055_1.to_a(), self.inner_1.to_a(), self.k2_64055_3.to_a(), self.k2_64055_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_64055_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k2_64055_3: Abs::of_a(&v[2]), k2_64055_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R3_55046 {
    v3_55046_1,
}

impl Abs for R3_55046 {
    fn to_a(&self) -> A {
        match self {
            Self::v3_55046_1 => A::Var(1, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v3_55046_1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_40600")]
pub enum R1_40600 {
    P { k1_40600_1: Even, #[serde(rename = "k1_40600_2")] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_40600: u16 },
}

impl Abs for R1_40600 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_40600_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_40600: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_40600_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_40600: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_61401 {
    pub k1_61401_1: Leaf,
}

impl Abs for R1_61401 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_61401_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_61401_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_82345")]
pub enum R2_82345 {
    P { k2_82345_1: R1_40600 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_61401 },
}

impl Abs for R2_82345 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_82345_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_82345_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_56804")]
pub enum R1_56804 {
    P { k1_56804_1: std::num::NonZeroI8, #[serde(rename = "k1_56804_2")] renamed1: Leaf, k1_56804_3: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_56804: u64 },
}

impl Abs for R1_56804 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_56804_1: b0, renamed1: b1, k1_56804_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_56804: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_56804_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_56804_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_56804: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_64723 {
    pub k1_64723_1: u64,
    #[serde(rename = "k1_64723_2")] pub renamed1: bool,
    #[serde(default)] pub k1_64723_3: Leaf,
    pub k1_64723_4: u8,
}

impl Abs for R1_64723 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_64723_1.to_a(), self.renamed1.to_a(), self.k1_64723_3.to_a(), self.k1_64723_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_64723_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_64723_3: Abs::of_a(&v[2]), k1_64723_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_90264 {
    pub k2_90264_1: R1_56804,
    #[serde(flatten)] pub inner_1: R1_64723,
}

impl Abs for R2_90264 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_90264_1.to_a(), self.inner_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_90264_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_3155")]
pub enum R2_3155 {
    P { #[serde(default)] k2_3155_1: Option<Leaf>, #[serde(rename = "k2_3155_2")] renamed1: R1_86461 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_3155: Vec<Leaf> },
}

impl Abs for R2_3155 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_3155_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_3155: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_3155_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x2_3155: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_12474")]
pub enum R3_12474 {
    P { k3_12474_1: R2_82345, #[serde(rename = "k3_12474_2")] renamed1: R2_90264 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R2_3155 },
}

impl Abs for R3_12474 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_12474_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_12474_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_63777 {
    pub k1_63777_1: std::num::NonZeroI64,
    #[serde(rename = "k1_63777_2")] pub renamed1: Leaf,
    #[serde(default)] pub k1_63777_3: i16,
    pub k1_63777_4: std::num::NonZeroI32,
}

impl Abs for R1_63777 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_63777_1.to_a(), self.renamed1.to_a(), self.k1_63777_3.to_a(), self.k1_63777_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_63777_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_63777_3: Abs::of_a(&v[2]), k1_63777_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_37572 {
    #[serde(default)] pub k1_37572_1: Leaf,
    #[serde(rename = "k1_37572_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_37572_3: u64,
}

impl Abs for R1_37572 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_37572_1.to_a(), self.renamed1.to_a(), self.k1_37572_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_37572_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_37572_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_32975 {
    pub k1_32975_1: std::num::NonZeroU32,
    #[serde(rename = "k1_32975_2")] pub renamed1: char,
    pub k1_32975_3: Leaf,
}

impl Abs for R1_32975 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_32975_1.to_a(), self.renamed1.to_a(), self.k1_32975_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_32975_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_32975_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_53776 {
    #[serde(default)] pub k1_53776_1: Leaf,
    #[serde(rename = "k1_53776_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_53776_3: f64,
}

impl Abs for R1_53776 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_53776_1.to_a(), self.renamed1.to_a(), self.k1_53776_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_53776_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_53776_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_67394")]
pub enum R2_67394 {
    P { k2_67394_1: R1_32975, #[serde(rename = "k2_67394_2")] renamed1: Option<i64>, k2_67394_3: Option<std::num::NonZeroU16> },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_53776 },
}

impl Abs for R2_67394 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_67394_1: b0, renamed1: b1, k2_67394_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_67394_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_67394_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_49179")]
pub enum R1_49179 {
    P { k1_49179_1: std::num::NonZeroU64, #[serde(rename = "k1_49179_2")] renamed1: Even, k1_49179_3: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_49179: Leaf },
}

impl Abs for R1_49179 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_49179_1: b0, renamed1: b1, k1_49179_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_49179: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_49179_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_49179_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_49179: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_57098 {
    pub k1_57098_1: Leaf,
}

impl Abs for R1_57098 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_57098_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_57098_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_72936")]
pub enum R1_72936 {
    P { #[serde(default)] k1_72936_1: Leaf, #[serde(rename = "k1_72936_2")] renamed1: Even, k1_72936_3: u8 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_72936: Leaf },
}

impl Abs for R1_72936 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_72936_1: b0, renamed1: b1, k1_72936_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_72936: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_72936_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_72936_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_72936: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_75313 {
    #[serde(flatten)] pub inner_0: R1_49179,
    #[serde(flatten)] pub inner_1: R1_57098,
    #[serde(default)] pub k2_75313_3: Option<Leaf>,
    pub k2_75313_4: R1_72936,
}

impl Abs for R2_75313 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.inner_1.to_a(), self.k2_75313_3.to_a(), self.k2_75313_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k2_75313_3: Abs::of_a(&v[2]), k2_75313_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_45591 {
    #[serde(default)] pub k3_45591_1: (R1_37572, Vec<Leaf>),
    #[serde(rename = "k3_45591_2")] pub renamed1: R2_67394,
    pub k3_45591_3: R2_75313,
}

impl Abs for R3_45591 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_45591_1.to_a(), self.renamed1.to_a(), self.k3_45591_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_45591_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_45591_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_6546 {
    pub k1_6546_1: std::num::NonZeroI64,
    #[serde(rename = "k1_6546_2")] pub renamed1: Leaf,
}

impl Abs for R1_6546 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_6546_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_6546_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_22384")]
pub enum R1_22384 {
    P { k1_22384_1: Leaf, #[serde(rename = "k1_22384_2")] renamed1: std::num::NonZeroI32 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_22384: Leaf },
}

impl Abs for R1_22384 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_22384_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_22384: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_22384_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_22384: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_53407 {
    #[serde(default)] pub k1_53407_1: Leaf,
    #[serde(rename = "k1_53407_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_53407_3: Leaf,
}

impl Abs for R1_53407 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_53407_1.to_a(), self.renamed1.to_a(), self.k1_53407_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_53407_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_53407_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_30650 {
    #[serde(default)] pub k1_30650_1: f32,
    #[serde(rename = "k1_30650_2")] pub renamed1: Leaf,
}

impl Abs for R1_30650 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_30650_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_30650_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_46854 {
    pub k1_46854_1: char,
    #[serde(rename = "k1_46854_2")] pub renamed1: Leaf,
}

impl Abs for R1_46854 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_46854_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_46854_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_42257")]
pub enum R1_42257 {
    P { k1_42257_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_42257: Leaf },
}

impl Abs for R1_42257 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_42257_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_42257: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_42257_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_42257: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_50176 {
    v1_50176_1,
    #[serde(rename = "v1_50176_2", reindex = 114)] V1,
    v1_50176_3,
    v1_50176_4,
}

impl Abs for R1_50176 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_50176_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_50176_3 => A::Var(3, vec![]),
            Self::v1_50176_4 => A::Var(4, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_50176_1,
            2 => Self::V1,
            3 => Self::v1_50176_3,
            4 => Self::v1_50176_4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_58095 {
    pub k1_58095_1: Leaf,
    #[serde(rename = "k1_58095_2")] #[serde(default)] pub renamed1: u16,
    pub k1_58095_3: std::num::NonZeroU16,
}

impl Abs for R1_58095 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_58095_1.to_a(), self.renamed1.to_a(), self.k1_58095_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_58095_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_58095_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_23934 {
    #[serde(flatten)] pub inner_0: R1_42257,
    #[serde(rename = "k2_23934_2")] pub renamed1: R1_50176,
    pub k2_23934_3: R1_58095,
}

impl Abs for R2_23934 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_23934_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_23934_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_69348 {
    pub k3_69348_1: Option<R1_30650>,
    #[serde(rename = "k3_69348_2")] #[serde(default)] pub renamed1: Vec<R1_46854>,
    pub k3_69348_3: R2_23934,
}

impl Abs for R3_69348 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_69348_1.to_a(), self.renamed1.to_a(), self.k3_69348_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_69348_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_69348_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_19010 {
    #[serde(flatten)] pub inner_0: R3_45591,
    #[serde(rename = "k4_19010_2")] #[serde(default)] pub renamed1: Option<(R1_6546, R1_22384)>,
    #[serde(default)] pub k4_19010_3: Vec<(Option<Leaf>, R1_53407)>,
    pub k4_19010_4: R3_69348,
}

impl Abs for R4_19010 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k4_19010_3.to_a(), self.k4_19010_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k4_19010_3: Abs::of_a(&v[2]), k4_19010_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R2_10001 {
    v2_10001_1,
    #[serde(rename = "v2_10001_2", reindex = 114)] V1,
}

impl Abs for R2_10001 {
    fn to_a(&self) -> A {
        match self {
            Self::v2_10001_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v2_10001_1,
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_28275 {
    pub k1_28275_1: i32,
    #[serde(rename = "k1_28275_2")] pub renamed1: std::num::NonZeroI64,
    pub k1_28275_3: Leaf,
}

impl Abs for R1_28275 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_28275_1.to_a(), self.renamed1.to_a(), self.k1_28275_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_28275_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_28275_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_44113")]
pub enum R1_44113 {
    P { k1_44113_1: Leaf, #[serde(rename = "k1_44113_2")] renamed1: i16, k1_44113_3: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_44113: Leaf },
}

impl Abs for R1_44113 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_44113_1: b0, renamed1: b1, k1_44113_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_44113: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_44113_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_44113_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_44113: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_992")]
pub enum R3_992 {
    P { k3_992_1: (Vec<Leaf>, ()) },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x3_992: (R1_28275, R1_44113) },
}

impl Abs for R3_992 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_992_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x3_992: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_992_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x3_992: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_71622")]
pub enum R1_71622 {
    P { #[serde(default)] k1_71622_1: f64 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_71622: bool },
}

impl Abs for R1_71622 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_71622_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_71622: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_71622_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_71622: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_84595 {
    pub k1_84595_1: std::num::NonZeroU16,
    #[serde(rename = "k1_84595_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_84595_3: i64,
}

impl Abs for R1_84595 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_84595_1.to_a(), self.renamed1.to_a(), self.k1_84595_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_84595_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_84595_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_92514 {
    pub k1_92514_1: Leaf,
    #[serde(rename = "k1_92514_2")] pub renamed1: Leaf,
}

impl Abs for R1_92514 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_92514_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_92514_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_5405 {
    pub k1_5405_1: Leaf,
    #[serde(rename = "k1_5405_2")] pub renamed1: std::num::NonZeroU8,
    pub k1_5405_3: Leaf,
}

impl Abs for R1_5405 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_5405_1.to_a(), self.renamed1.to_a(), self.k1_5405_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_5405_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_5405_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_2133")]
pub enum R2_2133 {
    P { #[serde(flatten)] inner_0: R1_84595, #[serde(rename = "k2_2133_2")] #[serde(default)] renamed1: R1_92514 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_5405 },
}

impl Abs for R2_2133 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_808")]
pub enum R1_808 {
    P { k1_808_1: std::num::NonZeroU64, #[serde(rename = "k1_808_2")] #[serde(default)] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_808: Even },
}

impl Abs for R1_808 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_808_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_808: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_808_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_808: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_8727 {
    pub k1_8727_1: std::num::NonZeroI8,
    #[serde(rename = "k1_8727_2")] pub renamed1: Leaf,
}

impl Abs for R1_8727 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_8727_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_8727_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_10052 {
    pub k2_10052_1: R1_808,
    #[serde(rename = "k2_10052_2")] pub renamed1: R1_8727,
}

impl Abs for R2_10052 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_10052_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_10052_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_37813 {
    #[serde(default)] pub k1_37813_1: Leaf,
    #[serde(rename = "k1_37813_2")] pub renamed1: Leaf,
    pub k1_37813_3: Even,
}

impl Abs for R1_37813 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_37813_1.to_a(), self.renamed1.to_a(), self.k1_37813_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_37813_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_37813_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_73956 {
    #[serde(flatten)] pub inner_0: R2_2133,
    #[serde(rename = "k3_73956_2")] pub renamed1: R2_10052,
    #[serde(default)] pub k3_73956_3: Option<R1_37813>,
}

impl Abs for R3_73956 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k3_73956_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_73956_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_69391 {
    pub k1_69391_1: std::num::NonZeroI16,
    #[serde(rename = "k1_69391_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_69391_3: bool,
}

impl Abs for R1_69391 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_69391_1.to_a(), self.renamed1.to_a(), self.k1_69391_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_69391_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_69391_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_64794")]
pub enum R1_64794 {
    P { #[serde(default)] k1_64794_1: Leaf, #[serde(rename = "k1_64794_2")] renamed1: i32 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_64794: i32 },
}

impl Abs for R1_64794 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_64794_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_64794: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_64794_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_64794: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_72713 {
    pub k1_72713_1: Leaf,
    #[serde(rename = "k1_72713_2")] pub renamed1: std::num::NonZeroU8,
}

impl Abs for R1_72713 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_72713_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_72713_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_80632 {
    pub k1_80632_1: Leaf,
    #[serde(rename = "k1_80632_2")] pub renamed1: Leaf,
    #[serde(default)] pub k1_80632_3: i16,
    #[serde(default)] pub k1_80632_4: Leaf,
}

impl Abs for R1_80632 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_80632_1.to_a(), self.renamed1.to_a(), self.k1_80632_3.to_a(), self.k1_80632_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_80632_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_80632_3: Abs::of_a(&v[2]), k1_80632_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_85595")]
pub enum R1_85595 {
    P { k1_85595_1: std::num::NonZeroI64, #[serde(rename = "k1_85595_2")] #[serde(default)] renamed1: Leaf, k1_85595_3: i8 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_85595: f64 },
}

impl Abs for R1_85595 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_85595_1: b0, renamed1: b1, k1_85595_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_85595: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_85595_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_85595_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_85595: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_97538")]
pub enum R2_97538 {
    P { k2_97538_1: R1_64794, #[serde(rename = "k2_97538_2")] renamed1: R1_72713, k2_97538_3: R1_80632 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_85595 },
}

impl Abs for R2_97538 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_97538_1: b0, renamed1: b1, k2_97538_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_97538_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_97538_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_1808")]
pub enum R1_1808 {
    P { k1_1808_1: std::num::NonZeroU8 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_1808: String },
}

impl Abs for R1_1808 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_1808_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_1808: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_1808_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_1808: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_5466")]
pub enum R2_5466 {
    P { k2_5466_1: (Leaf, Leaf) },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_1808 },
}

impl Abs for R2_5466 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_5466_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_5466_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_53436")]
pub enum R3_53436 {
    P { k3_53436_1: Option<R1_69391>, #[serde(flatten)] inner_1: R2_97538, #[serde(flatten)] inner_2: R2_5466 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x3_53436: Option<(Leaf, Leaf)> },
}

impl Abs for R3_53436 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_53436_1: b0, inner_1: b1, inner_2: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x3_53436: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_53436_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x3_53436: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_79613 {
    pub k1_79613_1: std::num::NonZeroU16,
    #[serde(rename = "k1_79613_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_79613_3: i16,
}

impl Abs for R1_79613 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_79613_1.to_a(), self.renamed1.to_a(), self.k1_79613_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_79613_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_79613_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_3379 {
    pub k1_3379_1: Leaf,
    #[serde(rename = "k1_3379_2")] #[serde(default)] pub renamed1: String,
    pub k1_3379_3: Leaf,
}

impl Abs for R1_3379 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_3379_1.to_a(), self.renamed1.to_a(), self.k1_3379_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_3379_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_3379_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_5832 {
    #[serde(flatten)] pub inner_0: R1_79613,
    #[serde(rename = "k2_5832_2")] pub renamed1: Option<i64>,
    #[serde(default)] pub k2_5832_3: Vec<std::num::NonZeroU16>,
    pub k2_5832_4: R1_3379,
}

impl Abs for R2_5832 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_5832_3.to_a(), self.k2_5832_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_5832_3: Abs::of_a(&v[2]), k2_5832_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_16627 {
    #[serde(default)] pub k1_16627_1: Leaf,
    #[serde(rename = "k1_16627_2")] pub renamed1: std::num::NonZeroU16,
}

impl Abs for R1_16627 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_16627_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_16627_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_12030 {
    #[serde(default)] pub k1_12030_1: bool,
    #[serde(rename = "k1_12030_2")] pub renamed1: Leaf,
}

impl Abs for R1_12030 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_12030_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_12030_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_19949 {
    pub k1_19949_1: Leaf,
}

impl Abs for R1_19949 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_19949_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_19949_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_32831 {
    #[serde(default)] pub k1_32831_1: u32,
    #[serde(rename = "k1_32831_2")] pub renamed1: Leaf,
}

impl Abs for R1_32831 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_32831_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_32831_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_21670")]
pub enum R2_21670 {
    P { k2_21670_1: R1_12030, #[serde(flatten)] inner_1: R1_19949 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_32831 },
}

impl Abs for R2_21670 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_21670_1: b0, inner_1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_21670_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_28234")]
pub enum R1_28234 {
    P { #[serde(default)] k1_28234_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_28234: Leaf },
}

impl Abs for R1_28234 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_28234_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_28234: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_28234_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_28234: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_36153 {
    pub k1_36153_1: Leaf,
}

impl Abs for R1_36153 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_36153_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_36153_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_51991")]
pub enum R1_51991 {
    P { #[serde(default)] k1_51991_1: Leaf, #[serde(rename = "k1_51991_2")] renamed1: Leaf, k1_51991_3: f32 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_51991: Leaf },
}

impl Abs for R1_51991 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_51991_1: b0, renamed1: b1, k1_51991_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_51991: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_51991_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_51991_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_51991: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_29589 {
    #[serde(flatten)] pub inner_0: R1_28234,
    #[serde(flatten)] pub inner_1: R1_36153,
    #[serde(default)] pub k2_29589_3: Option<Leaf>,
    pub k2_29589_4: R1_51991,
}

impl Abs for R2_29589 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.inner_1.to_a(), self.k2_29589_3.to_a(), self.k2_29589_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k2_29589_3: Abs::of_a(&v[2]), k2_29589_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_61355 {
    #[serde(flatten)] pub inner_0: R2_5832,
    #[serde(rename = "k3_61355_2")] pub renamed1: (R1_16627, Vec<u8>),
    pub k3_61355_3: R2_21670,
    pub k3_61355_4: R2_29589,
}

impl Abs for R3_61355 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k3_61355_3.to_a(), self.k3_61355_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_61355_3: Abs::of_a(&v[2]), k3_61355_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_69388 {
    pub k1_69388_1: std::num::NonZeroU8,
}

impl Abs for R1_69388 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_69388_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_69388_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_80995")]
pub enum R1_80995 {
    P { k1_80995_1: Leaf, #[serde(rename = "k1_80995_2")] renamed1: u32 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_80995: Leaf },
}

impl Abs for R1_80995 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_80995_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_80995: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_80995_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_80995: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_1805 {
    v1_1805_1,
    #[serde(rename = "v1_1805_2", reindex = 114)] V1,
    v1_1805_3,
    v1_1805_4,
}

impl Abs for R1_1805 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_1805_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_1805_3 => A::Var(3, vec![]),
            Self::v1_1805_4 => A::Var(4, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_1805_1,
            2 => Self::V1,
            3 => Self::v1_1805_3,
            4 => Self::v1_1805_4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_58675")]
pub enum R2_58675 {
    P { k2_58675_1: R1_80995 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_58675: R1_1805 },
}

impl Abs for R2_58675 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_58675_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_58675: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_58675_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x2_58675: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_49587")]
pub enum R1_49587 {
    P { k1_49587_1: Leaf, #[serde(rename = "k1_49587_2")] renamed1: bool },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_49587: Leaf },
}

impl Abs for R1_49587 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_49587_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_49587: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_49587_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_49587: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_57506 {
    pub k1_57506_1: Leaf,
    #[serde(rename = "k1_57506_2")] #[serde(default)] pub renamed1: Leaf,
    #[serde(default)] pub k1_57506_3: u64,
    pub k1_57506_4: Leaf,
}

impl Abs for R1_57506 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_57506_1.to_a(), self.renamed1.to_a(), self.k1_57506_3.to_a(), self.k1_57506_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_57506_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_57506_3: Abs::of_a(&v[2]), k1_57506_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_38240 {
    pub k2_38240_1: (Leaf, Leaf),
    #[serde(rename = "k2_38240_2")] pub renamed1: R1_49587,
    pub k2_38240_3: R1_57506,
}

impl Abs for R2_38240 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_38240_1.to_a(), self.renamed1.to_a(), self.k2_38240_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_38240_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_38240_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_78673")]
pub enum R1_78673 {
    P { #[serde(default)] k1_78673_1: i16, #[serde(rename = "k1_78673_2")] renamed1: Leaf, k1_78673_3: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_78673: std::num::NonZeroI64 },
}

impl Abs for R1_78673 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_78673_1: b0, renamed1: b1, k1_78673_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_78673: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_78673_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_78673_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_78673: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_94511 {
    pub k1_94511_1: Leaf,
    #[serde(rename = "k1_94511_2")] pub renamed1: i16,
    #[serde(default)] pub k1_94511_3: Leaf,
    pub k1_94511_4: u64,
}

impl Abs for R1_94511 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_94511_1.to_a(), self.renamed1.to_a(), self.k1_94511_3.to_a(), self.k1_94511_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_94511_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_94511_3: Abs::of_a(&v[2]), k1_94511_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_79610 {
    pub k1_79610_1: std::num::NonZeroU32,
}

impl Abs for R1_79610 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_79610_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_79610_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_95448")]
pub enum R1_95448 {
    P { #[serde(default)] k1_95448_1: Leaf, #[serde(rename = "k1_95448_2")] renamed1: std::num::NonZeroU32, k1_95448_3: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_95448: Leaf },
}

impl Abs for R1_95448 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_95448_1: b0, renamed1: b1, k1_95448_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_95448: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_95448_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_95448_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_95448: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_59041 {
    #[serde(flatten)] pub inner_0: R1_79610,
    #[serde(rename = "k2_59041_2")] #[serde(default)] pub renamed1: Option<Leaf>,
    pub k2_59041_3: R1_95448,
}

impl Abs for R2_59041 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_59041_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_59041_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_77193")]
pub enum R3_77193 {
    P { k3_77193_1: R2_38240, #[serde(rename = "k3_77193_2")] renamed1: (R1_78673, R1_94511), k3_77193_3: Vec<[std::num::NonZeroU8; 3]> },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R2_59041 },
}

impl Abs for R3_77193 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_77193_1: b0, renamed1: b1, k3_77193_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_77193_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_77193_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_64947 {
    #[serde(flatten)] pub inner_0: R3_53436,
    #[serde(flatten)] pub inner_1: R3_61355,
    pub k4_64947_3: (Option<R1_69388>, R2_58675),
    pub k4_64947_4: R3_77193,
}

impl Abs for R4_64947 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.inner_1.to_a(), self.k4_64947_3.to_a(), self.k4_64947_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k4_64947_3: Abs::of_a(&v[2]), k4_64947_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_4748 {
    #[serde(default)] pub k1_4748_1: f32,
    #[serde(rename = "k1_4748_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_4748_3: Leaf,
}

impl Abs for R1_4748 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_4748_1.to_a(), self.renamed1.to_a(), self.k1_4748_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_4748_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_4748_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_25549 {
    pub k1_25549_1: std::num::NonZeroI16,
    #[serde(rename = "k1_25549_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_25549_3: bool,
}

impl Abs for R1_25549 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_25549_1.to_a(), self.renamed1.to_a(), self.k1_25549_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_25549_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_25549_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_55938")]
pub enum R2_55938 {
    P { k2_55938_1: R1_4748, #[serde(rename = "k2_55938_2")] renamed1: Option<Leaf>, k2_55938_3: Vec<Leaf> },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_25549 },
}

impl Abs for R2_55938 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_55938_1: b0, renamed1: b1, k2_55938_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_55938_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_55938_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_15514 {
    pub k1_15514_1: char,
    #[serde(rename = "k1_15514_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_15514_3: std::num::NonZeroI32,
    pub k1_15514_4: f32,
}

impl Abs for R1_15514 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_15514_1.to_a(), self.renamed1.to_a(), self.k1_15514_3.to_a(), self.k1_15514_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_15514_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_15514_3: Abs::of_a(&v[2]), k1_15514_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_23433 {
    #[serde(default)] pub k1_23433_1: i32,
    #[serde(rename = "k1_23433_2")] pub renamed1: Leaf,
}

impl Abs for R1_23433 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_23433_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_23433_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_56051 {
    #[serde(flatten)] pub inner_0: (),
    #[serde(rename = "k2_56051_2")] pub renamed1: Vec<f64>,
    #[serde(flatten)] pub inner_2: R1_15514,
    #[serde(default)] pub k2_56051_4: R1_23433,
}

impl Abs for R2_56051 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.inner_2.to_a(), self.k2_56051_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]), k2_56051_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_32084 {
    pub k1_32084_1: u32,
}

impl Abs for R1_32084 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_32084_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_32084_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_71889")]
pub enum R2_71889 {
    P { k2_71889_1: R1_32084, #[serde(rename = "k2_71889_2")] renamed1: Option<Leaf> },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_71889: Option<Leaf> },
}

impl Abs for R2_71889 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_71889_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_71889: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_71889_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x2_71889: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_58419 {
    pub k1_58419_1: Even,
}

impl Abs for R1_58419 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_58419_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_58419_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_46929")]
pub enum R3_46929 {
    P { k3_46929_1: R2_56051, #[serde(rename = "k3_46929_2")] renamed1: Option<Option<Leaf>>, #[serde(flatten)] inner_2: R2_71889 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x3_46929: Option<R1_58419> },
}

impl Abs for R3_46929 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_46929_1: b0, renamed1: b1, inner_2: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x3_46929: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_46929_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x3_46929: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_62990 {
    pub k1_62990_1: u64,
}

impl Abs for R1_62990 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_62990_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_62990_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_74597")]
pub enum R1_74597 {
    P { k1_74597_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_74597: Leaf },
}

impl Abs for R1_74597 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_74597_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_74597: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_74597_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_74597: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_82516 {
    #[serde(default)] pub k1_82516_1: Leaf,
    #[serde(rename = "k1_82516_2")] #[serde(default)] pub renamed1: char,
    pub k1_82516_3: i32,
}

impl Abs for R1_82516 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_82516_1.to_a(), self.renamed1.to_a(), self.k1_82516_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_82516_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_82516_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_79281 {
    #[serde(flatten)] pub inner_0: R1_74597,
    #[serde(rename = "k2_79281_2")] #[serde(default)] pub renamed1: R1_82516,
    pub k2_79281_3: Option<u8>,
}

impl Abs for R2_79281 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_79281_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_79281_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_87094 {
    pub k1_87094_1: Leaf,
}

impl Abs for R1_87094 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_87094_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_87094_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_3307")]
pub enum R1_3307 {
    P { k1_3307_1: i8 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_3307: Leaf },
}

impl Abs for R1_3307 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_3307_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_3307: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_3307_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_3307: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_19511 {
    v1_19511_1,
    #[serde(rename = "v1_19511_2", reindex = 114)] V1,
    v1_19511_3,
    v1_19511_4,
    #[serde(rename = "v1_19511_5", reindex = 135)] V4,
}

impl Abs for R1_19511 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_19511_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v1_19511_3 => A::Var(3, vec![]),
            Self::v1_19511_4 => A::Var(4, vec![]),
            Self::V4 => A::Var(5, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_19511_1,
            2 => Self::V1,
            3 => Self::v1_19511_3,
            4 => Self::v1_19511_4,
            5 => Self::V4,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_90888")]
pub enum R2_90888 {
    P { #[serde(default)] k2_90888_1: Vec<char> },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x2_90888: R1_19511 },
}

impl Abs for R2_90888 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_90888_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x2_90888: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_90888_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x2_90888: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R2_98807 {
    pub k2_98807_1: Vec<Leaf>,
}

impl Abs for R2_98807 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_98807_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_98807_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_44002 {
    pub k3_44002_1: Option<R1_87094>,
    #[serde(rename = "k3_44002_2")] pub renamed1: Option<R1_3307>,
    pub k3_44002_3: R2_90888,
    pub k3_44002_4: R2_98807,
}

impl Abs for R3_44002 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_44002_1.to_a(), self.renamed1.to_a(), self.k3_44002_3.to_a(), self.k3_44002_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_44002_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_44002_3: Abs::of_a(&v[2]), k3_44002_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R1_35549 {
    v1_35549_1,
}

impl Abs for R1_35549 {
    fn to_a(&self) -> A {
        match self {
            Self::v1_35549_1 => A::Var(1, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v1_35549_1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R2_17897 {
    v2_17897_1,
}

impl Abs for R2_17897 {
    fn to_a(&self) -> A {
        match self {
            Self::v2_17897_1 => A::Var(1, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v2_17897_1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_55075 {
    #[serde(default)] pub k1_55075_1: i64,
    #[serde(rename = "k1_55075_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_55075_3: Leaf,
}

impl Abs for R1_55075 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_55075_1.to_a(), self.renamed1.to_a(), self.k1_55075_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_55075_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_55075_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_62994 {
    pub k1_62994_1: std::num::NonZeroU16,
}

impl Abs for R1_62994 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_62994_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_62994_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_25816 {
    pub k2_25816_1: Vec<i64>,
    #[serde(rename = "k2_25816_2")] #[serde(default)] pub renamed1: R1_55075,
    pub k2_25816_3: R1_62994,
}

impl Abs for R2_25816 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_25816_1.to_a(), self.renamed1.to_a(), self.k2_25816_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_25816_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_25816_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_19902 {
    pub k3_19902_1: [R1_35549; 1],
    #[serde(rename = "k3_19902_2")] pub renamed1: R2_17897,
    pub k3_19902_3: R2_25816,
    pub k3_19902_4: (Vec<Leaf>, Option<std::num::NonZeroU32>),
}

impl Abs for R3_19902 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_19902_1.to_a(), self.renamed1.to_a(), self.k3_19902_3.to_a(), self.k3_19902_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_19902_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_19902_3: Abs::of_a(&v[2]), k3_19902_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R2_19772 {
    pub k2_19772_1: Option<Leaf>,
}

impl Abs for R2_19772 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_19772_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_19772_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_61281")]
pub enum R3_61281 {
    P { #[serde(flatten)] inner_0: R2_19772 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x3_61281: Option<()> },
}

impl Abs for R3_61281 {
    fn to_a(&self) -> A {
        match self {
            Self::P { inner_0: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x3_61281: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { inner_0: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x3_61281: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_10893 {
    #[serde(flatten)] pub inner_0: R3_61281,
}

impl Abs for R4_10893 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_12593")]
pub enum R1_12593 {
    P { k1_12593_1: Leaf, #[serde(rename = "k1_12593_2")] renamed1: Even },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_12593: Leaf },
}

impl Abs for R1_12593 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_12593_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_12593: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_12593_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_12593: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_20512 {
    pub k1_20512_1: Leaf,
    #[serde(rename = "k1_20512_2")] #[serde(default)] pub renamed1: u32,
    pub k1_20512_3: std::num::NonZeroU64,
    pub k1_20512_4: Leaf,
}

impl Abs for R1_20512 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_20512_1.to_a(), self.renamed1.to_a(), self.k1_20512_3.to_a(), self.k1_20512_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_20512_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_20512_3: Abs::of_a(&v[2]), k1_20512_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_33394 {
    pub k1_33394_1: u64,
}

impl Abs for R1_33394 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_33394_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_33394_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_1884")]
pub enum R2_1884 {
    P { k2_1884_1: R1_12593, #[serde(rename = "k2_1884_2")] renamed1: R1_20512 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_33394 },
}

impl Abs for R2_1884 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_1884_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_1884_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_29820 {
    pub k1_29820_1: Leaf,
    #[serde(rename = "k1_29820_2")] #[serde(default)] pub renamed1: u16,
    pub k1_29820_3: std::num::NonZeroU32,
}

impl Abs for R1_29820 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_29820_1.to_a(), self.renamed1.to_a(), self.k1_29820_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_29820_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_29820_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_63896 {
    pub k2_63896_1: R1_29820,
    #[serde(rename = "k2_63896_2")] pub renamed1: (),
    pub k2_63896_3: Vec<Even>,
}

impl Abs for R2_63896 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_63896_1.to_a(), self.renamed1.to_a(), self.k2_63896_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_63896_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_63896_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_66825 {
    #[serde(default)] pub k1_66825_1: Leaf,
    #[serde(rename = "k1_66825_2")] pub renamed1: std::num::NonZeroI8,
    pub k1_66825_3: Leaf,
}

impl Abs for R1_66825 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_66825_1.to_a(), self.renamed1.to_a(), self.k1_66825_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_66825_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_66825_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_83029 {
    #[serde(default)] pub k1_83029_1: Leaf,
    #[serde(rename = "k1_83029_2")] pub renamed1: std::num::NonZeroI16,
    pub k1_83029_3: Leaf,
}

impl Abs for R1_83029 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_83029_1.to_a(), self.renamed1.to_a(), self.k1_83029_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_83029_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_83029_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_67762")]
pub enum R1_67762 {
    P { k1_67762_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_67762: Leaf },
}

impl Abs for R1_67762 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_67762_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_67762: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_67762_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_67762: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_75681 {
    pub k1_75681_1: Leaf,
}

impl Abs for R1_75681 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_75681_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_75681_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_83600 {
    pub k1_83600_1: Leaf,
    #[serde(rename = "k1_83600_2")] #[serde(default)] pub renamed1: Leaf,
    #[serde(default)] pub k1_83600_3: f64,
}

impl Abs for R1_83600 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_83600_1.to_a(), self.renamed1.to_a(), self.k1_83600_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_83600_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_83600_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_84697 {
    pub k2_84697_1: R1_67762,
    #[serde(rename = "k2_84697_2")] #[serde(default)] pub renamed1: R1_75681,
    pub k2_84697_3: R1_83600,
}

impl Abs for R2_84697 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_84697_1.to_a(), self.renamed1.to_a(), self.k2_84697_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_84697_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_84697_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t3_92866")]
pub enum R3_92866 {
    P { k3_92866_1: R2_63896, #[serde(rename = "k3_92866_2")] renamed1: Option<R1_66825>, k3_92866_3: Vec<R1_83029> },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R2_84697 },
}

impl Abs for R3_92866 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k3_92866_1: b0, renamed1: b1, k3_92866_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k3_92866_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_92866_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_36066 {
    pub k1_36066_1: Leaf,
    #[serde(rename = "k1_36066_2")] pub renamed1: Leaf,
}

impl Abs for R1_36066 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_36066_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_36066_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_51904")]
pub enum R1_51904 {
    P { k1_51904_1: std::num::NonZeroI64 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_51904: f64 },
}

impl Abs for R1_51904 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_51904_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_51904: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_51904_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_51904: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_72786 {
    #[serde(default)] pub k2_72786_1: R1_36066,
    #[serde(rename = "k2_72786_2")] #[serde(default)] pub renamed1: Option<std::num::NonZeroI32>,
    pub k2_72786_3: R1_51904,
}

impl Abs for R2_72786 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_72786_1.to_a(), self.renamed1.to_a(), self.k2_72786_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_72786_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_72786_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_73071 {
    pub k1_73071_1: Leaf,
    #[serde(rename = "k1_73071_2")] pub renamed1: char,
}

impl Abs for R1_73071 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_73071_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_73071_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_88909")]
pub enum R1_88909 {
    P { k1_88909_1: i32, #[serde(rename = "k1_88909_2")] #[serde(default)] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_88909: Leaf },
}

impl Abs for R1_88909 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_88909_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_88909: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_88909_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_88909: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R2_88624 {
    v2_88624_1,
    #[serde(rename = "v2_88624_2", reindex = 114)] V1,
}

impl Abs for R2_88624 {
    fn to_a(&self) -> A {
        match self {
            Self::v2_88624_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v2_88624_1,
            2 => Self::V1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_84678")]
pub enum R1_84678 {
    P { k1_84678_1: std::num::NonZeroI16 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_84678: u64 },
}

impl Abs for R1_84678 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_84678_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_84678: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_84678_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_84678: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_92597 {
    pub k1_92597_1: u64,
    #[serde(rename = "k1_92597_2")] pub renamed1: std::num::NonZeroU64,
    #[serde(default)] pub k1_92597_3: Leaf,
    pub k1_92597_4: u16,
}

impl Abs for R1_92597 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_92597_1.to_a(), self.renamed1.to_a(), self.k1_92597_3.to_a(), self.k1_92597_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_92597_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_92597_3: Abs::of_a(&v[2]), k1_92597_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_96543 {
    #[serde(flatten)] pub inner_0: R1_84678,
    #[serde(rename = "k2_96543_2")] pub renamed1: R1_92597,
    pub k2_96543_3: (Leaf, Leaf),
}

impl Abs for R2_96543 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_96543_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_96543_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_36009 {
    #[serde(flatten)] pub inner_0: R2_72786,
    #[serde(rename = "k3_36009_2")] pub renamed1: (R1_73071, R1_88909),
    pub k3_36009_3: R2_88624,
    pub k3_36009_4: R2_96543,
}

impl Abs for R3_36009 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k3_36009_3.to_a(), self.k3_36009_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_36009_3: Abs::of_a(&v[2]), k3_36009_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_65693")]
pub enum R1_65693 {
    P { #[serde(default)] k1_65693_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_65693: std::num::NonZeroI64 },
}

impl Abs for R1_65693 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_65693_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_65693: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_65693_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_65693: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R3_65839 {
    pub k3_65839_1: Option<R1_65693>,
}

impl Abs for R3_65839 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_65839_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_65839_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_50179")]
pub enum R1_50179 {
    P { #[serde(default)] k1_50179_1: Leaf, #[serde(rename = "k1_50179_2")] renamed1: char },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_50179: Leaf },
}

impl Abs for R1_50179 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_50179_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_50179: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_50179_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_50179: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_58098 {
    pub k1_58098_1: Leaf,
}

impl Abs for R1_58098 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_58098_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_58098_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_70717 {
    pub k2_70717_1: R1_50179,
    #[serde(rename = "k2_70717_2")] #[serde(default)] pub renamed1: R1_58098,
    pub k2_70717_3: Option<Leaf>,
}

impl Abs for R2_70717 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_70717_1.to_a(), self.renamed1.to_a(), self.k2_70717_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_70717_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_70717_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R4_56830 {
    pub k4_56830_1: [R2_70717; 3],
}

impl Abs for R4_56830 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k4_56830_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k4_56830_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_20438")]
pub enum R1_20438 {
    P { k1_20438_1: Even, #[serde(rename = "k1_20438_2")] #[serde(default)] renamed1: Leaf, k1_20438_3: std::num::NonZeroU32 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_20438: Leaf },
}

impl Abs for R1_20438 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_20438_1: b0, renamed1: b1, k1_20438_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_20438: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_20438_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_20438_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_20438: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_28357 {
    pub k1_28357_1: u32,
    #[serde(rename = "k1_28357_2")] pub renamed1: Leaf,
}

impl Abs for R1_28357 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_28357_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_28357_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_36276 {
    pub k1_36276_1: bool,
}

impl Abs for R1_36276 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_36276_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_36276_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_41239")]
pub enum R1_41239 {
    P { k1_41239_1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_41239: Leaf },
}

impl Abs for R1_41239 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_41239_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_41239: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_41239_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_41239: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_47821")]
pub enum R2_47821 {
    P { k2_47821_1: R1_20438, #[serde(rename = "k2_47821_2")] renamed1: R1_28357, #[serde(flatten)] inner_2: R1_36276 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_41239 },
}

impl Abs for R2_47821 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_47821_1: b0, renamed1: b1, inner_2: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_47821_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), inner_2: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_5834")]
pub enum R1_5834 {
    P { #[serde(default)] k1_5834_1: Leaf, #[serde(rename = "k1_5834_2")] renamed1: std::num::NonZeroI8 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_5834: Leaf },
}

impl Abs for R1_5834 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_5834_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_5834: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_5834_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_5834: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_18716")]
pub enum R1_18716 {
    P { k1_18716_1: Even, #[serde(rename = "k1_18716_2")] #[serde(default)] renamed1: Leaf, k1_18716_3: std::num::NonZeroU16 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_18716: u16 },
}

impl Abs for R1_18716 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_18716_1: b0, renamed1: b1, k1_18716_3: b2 } => A::Var(1, vec![b0.to_a(), b1.to_a(), b2.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_18716: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_18716_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_18716_3: Abs::of_a(&v[2]) },
            2 => Self::V1,
            3 => Self::X { x1_18716: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t2_92542")]
pub enum R2_92542 {
    P { k2_92542_1: Option<std::num::NonZeroU64>, #[serde(flatten)] inner_1: R1_5834 },
    #[serde(rename = "Q")] V1,
    #[serde(transparent)] W { inner: R1_18716 },
}

impl Abs for R2_92542 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k2_92542_1: b0, inner_1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::W { inner } => A::Var(3, vec![inner.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k2_92542_1: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::W { inner: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_67885")]
pub enum R1_67885 {
    P { k1_67885_1: i8 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_67885: std::num::NonZeroI16 },
}

impl Abs for R1_67885 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_67885_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_67885: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_67885_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_67885: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_75804 {
    pub k1_75804_1: std::num::NonZeroI32,
}

impl Abs for R1_75804 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_75804_1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_75804_1: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_91642")]
pub enum R1_91642 {
    P { #[serde(default)] k1_91642_1: Leaf, #[serde(rename = "k1_91642_2")] renamed1: std::num::NonZeroI16 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_91642: Leaf },
}

impl Abs for R1_91642 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_91642_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_91642: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_91642_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_91642: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_2939 {
    #[serde(flatten)] pub inner_0: R1_67885,
    #[serde(flatten)] pub inner_1: R1_75804,
    #[serde(default)] pub k2_2939_3: Option<bool>,
    pub k2_2939_4: R1_91642,
}

impl Abs for R2_2939 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.inner_1.to_a(), self.k2_2939_3.to_a(), self.k2_2939_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), inner_1: Abs::of_a(&v[1]), k2_2939_3: Abs::of_a(&v[2]), k2_2939_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_84089")]
pub enum R1_84089 {
    P { k1_84089_1: i16, #[serde(rename = "k1_84089_2")] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_84089: std::num::NonZeroI64 },
}

impl Abs for R1_84089 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_84089_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_84089: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_84089_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_84089: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_92008 {
    pub k1_92008_1: std::num::NonZeroI64,
    #[serde(rename = "k1_92008_2")] pub renamed1: f64,
    pub k1_92008_3: Leaf,
    pub k1_92008_4: std::num::NonZeroI32,
}

impl Abs for R1_92008 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_92008_1.to_a(), self.renamed1.to_a(), self.k1_92008_3.to_a(), self.k1_92008_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_92008_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_92008_3: Abs::of_a(&v[2]), k1_92008_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_99927 {
    pub k1_99927_1: Leaf,
    #[serde(rename = "k1_99927_2")] #[serde(default)] pub renamed1: i32,
    pub k1_99927_3: Leaf,
}

impl Abs for R1_99927 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_99927_1.to_a(), self.renamed1.to_a(), self.k1_99927_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_99927_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_99927_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_10858 {
    #[serde(flatten)] pub inner_0: R1_84089,
    #[serde(rename = "k2_10858_2")] pub renamed1: R1_92008,
    pub k2_10858_3: R1_99927,
}

impl Abs for R2_10858 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_10858_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_10858_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_21103")]
pub enum R1_21103 {
    P { k1_21103_1: String },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_21103: i32 },
}

impl Abs for R1_21103 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_21103_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_21103: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_21103_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_21103: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_43854 {
    pub k3_43854_1: R2_2939,
    #[serde(rename = "k3_43854_2")] pub renamed1: R2_10858,
    pub k3_43854_3: (R1_21103, Option<String>),
}

impl Abs for R3_43854 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_43854_1.to_a(), self.renamed1.to_a(), self.k3_43854_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_43854_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_43854_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_74356 {
    pub k1_74356_1: Leaf,
    #[serde(rename = "k1_74356_2")] pub renamed1: Leaf,
    #[serde(default)] pub k1_74356_3: Leaf,
    pub k1_74356_4: std::num::NonZeroU8,
}

impl Abs for R1_74356 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_74356_1.to_a(), self.renamed1.to_a(), self.k1_74356_3.to_a(), self.k1_74356_4.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_74356_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_74356_3: Abs::of_a(&v[2]), k1_74356_4: Abs::of_a(&v[3]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_20794 {
    #[serde(flatten)] pub inner_0: R1_74356,
}

impl Abs for R2_20794 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R2_25668 {
    pub k2_25668_1: Option<Leaf>,
    #[serde(rename = "k2_25668_2")] pub renamed1: (Leaf, std::num::NonZeroU32),
}

impl Abs for R2_25668 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k2_25668_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k2_25668_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_11785 {
    pub k3_11785_1: R2_25668,
    #[serde(rename = "k3_11785_2")] pub renamed1: Option<Option<Leaf>>,
}

impl Abs for R3_11785 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_11785_1.to_a(), self.renamed1.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_11785_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R2_80060 {
    v2_80060_1,
    #[serde(rename = "v2_80060_2", reindex = 114)] V1,
    v2_80060_3,
}

impl Abs for R2_80060 {
    fn to_a(&self) -> A {
        match self {
            Self::v2_80060_1 => A::Var(1, vec![]),
            Self::V1 => A::Var(2, vec![]),
            Self::v2_80060_3 => A::Var(3, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v2_80060_1,
            2 => Self::V1,
            3 => Self::v2_80060_3,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R1_60260 {
    pub k1_60260_1: u64,
    #[serde(rename = "k1_60260_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_60260_3: Even,
}

impl Abs for R1_60260 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_60260_1.to_a(), self.renamed1.to_a(), self.k1_60260_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_60260_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_60260_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct R2_87979 {
    #[serde(flatten)] pub inner_0: R1_60260,
    #[serde(rename = "k2_87979_2")] #[serde(default)] pub renamed1: (),
    pub k2_87979_3: [u32; 2],
}

impl Abs for R2_87979 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.inner_0.to_a(), self.renamed1.to_a(), self.k2_87979_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { inner_0: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k2_87979_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R1_97265 {
    pub k1_97265_1: std::num::NonZeroI16,
    #[serde(rename = "k1_97265_2")] #[serde(default)] pub renamed1: Leaf,
    pub k1_97265_3: bool,
}

impl Abs for R1_97265 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k1_97265_1.to_a(), self.renamed1.to_a(), self.k1_97265_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k1_97265_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k1_97265_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub struct R3_76971 {
    pub k3_76971_1: R2_80060,
    #[serde(rename = "k3_76971_2")] #[serde(default)] pub renamed1: R2_87979,
    #[serde(default)] pub k3_76971_3: Option<R1_97265>,
}

impl Abs for R3_76971 {
    fn to_a(&self) -> A {
        A::Rec(vec![self.k3_76971_1.to_a(), self.renamed1.to_a(), self.k3_76971_3.to_a()])
    }
    fn of_a(a: &A) -> Self {
        let A::Rec(v) = a else { bad(a) };
        let _ = v;
        Self { k3_76971_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]), k3_76971_3: Abs::of_a(&v[2]) }
    }
}

#[derive(Serialize, Deserialize)]
pub enum R2_17074 {
    v2_17074_1,
}

impl Abs for R2_17074 {
    fn to_a(&self) -> A {
        match self {
            Self::v2_17074_1 => A::Var(1, vec![]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::v2_17074_1,
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_66239")]
pub enum R1_66239 {
    P { k1_66239_1: u64 },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_66239: i8 },
}

impl Abs for R1_66239 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_66239_1: b0 } => A::Var(1, vec![b0.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_66239: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_66239_1: Abs::of_a(&v[0]) },
            2 => Self::V1,
            3 => Self::X { x1_66239: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t1_92542")]
pub enum R1_92542 {
    P { k1_92542_1: u64, #[serde(rename = "k1_92542_2")] renamed1: Leaf },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x1_92542: bool },
}

impl Abs for R1_92542 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k1_92542_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x1_92542: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k1_92542_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x1_92542: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t4_2776")]
pub enum R4_2776 {
    P { k4_2776_1: R3_76971, #[serde(rename = "k4_2776_2")] renamed1: (R2_17074, (R1_66239, Option<Leaf>)) },
    #[serde(rename = "Q")] V1,
    #[serde(reindex = 50)] X { x4_2776: Option<Option<R1_92542>> },
}

impl Abs for R4_2776 {
    fn to_a(&self) -> A {
        match self {
            Self::P { k4_2776_1: b0, renamed1: b1 } => A::Var(1, vec![b0.to_a(), b1.to_a()]),
            Self::V1 => A::Var(2, vec![]),
            Self::X { x4_2776: b0 } => A::Var(3, vec![b0.to_a()]),
        }
    }
    fn of_a(a: &A) -> Self {
        let A::Var(i, v) = a else { bad(a) };
        let _ = v;
        match i {
            1 => Self::P { k4_2776_1: Abs::of_a(&v[0]), renamed1: Abs::of_a(&v[1]) },
            2 => Self::V1,
            3 => Self::X { x4_2776: Abs::of_a(&v[0]) },
            _ => bad(a),
        }
    }
}

fn part0(v: &mut Vec<Entry>) {
    v.extend([
    rw::<bool>(1, r##"{"k":"prim","p":"bool"}"##),
    rw::<i8>(2, r##"{"k":"prim","p":"i8"}"##),
    rw::<i16>(3, r##"{"k":"prim","p":"i16"}"##),
    rw::<i32>(4, r##"{"k":"prim","p":"i32"}"##),
    rw::<i64>(5, r##"{"k":"prim","p":"i64"}"##),
    rw::<u8>(6, r##"{"k":"prim","p":"u8"}"##),
    rw::<u16>(7, r##"{"k":"prim","p":"u16"}"##),
    rw::<u32>(8, r##"{"k":"prim","p":"u32"}"##),
    rw::<u64>(9, r##"{"k":"prim","p":"u64"}"##),
    rw::<f32>(10, r##"{"k":"prim","p":"f32"}"##),
    rw::<f64>(11, r##"{"k":"prim","p":"f64"}"##),
    rw::<char>(12, r##"{"k":"prim","p":"char"}"##),
    rw::<String>(13, r##"{"k":"prim","p":"str"}"##),
    rw::<Leaf>(14, r##"{"k":"prim","p":"leaf"}"##),
    rw::<Even>(15, r##"{"k":"prim","p":"even"}"##),
    rw::<std::num::NonZeroI8>(16, r##"{"k":"prim","p":"nz_i8"}"##),
    rw::<std::num::NonZeroI16>(17, r##"{"k":"prim","p":"nz_i16"}"##),
    rw::<std::num::NonZeroI32>(18, r##"{"k":"prim","p":"nz_i32"}"##),
    rw::<std::num::NonZeroI64>(19, r##"{"k":"prim","p":"nz_i64"}"##),
    rw::<std::num::NonZeroU8>(20, r##"{"k":"prim","p":"nz_u8"}"##),
    rw::<std::num::NonZeroU16>(21, r##"{"k":"prim","p":"nz_u16"}"##),
    rw::<std::num::NonZeroU32>(22, r##"{"k":"prim","p":"nz_u32"}"##),
    rw::<std::num::NonZeroU64>(23, r##"{"k":"prim","p":"nz_u64"}"##),
    rw::<Option<bool>>(24, r##"{"k":"opt","t":{"k":"prim","p":"bool"}}"##),
    rw::<Option<i8>>(25, r##"{"k":"opt","t":{"k":"prim","p":"i8"}}"##),
    rw::<Option<i16>>(26, r##"{"k":"opt","t":{"k":"prim","p":"i16"}}"##),
    rw::<Option<i32>>(27, r##"{"k":"opt","t":{"k":"prim","p":"i32"}}"##),
    rw::<Option<i64>>(28, r##"{"k":"opt","t":{"k":"prim","p":"i64"}}"##),
    rw::<Option<u8>>(29, r##"{"k":"opt","t":{"k":"prim","p":"u8"}}"##),
    rw::<Option<u16>>(30, r##"{"k":"opt","t":{"k":"prim","p":"u16"}}"##),
    rw::<Option<u32>>(31, r##"{"k":"opt","t":{"k":"prim","p":"u32"}}"##),
    rw::<Option<u64>>(32, r##"{"k":"opt","t":{"k":"prim","p":"u64"}}"##),
    rw::<Option<f32>>(33, r##"{"k":"opt","t":{"k":"prim","p":"f32"}}"##),
    rw::<Option<f64>>(34, r##"{"k":"opt","t":{"k":"prim","p":"f64"}}"##),
    rw::<Option<char>>(35, r##"{"k":"opt","t":{"k":"prim","p":"char"}}"##),
    rw::<Option<String>>(36, r##"{"k":"opt","t":{"k":"prim","p":"str"}}"##),
    rw::<Option<Leaf>>(37, r##"{"k":"opt","t":{"k":"prim","p":"leaf"}}"##),
    rw::<Option<Even>>(38, r##"{"k":"opt","t":{"k":"prim","p":"even"}}"##),
    rw::<Option<std::num::NonZeroI8>>(39, r##"{"k":"opt","t":{"k":"prim","p":"nz_i8"}}"##),
    rw::<Option<std::num::NonZeroI16>>(40, r##"{"k":"opt","t":{"k":"prim","p":"nz_i16"}}"##),
    ]);
}

fn part1(v: &mut Vec<Entry>) {
    v.extend([
    rw::<Option<std::num::NonZeroI32>>(41, r##"{"k":"opt","t":{"k":"prim","p":"nz_i32"}}"##),
    rw::<Option<std::num::NonZeroI64>>(42, r##"{"k":"opt","t":{"k":"prim","p":"nz_i64"}}"##),
    rw::<Option<std::num::NonZeroU8>>(43, r##"{"k":"opt","t":{"k":"prim","p":"nz_u8"}}"##),
    rw::<Option<std::num::NonZeroU16>>(44, r##"{"k":"opt","t":{"k":"prim","p":"nz_u16"}}"##),
    rw::<Option<std::num::NonZeroU32>>(45, r##"{"k":"opt","t":{"k":"prim","p":"nz_u32"}}"##),
    rw::<Option<std::num::NonZeroU64>>(46, r##"{"k":"opt","t":{"k":"prim","p":"nz_u64"}}"##),
    rw::<Vec<bool>>(47, r##"{"k":"vec","t":{"k":"prim","p":"bool"}}"##),
    rw::<Vec<i8>>(48, r##"{"k":"vec","t":{"k":"prim","p":"i8"}}"##),
    rw::<Vec<i16>>(49, r##"{"k":"vec","t":{"k":"prim","p":"i16"}}"##),
    rw::<Vec<i32>>(50, r##"{"k":"vec","t":{"k":"prim","p":"i32"}}"##),
    rw::<Vec<i64>>(51, r##"{"k":"vec","t":{"k":"prim","p":"i64"}}"##),
    rw::<Vec<u8>>(52, r##"{"k":"vec","t":{"k":"prim","p":"u8"}}"##),
    rw::<Vec<u16>>(53, r##"{"k":"vec","t":{"k":"prim","p":"u16"}}"##),
    rw::<Vec<u32>>(54, r##"{"k":"vec","t":{"k":"prim","p":"u32"}}"##),
    rw::<Vec<u64>>(55, r##"{"k":"vec","t":{"k":"prim","p":"u64"}}"##),
    rw::<Vec<f32>>(56, r##"{"k":"vec","t":{"k":"prim","p":"f32"}}"##),
    rw::<Vec<f64>>(57, r##"{"k":"vec","t":{"k":"prim","p":"f64"}}"##),
    rw::<Vec<char>>(58, r##"{"k":"vec","t":{"k":"prim","p":"char"}}"##),
    rw::<Vec<String>>(59, r##"{"k":"vec","t":{"k":"prim","p":"str"}}"##),
    rw::<Vec<Leaf>>(60, r##"{"k":"vec","t":{"k":"prim","p":"leaf"}}"##),
    rw::<Vec<Even>>(61, r##"{"k":"vec","t":{"k":"prim","p":"even"}}"##),
    rw::<Vec<std::num::NonZeroI8>>(62, r##"{"k":"vec","t":{"k":"prim","p":"nz_i8"}}"##),
    rw::<Vec<std::num::NonZeroI16>>(63, r##"{"k":"vec","t":{"k":"prim","p":"nz_i16"}}"##),
    rw::<Vec<std::num::NonZeroI32>>(64, r##"{"k":"vec","t":{"k":"prim","p":"nz_i32"}}"##),
    rw::<Vec<std::num::NonZeroI64>>(65, r##"{"k":"vec","t":{"k":"prim","p":"nz_i64"}}"##),
    rw::<Vec<std::num::NonZeroU8>>(66, r##"{"k":"vec","t":{"k":"prim","p":"nz_u8"}}"##),
    rw::<Vec<std::num::NonZeroU16>>(67, r##"{"k":"vec","t":{"k":"prim","p":"nz_u16"}}"##),
    rw::<Vec<std::num::NonZeroU32>>(68, r##"{"k":"vec","t":{"k":"prim","p":"nz_u32"}}"##),
    rw::<Vec<std::num::NonZeroU64>>(69, r##"{"k":"vec","t":{"k":"prim","p":"nz_u64"}}"##),
    rw::<()>(70, r##"{"k":"unit"}"##),
    rw::<OptPrims>(71, r##"{"fs":[{"m":"plain","n":"o_bool","px":false,"t":{"k":"opt","t":{"k":"prim","p":"bool"}}},{"m":"plain","n":"o_i8","px":false,"t":{"k":"opt","t":{"k":"prim","p":"i8"}}},{"m":"plain","n":"o_i16","px":false,"t":{"k":"opt","t":{"k":"prim","p":"i16"}}},{"m":"plain","n":"o_i32","px":false,"t":{"k":"opt","t":{"k":"prim","p":"i32"}}},{"m":"plain","n":"o_i64","px":false,"t":{"k":"opt","t":{"k":"prim","p":"i64"}}},{"m":"plain","n":"o_u8","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}},{"m":"plain","n":"o_u16","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u16"}}},{"m":"plain","n":"o_u32","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u32"}}},{"m":"plain","n":"o_u64","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u64"}}},{"m":"plain","n":"o_f32","px":false,"t":{"k":"opt","t":{"k":"prim","p":"f32"}}},{"m":"plain","n":"o_f64","px":false,"t":{"k":"opt","t":{"k":"prim","p":"f64"}}},{"m":"plain","n":"o_char","px":false,"t":{"k":"opt","t":{"k":"prim","p":"char"}}},{"m":"plain","n":"o_str","px":false,"t":{"k":"opt","t":{"k":"prim","p":"str"}}},{"m":"plain","n":"o_leaf","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"o_even","px":false,"t":{"k":"opt","t":{"k":"prim","p":"even"}}},{"m":"plain","n":"o_nz_i8","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_i8"}}},{"m":"plain","n":"o_nz_i16","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_i16"}}},{"m":"plain","n":"o_nz_i32","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_i32"}}},{"m":"plain","n":"o_nz_i64","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_i64"}}},{"m":"plain","n":"o_nz_u8","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_u8"}}},{"m":"plain","n":"o_nz_u16","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_u16"}}},{"m":"plain","n":"o_nz_u32","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_u32"}}},{"m":"plain","n":"o_nz_u64","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_u64"}}}],"k":"struct","name":"OptPrims"}"##),
    rw::<DefaultPrims>(72, r##"{"fs":[{"m":"default","n":"d_bool","px":false,"t":{"k":"prim","p":"bool"}},{"m":"default","n":"d_i8","px":false,"t":{"k":"prim","p":"i8"}},{"m":"default","n":"d_i16","px":false,"t":{"k":"prim","p":"i16"}},{"m":"default","n":"d_i32","px":false,"t":{"k":"prim","p":"i32"}},{"m":"default","n":"d_i64","px":false,"t":{"k":"prim","p":"i64"}},{"m":"default","n":"d_u8","px":false,"t":{"k":"prim","p":"u8"}},{"m":"default","n":"d_u16","px":false,"t":{"k":"prim","p":"u16"}},{"m":"default","n":"d_u32","px":false,"t":{"k":"prim","p":"u32"}},{"m":"default","n":"d_u64","px":false,"t":{"k":"prim","p":"u64"}},{"m":"default","n":"d_f32","px":false,"t":{"k":"prim","p":"f32"}},{"m":"default","n":"d_f64","px":false,"t":{"k":"prim","p":"f64"}},{"m":"default","n":"d_char","px":false,"t":{"k":"prim","p":"char"}},{"m":"default","n":"d_str","px":false,"t":{"k":"prim","p":"str"}},{"m":"default","n":"d_leaf","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"d_even","px":false,"t":{"k":"prim","p":"even"}}],"k":"struct","name":"DefaultPrims"}"##),
    rw::<Option<Leaf>>(73, r##"{"k":"opt","t":{"k":"prim","p":"leaf"}}"##),
    rw::<Option<u8>>(74, r##"{"k":"opt","t":{"k":"prim","p":"u8"}}"##),
    rw::<Option<String>>(75, r##"{"k":"opt","t":{"k":"prim","p":"str"}}"##),
    rw::<Option<Option<u8>>>(76, r##"{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"u8"}}}"##),
    rw::<Option<Option<Option<Leaf>>>>(77, r##"{"k":"opt","t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}}"##),
    rw::<Option<Vec<Leaf>>>(78, r##"{"k":"opt","t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}"##),
    rw::<Option<(Leaf, String)>>(79, r##"{"k":"opt","t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"str"}]}}"##),
    rw::<Option<[Leaf; 2]>>(80, r##"{"k":"opt","t":{"k":"arr","n":2,"t":{"k":"prim","p":"leaf"}}}"##),
    ]);
}

fn part2(v: &mut Vec<Entry>) {
    v.extend([
    rw::<Option<()>>(81, r##"{"k":"opt","t":{"k":"unit"}}"##),
    rw::<Option<Point>>(82, r##"{"k":"opt","t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}"##),
    rw::<Option<Color>>(83, r##"{"k":"opt","t":{"k":"enum","name":"Color","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Red","x":-1},{"d":-1,"fs":[],"k":"unit","n":"green","x":-1},{"d":7,"fs":[],"k":"unit","n":"Blue","x":-1},{"d":-1,"fs":[],"k":"unit","n":"<u>","x":-1}]}}"##),
    rw::<Option<Shape>>(84, r##"{"k":"opt","t":{"k":"enum","name":"Shape","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Empty","x":-1},{"d":-1,"fs":[{"m":"plain","n":"r","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"Circle","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"At","x":-1},{"d":-1,"fs":[{"m":"plain","n":"b","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"a","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"Two","x":-1}]}}"##),
    rw::<Vec<Leaf>>(85, r##"{"k":"vec","t":{"k":"prim","p":"leaf"}}"##),
    rw::<Vec<u8>>(86, r##"{"k":"vec","t":{"k":"prim","p":"u8"}}"##),
    rw::<Vec<String>>(87, r##"{"k":"vec","t":{"k":"prim","p":"str"}}"##),
    rw::<Vec<Option<u8>>>(88, r##"{"k":"vec","t":{"k":"opt","t":{"k":"prim","p":"u8"}}}"##),
    rw::<Vec<Option<Option<Leaf>>>>(89, r##"{"k":"vec","t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}}"##),
    rw::<Vec<Vec<Leaf>>>(90, r##"{"k":"vec","t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}"##),
    rw::<Vec<(Leaf, String)>>(91, r##"{"k":"vec","t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"str"}]}}"##),
    rw::<Vec<[Leaf; 2]>>(92, r##"{"k":"vec","t":{"k":"arr","n":2,"t":{"k":"prim","p":"leaf"}}}"##),
    rw::<Vec<()>>(93, r##"{"k":"vec","t":{"k":"unit"}}"##),
    rw::<Vec<Point>>(94, r##"{"k":"vec","t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}"##),
    rw::<Vec<Color>>(95, r##"{"k":"vec","t":{"k":"enum","name":"Color","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Red","x":-1},{"d":-1,"fs":[],"k":"unit","n":"green","x":-1},{"d":7,"fs":[],"k":"unit","n":"Blue","x":-1},{"d":-1,"fs":[],"k":"unit","n":"<u>","x":-1}]}}"##),
    rw::<Vec<Shape>>(96, r##"{"k":"vec","t":{"k":"enum","name":"Shape","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Empty","x":-1},{"d":-1,"fs":[{"m":"plain","n":"r","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"Circle","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"At","x":-1},{"d":-1,"fs":[{"m":"plain","n":"b","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"a","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"Two","x":-1}]}}"##),
    rw::<[Leaf; 2]>(97, r##"{"k":"arr","n":2,"t":{"k":"prim","p":"leaf"}}"##),
    rw::<[u8; 2]>(98, r##"{"k":"arr","n":2,"t":{"k":"prim","p":"u8"}}"##),
    rw::<[String; 2]>(99, r##"{"k":"arr","n":2,"t":{"k":"prim","p":"str"}}"##),
    rw::<[Option<u8>; 2]>(100, r##"{"k":"arr","n":2,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}"##),
    rw::<[Option<Option<Leaf>>; 2]>(101, r##"{"k":"arr","n":2,"t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}}"##),
    rw::<[Vec<Leaf>; 2]>(102, r##"{"k":"arr","n":2,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}"##),
    rw::<[(Leaf, String); 2]>(103, r##"{"k":"arr","n":2,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"str"}]}}"##),
    rw::<[[Leaf; 2]; 2]>(104, r##"{"k":"arr","n":2,"t":{"k":"arr","n":2,"t":{"k":"prim","p":"leaf"}}}"##),
    rw::<[(); 2]>(105, r##"{"k":"arr","n":2,"t":{"k":"unit"}}"##),
    rw::<[Point; 2]>(106, r##"{"k":"arr","n":2,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}"##),
    rw::<[Color; 2]>(107, r##"{"k":"arr","n":2,"t":{"k":"enum","name":"Color","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Red","x":-1},{"d":-1,"fs":[],"k":"unit","n":"green","x":-1},{"d":7,"fs":[],"k":"unit","n":"Blue","x":-1},{"d":-1,"fs":[],"k":"unit","n":"<u>","x":-1}]}}"##),
    rw::<[Shape; 2]>(108, r##"{"k":"arr","n":2,"t":{"k":"enum","name":"Shape","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Empty","x":-1},{"d":-1,"fs":[{"m":"plain","n":"r","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"Circle","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"At","x":-1},{"d":-1,"fs":[{"m":"plain","n":"b","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"a","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"Two","x":-1}]}}"##),
    rw::<(Leaf, Leaf)>(109, r##"{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"leaf"}]}"##),
    rw::<(u8, Leaf)>(110, r##"{"k":"tup","ts":[{"k":"prim","p":"u8"},{"k":"prim","p":"leaf"}]}"##),
    rw::<(String, Leaf)>(111, r##"{"k":"tup","ts":[{"k":"prim","p":"str"},{"k":"prim","p":"leaf"}]}"##),
    rw::<(Option<u8>, Leaf)>(112, r##"{"k":"tup","ts":[{"k":"opt","t":{"k":"prim","p":"u8"}},{"k":"prim","p":"leaf"}]}"##),
    rw::<(Option<Option<Leaf>>, Leaf)>(113, r##"{"k":"tup","ts":[{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"k":"prim","p":"leaf"}]}"##),
    rw::<(Vec<Leaf>, Leaf)>(114, r##"{"k":"tup","ts":[{"k":"vec","t":{"k":"prim","p":"leaf"}},{"k":"prim","p":"leaf"}]}"##),
    rw::<((Leaf, String), Leaf)>(115, r##"{"k":"tup","ts":[{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"str"}]},{"k":"prim","p":"leaf"}]}"##),
    rw::<([Leaf; 2], Leaf)>(116, r##"{"k":"tup","ts":[{"k":"arr","n":2,"t":{"k":"prim","p":"leaf"}},{"k":"prim","p":"leaf"}]}"##),
    rw::<((), Leaf)>(117, r##"{"k":"tup","ts":[{"k":"unit"},{"k":"prim","p":"leaf"}]}"##),
    rw::<(Point, Leaf)>(118, r##"{"k":"tup","ts":[{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"},{"k":"prim","p":"leaf"}]}"##),
    rw::<(Color, Leaf)>(119, r##"{"k":"tup","ts":[{"k":"enum","name":"Color","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Red","x":-1},{"d":-1,"fs":[],"k":"unit","n":"green","x":-1},{"d":7,"fs":[],"k":"unit","n":"Blue","x":-1},{"d":-1,"fs":[],"k":"unit","n":"<u>","x":-1}]},{"k":"prim","p":"leaf"}]}"##),
    rw::<(Shape, Leaf)>(120, r##"{"k":"tup","ts":[{"k":"enum","name":"Shape","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Empty","x":-1},{"d":-1,"fs":[{"m":"plain","n":"r","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"Circle","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"At","x":-1},{"d":-1,"fs":[{"m":"plain","n":"b","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"a","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"Two","x":-1}]},{"k":"prim","p":"leaf"}]}"##),
    ]);
}

fn part3(v: &mut Vec<Entry>) {
    v.extend([
    rw::<(Leaf, Leaf, bool)>(121, r##"{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"leaf"},{"k":"prim","p":"bool"}]}"##),
    rw::<(Leaf, u8, bool)>(122, r##"{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"u8"},{"k":"prim","p":"bool"}]}"##),
    rw::<(Leaf, String, bool)>(123, r##"{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"str"},{"k":"prim","p":"bool"}]}"##),
    rw::<(Leaf, Option<u8>, bool)>(124, r##"{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"opt","t":{"k":"prim","p":"u8"}},{"k":"prim","p":"bool"}]}"##),
    rw::<(Leaf, Option<Option<Leaf>>, bool)>(125, r##"{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"k":"prim","p":"bool"}]}"##),
    rw::<(Leaf, Vec<Leaf>, bool)>(126, r##"{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"vec","t":{"k":"prim","p":"leaf"}},{"k":"prim","p":"bool"}]}"##),
    rw::<(Leaf, (Leaf, String), bool)>(127, r##"{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"str"}]},{"k":"prim","p":"bool"}]}"##),
    rw::<(Leaf, [Leaf; 2], bool)>(128, r##"{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"arr","n":2,"t":{"k":"prim","p":"leaf"}},{"k":"prim","p":"bool"}]}"##),
    rw::<(Leaf, (), bool)>(129, r##"{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"unit"},{"k":"prim","p":"bool"}]}"##),
    rw::<(Leaf, Point, bool)>(130, r##"{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"},{"k":"prim","p":"bool"}]}"##),
    rw::<(Leaf, Color, bool)>(131, r##"{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"enum","name":"Color","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Red","x":-1},{"d":-1,"fs":[],"k":"unit","n":"green","x":-1},{"d":7,"fs":[],"k":"unit","n":"Blue","x":-1},{"d":-1,"fs":[],"k":"unit","n":"<u>","x":-1}]},{"k":"prim","p":"bool"}]}"##),
    rw::<(Leaf, Shape, bool)>(132, r##"{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"enum","name":"Shape","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Empty","x":-1},{"d":-1,"fs":[{"m":"plain","n":"r","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"Circle","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"At","x":-1},{"d":-1,"fs":[{"m":"plain","n":"b","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"a","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"Two","x":-1}]},{"k":"prim","p":"bool"}]}"##),
    rw::<SP1>(133, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"mid","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"last","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"SP1"}"##),
    rw::<SP2>(134, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"mid","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"last","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"SP2"}"##),
    rw::<SP3>(135, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"mid","px":false,"t":{"k":"prim","p":"str"}},{"m":"plain","n":"last","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"SP3"}"##),
    rw::<SP4>(136, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"mid","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}},{"m":"plain","n":"last","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"SP4"}"##),
    rw::<SP5>(137, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"mid","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}},{"m":"plain","n":"last","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"SP5"}"##),
    rw::<SP6>(138, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"mid","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"last","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"SP6"}"##),
    rw::<SP7>(139, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"mid","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"str"}]}},{"m":"plain","n":"last","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"SP7"}"##),
    rw::<SP8>(140, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"mid","px":false,"t":{"k":"arr","n":2,"t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"last","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"SP8"}"##),
    rw::<SP9>(141, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"mid","px":false,"t":{"k":"unit"}},{"m":"plain","n":"last","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"SP9"}"##),
    rw::<SP10>(142, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"mid","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}},{"m":"plain","n":"last","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"SP10"}"##),
    rw::<SP11>(143, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"mid","px":false,"t":{"k":"enum","name":"Color","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Red","x":-1},{"d":-1,"fs":[],"k":"unit","n":"green","x":-1},{"d":7,"fs":[],"k":"unit","n":"Blue","x":-1},{"d":-1,"fs":[],"k":"unit","n":"<u>","x":-1}]}},{"m":"plain","n":"last","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"SP11"}"##),
    rw::<SP12>(144, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"mid","px":false,"t":{"k":"enum","name":"Shape","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Empty","x":-1},{"d":-1,"fs":[{"m":"plain","n":"r","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"Circle","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"At","x":-1},{"d":-1,"fs":[{"m":"plain","n":"b","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"a","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"Two","x":-1}]}},{"m":"plain","n":"last","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"SP12"}"##),
    rw::<SD1>(145, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"mid","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"SD1"}"##),
    rw::<SD2>(146, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"mid","px":false,"t":{"k":"prim","p":"u8"}}],"k":"struct","name":"SD2"}"##),
    rw::<SD3>(147, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"mid","px":false,"t":{"k":"prim","p":"str"}}],"k":"struct","name":"SD3"}"##),
    rw::<SD4>(148, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"mid","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"SD4"}"##),
    rw::<SD5>(149, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"mid","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}}],"k":"struct","name":"SD5"}"##),
    rw::<SD6>(150, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"mid","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"SD6"}"##),
    rw::<SD7>(151, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"mid","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"str"}]}}],"k":"struct","name":"SD7"}"##),
    rw::<SD8>(152, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"mid","px":false,"t":{"k":"arr","n":2,"t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"SD8"}"##),
    rw::<SD9>(153, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"mid","px":false,"t":{"k":"unit"}}],"k":"struct","name":"SD9"}"##),
    rw::<SD10>(154, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"mid","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"struct","name":"SD10"}"##),
    rw::<SF9>(155, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"flatten","n":"","px":false,"t":{"k":"unit"}},{"m":"plain","n":"last","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"SF9"}"##),
    rw::<SF10>(156, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}},{"m":"plain","n":"last","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"SF10"}"##),
    rw::<SF12>(157, r##"{"fs":[{"m":"plain","n":"first","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"Shape","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Empty","x":-1},{"d":-1,"fs":[{"m":"plain","n":"r","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"Circle","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"At","x":-1},{"d":-1,"fs":[{"m":"plain","n":"b","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"a","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"Two","x":-1}]}},{"m":"plain","n":"last","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"SF12"}"##),
    rw::<EF1>(158, r##"{"k":"enum","name":"EF1","tag":"<none>","vs":[{"d":-1,"fs":[{"m":"plain","n":"p","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"q","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"A","x":-1},{"d":-1,"fs":[],"k":"unit","n":"B","x":-1}]}"##),
    rw::<EF2>(159, r##"{"k":"enum","name":"EF2","tag":"<none>","vs":[{"d":-1,"fs":[{"m":"plain","n":"p","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"q","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"A","x":-1},{"d":-1,"fs":[],"k":"unit","n":"B","x":-1}]}"##),
    rw::<EF3>(160, r##"{"k":"enum","name":"EF3","tag":"<none>","vs":[{"d":-1,"fs":[{"m":"plain","n":"p","px":false,"t":{"k":"prim","p":"str"}},{"m":"plain","n":"q","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"A","x":-1},{"d":-1,"fs":[],"k":"unit","n":"B","x":-1}]}"##),
    ]);
}

fn part4(v: &mut Vec<Entry>) {
    v.extend([
    rw::<EF4>(161, r##"{"k":"enum","name":"EF4","tag":"<none>","vs":[{"d":-1,"fs":[{"m":"plain","n":"p","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}},{"m":"plain","n":"q","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"A","x":-1},{"d":-1,"fs":[],"k":"unit","n":"B","x":-1}]}"##),
    rw::<EF5>(162, r##"{"k":"enum","name":"EF5","tag":"<none>","vs":[{"d":-1,"fs":[{"m":"plain","n":"p","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}},{"m":"plain","n":"q","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"A","x":-1},{"d":-1,"fs":[],"k":"unit","n":"B","x":-1}]}"##),
    rw::<EF6>(163, r##"{"k":"enum","name":"EF6","tag":"<none>","vs":[{"d":-1,"fs":[{"m":"plain","n":"p","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"q","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"A","x":-1},{"d":-1,"fs":[],"k":"unit","n":"B","x":-1}]}"##),
    rw::<EF7>(164, r##"{"k":"enum","name":"EF7","tag":"<none>","vs":[{"d":-1,"fs":[{"m":"plain","n":"p","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"str"}]}},{"m":"plain","n":"q","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"A","x":-1},{"d":-1,"fs":[],"k":"unit","n":"B","x":-1}]}"##),
    rw::<EF8>(165, r##"{"k":"enum","name":"EF8","tag":"<none>","vs":[{"d":-1,"fs":[{"m":"plain","n":"p","px":false,"t":{"k":"arr","n":2,"t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"q","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"A","x":-1},{"d":-1,"fs":[],"k":"unit","n":"B","x":-1}]}"##),
    rw::<EF9>(166, r##"{"k":"enum","name":"EF9","tag":"<none>","vs":[{"d":-1,"fs":[{"m":"plain","n":"p","px":false,"t":{"k":"unit"}},{"m":"plain","n":"q","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"A","x":-1},{"d":-1,"fs":[],"k":"unit","n":"B","x":-1}]}"##),
    rw::<EF10>(167, r##"{"k":"enum","name":"EF10","tag":"<none>","vs":[{"d":-1,"fs":[{"m":"plain","n":"p","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}},{"m":"plain","n":"q","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"A","x":-1},{"d":-1,"fs":[],"k":"unit","n":"B","x":-1}]}"##),
    rw::<EF11>(168, r##"{"k":"enum","name":"EF11","tag":"<none>","vs":[{"d":-1,"fs":[{"m":"plain","n":"p","px":false,"t":{"k":"enum","name":"Color","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Red","x":-1},{"d":-1,"fs":[],"k":"unit","n":"green","x":-1},{"d":7,"fs":[],"k":"unit","n":"Blue","x":-1},{"d":-1,"fs":[],"k":"unit","n":"<u>","x":-1}]}},{"m":"plain","n":"q","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"A","x":-1},{"d":-1,"fs":[],"k":"unit","n":"B","x":-1}]}"##),
    rw::<EF12>(169, r##"{"k":"enum","name":"EF12","tag":"<none>","vs":[{"d":-1,"fs":[{"m":"plain","n":"p","px":false,"t":{"k":"enum","name":"Shape","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Empty","x":-1},{"d":-1,"fs":[{"m":"plain","n":"r","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"Circle","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"At","x":-1},{"d":-1,"fs":[{"m":"plain","n":"b","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"a","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"Two","x":-1}]}},{"m":"plain","n":"q","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"A","x":-1},{"d":-1,"fs":[],"k":"unit","n":"B","x":-1}]}"##),
    rw::<EI9>(170, r##"{"k":"enum","name":"EI9","tag":"tag","vs":[{"d":-1,"fs":[],"k":"unit","n":"B","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"unit"}}],"k":"inner","n":"A","x":-1}]}"##),
    rw::<EI10>(171, r##"{"k":"enum","name":"EI10","tag":"tag","vs":[{"d":-1,"fs":[],"k":"unit","n":"B","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"A","x":-1}]}"##),
    rw::<EI12>(172, r##"{"k":"enum","name":"EI12","tag":"tag","vs":[{"d":-1,"fs":[],"k":"unit","n":"B","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"Shape","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Empty","x":-1},{"d":-1,"fs":[{"m":"plain","n":"r","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"Circle","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"At","x":-1},{"d":-1,"fs":[{"m":"plain","n":"b","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"a","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"Two","x":-1}]}}],"k":"inner","n":"A","x":-1}]}"##),
    rw::<Gen<Leaf>>(173, r##"{"fs":[{"m":"plain","n":"g","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"h","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Gen"}"##),
    rw::<Gen<u8>>(174, r##"{"fs":[{"m":"plain","n":"g","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"h","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Gen"}"##),
    rw::<Gen<String>>(175, r##"{"fs":[{"m":"plain","n":"g","px":false,"t":{"k":"prim","p":"str"}},{"m":"plain","n":"h","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Gen"}"##),
    rw::<Gen<Option<u8>>>(176, r##"{"fs":[{"m":"plain","n":"g","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}},{"m":"plain","n":"h","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Gen"}"##),
    rw::<Gen<Option<Option<Leaf>>>>(177, r##"{"fs":[{"m":"plain","n":"g","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}},{"m":"plain","n":"h","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Gen"}"##),
    rw::<Gen<Vec<Leaf>>>(178, r##"{"fs":[{"m":"plain","n":"g","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"h","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Gen"}"##),
    rw::<Gen<(Leaf, String)>>(179, r##"{"fs":[{"m":"plain","n":"g","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"str"}]}},{"m":"plain","n":"h","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Gen"}"##),
    rw::<Gen<[Leaf; 2]>>(180, r##"{"fs":[{"m":"plain","n":"g","px":false,"t":{"k":"arr","n":2,"t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"h","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Gen"}"##),
    rw::<Gen<()>>(181, r##"{"fs":[{"m":"plain","n":"g","px":false,"t":{"k":"unit"}},{"m":"plain","n":"h","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Gen"}"##),
    rw::<Gen<Point>>(182, r##"{"fs":[{"m":"plain","n":"g","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}},{"m":"plain","n":"h","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Gen"}"##),
    rw::<Gen<Color>>(183, r##"{"fs":[{"m":"plain","n":"g","px":false,"t":{"k":"enum","name":"Color","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Red","x":-1},{"d":-1,"fs":[],"k":"unit","n":"green","x":-1},{"d":7,"fs":[],"k":"unit","n":"Blue","x":-1},{"d":-1,"fs":[],"k":"unit","n":"<u>","x":-1}]}},{"m":"plain","n":"h","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Gen"}"##),
    rw::<Gen<Shape>>(184, r##"{"fs":[{"m":"plain","n":"g","px":false,"t":{"k":"enum","name":"Shape","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Empty","x":-1},{"d":-1,"fs":[{"m":"plain","n":"r","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"Circle","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"At","x":-1},{"d":-1,"fs":[{"m":"plain","n":"b","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"a","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"Two","x":-1}]}},{"m":"plain","n":"h","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Gen"}"##),
    rw::<Point>(185, r##"{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}"##),
    rw::<Color>(186, r##"{"k":"enum","name":"Color","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Red","x":-1},{"d":-1,"fs":[],"k":"unit","n":"green","x":-1},{"d":7,"fs":[],"k":"unit","n":"Blue","x":-1},{"d":-1,"fs":[],"k":"unit","n":"<u>","x":-1}]}"##),
    rw::<Shape>(187, r##"{"k":"enum","name":"Shape","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Empty","x":-1},{"d":-1,"fs":[{"m":"plain","n":"r","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"Circle","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"At","x":-1},{"d":-1,"fs":[{"m":"plain","n":"b","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"a","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"Two","x":-1}]}"##),
    rw::<AllPrims>(188, r##"{"fs":[{"m":"plain","n":"f_bool","px":false,"t":{"k":"prim","p":"bool"}},{"m":"plain","n":"f_i8","px":false,"t":{"k":"prim","p":"i8"}},{"m":"plain","n":"f_i16","px":false,"t":{"k":"prim","p":"i16"}},{"m":"plain","n":"f_i32","px":false,"t":{"k":"prim","p":"i32"}},{"m":"plain","n":"f_i64","px":false,"t":{"k":"prim","p":"i64"}},{"m":"plain","n":"f_u8","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"f_u16","px":false,"t":{"k":"prim","p":"u16"}},{"m":"plain","n":"f_u32","px":false,"t":{"k":"prim","p":"u32"}},{"m":"plain","n":"f_u64","px":false,"t":{"k":"prim","p":"u64"}},{"m":"plain","n":"f_f32","px":false,"t":{"k":"prim","p":"f32"}},{"m":"plain","n":"f_f64","px":false,"t":{"k":"prim","p":"f64"}},{"m":"plain","n":"f_char","px":false,"t":{"k":"prim","p":"char"}},{"m":"plain","n":"f_str","px":false,"t":{"k":"prim","p":"str"}},{"m":"plain","n":"f_leaf","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"f_even","px":false,"t":{"k":"prim","p":"even"}},{"m":"plain","n":"f_nz_i8","px":false,"t":{"k":"prim","p":"nz_i8"}},{"m":"plain","n":"f_nz_i16","px":false,"t":{"k":"prim","p":"nz_i16"}},{"m":"plain","n":"f_nz_i32","px":false,"t":{"k":"prim","p":"nz_i32"}},{"m":"plain","n":"f_nz_i64","px":false,"t":{"k":"prim","p":"nz_i64"}},{"m":"plain","n":"f_nz_u8","px":false,"t":{"k":"prim","p":"nz_u8"}},{"m":"plain","n":"f_nz_u16","px":false,"t":{"k":"prim","p":"nz_u16"}},{"m":"plain","n":"f_nz_u32","px":false,"t":{"k":"prim","p":"nz_u32"}},{"m":"plain","n":"f_nz_u64","px":false,"t":{"k":"prim","p":"nz_u64"}}],"k":"struct","name":"AllPrims"}"##),
    rw::<Names>(189, r##"{"fs":[{"m":"plain","n":"","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"a","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"ab","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"default","n":"abc","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"<q>","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"<u><w>","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"a b","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"type","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"self","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"<0>","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Names"}"##),
    rw::<Hygiene>(190, r##"{"fs":[{"m":"plain","n":"st","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"ctx","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"value","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"de","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"index","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"err","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"done_flag","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"inner","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Hygiene"}"##),
    rw::<Mid>(191, r##"{"fs":[{"m":"plain","n":"m1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}},{"m":"default","n":"m2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Mid"}"##),
    rw::<Chain>(192, r##"{"fs":[{"m":"plain","n":"c1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"m1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}},{"m":"default","n":"m2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Mid"}},{"m":"flatten","n":"","px":false,"t":{"k":"unit"}},{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"Shape3","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Dot","x":-1},{"d":-1,"fs":[{"m":"plain","n":"r","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"Circle","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"px","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"py","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Pos"}}],"k":"inner","n":"At","x":-1}]}},{"m":"plain","n":"c2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Chain"}"##),
    rw::<Ends>(193, r##"{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}},{"m":"plain","n":"e1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"n1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"Shape2","tag":"tag2","vs":[{"d":-1,"fs":[],"k":"unit","n":"Dot","x":-1},{"d":-1,"fs":[{"m":"plain","n":"len","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"Line","x":-1}]}}],"k":"struct","name":"Mid2"}}],"k":"struct","name":"Ends"}"##),
    rw::<Many>(194, r##"{"fs":[{"m":"plain","n":"f1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"f2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"f3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"f4","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"f5","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"f6","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"f7","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"f8","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"f9","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"f10","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"f11","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"f12","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"f13","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"f14","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"default","n":"f15","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"f16","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"f17","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"f18","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"f19","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"f20","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"f21","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"f22","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"f23","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"f24","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Many"}"##),
    rw::<Defaults>(195, r##"{"fs":[{"m":"default","n":"a","px":false,"t":{"k":"prim","p":"u8"}},{"m":"default","n":"b","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"default","n":"c","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}},{"m":"default","n":"d","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}},{"m":"default","n":"e","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}},{"m":"default","n":"f","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"bool"}]}},{"m":"default","n":"g","px":false,"t":{"k":"prim","p":"str"}},{"m":"default","n":"h","px":false,"t":{"k":"prim","p":"f64"}},{"m":"default","n":"i","px":false,"t":{"k":"arr","n":2,"t":{"k":"prim","p":"u8"}}},{"m":"default","n":"j","px":false,"t":{"k":"unit"}}],"k":"struct","name":"Defaults"}"##),
    r::<Prox>(196, r##"{"fs":[{"m":"plain","n":"a","px":true,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"b","px":true,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}},{"m":"flatten","n":"","px":true,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}},{"m":"plain","n":"c","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"d","px":true,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"Prox"}"##),
    rw::<Big>(197, r##"{"k":"enum","name":"Big","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v0","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v2","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v4","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v5","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v6","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v7","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v8","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v9","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v10","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v11","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v12","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v13","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v14","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v15","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v16","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v17","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v18","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v19","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v20","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v21","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v22","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v23","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v24","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v25","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v26","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v27","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v28","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v29","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v30","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v31","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v32","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v33","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v34","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v35","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v36","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v37","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v38","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v39","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v40","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v41","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v42","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v43","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v44","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v45","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v46","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v47","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v48","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v49","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v50","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v51","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v52","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v53","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v54","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v55","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v56","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v57","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v58","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v59","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v60","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v61","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v62","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v63","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v64","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v65","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v66","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v67","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v68","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v69","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v70","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v71","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v72","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v73","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v74","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v75","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v76","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v77","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v78","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v79","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v80","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v81","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v82","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v83","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v84","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v85","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v86","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v87","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v88","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v89","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v90","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v91","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v92","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v93","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v94","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v95","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v96","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v97","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v98","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v99","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v100","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v101","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v102","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v103","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v104","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v105","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v106","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v107","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v108","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v109","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v110","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v111","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v112","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v113","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v114","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v115","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v116","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v117","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v118","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v119","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v120","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v121","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v122","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v123","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v124","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v125","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v126","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v127","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v128","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v129","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v130","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v131","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v132","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v133","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v134","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v135","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v136","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v137","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v138","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v139","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v140","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v141","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v142","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v143","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v144","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v145","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v146","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v147","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v148","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v149","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v150","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v151","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v152","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v153","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v154","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v155","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v156","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v157","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v158","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v159","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v160","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v161","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v162","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v163","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v164","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v165","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v166","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v167","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v168","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v169","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v170","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v171","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v172","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v173","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v174","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v175","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v176","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v177","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v178","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v179","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v180","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v181","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v182","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v183","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v184","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v185","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v186","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v187","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v188","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v189","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v190","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v191","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v192","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v193","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v194","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v195","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v196","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v197","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v198","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v199","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v200","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v201","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v202","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v203","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v204","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v205","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v206","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v207","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v208","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v209","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v210","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v211","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v212","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v213","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v214","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v215","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v216","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v217","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v218","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v219","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v220","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v221","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v222","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v223","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v224","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v225","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v226","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v227","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v228","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v229","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v230","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v231","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v232","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v233","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v234","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v235","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v236","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v237","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v238","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v239","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v240","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v241","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v242","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v243","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v244","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v245","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v246","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v247","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v248","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v249","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v250","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v251","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v252","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v253","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v254","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v255","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v256","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v257","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v258","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v259","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v260","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v261","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v262","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v263","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v264","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v265","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v266","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v267","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v268","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v269","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v270","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v271","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v272","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v273","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v274","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v275","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v276","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v277","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v278","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v279","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v280","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v281","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v282","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v283","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v284","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v285","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v286","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v287","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v288","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v289","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v290","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v291","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v292","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v293","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v294","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v295","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v296","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v297","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v298","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v299","x":-1}]}"##),
    rw::<Prefixed>(198, r##"{"k":"enum","name":"Prefixed","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"ab","x":-1},{"d":-1,"fs":[],"k":"unit","n":"abc","x":-1},{"d":-1,"fs":[],"k":"unit","n":"a","x":-1},{"d":-1,"fs":[],"k":"unit","n":"b","x":-1},{"d":-1,"fs":[],"k":"unit","n":"","x":-1},{"d":-1,"fs":[],"k":"unit","n":"<u>","x":-1},{"d":-1,"fs":[],"k":"unit","n":"<u><u>","x":-1},{"d":-1,"fs":[],"k":"unit","n":"<q>","x":-1},{"d":-1,"fs":[],"k":"unit","n":"A","x":-1},{"d":-1,"fs":[],"k":"unit","n":"0","x":-1},{"d":-1,"fs":[],"k":"unit","n":"1","x":-1}]}"##),
    rw::<Reindexed>(199, r##"{"k":"enum","name":"Reindexed","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"A","x":5},{"d":-1,"fs":[],"k":"unit","n":"B","x":-1},{"d":-1,"fs":[],"k":"unit","n":"C","x":0},{"d":-1,"fs":[],"k":"unit","n":"D","x":2000000000},{"d":-1,"fs":[],"k":"unit","n":"E","x":-1}]}"##),
    rw::<Discrim>(200, r##"{"k":"enum","name":"Discrim","tag":"<none>","vs":[{"d":3,"fs":[],"k":"unit","n":"A","x":-1},{"d":-1,"fs":[],"k":"unit","n":"B","x":-1},{"d":1,"fs":[],"k":"unit","n":"C","x":-1},{"d":-1,"fs":[],"k":"unit","n":"D","x":-1},{"d":300,"fs":[],"k":"unit","n":"E","x":7},{"d":-1,"fs":[],"k":"unit","n":"F","x":-1},{"d":-1,"fs":[],"k":"unit","n":"G","x":255}]}"##),
    ]);
}

fn part5(v: &mut Vec<Entry>) {
    v.extend([
    rw::<Single>(201, r##"{"k":"enum","name":"Single","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Only","x":-1}]}"##),
    rw::<Kind>(202, r##"{"k":"enum","name":"Kind","tag":"kind","vs":[{"d":-1,"fs":[],"k":"unit","n":"A","x":-1},{"d":-1,"fs":[],"k":"unit","n":"B","x":-1},{"d":256,"fs":[],"k":"unit","n":"C","x":-1}]}"##),
    rw::<TypeTag>(203, r##"{"k":"enum","name":"TypeTag","tag":"type","vs":[{"d":-1,"fs":[],"k":"unit","n":"type","x":-1},{"d":-1,"fs":[{"m":"plain","n":"kind","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"kind","x":-1}]}"##),
    rw::<Overlap>(204, r##"{"k":"enum","name":"Overlap","tag":"<none>","vs":[{"d":-1,"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"A","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"str"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"B","x":-1},{"d":-1,"fs":[{"m":"plain","n":"y","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"C","x":-1},{"d":-1,"fs":[],"k":"fields","n":"D","x":-1},{"d":-1,"fs":[{"m":"default","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"z","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"E","x":-1},{"d":-1,"fs":[],"k":"unit","n":"F","x":-1}]}"##),
    rw::<E_a_trans>(205, r##"{"k":"enum","name":"a trans","tag":"t","vs":[{"d":4,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"P","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"m1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}},{"m":"default","n":"m2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Mid"}}],"k":"inner","n":"M","x":20},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"Kind","tag":"kind","vs":[{"d":-1,"fs":[],"k":"unit","n":"A","x":-1},{"d":-1,"fs":[],"k":"unit","n":"B","x":-1},{"d":256,"fs":[],"k":"unit","n":"C","x":-1}]}}],"k":"inner","n":"K","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"unit"}}],"k":"inner","n":"U","x":-1},{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}},{"m":"plain","n":"w","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"Fl","x":-1},{"d":-1,"fs":[],"k":"unit","n":"N","x":-1}]}"##),
    rw::<Mixed>(206, r##"{"k":"enum","name":"Mixed","tag":"<none>","vs":[{"d":-1,"fs":[{"m":"plain","n":"st","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"ctx","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"st","x":2},{"d":10,"fs":[{"m":"plain","n":"index","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"B","x":-1},{"d":-1,"fs":[],"k":"unit","n":"C","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"Shape2","tag":"tag2","vs":[{"d":-1,"fs":[],"k":"unit","n":"Dot","x":-1},{"d":-1,"fs":[{"m":"plain","n":"len","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"Line","x":-1}]}}],"k":"inner","n":"Sh","x":-1}]}"##),
    rw::<Empty>(207, r##"{"fs":[],"k":"struct","name":"Empty"}"##),
    rw::<[Leaf; 0]>(208, r##"{"k":"arr","n":0,"t":{"k":"prim","p":"leaf"}}"##),
    rw::<[Point; 3]>(209, r##"{"k":"arr","n":3,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}"##),
    rw::<Option<Option<Option<Leaf>>>>(210, r##"{"k":"opt","t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}}"##),
    rw::<Option<Option<Option<Option<bool>>>>>(211, r##"{"k":"opt","t":{"k":"opt","t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"bool"}}}}}"##),
    rw::<Option<Vec<Option<Leaf>>>>(212, r##"{"k":"opt","t":{"k":"vec","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}}"##),
    rw::<Vec<Option<Option<Point>>>>(213, r##"{"k":"vec","t":{"k":"opt","t":{"k":"opt","t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}}}"##),
    rw::<Option<(Option<Leaf>, Option<()>)>>(214, r##"{"k":"opt","t":{"k":"tup","ts":[{"k":"opt","t":{"k":"prim","p":"leaf"}},{"k":"opt","t":{"k":"unit"}}]}}"##),
    rw::<Vec<Vec<Vec<Leaf>>>>(215, r##"{"k":"vec","t":{"k":"vec","t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}}"##),
    rw::<[[Leaf; 2]; 2]>(216, r##"{"k":"arr","n":2,"t":{"k":"arr","n":2,"t":{"k":"prim","p":"leaf"}}}"##),
    rw::<Option<()>>(217, r##"{"k":"opt","t":{"k":"unit"}}"##),
    rw::<Option<Option<()>>>(218, r##"{"k":"opt","t":{"k":"opt","t":{"k":"unit"}}}"##),
    rw::<Gen<Gen<Option<Leaf>>>>(219, r##"{"fs":[{"m":"plain","n":"g","px":false,"t":{"fs":[{"m":"plain","n":"g","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"h","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Gen"}},{"m":"plain","n":"h","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Gen"}"##),
    rw::<Option<Gen<Option<Option<String>>>>>(220, r##"{"k":"opt","t":{"fs":[{"m":"plain","n":"g","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"str"}}}},{"m":"plain","n":"h","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Gen"}}"##),
    rw::<Vec<Overlap>>(221, r##"{"k":"vec","t":{"k":"enum","name":"Overlap","tag":"<none>","vs":[{"d":-1,"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"A","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"str"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"B","x":-1},{"d":-1,"fs":[{"m":"plain","n":"y","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"C","x":-1},{"d":-1,"fs":[],"k":"fields","n":"D","x":-1},{"d":-1,"fs":[{"m":"default","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"z","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"E","x":-1},{"d":-1,"fs":[],"k":"unit","n":"F","x":-1}]}}"##),
    rw::<Option<Chain>>(222, r##"{"k":"opt","t":{"fs":[{"m":"plain","n":"c1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"m1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}},{"m":"default","n":"m2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Mid"}},{"m":"flatten","n":"","px":false,"t":{"k":"unit"}},{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"Shape3","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Dot","x":-1},{"d":-1,"fs":[{"m":"plain","n":"r","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"Circle","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"px","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"py","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Pos"}}],"k":"inner","n":"At","x":-1}]}},{"m":"plain","n":"c2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Chain"}}"##),
    rw::<Option<E_a_trans>>(223, r##"{"k":"opt","t":{"k":"enum","name":"a trans","tag":"t","vs":[{"d":4,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"P","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"m1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}},{"m":"default","n":"m2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Mid"}}],"k":"inner","n":"M","x":20},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"Kind","tag":"kind","vs":[{"d":-1,"fs":[],"k":"unit","n":"A","x":-1},{"d":-1,"fs":[],"k":"unit","n":"B","x":-1},{"d":256,"fs":[],"k":"unit","n":"C","x":-1}]}}],"k":"inner","n":"K","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"unit"}}],"k":"inner","n":"U","x":-1},{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}},{"m":"plain","n":"w","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"Fl","x":-1},{"d":-1,"fs":[],"k":"unit","n":"N","x":-1}]}}"##),
    rw::<Vec<Kind>>(224, r##"{"k":"vec","t":{"k":"enum","name":"Kind","tag":"kind","vs":[{"d":-1,"fs":[],"k":"unit","n":"A","x":-1},{"d":-1,"fs":[],"k":"unit","n":"B","x":-1},{"d":256,"fs":[],"k":"unit","n":"C","x":-1}]}}"##),
    rw::<Opts>(225, r##"{"fs":[{"m":"plain","n":"a","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"b","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}},{"m":"plain","n":"c","px":false,"t":{"k":"opt","t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}},{"m":"plain","n":"d","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}},{"m":"default","n":"e","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}},{"m":"plain","n":"f","px":false,"t":{"k":"opt","t":{"k":"enum","name":"Kind","tag":"kind","vs":[{"d":-1,"fs":[],"k":"unit","n":"A","x":-1},{"d":-1,"fs":[],"k":"unit","n":"B","x":-1},{"d":256,"fs":[],"k":"unit","n":"C","x":-1}]}}}],"k":"struct","name":"Opts"}"##),
    rw::<Valid>(226, r##"{"fs":[{"m":"plain","n":"a","px":false,"t":{"k":"prim","p":"even"}},{"m":"default","n":"b","px":false,"t":{"k":"prim","p":"even"}},{"m":"plain","n":"c","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_u8"}}},{"m":"plain","n":"d","px":false,"t":{"k":"vec","t":{"k":"prim","p":"even"}}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"e","px":false,"t":{"k":"prim","p":"nz_i64"}}],"k":"struct","name":"Valid2"}}],"k":"struct","name":"Valid"}"##),
    rw::<Spaces>(227, r##"{"fs":[{"m":"plain","n":" a","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"a ","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"a","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"<n>a","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":" ","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"  ","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"A","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"a-b","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"a_b","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"<u>","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"r#type","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Spaces"}"##),
    rw::<E__padded_>(228, r##"{"k":"enum","name":" padded ","tag":" ","vs":[{"d":-1,"fs":[],"k":"unit","n":" A","x":-1},{"d":-1,"fs":[],"k":"unit","n":"A ","x":-1},{"d":-1,"fs":[{"m":"plain","n":"a ","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":" a","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"A","x":-1},{"d":-1,"fs":[],"k":"unit","n":" ","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"","x":-1},{"d":-1,"fs":[],"k":"unit","n":"a-b","x":-1},{"d":-1,"fs":[],"k":"unit","n":"a_b","x":-1}]}"##),
    rw::<E_Space_names>(229, r##"{"k":"enum","name":"Space names","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":" A","x":-1},{"d":-1,"fs":[],"k":"unit","n":"A ","x":-1},{"d":-1,"fs":[],"k":"unit","n":"A","x":-1},{"d":-1,"fs":[],"k":"unit","n":" ","x":-1},{"d":-1,"fs":[],"k":"unit","n":"","x":-1},{"d":-1,"fs":[],"k":"unit","n":"a","x":-1},{"d":-1,"fs":[],"k":"unit","n":"<n>","x":-1},{"d":-1,"fs":[],"k":"unit","n":"A-b","x":-1},{"d":-1,"fs":[],"k":"unit","n":"A_b","x":-1},{"d":-1,"fs":[],"k":"unit","n":"AB","x":-1},{"d":-1,"fs":[],"k":"unit","n":"aB","x":-1}]}"##),
    rw::<EmptyTag>(230, r##"{"k":"enum","name":"EmptyTag","tag":"","vs":[{"d":-1,"fs":[],"k":"unit","n":"A","x":-1},{"d":-1,"fs":[{"m":"plain","n":"type","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"b","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"B","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"C","x":-1}]}"##),
    rw::<EmptyTag2>(231, r##"{"k":"enum","name":"EmptyTag2","tag":"","vs":[{"d":-1,"fs":[],"k":"unit","n":"A","x":-1},{"d":-1,"fs":[],"k":"unit","n":"B","x":-1}]}"##),
    rw::<Option<EmptyTag>>(232, r##"{"k":"opt","t":{"k":"enum","name":"EmptyTag","tag":"","vs":[{"d":-1,"fs":[],"k":"unit","n":"A","x":-1},{"d":-1,"fs":[{"m":"plain","n":"type","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"b","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"B","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"C","x":-1}]}}"##),
    rw::<Option<[Option<Leaf>; 2]>>(233, r##"{"k":"opt","t":{"k":"arr","n":2,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}}"##),
    rw::<Option<[Option<Option<u8>>; 1]>>(234, r##"{"k":"opt","t":{"k":"arr","n":1,"t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"u8"}}}}}"##),
    rw::<Option<[Option<Leaf>; 0]>>(235, r##"{"k":"opt","t":{"k":"arr","n":0,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}}"##),
    rw::<[Option<Option<Leaf>>; 2]>(236, r##"{"k":"arr","n":2,"t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}}"##),
    rw::<Option<Option<[Option<Leaf>; 1]>>>(237, r##"{"k":"opt","t":{"k":"opt","t":{"k":"arr","n":1,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}}}"##),
    rw::<Nest1>(238, r##"{"fs":[{"m":"plain","n":"a","px":false,"t":{"k":"opt","t":{"k":"arr","n":2,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}}},{"m":"plain","n":"b","px":false,"t":{"k":"opt","t":{"k":"tup","ts":[{"k":"opt","t":{"k":"prim","p":"leaf"}},{"k":"opt","t":{"k":"prim","p":"u8"}}]}}},{"m":"plain","n":"c","px":false,"t":{"k":"opt","t":{"k":"vec","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}}},{"m":"plain","n":"d","px":false,"t":{"k":"opt","t":{"k":"tup","ts":[{"k":"opt","t":{"k":"prim","p":"leaf"}},{"k":"unit"},{"k":"opt","t":{"k":"prim","p":"u8"}}]}}}],"k":"struct","name":"Nest1"}"##),
    rw::<Nest2>(239, r##"{"fs":[{"m":"plain","n":"a","px":false,"t":{"k":"opt","t":{"k":"arr","n":2,"t":{"k":"unit"}}}},{"m":"plain","n":"b","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"g","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"h","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Gen"}}},{"m":"plain","n":"c","px":false,"t":{"k":"opt","t":{"k":"enum","name":"GenE","tag":"gtag","vs":[{"d":-1,"fs":[],"k":"unit","n":"N","x":-1},{"d":-1,"fs":[{"m":"plain","n":"g","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}},{"m":"plain","n":"o","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}}],"k":"fields","n":"F","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"I","x":-1}]}}},{"m":"plain","n":"d","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"xs","px":false,"t":{"k":"arr","n":1,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}},{"m":"default","n":"ys","px":false,"t":{"k":"vec","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}},{"m":"plain","n":"z","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"GenA"}}},{"m":"default","n":"e","px":false,"t":{"k":"arr","n":2,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}}],"k":"struct","name":"Nest2"}"##),
    rw::<Nest3>(240, r##"{"fs":[{"m":"plain","n":"a","px":false,"t":{"k":"opt","t":{"fs":[{"m":"default","n":"a","px":false,"t":{"k":"prim","p":"u8"}},{"m":"default","n":"b","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"default","n":"c","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}},{"m":"default","n":"d","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}},{"m":"default","n":"e","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}},{"m":"default","n":"f","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"bool"}]}},{"m":"default","n":"g","px":false,"t":{"k":"prim","p":"str"}},{"m":"default","n":"h","px":false,"t":{"k":"prim","p":"f64"}},{"m":"default","n":"i","px":false,"t":{"k":"arr","n":2,"t":{"k":"prim","p":"u8"}}},{"m":"default","n":"j","px":false,"t":{"k":"unit"}}],"k":"struct","name":"Defaults"}}},{"m":"plain","n":"b","px":false,"t":{"k":"opt","t":{"fs":[],"k":"struct","name":"Empty"}}},{"m":"plain","n":"c","px":false,"t":{"k":"opt","t":{"k":"arr","n":0,"t":{"fs":[],"k":"struct","name":"Empty"}}}},{"m":"plain","n":"d","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"k":"arr","n":1,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}}}}],"k":"struct","name":"Nest3"}"##),
    ]);
}

fn part6(v: &mut Vec<Entry>) {
    v.extend([
    rw::<Option<std::num::NonZeroU16>>(241, r##"{"k":"opt","t":{"k":"prim","p":"nz_u16"}}"##),
    rw::<Option<Even>>(242, r##"{"k":"opt","t":{"k":"prim","p":"even"}}"##),
    rw::<Vec<std::num::NonZeroI8>>(243, r##"{"k":"vec","t":{"k":"prim","p":"nz_i8"}}"##),
    rw::<GenA<Option<Leaf>, 2>>(244, r##"{"fs":[{"m":"plain","n":"xs","px":false,"t":{"k":"arr","n":2,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}},{"m":"default","n":"ys","px":false,"t":{"k":"vec","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}},{"m":"plain","n":"z","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"GenA"}"##),
    rw::<GenA<GenE<Point>, 1>>(245, r##"{"fs":[{"m":"plain","n":"xs","px":false,"t":{"k":"arr","n":1,"t":{"k":"enum","name":"GenE","tag":"gtag","vs":[{"d":-1,"fs":[],"k":"unit","n":"N","x":-1},{"d":-1,"fs":[{"m":"plain","n":"g","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}},{"m":"plain","n":"o","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}}],"k":"fields","n":"F","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"I","x":-1}]}}},{"m":"default","n":"ys","px":false,"t":{"k":"vec","t":{"k":"enum","name":"GenE","tag":"gtag","vs":[{"d":-1,"fs":[],"k":"unit","n":"N","x":-1},{"d":-1,"fs":[{"m":"plain","n":"g","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}},{"m":"plain","n":"o","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}}],"k":"fields","n":"F","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"I","x":-1}]}}},{"m":"plain","n":"z","px":false,"t":{"k":"enum","name":"GenE","tag":"gtag","vs":[{"d":-1,"fs":[],"k":"unit","n":"N","x":-1},{"d":-1,"fs":[{"m":"plain","n":"g","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}},{"m":"plain","n":"o","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}}],"k":"fields","n":"F","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"I","x":-1}]}}],"k":"struct","name":"GenA"}"##),
    rw::<GenE<()>>(246, r##"{"k":"enum","name":"GenE","tag":"gtag","vs":[{"d":-1,"fs":[],"k":"unit","n":"N","x":-1},{"d":-1,"fs":[{"m":"plain","n":"g","px":false,"t":{"k":"unit"}},{"m":"plain","n":"o","px":false,"t":{"k":"opt","t":{"k":"unit"}}}],"k":"fields","n":"F","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"unit"}}],"k":"inner","n":"I","x":-1}]}"##),
    rw::<GenE<Mid>>(247, r##"{"k":"enum","name":"GenE","tag":"gtag","vs":[{"d":-1,"fs":[],"k":"unit","n":"N","x":-1},{"d":-1,"fs":[{"m":"plain","n":"g","px":false,"t":{"fs":[{"m":"plain","n":"m1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}},{"m":"default","n":"m2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Mid"}},{"m":"plain","n":"o","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"m1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}},{"m":"default","n":"m2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Mid"}}}],"k":"fields","n":"F","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"m1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}},{"m":"default","n":"m2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Mid"}}],"k":"inner","n":"I","x":-1}]}"##),
    rw::<Option<GenE<Shape>>>(248, r##"{"k":"opt","t":{"k":"enum","name":"GenE","tag":"gtag","vs":[{"d":-1,"fs":[],"k":"unit","n":"N","x":-1},{"d":-1,"fs":[{"m":"plain","n":"g","px":false,"t":{"k":"enum","name":"Shape","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Empty","x":-1},{"d":-1,"fs":[{"m":"plain","n":"r","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"Circle","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"At","x":-1},{"d":-1,"fs":[{"m":"plain","n":"b","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"a","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"Two","x":-1}]}},{"m":"plain","n":"o","px":false,"t":{"k":"opt","t":{"k":"enum","name":"Shape","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Empty","x":-1},{"d":-1,"fs":[{"m":"plain","n":"r","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"Circle","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"At","x":-1},{"d":-1,"fs":[{"m":"plain","n":"b","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"a","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"Two","x":-1}]}}}],"k":"fields","n":"F","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"Shape","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"Empty","x":-1},{"d":-1,"fs":[{"m":"plain","n":"r","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"Circle","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"x","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"y","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"Point"}}],"k":"inner","n":"At","x":-1},{"d":-1,"fs":[{"m":"plain","n":"b","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"a","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"Two","x":-1}]}}],"k":"inner","n":"I","x":-1}]}}"##),
    rw::<[Leaf; 33]>(249, r##"{"k":"arr","n":33,"t":{"k":"prim","p":"leaf"}}"##),
    rw::<[u8; 70]>(250, r##"{"k":"arr","n":70,"t":{"k":"prim","p":"u8"}}"##),
    rw::<[bool; 257]>(251, r##"{"k":"arr","n":257,"t":{"k":"prim","p":"bool"}}"##),
    rw::<Option<[Leaf; 17]>>(252, r##"{"k":"opt","t":{"k":"arr","n":17,"t":{"k":"prim","p":"leaf"}}}"##),
    rw::<([u8; 40], Vec<Leaf>)>(253, r##"{"k":"tup","ts":[{"k":"arr","n":40,"t":{"k":"prim","p":"u8"}},{"k":"vec","t":{"k":"prim","p":"leaf"}}]}"##),
    rw::<Wide>(254, r##"{"fs":[{"m":"plain","n":"w1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w4","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w5","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w6","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w7","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w8","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"w9","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w10","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w11","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"w12","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w13","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w14","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w15","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w16","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w17","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"w18","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w19","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w20","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w21","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w22","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"w23","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w24","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w25","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w26","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"w27","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w28","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w29","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w30","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w31","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w32","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w33","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"w34","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w35","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"w36","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w37","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w38","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w39","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w40","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w41","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w42","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w43","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w44","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"default","n":"w45","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w46","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w47","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w48","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w49","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w50","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w51","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w52","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w53","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"w54","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w55","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"w56","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w57","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w58","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w59","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w60","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w61","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w62","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"w63","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w64","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w65","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w66","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"w67","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w68","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w69","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w70","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Wide"}"##),
    rw::<WideE>(255, r##"{"k":"enum","name":"WideE","tag":"<none>","vs":[{"d":-1,"fs":[{"m":"plain","n":"w1","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w2","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w3","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w4","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w5","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w6","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w7","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w8","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w9","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w10","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w11","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w12","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w13","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w14","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w15","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w16","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w17","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w18","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w19","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w20","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w21","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w22","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w23","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w24","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w25","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w26","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w27","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w28","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w29","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w30","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w31","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w32","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w33","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w34","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w35","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w36","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w37","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w38","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w39","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w40","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w41","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w42","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w43","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w44","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w45","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w46","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w47","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w48","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w49","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w50","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w51","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w52","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w53","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w54","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w55","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w56","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w57","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w58","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w59","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w60","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w61","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w62","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w63","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w64","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w65","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"w66","px":false,"t":{"k":"prim","p":"u8"}}],"k":"fields","n":"A","x":-1},{"d":-1,"fs":[],"k":"unit","n":"B","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"w1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w4","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w5","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w6","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w7","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w8","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"w9","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w10","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w11","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"w12","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w13","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w14","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w15","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w16","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w17","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"w18","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w19","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w20","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w21","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w22","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"w23","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w24","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w25","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w26","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"w27","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w28","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w29","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w30","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w31","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w32","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w33","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"w34","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w35","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"w36","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w37","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w38","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w39","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w40","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w41","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w42","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w43","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w44","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"default","n":"w45","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w46","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w47","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w48","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w49","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w50","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w51","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w52","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w53","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"w54","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w55","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"w56","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w57","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w58","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w59","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w60","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w61","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w62","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"w63","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w64","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w65","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w66","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"w67","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w68","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w69","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"w70","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"Wide"}}],"k":"inner","n":"C","x":-1}]}"##),
    rw::<R3_95720>(256, r##"{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k2_66756_1","px":false,"t":{"k":"enum","name":"R1_80194","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_80194_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_80194_2","x":114}]}},{"m":"default","n":"k2_66756_2","px":false,"t":{"fs":[{"m":"default","n":"k1_88113_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_88113_2","px":false,"t":{"k":"prim","p":"even"}},{"m":"plain","n":"k1_88113_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_88113"}},{"m":"plain","n":"k2_66756_3","px":false,"t":{"k":"arr","n":2,"t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"R2_66756"}},{"m":"default","n":"k3_95720_2","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"k1_17208_1","px":false,"t":{"k":"prim","p":"nz_i16"}},{"m":"plain","n":"k1_17208_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_17208_3","px":false,"t":{"k":"prim","p":"nz_u32"}},{"m":"plain","n":"k1_17208_4","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_17208"}}},{"m":"plain","n":"k3_95720_3","px":false,"t":{"k":"vec","t":{"fs":[{"m":"plain","n":"k1_33412_1","px":false,"t":{"k":"prim","p":"nz_i64"}},{"m":"plain","n":"k1_33412_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_33412_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_33412_4","px":false,"t":{"k":"prim","p":"nz_i8"}}],"k":"struct","name":"R1_33412"}}}],"k":"struct","name":"R3_95720"}"##),
    rw::<R4_86711>(257, r##"{"k":"enum","name":"R4_86711","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v4_86711_1","x":-1}]}"##),
    rw::<R2_77702>(258, r##"{"k":"enum","name":"R2_77702","tag":"t2_77702","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"unit"}},{"m":"plain","n":"k2_77702_2","px":false,"t":{"k":"arr","n":1,"t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_77702","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"leaf"}]}}],"k":"fields","n":"X","x":50}]}"##),
    rw::<[Vec<R1_54018>; 2]>(259, r##"{"k":"arr","n":2,"t":{"k":"vec","t":{"fs":[{"m":"plain","n":"k1_54018_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_54018_2","px":false,"t":{"k":"prim","p":"nz_i16"}}],"k":"struct","name":"R1_54018"}}}"##),
    rw::<()>(260, r##"{"k":"unit"}"##),
    rw::<R2_50675>(261, r##"{"fs":[{"m":"plain","n":"k2_50675_1","px":false,"t":{"k":"enum","name":"R1_23298","tag":"t1_23298","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_23298_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_23298","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"default","n":"k2_50675_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_31217_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_31217_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_31217"}},{"m":"plain","n":"k2_50675_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"R2_50675"}"##),
    rw::<R3_41666>(262, r##"{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R2_74601","tag":"t2_74601","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_74601_1","px":false,"t":{"k":"enum","name":"R1_10347","tag":"t1_10347","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_10347_1","px":false,"t":{"k":"prim","p":"nz_u8"}},{"m":"plain","n":"k1_10347_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_10347","px":false,"t":{"k":"prim","p":"f64"}}],"k":"fields","n":"X","x":50}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_18266_1","px":false,"t":{"k":"prim","p":"f64"}},{"m":"plain","n":"k1_18266_2","px":false,"t":{"k":"prim","p":"i16"}},{"m":"default","n":"k1_18266_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_18266_4","px":false,"t":{"k":"prim","p":"f32"}}],"k":"struct","name":"R1_18266"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R1_31148","tag":"t1_31148","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_31148_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_31148_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_31148","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"inner","n":"W","x":-1}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_26551","tag":"t1_26551","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_26551_1","px":false,"t":{"k":"prim","p":"nz_u32"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_26551","px":false,"t":{"k":"prim","p":"char"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_82520_2","px":false,"t":{"k":"enum","name":"R1_34470","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_34470_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_34470_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_34470_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_34470_4","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_34470_5","x":135}]}},{"m":"default","n":"k2_82520_3","px":false,"t":{"k":"unit"}},{"m":"plain","n":"k2_82520_4","px":false,"t":{"k":"arr","n":1,"t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"R2_82520"}},{"m":"plain","n":"k3_41666_3","px":false,"t":{"k":"tup","ts":[{"k":"enum","name":"R1_63556","tag":"t1_63556","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_63556_1","px":false,"t":{"k":"prim","p":"u16"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_63556","px":false,"t":{"k":"prim","p":"nz_u16"}}],"k":"fields","n":"X","x":50}]},{"k":"opt","t":{"k":"prim","p":"u16"}}]}},{"m":"plain","n":"k3_41666_4","px":false,"t":{"k":"enum","name":"R2_98358","tag":"t2_98358","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_98358_1","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R1_79760","tag":"t1_79760","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_79760_1","px":false,"t":{"k":"prim","p":"u64"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_79760","px":false,"t":{"k":"prim","p":"bool"}}],"k":"fields","n":"X","x":50}]}}],"k":"inner","n":"W","x":-1}]}}],"k":"struct","name":"R3_41666"}"##),
    rw::<R4_32657>(263, r##"{"k":"enum","name":"R4_32657","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v4_32657_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v4_32657_2","x":114}]}"##),
    rw::<[Option<Leaf>; 1]>(264, r##"{"k":"arr","n":1,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}"##),
    rw::<((R1_84162, [Leaf; 3]), R2_65167)>(265, r##"{"k":"tup","ts":[{"k":"tup","ts":[{"fs":[{"m":"default","n":"k1_84162_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_84162_2","px":false,"t":{"k":"prim","p":"i64"}},{"m":"plain","n":"k1_84162_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_84162"},{"k":"arr","n":3,"t":{"k":"prim","p":"leaf"}}]},{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_95769","tag":"t1_95769","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_95769_1","px":false,"t":{"k":"prim","p":"f64"}},{"m":"plain","n":"k1_95769_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_95769","px":false,"t":{"k":"prim","p":"i8"}}],"k":"fields","n":"X","x":50}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_3697_1","px":false,"t":{"k":"prim","p":"i8"}}],"k":"struct","name":"R1_3697"}},{"m":"plain","n":"k2_65167_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_11616_1","px":false,"t":{"k":"prim","p":"nz_i32"}},{"m":"plain","n":"k1_11616_2","px":false,"t":{"k":"prim","p":"f32"}},{"m":"default","n":"k1_11616_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_11616_4","px":false,"t":{"k":"prim","p":"even"}}],"k":"struct","name":"R1_11616"}},{"m":"plain","n":"k2_65167_4","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"leaf"}]}}],"k":"struct","name":"R2_65167"}]}"##),
    rw::<()>(266, r##"{"k":"unit"}"##),
    rw::<R2_96612>(267, r##"{"fs":[{"m":"plain","n":"k2_96612_1","px":false,"t":{"k":"arr","n":2,"t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_96612_2","px":false,"t":{"k":"enum","name":"R1_39062","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_39062_1","x":-1}]}},{"m":"default","n":"k2_96612_3","px":false,"t":{"fs":[{"m":"default","n":"k1_46981_1","px":false,"t":{"k":"prim","p":"u16"}},{"m":"default","n":"k1_46981_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_46981_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_46981"}},{"m":"plain","n":"k2_96612_4","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"R2_96612"}"##),
    rw::<R3_87603>(268, r##"{"k":"enum","name":"R3_87603","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v3_87603_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v3_87603_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v3_87603_3","x":-1}]}"##),
    rw::<R4_78594>(269, r##"{"k":"enum","name":"R4_78594","tag":"t4_78594","vs":[{"d":-1,"fs":[{"m":"plain","n":"k4_78594_1","px":false,"t":{"k":"enum","name":"R3_33758","tag":"t3_33758","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_57577","tag":"t1_57577","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_57577_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_57577","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_65496_1","px":false,"t":{"k":"prim","p":"nz_u16"}}],"k":"struct","name":"R1_65496"}},{"m":"default","n":"k2_45515_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}},{"m":"plain","n":"k2_45515_4","px":false,"t":{"k":"enum","name":"R1_81334","tag":"t1_81334","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_81334_1","px":false,"t":{"k":"prim","p":"u16"}},{"m":"default","n":"k1_81334_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_81334_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_81334","px":false,"t":{"k":"prim","p":"nz_u8"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_45515"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k2_66316_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_66316_2","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_66316_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_11366_1","px":false,"t":{"k":"prim","p":"nz_i32"}},{"m":"default","n":"k1_11366_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_11366_3","px":false,"t":{"k":"prim","p":"i8"}}],"k":"struct","name":"R1_11366"}},{"m":"plain","n":"k2_66316_4","px":false,"t":{"k":"unit"}}],"k":"struct","name":"R2_66316"}}],"k":"inner","n":"W","x":-1}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x4_78594","px":false,"t":{"k":"enum","name":"R3_54559","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v3_54559_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v3_54559_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v3_54559_3","x":-1}]}}],"k":"fields","n":"X","x":50}]}"##),
    rw::<(R1_5871, Vec<String>)>(270, r##"{"k":"tup","ts":[{"fs":[{"m":"default","n":"k1_5871_1","px":false,"t":{"k":"prim","p":"str"}},{"m":"plain","n":"k1_5871_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_5871"},{"k":"vec","t":{"k":"prim","p":"str"}}]}"##),
    rw::<Option<R2_57174>>(271, r##"{"k":"opt","t":{"fs":[{"m":"plain","n":"k2_57174_1","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_1433_1","px":false,"t":{"k":"prim","p":"f32"}},{"m":"default","n":"k1_1433_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_1433_3","px":false,"t":{"k":"prim","p":"nz_i16"}}],"k":"struct","name":"R1_1433"}},{"m":"default","n":"k2_57174_3","px":false,"t":{"k":"unit"}},{"m":"default","n":"k2_57174_4","px":false,"t":{"k":"opt","t":{"k":"prim","p":"f32"}}}],"k":"struct","name":"R2_57174"}}"##),
    rw::<R4_51567>(272, r##"{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"unit"}},{"m":"default","n":"k4_51567_2","px":false,"t":{"k":"opt","t":{"k":"tup","ts":[{"k":"opt","t":{"k":"prim","p":"leaf"}},{"k":"enum","name":"R1_29104","tag":"t1_29104","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_29104_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_29104","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}]}}},{"m":"plain","n":"k4_51567_3","px":false,"t":{"k":"enum","name":"R3_3523","tag":"t3_3523","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"unit"}},{"m":"default","n":"k3_3523_2","px":false,"t":{"k":"vec","t":{"k":"enum","name":"R1_22551","tag":"t1_22551","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_22551_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_22551","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x3_3523","px":false,"t":{"k":"tup","ts":[{"k":"arr","n":3,"t":{"k":"prim","p":"i16"}},{"fs":[{"m":"default","n":"k1_60127_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_60127_2","px":false,"t":{"k":"prim","p":"f32"}},{"m":"plain","n":"k1_60127_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_60127"}]}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R4_51567"}"##),
    rw::<R2_42558>(273, r##"{"fs":[{"m":"plain","n":"k2_42558_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"i64"}}},{"m":"plain","n":"k2_42558_2","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"nz_u8"},{"k":"prim","p":"i16"}]}},{"m":"plain","n":"k2_42558_3","px":false,"t":{"k":"enum","name":"R1_54826","tag":"t1_54826","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_54826_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_54826_2","px":false,"t":{"k":"prim","p":"char"}},{"m":"plain","n":"k1_54826_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_54826","px":false,"t":{"k":"prim","p":"char"}}],"k":"fields","n":"X","x":50}]}},{"m":"default","n":"k2_42558_4","px":false,"t":{"fs":[{"m":"plain","n":"k1_62745_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_62745_2","px":false,"t":{"k":"prim","p":"i64"}},{"m":"default","n":"k1_62745_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_62745_4","px":false,"t":{"k":"prim","p":"char"}}],"k":"struct","name":"R1_62745"}}],"k":"struct","name":"R2_42558"}"##),
    rw::<R3_33549>(274, r##"{"k":"enum","name":"R3_33549","tag":"t3_33549","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_33549_1","px":false,"t":{"k":"arr","n":3,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}},{"m":"plain","n":"k3_33549_2","px":false,"t":{"k":"vec","t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"default","n":"k2_6138_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"str"}}},{"m":"default","n":"k2_6138_2","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"u8"},{"k":"prim","p":"leaf"}]}},{"m":"plain","n":"k2_6138_3","px":false,"t":{"k":"enum","name":"R1_18890","tag":"t1_18890","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_18890_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_18890_2","px":false,"t":{"k":"prim","p":"nz_u32"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_18890","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_6138"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x3_33549","px":false,"t":{"k":"arr","n":2,"t":{"fs":[{"m":"plain","n":"k1_29387_1","px":false,"t":{"k":"prim","p":"u16"}},{"m":"plain","n":"k1_29387_2","px":false,"t":{"k":"prim","p":"nz_u32"}},{"m":"plain","n":"k1_29387_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_29387"}}}],"k":"fields","n":"X","x":50}]}"##),
    rw::<R4_24540>(275, r##"{"k":"enum","name":"R4_24540","tag":"t4_24540","vs":[{"d":-1,"fs":[{"m":"plain","n":"k4_24540_1","px":false,"t":{"k":"tup","ts":[{"fs":[{"m":"plain","n":"k2_96460_1","px":false,"t":{"fs":[{"m":"plain","n":"k1_27347_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_27347"}}],"k":"struct","name":"R2_96460"},{"k":"enum","name":"R2_12307","tag":"t2_12307","vs":[{"d":-1,"fs":[{"m":"default","n":"k2_12307_1","px":false,"t":{"fs":[{"m":"plain","n":"k1_59755_1","px":false,"t":{"k":"prim","p":"u8"}}],"k":"struct","name":"R1_59755"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k1_80556_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_80556"}}],"k":"inner","n":"W","x":-1}]}]}},{"m":"plain","n":"k4_24540_2","px":false,"t":{"k":"enum","name":"R3_49522","tag":"t3_49522","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_49522_1","px":false,"t":{"k":"enum","name":"R2_91863","tag":"t2_91863","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_91863_1","px":false,"t":{"k":"enum","name":"R1_20428","tag":"t1_20428","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_20428_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_20428_2","px":false,"t":{"k":"prim","p":"nz_u32"}},{"m":"plain","n":"k1_20428_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_20428","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_28347_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_28347"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"default","n":"k1_41229_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_41229_2","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"k1_41229_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_41229"}}],"k":"inner","n":"W","x":-1}]}},{"m":"plain","n":"k3_49522_2","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_36632","tag":"t1_36632","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_36632_1","px":false,"t":{"k":"prim","p":"u64"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_36632","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"default","n":"k2_99782_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_44551_1","px":false,"t":{"k":"prim","p":"i8"}}],"k":"struct","name":"R1_44551"}},{"m":"default","n":"k2_99782_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u64"}}},{"m":"plain","n":"k2_99782_4","px":false,"t":{"k":"enum","name":"R1_60389","tag":"t1_60389","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_60389_1","px":false,"t":{"k":"prim","p":"u64"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_60389","px":false,"t":{"k":"prim","p":"i8"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_99782"}},{"m":"plain","n":"k3_49522_3","px":false,"t":{"k":"tup","ts":[{"k":"enum","name":"R1_73637","tag":"t1_73637","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_73637_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_73637_2","px":false,"t":{"k":"prim","p":"u64"}},{"m":"plain","n":"k1_73637_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_73637","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]},{"k":"opt","t":{"k":"prim","p":"nz_i16"}}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k2_12673_1","px":false,"t":{"k":"arr","n":2,"t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"R2_12673"}}],"k":"inner","n":"W","x":-1}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R2_8076","tag":"t2_8076","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"unit"}},{"m":"plain","n":"k2_8076_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_8076_3","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"unit"}}],"k":"inner","n":"W","x":-1}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"default","n":"k1_67655_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_67655_2","px":false,"t":{"k":"prim","p":"f32"}}],"k":"struct","name":"R1_67655"}},{"m":"default","n":"k2_15995_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_15995_3","px":false,"t":{"k":"enum","name":"R1_83493","tag":"t1_83493","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_83493_1","px":false,"t":{"k":"prim","p":"i32"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_83493","px":false,"t":{"k":"prim","p":"nz_i64"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_15995"}},{"m":"default","n":"k3_57441_3","px":false,"t":{"k":"unit"}},{"m":"plain","n":"k3_57441_4","px":false,"t":{"k":"arr","n":1,"t":{"fs":[{"m":"plain","n":"k1_20873_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_20873_2","px":false,"t":{"k":"prim","p":"nz_u32"}}],"k":"struct","name":"R1_20873"}}}],"k":"struct","name":"R3_57441"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R3_62404","tag":"t3_62404","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_62404_1","px":false,"t":{"k":"opt","t":{"k":"enum","name":"R1_99940","tag":"t1_99940","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_99940_1","px":false,"t":{"k":"prim","p":"nz_i32"}},{"m":"plain","n":"k1_99940_2","px":false,"t":{"k":"prim","p":"u64"}},{"m":"plain","n":"k1_99940_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_99940","px":false,"t":{"k":"prim","p":"u64"}}],"k":"fields","n":"X","x":50}]}}},{"m":"plain","n":"k3_62404_2","px":false,"t":{"k":"enum","name":"R2_21529","tag":"t2_21529","vs":[{"d":-1,"fs":[{"m":"default","n":"k2_21529_1","px":false,"t":{"k":"arr","n":2,"t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_21529_2","px":false,"t":{"k":"enum","name":"R1_3271","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_3271_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_3271_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_3271_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_3271_4","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_3271_5","x":135}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R1_16153","tag":"t1_16153","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_16153_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_16153","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"inner","n":"W","x":-1}]}},{"m":"plain","n":"k3_62404_3","px":false,"t":{"fs":[{"m":"plain","n":"k2_29448_1","px":false,"t":{"k":"arr","n":3,"t":{"k":"prim","p":"u8"}}},{"m":"plain","n":"k2_29448_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_19475_1","px":false,"t":{"k":"prim","p":"u16"}},{"m":"default","n":"k1_19475_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_19475_3","px":false,"t":{"k":"prim","p":"str"}},{"m":"plain","n":"k1_19475_4","px":false,"t":{"k":"prim","p":"i64"}}],"k":"struct","name":"R1_19475"}}],"k":"struct","name":"R2_29448"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x3_62404","px":false,"t":{"k":"vec","t":{"k":"opt","t":{"k":"prim","p":"even"}}}}],"k":"fields","n":"X","x":50}]}}],"k":"inner","n":"W","x":-1}]}"##),
    rw::<(R1_13716, (Leaf, Leaf))>(276, r##"{"k":"tup","ts":[{"k":"enum","name":"R1_13716","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_13716_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_13716_2","x":114}]},{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"leaf"}]}]}"##),
    rw::<Option<R2_65019>>(277, r##"{"k":"opt","t":{"fs":[{"m":"default","n":"k2_65019_1","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"leaf"}]}},{"m":"plain","n":"k2_65019_2","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"R2_65019"}}"##),
    rw::<R4_97504>(278, r##"{"fs":[{"m":"plain","n":"k4_97504_1","px":false,"t":{"k":"enum","name":"R3_95521","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v3_95521_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v3_95521_2","x":114}]}},{"m":"flatten","n":"","px":false,"t":{"k":"unit"}},{"m":"default","n":"k4_97504_3","px":false,"t":{"k":"arr","n":1,"t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}}},{"m":"plain","n":"k4_97504_4","px":false,"t":{"k":"enum","name":"R3_19287","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v3_19287_1","x":-1}]}}],"k":"struct","name":"R4_97504"}"##),
    rw::<R2_88495>(279, r##"{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_46833_1","px":false,"t":{"k":"prim","p":"i32"}},{"m":"plain","n":"k1_46833_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_46833"}}],"k":"struct","name":"R2_88495"}"##),
    rw::<R3_79486>(280, r##"{"k":"enum","name":"R3_79486","tag":"t3_79486","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_79486_1","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"unit"}},{"m":"default","n":"k2_98136_2","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_98136_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_16626_1","px":false,"t":{"k":"prim","p":"even"}},{"m":"default","n":"k1_16626_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_16626_3","px":false,"t":{"k":"prim","p":"nz_u16"}}],"k":"struct","name":"R1_16626"}}],"k":"struct","name":"R2_98136"}},{"m":"plain","n":"k3_79486_2","px":false,"t":{"k":"tup","ts":[{"k":"opt","t":{"k":"prim","p":"leaf"}},{"fs":[{"m":"plain","n":"k1_53631_1","px":false,"t":{"k":"prim","p":"nz_u64"}},{"m":"default","n":"k1_53631_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_53631_3","px":false,"t":{"k":"prim","p":"u16"}}],"k":"struct","name":"R1_53631"}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x3_79486","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"k1_59531_1","px":false,"t":{"k":"prim","p":"nz_i32"}}],"k":"struct","name":"R1_59531"}}}],"k":"fields","n":"X","x":50}]}"##),
    ]);
}

fn part7(v: &mut Vec<Entry>) {
    v.extend([
    rw::<R4_70477>(281, r##"{"k":"enum","name":"R4_70477","tag":"t4_70477","vs":[{"d":-1,"fs":[{"m":"default","n":"k4_70477_1","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"k2_26613_1","px":false,"t":{"fs":[{"m":"plain","n":"k1_59166_1","px":false,"t":{"k":"prim","p":"nz_i8"}},{"m":"plain","n":"k1_59166_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_59166"}},{"m":"default","n":"k2_26613_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_67085_1","px":false,"t":{"k":"prim","p":"u64"}},{"m":"plain","n":"k1_67085_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_67085_3","px":false,"t":{"k":"prim","p":"even"}},{"m":"default","n":"k1_67085_4","px":false,"t":{"k":"prim","p":"u8"}}],"k":"struct","name":"R1_67085"}},{"m":"plain","n":"k2_26613_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"even"}}}],"k":"struct","name":"R2_26613"}}},{"m":"plain","n":"k4_70477_2","px":false,"t":{"k":"vec","t":{"k":"enum","name":"R2_42817","tag":"t2_42817","vs":[{"d":-1,"fs":[{"m":"default","n":"k2_42817_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_42817_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_42817_3","px":false,"t":{"k":"enum","name":"R1_6036","tag":"t1_6036","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_6036_1","px":false,"t":{"k":"prim","p":"f64"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_6036","px":false,"t":{"k":"prim","p":"i16"}}],"k":"fields","n":"X","x":50}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_42817","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"X","x":50}]}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x4_70477","px":false,"t":{"k":"arr","n":1,"t":{"k":"arr","n":3,"t":{"fs":[{"m":"plain","n":"k1_69710_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_69710_2","px":false,"t":{"k":"prim","p":"i64"}},{"m":"plain","n":"k1_69710_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_69710_4","px":false,"t":{"k":"prim","p":"char"}}],"k":"struct","name":"R1_69710"}}}}],"k":"fields","n":"X","x":50}]}"##),
    rw::<Option<R1_21561>>(282, r##"{"k":"opt","t":{"k":"enum","name":"R1_21561","tag":"t1_21561","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_21561_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_21561_2","px":false,"t":{"k":"prim","p":"f32"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_21561","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}"##),
    rw::<Option<R2_72864>>(283, r##"{"k":"opt","t":{"k":"enum","name":"R2_72864","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v2_72864_1","x":-1}]}}"##),
    rw::<R4_43450>(284, r##"{"fs":[{"m":"plain","n":"k4_43450_1","px":false,"t":{"k":"enum","name":"R3_3375","tag":"t3_3375","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_3375_1","px":false,"t":{"fs":[{"m":"plain","n":"k2_20884_1","px":false,"t":{"k":"enum","name":"R1_87129","tag":"t1_87129","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_87129_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_87129","px":false,"t":{"k":"prim","p":"nz_u16"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_20884"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x3_3375","px":false,"t":{"k":"opt","t":{"k":"tup","ts":[{"k":"prim","p":"f64"},{"k":"prim","p":"leaf"}]}}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R4_43450"}"##),
    rw::<R2_34441>(285, r##"{"fs":[{"m":"plain","n":"k2_34441_1","px":false,"t":{"k":"enum","name":"R1_54678","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_54678_1","x":-1}]}},{"m":"flatten","n":"","px":false,"t":{"k":"unit"}}],"k":"struct","name":"R2_34441"}"##),
    rw::<R3_25432>(286, r##"{"k":"enum","name":"R3_25432","tag":"t3_25432","vs":[{"d":-1,"fs":[{"m":"default","n":"k3_25432_1","px":false,"t":{"fs":[{"m":"plain","n":"k2_5990_1","px":false,"t":{"fs":[{"m":"plain","n":"k1_30932_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_30932_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_30932_3","px":false,"t":{"k":"prim","p":"bool"}}],"k":"struct","name":"R1_30932"}},{"m":"flatten","n":"","px":false,"t":{"k":"unit"}}],"k":"struct","name":"R2_5990"}},{"m":"plain","n":"k3_25432_2","px":false,"t":{"k":"opt","t":{"fs":[{"m":"default","n":"k1_67937_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_67937_2","px":false,"t":{"k":"prim","p":"nz_i64"}},{"m":"plain","n":"k1_67937_3","px":false,"t":{"k":"prim","p":"f64"}}],"k":"struct","name":"R1_67937"}}},{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R2_21828","tag":"t2_21828","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_63340_1","px":false,"t":{"k":"prim","p":"nz_u32"}},{"m":"plain","n":"k1_63340_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_63340_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_63340"}},{"m":"default","n":"k2_21828_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}},{"m":"plain","n":"k2_21828_3","px":false,"t":{"k":"vec","t":{"k":"prim","p":"nz_u16"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"default","n":"k1_84141_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_84141_2","px":false,"t":{"k":"prim","p":"nz_u8"}},{"m":"plain","n":"k1_84141_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_84141"}}],"k":"inner","n":"W","x":-1}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"unit"}}],"k":"inner","n":"W","x":-1}]}"##),
    rw::<R4_16423>(287, r##"{"k":"enum","name":"R4_16423","tag":"t4_16423","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k3_57293_1","px":false,"t":{"k":"vec","t":{"fs":[{"m":"plain","n":"k1_73844_1","px":false,"t":{"k":"prim","p":"f32"}},{"m":"default","n":"k1_73844_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_73844_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_73844"}}},{"m":"plain","n":"k3_57293_2","px":false,"t":{"fs":[{"m":"plain","n":"k2_43875_1","px":false,"t":{"fs":[{"m":"plain","n":"k1_69247_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_69247_2","px":false,"t":{"k":"prim","p":"nz_i32"}},{"m":"plain","n":"k1_69247_3","px":false,"t":{"k":"prim","p":"f32"}}],"k":"struct","name":"R1_69247"}},{"m":"default","n":"k2_43875_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_43875_3","px":false,"t":{"k":"vec","t":{"k":"prim","p":"i32"}}}],"k":"struct","name":"R2_43875"}},{"m":"plain","n":"k3_57293_3","px":false,"t":{"fs":[{"m":"plain","n":"k2_51794_1","px":false,"t":{"fs":[{"m":"default","n":"k1_85451_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_85451_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_85451_3","px":false,"t":{"k":"prim","p":"char"}}],"k":"struct","name":"R1_85451"}},{"m":"plain","n":"k2_51794_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"R2_51794"}}],"k":"struct","name":"R3_57293"}},{"m":"default","n":"k4_16423_2","px":false,"t":{"k":"tup","ts":[{"k":"vec","t":{"fs":[{"m":"plain","n":"k1_42818_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_42818_2","px":false,"t":{"k":"prim","p":"even"}}],"k":"struct","name":"R1_42818"}},{"k":"opt","t":{"fs":[{"m":"plain","n":"k1_75226_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_75226"}}]}},{"m":"plain","n":"k4_16423_3","px":false,"t":{"k":"enum","name":"R3_73131","tag":"t3_73131","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_73131_1","px":false,"t":{"k":"opt","t":{"k":"enum","name":"R1_35899","tag":"t1_35899","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_35899_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_35899","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}},{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R2_76283","tag":"t2_76283","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_76283_1","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"nz_i8"},{"k":"prim","p":"nz_u32"}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R1_52103","tag":"t1_52103","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_52103_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_52103_2","px":false,"t":{"k":"prim","p":"nz_u64"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_52103","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"inner","n":"W","x":-1}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k2_84202_1","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"nz_i16"},{"k":"prim","p":"leaf"}]}}],"k":"struct","name":"R2_84202"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x3_73131","px":false,"t":{"k":"vec","t":{"k":"opt","t":{"k":"prim","p":"i32"}}}}],"k":"fields","n":"X","x":50}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"default","n":"k2_73898_1","px":false,"t":{"k":"unit"}},{"m":"default","n":"k2_73898_2","px":false,"t":{"k":"vec","t":{"k":"prim","p":"nz_u64"}}},{"m":"plain","n":"k2_73898_3","px":false,"t":{"k":"enum","name":"R1_58624","tag":"t1_58624","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_58624_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_58624","px":false,"t":{"k":"prim","p":"nz_i8"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_73898"}},{"m":"default","n":"k3_78094_2","px":false,"t":{"k":"tup","ts":[{"k":"opt","t":{"k":"prim","p":"nz_i8"}},{"fs":[{"m":"plain","n":"k1_95629_1","px":false,"t":{"k":"prim","p":"u64"}},{"m":"default","n":"k1_95629_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_95629_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_95629"}]}},{"m":"plain","n":"k3_78094_3","px":false,"t":{"k":"vec","t":{"k":"opt","t":{"k":"prim","p":"nz_i64"}}}}],"k":"struct","name":"R3_78094"}}],"k":"inner","n":"W","x":-1}]}"##),
    rw::<Option<Option<Leaf>>>(288, r##"{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}"##),
    rw::<Option<(Option<i32>, R1_20594)>>(289, r##"{"k":"opt","t":{"k":"tup","ts":[{"k":"opt","t":{"k":"prim","p":"i32"}},{"k":"enum","name":"R1_20594","tag":"t1_20594","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_20594_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_20594_2","px":false,"t":{"k":"prim","p":"char"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_20594","px":false,"t":{"k":"prim","p":"char"}}],"k":"fields","n":"X","x":50}]}]}}"##),
    rw::<R4_89387>(290, r##"{"fs":[{"m":"plain","n":"k4_89387_1","px":false,"t":{"k":"vec","t":{"fs":[{"m":"default","n":"k2_71829_1","px":false,"t":{"fs":[{"m":"default","n":"k1_56899_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_56899_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_56899"}},{"m":"default","n":"k2_71829_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"f32"}}},{"m":"plain","n":"k2_71829_3","px":false,"t":{"k":"enum","name":"R1_72737","tag":"t1_72737","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_72737_1","px":false,"t":{"k":"prim","p":"f64"}},{"m":"default","n":"k1_72737_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_72737","px":false,"t":{"k":"prim","p":"i16"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_71829"}}},{"m":"plain","n":"k4_89387_2","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k2_67232_1","px":false,"t":{"k":"enum","name":"R1_49980","tag":"t1_49980","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_49980_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_49980","px":false,"t":{"k":"prim","p":"nz_u32"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_67232_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_57899_1","px":false,"t":{"k":"prim","p":"bool"}},{"m":"plain","n":"k1_57899_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_57899"}},{"m":"plain","n":"k2_67232_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u32"}}}],"k":"struct","name":"R2_67232"}},{"m":"default","n":"k3_19139_2","px":false,"t":{"k":"opt","t":{"k":"enum","name":"R1_86985","tag":"t1_86985","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_86985_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_86985_2","px":false,"t":{"k":"prim","p":"u64"}},{"m":"plain","n":"k1_86985_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_86985","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}},{"m":"plain","n":"k3_19139_3","px":false,"t":{"k":"opt","t":{"k":"enum","name":"R1_3198","tag":"t1_3198","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_3198_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_3198","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}}],"k":"struct","name":"R3_19139"}}],"k":"struct","name":"R4_89387"}"##),
    rw::<R2_80378>(291, r##"{"fs":[{"m":"plain","n":"k2_80378_1","px":false,"t":{"k":"enum","name":"R1_62523","tag":"t1_62523","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_62523_1","px":false,"t":{"k":"prim","p":"u64"}},{"m":"plain","n":"k1_62523_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_62523_3","px":false,"t":{"k":"prim","p":"nz_i8"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_62523","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_80378_2","px":false,"t":{"k":"enum","name":"R1_70442","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_70442_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_70442_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_70442_3","x":-1}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_78361_1","px":false,"t":{"k":"prim","p":"nz_i32"}},{"m":"default","n":"k1_78361_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_78361_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_78361"}}],"k":"struct","name":"R2_80378"}"##),
    rw::<R3_71369>(292, r##"{"k":"enum","name":"R3_71369","tag":"t3_71369","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_71369_1","px":false,"t":{"k":"enum","name":"R2_13835","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v2_13835_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v2_13835_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v2_13835_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v2_13835_4","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v2_13835_5","x":135}]}},{"m":"plain","n":"k3_71369_2","px":false,"t":{"fs":[{"m":"plain","n":"k2_21754_1","px":false,"t":{"k":"enum","name":"R1_77280","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_77280_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_77280_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_77280_3","x":-1}]}},{"m":"plain","n":"k2_21754_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_85199_1","px":false,"t":{"k":"prim","p":"nz_u64"}},{"m":"default","n":"k1_85199_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_85199_3","px":false,"t":{"k":"prim","p":"u8"}}],"k":"struct","name":"R1_85199"}}],"k":"struct","name":"R2_21754"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k2_34636_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"i16"}}},{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_6946","tag":"t1_6946","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_6946_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_6946_2","px":false,"t":{"k":"prim","p":"nz_i64"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_6946","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"default","n":"k2_34636_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_14865_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_14865"}},{"m":"plain","n":"k2_34636_4","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"R2_34636"}}],"k":"inner","n":"W","x":-1}]}"##),
    rw::<Vec<R3_85939>>(293, r##"{"k":"vec","t":{"fs":[{"m":"plain","n":"k3_85939_1","px":false,"t":{"k":"enum","name":"R2_4051","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v2_4051_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v2_4051_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v2_4051_3","x":-1}]}}],"k":"struct","name":"R3_85939"}}"##),
    rw::<Option<R1_37251>>(294, r##"{"k":"opt","t":{"fs":[{"m":"plain","n":"k1_37251_1","px":false,"t":{"k":"prim","p":"bool"}},{"m":"default","n":"k1_37251_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_37251_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_37251"}}"##),
    rw::<Option<Option<R1_34900>>>(295, r##"{"k":"opt","t":{"k":"opt","t":{"fs":[{"m":"default","n":"k1_34900_1","px":false,"t":{"k":"prim","p":"bool"}},{"m":"plain","n":"k1_34900_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_34900"}}}"##),
    rw::<R4_35333>(296, r##"{"fs":[{"m":"default","n":"k4_35333_1","px":false,"t":{"k":"unit"}},{"m":"plain","n":"k4_35333_2","px":false,"t":{"k":"arr","n":1,"t":{"k":"enum","name":"R2_18186","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v2_18186_1","x":-1}]}}}],"k":"struct","name":"R4_35333"}"##),
    rw::<R2_26324>(297, r##"{"fs":[{"m":"plain","n":"k2_26324_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_i8"}}},{"m":"plain","n":"k2_26324_2","px":false,"t":{"k":"enum","name":"R1_78287","tag":"t1_78287","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_78287_1","px":false,"t":{"k":"prim","p":"nz_i16"}},{"m":"default","n":"k1_78287_2","px":false,"t":{"k":"prim","p":"u16"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_78287","px":false,"t":{"k":"prim","p":"u16"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_26324_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_86206_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_86206_2","px":false,"t":{"k":"prim","p":"nz_u64"}}],"k":"struct","name":"R1_86206"}}],"k":"struct","name":"R2_26324"}"##),
    rw::<Vec<R2_42481>>(298, r##"{"k":"vec","t":{"k":"enum","name":"R2_42481","tag":"t2_42481","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_42481_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_42481_2","px":false,"t":{"k":"enum","name":"R1_37090","tag":"t1_37090","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_37090_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_37090_2","px":false,"t":{"k":"prim","p":"u16"}},{"m":"default","n":"k1_37090_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_37090","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"default","n":"k1_45009_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_45009_2","px":false,"t":{"k":"prim","p":"nz_u16"}},{"m":"plain","n":"k1_45009_3","px":false,"t":{"k":"prim","p":"str"}}],"k":"struct","name":"R1_45009"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_42481","px":false,"t":{"k":"arr","n":3,"t":{"k":"prim","p":"nz_u16"}}}],"k":"fields","n":"X","x":50}]}}"##),
    rw::<Option<R3_93784>>(299, r##"{"k":"opt","t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R2_34195","tag":"t2_34195","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_34195_1","px":false,"t":{"k":"enum","name":"R1_6433","tag":"t1_6433","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_6433_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_6433","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R1_27234","tag":"t1_27234","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_27234_1","px":false,"t":{"k":"prim","p":"i64"}},{"m":"plain","n":"k1_27234_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_27234","px":false,"t":{"k":"prim","p":"nz_u16"}}],"k":"fields","n":"X","x":50}]}}],"k":"inner","n":"W","x":-1}]}},{"m":"plain","n":"k3_93784_2","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_22637","tag":"t1_22637","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_22637_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_22637","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_42114"}},{"m":"default","n":"k3_93784_3","px":false,"t":{"k":"opt","t":{"k":"enum","name":"R1_59642","tag":"t1_59642","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_59642_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_59642","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}},{"m":"plain","n":"k3_93784_4","px":false,"t":{"k":"enum","name":"R2_57952","tag":"t2_57952","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_57952_1","px":false,"t":{"k":"arr","n":2,"t":{"k":"prim","p":"nz_i64"}}},{"m":"plain","n":"k2_57952_2","px":false,"t":{"k":"enum","name":"R1_62964","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_62964_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_62964_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_62964_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_62964_4","x":-1}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"default","n":"k1_70883_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_70883_2","px":false,"t":{"k":"prim","p":"i16"}},{"m":"plain","n":"k1_70883_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_70883"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R1_75846","tag":"t1_75846","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_75846_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_75846_2","px":false,"t":{"k":"prim","p":"i8"}},{"m":"plain","n":"k1_75846_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_75846","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"inner","n":"W","x":-1}]}}],"k":"struct","name":"R3_93784"}}"##),
    rw::<Option<R1_45096>>(300, r##"{"k":"opt","t":{"fs":[{"m":"plain","n":"k1_45096_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_45096"}}"##),
    rw::<R3_90279>(301, r##"{"fs":[{"m":"plain","n":"k3_90279_1","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_6301_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_6301"}},{"m":"default","n":"k2_75598_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_75598_3","px":false,"t":{"k":"enum","name":"R1_22139","tag":"t1_22139","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_22139_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_22139_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_22139","px":false,"t":{"k":"prim","p":"nz_u32"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_75598"}},{"m":"plain","n":"k3_90279_2","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"nz_u64"}}}}],"k":"struct","name":"R3_90279"}"##),
    rw::<R4_81270>(302, r##"{"fs":[{"m":"default","n":"k4_81270_1","px":false,"t":{"fs":[{"m":"plain","n":"k3_26910_1","px":false,"t":{"k":"arr","n":2,"t":{"fs":[{"m":"plain","n":"k1_3405_1","px":false,"t":{"k":"prim","p":"f64"}},{"m":"default","n":"k1_3405_2","px":false,"t":{"k":"prim","p":"bool"}},{"m":"default","n":"k1_3405_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_3405_4","px":false,"t":{"k":"prim","p":"u32"}}],"k":"struct","name":"R1_3405"}}}],"k":"struct","name":"R3_26910"}},{"m":"default","n":"k4_81270_2","px":false,"t":{"k":"opt","t":{"k":"enum","name":"R2_48330","tag":"t2_48330","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_48330_1","px":false,"t":{"k":"enum","name":"R1_51569","tag":"t1_51569","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_51569_1","px":false,"t":{"k":"prim","p":"nz_i32"}},{"m":"plain","n":"k1_51569_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_51569","px":false,"t":{"k":"prim","p":"f32"}}],"k":"fields","n":"X","x":50}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_59488_1","px":false,"t":{"k":"prim","p":"f64"}}],"k":"struct","name":"R1_59488"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"default","n":"k1_72370_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_72370_2","px":false,"t":{"k":"prim","p":"nz_i8"}}],"k":"struct","name":"R1_72370"}}],"k":"inner","n":"W","x":-1}]}}},{"m":"plain","n":"k4_81270_3","px":false,"t":{"k":"enum","name":"R3_42748","tag":"t3_42748","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_42748_1","px":false,"t":{"k":"arr","n":3,"t":{"k":"enum","name":"R1_65451","tag":"t1_65451","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_65451_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_65451","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x3_42748","px":false,"t":{"k":"arr","n":1,"t":{"k":"unit"}}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R4_81270"}"##),
    rw::<R2_72261>(303, r##"{"k":"enum","name":"R2_72261","tag":"t2_72261","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"unit"}},{"m":"plain","n":"k2_72261_2","px":false,"t":{"k":"arr","n":3,"t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_72261_3","px":false,"t":{"k":"enum","name":"R1_94051","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_94051_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_94051_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_94051_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_94051_4","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_94051_5","x":135}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_72261","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"str"},{"k":"prim","p":"nz_u8"}]}}],"k":"fields","n":"X","x":50}]}"##),
    rw::<Vec<Vec<()>>>(304, r##"{"k":"vec","t":{"k":"vec","t":{"k":"unit"}}}"##),
    rw::<Option<R3_1638>>(305, r##"{"k":"opt","t":{"k":"enum","name":"R3_1638","tag":"t3_1638","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_1638_1","px":false,"t":{"k":"enum","name":"R2_64339","tag":"t2_64339","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_64339_1","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"f64"}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_64339","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"leaf"}]}}],"k":"fields","n":"X","x":50}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R2_85140","tag":"t2_85140","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_76194_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_76194"}},{"m":"default","n":"k2_85140_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_85140","px":false,"t":{"k":"opt","t":{"k":"prim","p":"even"}}}],"k":"fields","n":"X","x":50}]}}],"k":"inner","n":"W","x":-1}]}}"##),
    rw::<()>(306, r##"{"k":"unit"}"##),
    rw::<R3_36225>(307, r##"{"fs":[{"m":"plain","n":"k3_36225_1","px":false,"t":{"k":"enum","name":"R2_83443","tag":"t2_83443","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"default","n":"k1_36445_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_36445_2","px":false,"t":{"k":"prim","p":"i16"}}],"k":"struct","name":"R1_36445"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"unit"}}],"k":"inner","n":"W","x":-1}]}},{"m":"plain","n":"k3_36225_2","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_52649_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_52649_2","px":false,"t":{"k":"prim","p":"i32"}}],"k":"struct","name":"R1_52649"}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_60568_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_60568"}},{"m":"default","n":"k2_91362_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"char"}}},{"m":"plain","n":"k2_91362_4","px":false,"t":{"k":"enum","name":"R1_76406","tag":"t1_76406","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_76406_1","px":false,"t":{"k":"prim","p":"str"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_76406","px":false,"t":{"k":"prim","p":"i64"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_91362"}},{"m":"plain","n":"k3_36225_3","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"k1_89654_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_89654_2","px":false,"t":{"k":"prim","p":"str"}}],"k":"struct","name":"R1_89654"}}}],"k":"struct","name":"R3_36225"}"##),
    rw::<R4_27216>(308, r##"{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"default","n":"k3_34755_1","px":false,"t":{"k":"opt","t":{"k":"enum","name":"R1_35224","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_35224_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_35224_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_35224_3","x":-1}]}}},{"m":"plain","n":"k3_34755_2","px":false,"t":{"k":"enum","name":"R2_49388","tag":"t2_49388","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_49388_1","px":false,"t":{"k":"enum","name":"R1_30627","tag":"t1_30627","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_30627_1","px":false,"t":{"k":"prim","p":"nz_i64"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_30627","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R1_51428","tag":"t1_51428","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_51428_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_51428","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"inner","n":"W","x":-1}]}},{"m":"plain","n":"k3_34755_3","px":false,"t":{"fs":[{"m":"plain","n":"k2_57307_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"str"}}}],"k":"struct","name":"R2_57307"}}],"k":"struct","name":"R3_34755"}},{"m":"default","n":"k4_27216_2","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"k":"enum","name":"R1_4198","tag":"t1_4198","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_4198_1","px":false,"t":{"k":"prim","p":"nz_i8"}},{"m":"plain","n":"k1_4198_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_4198","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}}},{"m":"default","n":"k4_27216_3","px":false,"t":{"k":"opt","t":{"k":"tup","ts":[{"fs":[{"m":"plain","n":"k1_35221_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_35221_2","px":false,"t":{"k":"prim","p":"nz_i16"}}],"k":"struct","name":"R1_35221"},{"k":"vec","t":{"k":"prim","p":"leaf"}}]}}},{"m":"plain","n":"k4_27216_4","px":false,"t":{"k":"enum","name":"R3_58512","tag":"t3_58512","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"unit"}},{"m":"plain","n":"k3_58512_2","px":false,"t":{"k":"arr","n":2,"t":{"k":"enum","name":"R1_44506","tag":"t1_44506","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_44506_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_44506","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}},{"m":"plain","n":"k3_58512_3","px":false,"t":{"k":"enum","name":"R2_5928","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v2_5928_1","x":-1}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x3_58512","px":false,"t":{"k":"tup","ts":[{"k":"unit"},{"fs":[{"m":"plain","n":"k1_82082_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_82082_2","px":false,"t":{"k":"prim","p":"char"}},{"m":"plain","n":"k1_82082_3","px":false,"t":{"k":"prim","p":"i32"}},{"m":"plain","n":"k1_82082_4","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_82082"}]}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R4_27216"}"##),
    rw::<Vec<R1_6868>>(309, r##"{"k":"vec","t":{"fs":[{"m":"plain","n":"k1_6868_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_6868_2","px":false,"t":{"k":"prim","p":"i32"}},{"m":"plain","n":"k1_6868_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_6868_4","px":false,"t":{"k":"prim","p":"f64"}}],"k":"struct","name":"R1_6868"}}"##),
    rw::<[(); 1]>(310, r##"{"k":"arr","n":1,"t":{"k":"unit"}}"##),
    rw::<()>(311, r##"{"k":"unit"}"##),
    rw::<R2_91171>(312, r##"{"fs":[{"m":"default","n":"k2_91171_1","px":false,"t":{"k":"arr","n":2,"t":{"k":"prim","p":"i32"}}},{"m":"plain","n":"k2_91171_2","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_91171_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_55823_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_55823_2","px":false,"t":{"k":"prim","p":"str"}},{"m":"plain","n":"k1_55823_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_55823"}}],"k":"struct","name":"R2_91171"}"##),
    rw::<R3_82162>(313, r##"{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R2_91288","tag":"t2_91288","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_91288_1","px":false,"t":{"k":"enum","name":"R1_66589","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_66589_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_66589_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_66589_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_66589_4","x":-1}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k1_87390_1","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"k1_87390_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_87390_3","px":false,"t":{"k":"prim","p":"char"}},{"m":"plain","n":"k1_87390_4","px":false,"t":{"k":"prim","p":"i32"}}],"k":"struct","name":"R1_87390"}}],"k":"inner","n":"W","x":-1}]}},{"m":"plain","n":"k3_82162_2","px":false,"t":{"k":"enum","name":"R2_99207","tag":"t2_99207","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_99207_1","px":false,"t":{"k":"enum","name":"R1_82793","tag":"t1_82793","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_82793_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_82793_2","px":false,"t":{"k":"prim","p":"even"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_82793","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_99207_2","px":false,"t":{"fs":[{"m":"default","n":"k1_90712_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_90712_2","px":false,"t":{"k":"prim","p":"u32"}}],"k":"struct","name":"R1_90712"}},{"m":"plain","n":"k2_99207_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_u64"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k1_3603_1","px":false,"t":{"k":"prim","p":"u16"}},{"m":"plain","n":"k1_3603_2","px":false,"t":{"k":"prim","p":"nz_u32"}},{"m":"plain","n":"k1_3603_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_3603_4","px":false,"t":{"k":"prim","p":"u8"}}],"k":"struct","name":"R1_3603"}}],"k":"inner","n":"W","x":-1}]}},{"m":"plain","n":"k3_82162_3","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_98997","tag":"t1_98997","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_98997_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_98997_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_98997_3","px":false,"t":{"k":"prim","p":"u64"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_98997","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_7135"}}],"k":"struct","name":"R3_82162"}"##),
    rw::<R4_73153>(314, r##"{"k":"enum","name":"R4_73153","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v4_73153_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v4_73153_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v4_73153_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v4_73153_4","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v4_73153_5","x":135}]}"##),
    rw::<[R1_14713; 3]>(315, r##"{"k":"arr","n":3,"t":{"fs":[{"m":"default","n":"k1_14713_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_14713_2","px":false,"t":{"k":"prim","p":"nz_i64"}},{"m":"plain","n":"k1_14713_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_14713"}}"##),
    rw::<(R2_66016, R2_81854)>(316, r##"{"k":"tup","ts":[{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_19612","tag":"t1_19612","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_19612_1","px":false,"t":{"k":"prim","p":"f32"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_19612","px":false,"t":{"k":"prim","p":"i8"}}],"k":"fields","n":"X","x":50}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_27531_1","px":false,"t":{"k":"prim","p":"i8"}},{"m":"plain","n":"k1_27531_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_27531_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_27531_4","px":false,"t":{"k":"prim","p":"nz_u64"}}],"k":"struct","name":"R1_27531"}},{"m":"default","n":"k2_66016_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_66016_4","px":false,"t":{"k":"enum","name":"R1_43369","tag":"t1_43369","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_43369_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_43369","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_66016"},{"k":"enum","name":"R2_81854","tag":"t2_81854","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_81854_1","px":false,"t":{"k":"vec","t":{"k":"prim","p":"i64"}}},{"m":"plain","n":"k2_81854_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_59939_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_59939_2","px":false,"t":{"k":"prim","p":"nz_u16"}},{"m":"default","n":"k1_59939_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_59939"}},{"m":"flatten","n":"","px":false,"t":{"k":"unit"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_81854","px":false,"t":{"k":"enum","name":"R1_72821","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_72821_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_72821_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_72821_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_72821_4","x":-1}]}}],"k":"fields","n":"X","x":50}]}]}"##),
    rw::<()>(317, r##"{"k":"unit"}"##),
    rw::<R2_37117>(318, r##"{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_47830_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_47830_2","px":false,"t":{"k":"prim","p":"nz_i32"}},{"m":"default","n":"k1_47830_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_47830_4","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_47830"}},{"m":"plain","n":"k2_37117_2","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"nz_i16"}]}},{"m":"plain","n":"k2_37117_3","px":false,"t":{"k":"enum","name":"R1_63668","tag":"t1_63668","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_63668_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_63668_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_63668","px":false,"t":{"k":"prim","p":"i16"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_37117_4","px":false,"t":{"fs":[{"m":"plain","n":"k1_71587_1","px":false,"t":{"k":"prim","p":"i32"}},{"m":"plain","n":"k1_71587_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_71587_3","px":false,"t":{"k":"prim","p":"f32"}},{"m":"plain","n":"k1_71587_4","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_71587"}}],"k":"struct","name":"R2_37117"}"##),
    rw::<R3_28108>(319, r##"{"k":"enum","name":"R3_28108","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v3_28108_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v3_28108_2","x":114}]}"##),
    rw::<R4_19099>(320, r##"{"k":"enum","name":"R4_19099","tag":"t4_19099","vs":[{"d":-1,"fs":[{"m":"plain","n":"k4_19099_1","px":false,"t":{"k":"opt","t":{"k":"unit"}}},{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R3_58364","tag":"t3_58364","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_58364_1","px":false,"t":{"fs":[{"m":"plain","n":"k2_17970_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"bool"}}},{"m":"plain","n":"k2_17970_2","px":false,"t":{"k":"enum","name":"R1_17012","tag":"t1_17012","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_17012_1","px":false,"t":{"k":"prim","p":"bool"}},{"m":"plain","n":"k1_17012_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_17012_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_17012","px":false,"t":{"k":"prim","p":"nz_i16"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_17970"}},{"m":"plain","n":"k3_58364_2","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"unit"}}],"k":"inner","n":"W","x":-1}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k2_34174_1","px":false,"t":{"k":"enum","name":"R1_40116","tag":"t1_40116","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_40116_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_40116_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_40116","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"default","n":"k1_48035_1","px":false,"t":{"k":"prim","p":"char"}},{"m":"plain","n":"k1_48035_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_48035"}}],"k":"struct","name":"R2_34174"}}],"k":"struct","name":"R3_66283"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R3_71246","tag":"t3_71246","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R2_39708","tag":"t2_39708","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"unit"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_39708","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"leaf"}]}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k3_71246_2","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"unit"}},{"m":"plain","n":"k2_47627_2","px":false,"t":{"k":"arr","n":1,"t":{"k":"prim","p":"nz_u64"}}},{"m":"plain","n":"k2_47627_3","px":false,"t":{"k":"enum","name":"R1_99846","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_99846_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_99846_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_99846_3","x":-1}]}}],"k":"struct","name":"R2_47627"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R2_60509","tag":"t2_60509","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_60509_1","px":false,"t":{"fs":[{"m":"plain","n":"k1_5755_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_5755"}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_13674_1","px":false,"t":{"k":"prim","p":"f32"}},{"m":"plain","n":"k1_13674_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_13674_3","px":false,"t":{"k":"prim","p":"nz_i16"}},{"m":"default","n":"k1_13674_4","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_13674"}},{"m":"plain","n":"k2_60509_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k1_26556_1","px":false,"t":{"k":"prim","p":"i8"}}],"k":"struct","name":"R1_26556"}}],"k":"inner","n":"W","x":-1}]}}],"k":"inner","n":"W","x":-1}]}}],"k":"inner","n":"W","x":-1}]}"##),
    ]);
}

fn part8(v: &mut Vec<Entry>) {
    v.extend([
    rw::<[R1_22558; 2]>(321, r##"{"k":"arr","n":2,"t":{"k":"enum","name":"R1_22558","tag":"t1_22558","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_22558_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_22558_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_22558_3","px":false,"t":{"k":"prim","p":"bool"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_22558","px":false,"t":{"k":"prim","p":"u64"}}],"k":"fields","n":"X","x":50}]}}"##),
    rw::<(R2_73861, Option<R1_2974>)>(322, r##"{"k":"tup","ts":[{"fs":[{"m":"plain","n":"k2_73861_1","px":false,"t":{"k":"enum","name":"R1_49756","tag":"t1_49756","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_49756_1","px":false,"t":{"k":"prim","p":"nz_u16"}},{"m":"plain","n":"k1_49756_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_49756","px":false,"t":{"k":"prim","p":"str"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_73861_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_57675_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_57675_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_57675"}},{"m":"plain","n":"k2_73861_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_65594_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_65594_2","px":false,"t":{"k":"prim","p":"nz_u8"}},{"m":"default","n":"k1_65594_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_65594_4","px":false,"t":{"k":"prim","p":"i32"}}],"k":"struct","name":"R1_65594"}}],"k":"struct","name":"R2_73861"},{"k":"opt","t":{"k":"enum","name":"R1_2974","tag":"t1_2974","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_2974_1","px":false,"t":{"k":"prim","p":"u32"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_2974","px":false,"t":{"k":"prim","p":"nz_u64"}}],"k":"fields","n":"X","x":50}]}}]}"##),
    rw::<R4_92063>(323, r##"{"fs":[{"m":"plain","n":"k4_92063_1","px":false,"t":{"k":"enum","name":"R3_4372","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v3_4372_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v3_4372_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v3_4372_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v3_4372_4","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v3_4372_5","x":135}]}},{"m":"plain","n":"k4_92063_2","px":false,"t":{"fs":[{"m":"default","n":"k3_12291_1","px":false,"t":{"k":"opt","t":{"k":"enum","name":"R1_95799","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_95799_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_95799_2","x":114}]}}},{"m":"plain","n":"k3_12291_2","px":false,"t":{"k":"enum","name":"R2_40961","tag":"t2_40961","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_91202","tag":"t1_91202","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_91202_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_91202","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k1_12012_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_12012_2","px":false,"t":{"k":"prim","p":"u8"}},{"m":"default","n":"k1_12012_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_12012_4","px":false,"t":{"k":"prim","p":"f64"}}],"k":"struct","name":"R1_12012"}}],"k":"inner","n":"W","x":-1}]}},{"m":"plain","n":"k3_12291_3","px":false,"t":{"fs":[{"m":"plain","n":"k2_48880_1","px":false,"t":{"k":"enum","name":"R1_7415","tag":"t1_7415","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_7415_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_7415_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_7415","px":false,"t":{"k":"prim","p":"nz_u64"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_48880_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_15334_1","px":false,"t":{"k":"prim","p":"bool"}},{"m":"plain","n":"k1_15334_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_15334"}}],"k":"struct","name":"R2_48880"}}],"k":"struct","name":"R3_12291"}},{"m":"plain","n":"k4_92063_3","px":false,"t":{"k":"tup","ts":[{"k":"vec","t":{"k":"enum","name":"R1_64773","tag":"t1_64773","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_64773_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_64773_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_64773_3","px":false,"t":{"k":"prim","p":"f32"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_64773","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"fs":[{"m":"plain","n":"k2_85885_1","px":false,"t":{"k":"arr","n":3,"t":{"k":"prim","p":"even"}}},{"m":"plain","n":"k2_85885_2","px":false,"t":{"k":"enum","name":"R1_84299","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_84299_1","x":-1}]}}],"k":"struct","name":"R2_85885"}]}}],"k":"struct","name":"R4_92063"}"##),
    rw::<R2_83054>(324, r##"{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_55675_1","px":false,"t":{"k":"prim","p":"nz_i32"}},{"m":"plain","n":"k1_55675_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_55675"}},{"m":"plain","n":"k2_83054_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"i8"}}},{"m":"plain","n":"k2_83054_3","px":false,"t":{"k":"enum","name":"R1_71513","tag":"t1_71513","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_71513_1","px":false,"t":{"k":"prim","p":"i8"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_71513","px":false,"t":{"k":"prim","p":"nz_i32"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_83054_4","px":false,"t":{"fs":[{"m":"plain","n":"k1_79432_1","px":false,"t":{"k":"prim","p":"nz_i32"}},{"m":"plain","n":"k1_79432_2","px":false,"t":{"k":"prim","p":"f32"}}],"k":"struct","name":"R1_79432"}}],"k":"struct","name":"R2_83054"}"##),
    rw::<R3_74045>(325, r##"{"k":"enum","name":"R3_74045","tag":"t3_74045","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_74045_1","px":false,"t":{"fs":[{"m":"plain","n":"k2_6987_1","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"str"},{"k":"prim","p":"leaf"}]}},{"m":"plain","n":"k2_6987_2","px":false,"t":{"k":"enum","name":"R1_34805","tag":"t1_34805","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_34805_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_34805","px":false,"t":{"k":"prim","p":"u8"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_6987_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_42724_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_42724_2","px":false,"t":{"k":"prim","p":"nz_u32"}},{"m":"default","n":"k1_42724_3","px":false,"t":{"k":"prim","p":"char"}},{"m":"plain","n":"k1_42724_4","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_42724"}},{"m":"plain","n":"k2_6987_4","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"R2_6987"}},{"m":"plain","n":"k3_74045_2","px":false,"t":{"k":"tup","ts":[{"k":"tup","ts":[{"k":"prim","p":"nz_u32"},{"k":"prim","p":"u8"}]},{"fs":[{"m":"plain","n":"k1_79729_1","px":false,"t":{"k":"prim","p":"even"}},{"m":"plain","n":"k1_79729_2","px":false,"t":{"k":"prim","p":"u16"}},{"m":"default","n":"k1_79729_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_79729_4","px":false,"t":{"k":"prim","p":"char"}}],"k":"struct","name":"R1_79729"}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x3_74045","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}}],"k":"fields","n":"X","x":50}]}"##),
    rw::<R4_65036>(326, r##"{"k":"enum","name":"R4_65036","tag":"t4_65036","vs":[{"d":-1,"fs":[{"m":"plain","n":"k4_65036_1","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"k2_52711_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"f64"}}},{"m":"plain","n":"k2_52711_2","px":false,"t":{"k":"enum","name":"R1_55750","tag":"t1_55750","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_55750_1","px":false,"t":{"k":"prim","p":"f64"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_55750","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"default","n":"k2_52711_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_63669_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_63669"}},{"m":"plain","n":"k2_52711_4","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"R2_52711"}}},{"m":"plain","n":"k4_65036_2","px":false,"t":{"k":"vec","t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_78854","tag":"t1_78854","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_78854_1","px":false,"t":{"k":"prim","p":"u8"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_78854","px":false,"t":{"k":"prim","p":"nz_u8"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_68915_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_86773_1","px":false,"t":{"k":"prim","p":"nz_u16"}}],"k":"struct","name":"R1_86773"}},{"m":"plain","n":"k2_68915_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"R2_68915"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x4_65036","px":false,"t":{"k":"arr","n":2,"t":{"k":"enum","name":"R2_90653","tag":"t2_90653","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_90653_1","px":false,"t":{"k":"enum","name":"R1_37574","tag":"t1_37574","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_37574_1","px":false,"t":{"k":"prim","p":"u64"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_37574","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_90653_2","px":false,"t":{"k":"enum","name":"R1_45493","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_45493_1","x":-1}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_53412_1","px":false,"t":{"k":"prim","p":"nz_i32"}},{"m":"default","n":"k1_53412_2","px":false,"t":{"k":"prim","p":"f32"}},{"m":"plain","n":"k1_53412_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_53412"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R1_58375","tag":"t1_58375","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_58375_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_58375","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"inner","n":"W","x":-1}]}}}],"k":"fields","n":"X","x":50}]}"##),
    rw::<(Option<bool>, R1_46241)>(327, r##"{"k":"tup","ts":[{"k":"opt","t":{"k":"prim","p":"bool"}},{"fs":[{"m":"plain","n":"k1_46241_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_46241"}]}"##),
    rw::<Option<Vec<Vec<Leaf>>>>(328, r##"{"k":"opt","t":{"k":"vec","t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}}"##),
    rw::<R4_38009>(329, r##"{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R3_12217","tag":"t3_12217","vs":[{"d":-1,"fs":[{"m":"default","n":"k3_12217_1","px":false,"t":{"k":"unit"}},{"m":"plain","n":"k3_12217_2","px":false,"t":{"k":"arr","n":1,"t":{"k":"opt","t":{"k":"prim","p":"u64"}}}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_8211_1","px":false,"t":{"k":"prim","p":"str"}},{"m":"default","n":"k1_8211_2","px":false,"t":{"k":"prim","p":"i64"}},{"m":"default","n":"k1_8211_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_8211_4","px":false,"t":{"k":"prim","p":"f32"}}],"k":"struct","name":"R1_8211"}},{"m":"plain","n":"k2_62820_2","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"leaf"}]}},{"m":"plain","n":"k2_62820_3","px":false,"t":{"k":"enum","name":"R1_24049","tag":"t1_24049","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_24049_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_24049_2","px":false,"t":{"k":"prim","p":"char"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_24049","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_62820_4","px":false,"t":{"fs":[{"m":"plain","n":"k1_31968_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_31968_2","px":false,"t":{"k":"prim","p":"i64"}},{"m":"plain","n":"k1_31968_3","px":false,"t":{"k":"prim","p":"nz_i64"}},{"m":"plain","n":"k1_31968_4","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_31968"}}],"k":"struct","name":"R2_62820"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x3_12217","px":false,"t":{"k":"tup","ts":[{"fs":[{"m":"plain","n":"k1_34546_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_34546_2","px":false,"t":{"k":"prim","p":"str"}},{"m":"plain","n":"k1_34546_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_34546"},{"k":"vec","t":{"k":"prim","p":"leaf"}}]}}],"k":"fields","n":"X","x":50}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k3_20136_1","px":false,"t":{"k":"unit"}}],"k":"struct","name":"R3_20136"}},{"m":"plain","n":"k4_38009_3","px":false,"t":{"fs":[{"m":"plain","n":"k3_28055_1","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"k1_58650_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_58650_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_58650_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_58650_4","px":false,"t":{"k":"prim","p":"f64"}}],"k":"struct","name":"R1_58650"}}},{"m":"plain","n":"k3_28055_2","px":false,"t":{"k":"vec","t":{"fs":[{"m":"plain","n":"k1_74854_1","px":false,"t":{"k":"prim","p":"even"}},{"m":"default","n":"k1_74854_2","px":false,"t":{"k":"prim","p":"u16"}},{"m":"plain","n":"k1_74854_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_74854_4","px":false,"t":{"k":"prim","p":"char"}}],"k":"struct","name":"R1_74854"}}},{"m":"plain","n":"k3_28055_3","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_70257","tag":"t1_70257","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_70257_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_70257_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_70257","px":false,"t":{"k":"prim","p":"i16"}}],"k":"fields","n":"X","x":50}]}},{"m":"default","n":"k2_95228_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_78176_1","px":false,"t":{"k":"prim","p":"i16"}},{"m":"plain","n":"k1_78176_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_78176"}},{"m":"plain","n":"k2_95228_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"f32"}}}],"k":"struct","name":"R2_95228"}},{"m":"plain","n":"k3_28055_4","px":false,"t":{"fs":[{"m":"plain","n":"k2_3156_1","px":false,"t":{"k":"enum","name":"R1_86461","tag":"t1_86461","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_86461_1","px":false,"t":{"k":"prim","p":"char"}},{"m":"default","n":"k1_86461_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_86461_3","px":false,"t":{"k":"prim","p":"nz_i64"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_86461","px":false,"t":{"k":"prim","p":"i32"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_3156_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_94380_1","px":false,"t":{"k":"prim","p":"i64"}},{"m":"plain","n":"k1_94380_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_94380"}}],"k":"struct","name":"R2_3156"}}],"k":"struct","name":"R3_28055"}},{"m":"plain","n":"k4_38009_4","px":false,"t":{"k":"tup","ts":[{"k":"opt","t":{"fs":[{"m":"default","n":"k1_27624_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_27624_2","px":false,"t":{"k":"prim","p":"nz_u16"}}],"k":"struct","name":"R1_27624"}},{"fs":[{"m":"plain","n":"k2_32242_1","px":false,"t":{"k":"arr","n":3,"t":{"k":"prim","p":"nz_i8"}}},{"m":"plain","n":"k2_32242_2","px":false,"t":{"k":"enum","name":"R1_47150","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_47150_1","x":-1}]}},{"m":"plain","n":"k2_32242_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_55069_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_55069_2","px":false,"t":{"k":"prim","p":"i8"}},{"m":"plain","n":"k1_55069_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_55069"}}],"k":"struct","name":"R2_32242"}]}}],"k":"struct","name":"R4_38009"}"##),
    rw::<R2_29000>(330, r##"{"fs":[{"m":"plain","n":"k2_29000_1","px":false,"t":{"k":"enum","name":"R1_63520","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_63520_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_63520_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_63520_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_63520_4","x":-1}]}}],"k":"struct","name":"R2_29000"}"##),
    rw::<R3_19991>(331, r##"{"k":"enum","name":"R3_19991","tag":"t3_19991","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_19991_1","px":false,"t":{"fs":[{"m":"plain","n":"k2_14832_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"i8"}}},{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_64949","tag":"t1_64949","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_64949_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_64949","px":false,"t":{"k":"prim","p":"nz_i16"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_14832"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k2_35633_1","px":false,"t":{"fs":[{"m":"default","n":"k1_94972_1","px":false,"t":{"k":"prim","p":"even"}},{"m":"plain","n":"k1_94972_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_94972_3","px":false,"t":{"k":"prim","p":"nz_u8"}}],"k":"struct","name":"R1_94972"}},{"m":"plain","n":"k2_35633_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_u32"}}}],"k":"struct","name":"R2_35633"}}],"k":"inner","n":"W","x":-1}]}"##),
    rw::<R4_10982>(332, r##"{"k":"enum","name":"R4_10982","tag":"t4_10982","vs":[{"d":-1,"fs":[{"m":"plain","n":"k4_10982_1","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R2_62054","tag":"t2_62054","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_62054_1","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_49627_1","px":false,"t":{"k":"prim","p":"nz_u8"}},{"m":"default","n":"k1_49627_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_49627_3","px":false,"t":{"k":"prim","p":"i32"}}],"k":"struct","name":"R1_49627"}},{"m":"flatten","n":"","px":false,"t":{"k":"unit"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_62054","px":false,"t":{"k":"enum","name":"R1_62509","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_62509_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_62509_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_62509_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_62509_4","x":-1}]}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k3_66135_2","px":false,"t":{"fs":[{"m":"plain","n":"k2_69973_1","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_69973_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_65831_1","px":false,"t":{"k":"prim","p":"nz_u32"}},{"m":"default","n":"k1_65831_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_65831_3","px":false,"t":{"k":"prim","p":"u8"}}],"k":"struct","name":"R1_65831"}},{"m":"default","n":"k2_69973_3","px":false,"t":{"k":"unit"}},{"m":"plain","n":"k2_69973_4","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_u16"}}}],"k":"struct","name":"R2_69973"}},{"m":"plain","n":"k3_66135_3","px":false,"t":{"k":"unit"}},{"m":"plain","n":"k3_66135_4","px":false,"t":{"k":"arr","n":1,"t":{"k":"enum","name":"R1_11130","tag":"t1_11130","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_11130_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_11130_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_11130","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}}],"k":"struct","name":"R3_66135"}},{"m":"plain","n":"k4_10982_2","px":false,"t":{"k":"unit"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k3_86936_1","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"k1_52252_1","px":false,"t":{"k":"prim","p":"i16"}},{"m":"default","n":"k1_52252_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_52252_3","px":false,"t":{"k":"prim","p":"u32"}}],"k":"struct","name":"R1_52252"}}},{"m":"plain","n":"k3_86936_2","px":false,"t":{"k":"enum","name":"R2_7924","tag":"t2_7924","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_7924_1","px":false,"t":{"k":"enum","name":"R1_47655","tag":"t1_47655","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_47655_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_47655_2","px":false,"t":{"k":"prim","p":"f64"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_47655","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"default","n":"k1_68456_1","px":false,"t":{"k":"prim","p":"i64"}},{"m":"plain","n":"k1_68456_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_68456_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_68456"}}],"k":"inner","n":"W","x":-1}]}},{"m":"plain","n":"k3_86936_3","px":false,"t":{"fs":[{"m":"plain","n":"k2_15843_1","px":false,"t":{"k":"enum","name":"R1_63859","tag":"t1_63859","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_63859_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_63859_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_63859","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_15843"}}],"k":"struct","name":"R3_86936"}}],"k":"inner","n":"W","x":-1}]}"##),
    rw::<Option<Option<Even>>>(333, r##"{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"even"}}}"##),
    rw::<Option<Option<[Leaf; 1]>>>(334, r##"{"k":"opt","t":{"k":"opt","t":{"k":"arr","n":1,"t":{"k":"prim","p":"leaf"}}}}"##),
    rw::<R4_83946>(335, r##"{"fs":[{"m":"plain","n":"k4_83946_1","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"k":"enum","name":"R1_66365","tag":"t1_66365","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_66365_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_66365_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_66365","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}}}],"k":"struct","name":"R4_83946"}"##),
    rw::<R2_74937>(336, r##"{"k":"enum","name":"R2_74937","tag":"t2_74937","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_74937_1","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"leaf"}]}},{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_79284","tag":"t1_79284","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_79284_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_79284_2","px":false,"t":{"k":"prim","p":"u32"}},{"m":"plain","n":"k1_79284_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_79284","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R1_92166","tag":"t1_92166","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_92166_1","px":false,"t":{"k":"prim","p":"u16"}},{"m":"plain","n":"k1_92166_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_92166_3","px":false,"t":{"k":"prim","p":"str"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_92166","px":false,"t":{"k":"prim","p":"nz_u32"}}],"k":"fields","n":"X","x":50}]}}],"k":"inner","n":"W","x":-1}]}"##),
    rw::<R3_65928>(337, r##"{"k":"enum","name":"R3_65928","tag":"t3_65928","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_65928_1","px":false,"t":{"k":"enum","name":"R2_22677","tag":"t2_22677","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_87174_1","px":false,"t":{"k":"prim","p":"nz_u8"}}],"k":"struct","name":"R1_87174"}},{"m":"plain","n":"k2_22677_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_22677","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k3_65928_2","px":false,"t":{"fs":[{"m":"default","n":"k2_30596_1","px":false,"t":{"fs":[{"m":"plain","n":"k1_3387_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_3387"}},{"m":"default","n":"k2_30596_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u16"}}},{"m":"plain","n":"k2_30596_3","px":false,"t":{"k":"enum","name":"R1_19225","tag":"t1_19225","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_19225_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_19225","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_30596"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x3_65928","px":false,"t":{"k":"enum","name":"R2_43478","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v2_43478_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v2_43478_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v2_43478_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v2_43478_4","x":-1}]}}],"k":"fields","n":"X","x":50}]}"##),
    rw::<Option<R3_94781>>(338, r##"{"k":"opt","t":{"fs":[{"m":"plain","n":"k3_94781_1","px":false,"t":{"k":"opt","t":{"k":"enum","name":"R1_84071","tag":"t1_84071","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_84071_1","px":false,"t":{"k":"prim","p":"nz_i8"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_84071","px":false,"t":{"k":"prim","p":"u64"}}],"k":"fields","n":"X","x":50}]}}},{"m":"plain","n":"k3_94781_2","px":false,"t":{"k":"opt","t":{"k":"enum","name":"R1_284","tag":"t1_284","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_284_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_284_2","px":false,"t":{"k":"prim","p":"f32"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_284","px":false,"t":{"k":"prim","p":"f32"}}],"k":"fields","n":"X","x":50}]}}}],"k":"struct","name":"R3_94781"}}"##),
    rw::<Option<R1_46093>>(339, r##"{"k":"opt","t":{"fs":[{"m":"plain","n":"k1_46093_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_46093_2","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"k1_46093_3","px":false,"t":{"k":"prim","p":"nz_u8"}}],"k":"struct","name":"R1_46093"}}"##),
    rw::<R3_38901>(340, r##"{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k2_76595_1","px":false,"t":{"k":"vec","t":{"k":"prim","p":"nz_i64"}}}],"k":"struct","name":"R2_76595"}},{"m":"plain","n":"k3_38901_2","px":false,"t":{"k":"opt","t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}},{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R2_92433","tag":"t2_92433","vs":[{"d":-1,"fs":[{"m":"default","n":"k2_92433_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_u32"}}},{"m":"plain","n":"k2_92433_2","px":false,"t":{"k":"enum","name":"R1_42582","tag":"t1_42582","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_42582_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_42582_2","px":false,"t":{"k":"prim","p":"even"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_42582","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_92433","px":false,"t":{"k":"vec","t":{"k":"prim","p":"u8"}}}],"k":"fields","n":"X","x":50}]}},{"m":"default","n":"k3_38901_4","px":false,"t":{"fs":[{"m":"plain","n":"k2_361_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"R2_361"}}],"k":"struct","name":"R3_38901"}"##),
    rw::<R4_29892>(341, r##"{"fs":[{"m":"plain","n":"k4_29892_1","px":false,"t":{"k":"unit"}}],"k":"struct","name":"R4_29892"}"##),
    rw::<R2_20883>(342, r##"{"k":"enum","name":"R2_20883","tag":"t2_20883","vs":[{"d":-1,"fs":[{"m":"default","n":"k2_20883_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_20883","px":false,"t":{"k":"vec","t":{"k":"prim","p":"str"}}}],"k":"fields","n":"X","x":50}]}"##),
    rw::<R3_11874>(343, r##"{"k":"enum","name":"R3_11874","tag":"t3_11874","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_11874_1","px":false,"t":{"k":"tup","ts":[{"fs":[{"m":"default","n":"k1_38128_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_38128_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_38128_3","px":false,"t":{"k":"prim","p":"nz_u32"}}],"k":"struct","name":"R1_38128"},{"k":"vec","t":{"k":"prim","p":"nz_i8"}}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R2_51323","tag":"t2_51323","vs":[{"d":-1,"fs":[{"m":"default","n":"k2_51323_1","px":false,"t":{"k":"arr","n":2,"t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_51323_2","px":false,"t":{"k":"enum","name":"R1_63188","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_63188_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_63188_2","x":114}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R1_76070","tag":"t1_76070","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_76070_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_76070","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"inner","n":"W","x":-1}]}}],"k":"inner","n":"W","x":-1}]}"##),
    rw::<Option<R3_2635>>(344, r##"{"k":"opt","t":{"k":"enum","name":"R3_2635","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v3_2635_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v3_2635_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v3_2635_3","x":-1}]}}"##),
    rw::<Option<R1_53938>>(345, r##"{"k":"opt","t":{"fs":[{"m":"plain","n":"k1_53938_1","px":false,"t":{"k":"prim","p":"i64"}}],"k":"struct","name":"R1_53938"}}"##),
    rw::<R3_84838>(346, r##"{"fs":[{"m":"plain","n":"k3_84838_1","px":false,"t":{"fs":[{"m":"default","n":"k2_84440_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u16"}}},{"m":"default","n":"k2_84440_2","px":false,"t":{"k":"vec","t":{"k":"prim","p":"nz_u32"}}},{"m":"plain","n":"k2_84440_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_48237_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_48237_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_48237_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_48237"}}],"k":"struct","name":"R2_84440"}}],"k":"struct","name":"R3_84838"}"##),
    rw::<R4_75829>(347, r##"{"fs":[{"m":"plain","n":"k4_75829_1","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"default","n":"k2_37423_1","px":false,"t":{"k":"arr","n":2,"t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_37423_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_79179_1","px":false,"t":{"k":"prim","p":"nz_u16"}},{"m":"default","n":"k1_79179_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_79179_3","px":false,"t":{"k":"prim","p":"i64"}}],"k":"struct","name":"R1_79179"}}],"k":"struct","name":"R2_37423"}}],"k":"struct","name":"R3_35752"}},{"m":"plain","n":"k4_75829_2","px":false,"t":{"k":"opt","t":{"fs":[{"m":"default","n":"k2_74428_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"str"}}},{"m":"plain","n":"k2_74428_2","px":false,"t":{"k":"enum","name":"R1_48153","tag":"t1_48153","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_48153_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_48153","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_74428"}}}],"k":"struct","name":"R4_75829"}"##),
    rw::<R2_66820>(348, r##"{"k":"enum","name":"R2_66820","tag":"t2_66820","vs":[{"d":-1,"fs":[{"m":"default","n":"k2_66820_1","px":false,"t":{"k":"unit"}},{"m":"default","n":"k2_66820_2","px":false,"t":{"k":"arr","n":2,"t":{"k":"prim","p":"str"}}},{"m":"plain","n":"k2_66820_3","px":false,"t":{"k":"vec","t":{"k":"prim","p":"u8"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"unit"}}],"k":"inner","n":"W","x":-1}]}"##),
    rw::<R3_57811>(349, r##"{"k":"enum","name":"R3_57811","tag":"t3_57811","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_57811_1","px":false,"t":{"k":"opt","t":{"k":"enum","name":"R1_68272","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_68272_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_68272_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_68272_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_68272_4","x":-1}]}}},{"m":"plain","n":"k3_57811_2","px":false,"t":{"k":"enum","name":"R2_46286","tag":"t2_46286","vs":[{"d":-1,"fs":[{"m":"default","n":"k2_46286_1","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}},{"m":"default","n":"k2_46286_2","px":false,"t":{"fs":[{"m":"default","n":"k1_71594_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_71594_2","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"k1_71594_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_71594"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_46286","px":false,"t":{"k":"enum","name":"R1_84476","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_84476_1","x":-1}]}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k3_57811_3","px":false,"t":{"k":"enum","name":"R2_54205","tag":"t2_54205","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_54205_1","px":false,"t":{"k":"enum","name":"R1_79879","tag":"t1_79879","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_79879_1","px":false,"t":{"k":"prim","p":"i8"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_79879","px":false,"t":{"k":"prim","p":"even"}}],"k":"fields","n":"X","x":50}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_54205","px":false,"t":{"k":"enum","name":"R1_689","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_689_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_689_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_689_3","x":-1}]}}],"k":"fields","n":"X","x":50}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x3_57811","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}}],"k":"fields","n":"X","x":50}]}"##),
    rw::<Option<(R2_11247, [R1_18077; 1])>>(350, r##"{"k":"opt","t":{"k":"tup","ts":[{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_64859","tag":"t1_64859","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_64859_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_64859","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_11247_2","px":false,"t":{"k":"enum","name":"R1_72778","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_72778_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_72778_2","x":114}]}},{"m":"default","n":"k2_11247_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_80697_1","px":false,"t":{"k":"prim","p":"i64"}},{"m":"plain","n":"k1_80697_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_80697_3","px":false,"t":{"k":"prim","p":"f64"}},{"m":"plain","n":"k1_80697_4","px":false,"t":{"k":"prim","p":"i16"}}],"k":"struct","name":"R1_80697"}},{"m":"plain","n":"k2_11247_4","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"f64"},{"k":"prim","p":"leaf"}]}}],"k":"struct","name":"R2_11247"},{"k":"arr","n":1,"t":{"k":"enum","name":"R1_18077","tag":"t1_18077","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_18077_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_18077","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}]}}"##),
    rw::<Option<R1_61783>>(351, r##"{"k":"opt","t":{"k":"enum","name":"R1_61783","tag":"t1_61783","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_61783_1","px":false,"t":{"k":"prim","p":"nz_i64"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_61783","px":false,"t":{"k":"prim","p":"char"}}],"k":"fields","n":"X","x":50}]}}"##),
    rw::<R3_30784>(352, r##"{"fs":[{"m":"plain","n":"k3_30784_1","px":false,"t":{"k":"enum","name":"R2_92285","tag":"t2_92285","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_92285_1","px":false,"t":{"fs":[{"m":"plain","n":"k1_62543_1","px":false,"t":{"k":"prim","p":"i16"}},{"m":"default","n":"k1_62543_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_62543_3","px":false,"t":{"k":"prim","p":"f32"}}],"k":"struct","name":"R1_62543"}},{"m":"plain","n":"k2_92285_2","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"f32"},{"k":"prim","p":"nz_i8"}]}},{"m":"plain","n":"k2_92285_3","px":false,"t":{"k":"enum","name":"R1_78381","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_78381_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_78381_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_78381_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_78381_4","x":-1}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_92285","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k3_30784_2","px":false,"t":{"k":"enum","name":"R2_213","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v2_213_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v2_213_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v2_213_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v2_213_4","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v2_213_5","x":135}]}}],"k":"struct","name":"R3_30784"}"##),
    rw::<R4_21775>(353, r##"{"fs":[{"m":"plain","n":"k4_21775_1","px":false,"t":{"fs":[{"m":"default","n":"k3_43597_1","px":false,"t":{"k":"vec","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}},{"m":"plain","n":"k3_43597_2","px":false,"t":{"fs":[{"m":"plain","n":"k2_75486_1","px":false,"t":{"fs":[{"m":"plain","n":"k1_19292_1","px":false,"t":{"k":"prim","p":"nz_u32"}},{"m":"plain","n":"k1_19292_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_19292_3","px":false,"t":{"k":"prim","p":"i64"}},{"m":"plain","n":"k1_19292_4","px":false,"t":{"k":"prim","p":"nz_u8"}}],"k":"struct","name":"R1_19292"}},{"m":"plain","n":"k2_75486_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"i64"}}},{"m":"plain","n":"k2_75486_3","px":false,"t":{"k":"enum","name":"R1_35130","tag":"t1_35130","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_35130_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_35130_2","px":false,"t":{"k":"prim","p":"nz_u16"}},{"m":"plain","n":"k1_35130_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_35130","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_75486"}},{"m":"plain","n":"k3_43597_3","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}}],"k":"struct","name":"R3_43597"}},{"m":"plain","n":"k4_21775_2","px":false,"t":{"fs":[{"m":"plain","n":"k3_51516_1","px":false,"t":{"k":"enum","name":"R2_83771","tag":"t2_83771","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_83771_1","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_83771","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k3_51516_2","px":false,"t":{"fs":[{"m":"default","n":"k2_91690_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_u64"}}},{"m":"plain","n":"k2_91690_2","px":false,"t":{"k":"enum","name":"R1_58234","tag":"t1_58234","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_58234_1","px":false,"t":{"k":"prim","p":"bool"}},{"m":"default","n":"k1_58234_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_58234_3","px":false,"t":{"k":"prim","p":"u16"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_58234","px":false,"t":{"k":"prim","p":"nz_i8"}}],"k":"fields","n":"X","x":50}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_66153_1","px":false,"t":{"k":"prim","p":"nz_i16"}},{"m":"plain","n":"k1_66153_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_66153"}}],"k":"struct","name":"R2_91690"}}],"k":"struct","name":"R3_51516"}},{"m":"plain","n":"k4_21775_3","px":false,"t":{"k":"opt","t":{"k":"enum","name":"R2_20785","tag":"t2_20785","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_20785_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_20785_2","px":false,"t":{"k":"enum","name":"R1_11004","tag":"t1_11004","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_11004_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_11004","px":false,"t":{"k":"prim","p":"u8"}}],"k":"fields","n":"X","x":50}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R1_23886","tag":"t1_23886","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_23886_1","px":false,"t":{"k":"prim","p":"u8"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_23886","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"inner","n":"W","x":-1}]}}}],"k":"struct","name":"R4_21775"}"##),
    rw::<R2_12766>(354, r##"{"k":"enum","name":"R2_12766","tag":"t2_12766","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_12766_1","px":false,"t":{"k":"enum","name":"R1_94900","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_94900_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_94900_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_94900_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_94900_4","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_94900_5","x":135}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k1_15710_1","px":false,"t":{"k":"prim","p":"i16"}}],"k":"struct","name":"R1_15710"}}],"k":"inner","n":"W","x":-1}]}"##),
    rw::<Vec<()>>(355, r##"{"k":"vec","t":{"k":"unit"}}"##),
    rw::<Option<Option<R2_41391>>>(356, r##"{"k":"opt","t":{"k":"opt","t":{"k":"enum","name":"R2_41391","tag":"t2_41391","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_41391_1","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"i16"},{"k":"prim","p":"f32"}]}},{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_4606","tag":"t1_4606","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_4606_1","px":false,"t":{"k":"prim","p":"i32"}},{"m":"plain","n":"k1_4606_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_4606_3","px":false,"t":{"k":"prim","p":"f32"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_4606","px":false,"t":{"k":"prim","p":"nz_i64"}}],"k":"fields","n":"X","x":50}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_12525_1","px":false,"t":{"k":"prim","p":"nz_i64"}},{"m":"plain","n":"k1_12525_2","px":false,"t":{"k":"prim","p":"f32"}},{"m":"default","n":"k1_12525_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_12525_4","px":false,"t":{"k":"prim","p":"nz_i16"}}],"k":"struct","name":"R1_12525"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_41391","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"leaf"}]}}],"k":"fields","n":"X","x":50}]}}}"##),
    rw::<()>(357, r##"{"k":"unit"}"##),
    rw::<R3_76721>(358, r##"{"fs":[{"m":"default","n":"k3_76721_1","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"k1_13497_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_13497_2","px":false,"t":{"k":"prim","p":"str"}},{"m":"plain","n":"k1_13497_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_13497_4","px":false,"t":{"k":"prim","p":"nz_i64"}}],"k":"struct","name":"R1_13497"}}},{"m":"plain","n":"k3_76721_2","px":false,"t":{"k":"enum","name":"R2_8058","tag":"t2_8058","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_8058_1","px":false,"t":{"k":"enum","name":"R1_8900","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_8900_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_8900_2","x":114}]}},{"m":"plain","n":"k2_8058_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_16819_1","px":false,"t":{"k":"prim","p":"u64"}},{"m":"default","n":"k1_16819_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_16819_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_16819"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k1_29701_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_29701_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_29701_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_29701_4","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_29701"}}],"k":"inner","n":"W","x":-1}]}},{"m":"plain","n":"k3_76721_3","px":false,"t":{"fs":[{"m":"plain","n":"k2_15977_1","px":false,"t":{"k":"enum","name":"R1_25104","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_25104_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_25104_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_25104_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_25104_4","x":-1}]}}],"k":"struct","name":"R2_15977"}}],"k":"struct","name":"R3_76721"}"##),
    rw::<R4_67712>(359, r##"{"fs":[{"m":"plain","n":"k4_67712_1","px":false,"t":{"k":"arr","n":1,"t":{"k":"arr","n":1,"t":{"k":"enum","name":"R1_93650","tag":"t1_93650","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_93650_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_93650","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}}},{"m":"plain","n":"k4_67712_2","px":false,"t":{"k":"enum","name":"R3_59361","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v3_59361_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v3_59361_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v3_59361_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v3_59361_4","x":-1}]}},{"m":"plain","n":"k4_67712_3","px":false,"t":{"k":"unit"}},{"m":"plain","n":"k4_67712_4","px":false,"t":{"k":"arr","n":1,"t":{"k":"arr","n":2,"t":{"k":"enum","name":"R1_86728","tag":"t1_86728","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_86728_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_86728","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}}}],"k":"struct","name":"R4_67712"}"##),
    rw::<Vec<R1_23555>>(360, r##"{"k":"vec","t":{"fs":[{"m":"plain","n":"k1_23555_1","px":false,"t":{"k":"prim","p":"nz_i16"}},{"m":"default","n":"k1_23555_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_23555_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_23555"}}"##),
    ]);
}

fn part9(v: &mut Vec<Entry>) {
    v.extend([
    rw::<[R2_74858; 3]>(361, r##"{"k":"arr","n":3,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"default","n":"k1_45710_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_45710_2","px":false,"t":{"k":"prim","p":"nz_i16"}}],"k":"struct","name":"R1_45710"}}],"k":"struct","name":"R2_74858"}}"##),
    rw::<Option<()>>(362, r##"{"k":"opt","t":{"k":"unit"}}"##),
    rw::<()>(363, r##"{"k":"unit"}"##),
    rw::<R3_22667>(364, r##"{"fs":[{"m":"plain","n":"k3_22667_1","px":false,"t":{"k":"opt","t":{"fs":[{"m":"default","n":"k1_43641_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_43641_2","px":false,"t":{"k":"prim","p":"bool"}}],"k":"struct","name":"R1_43641"}}},{"m":"default","n":"k3_22667_2","px":false,"t":{"k":"vec","t":{"fs":[{"m":"plain","n":"k1_59845_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_59845_2","px":false,"t":{"k":"prim","p":"i16"}}],"k":"struct","name":"R1_59845"}}},{"m":"plain","n":"k3_22667_3","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_55248","tag":"t1_55248","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_55248_1","px":false,"t":{"k":"prim","p":"u8"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_55248","px":false,"t":{"k":"prim","p":"nz_u16"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_23822_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_63167_1","px":false,"t":{"k":"prim","p":"nz_u32"}},{"m":"plain","n":"k1_63167_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_63167_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_63167_4","px":false,"t":{"k":"prim","p":"nz_i64"}}],"k":"struct","name":"R1_63167"}},{"m":"plain","n":"k2_23822_3","px":false,"t":{"k":"unit"}}],"k":"struct","name":"R2_23822"}}],"k":"struct","name":"R3_22667"}"##),
    rw::<R4_13658>(365, r##"{"k":"enum","name":"R4_13658","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v4_13658_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v4_13658_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v4_13658_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v4_13658_4","x":-1}]}"##),
    rw::<[R1_31400; 2]>(366, r##"{"k":"arr","n":2,"t":{"k":"enum","name":"R1_31400","tag":"t1_31400","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_31400_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_31400","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}"##),
    rw::<(R2_82703, Option<R1_29072>)>(367, r##"{"k":"tup","ts":[{"k":"enum","name":"R2_82703","tag":"t2_82703","vs":[{"d":-1,"fs":[{"m":"default","n":"k2_82703_1","px":false,"t":{"fs":[{"m":"plain","n":"k1_75854_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_75854_2","px":false,"t":{"k":"prim","p":"i64"}},{"m":"plain","n":"k1_75854_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_75854"}},{"m":"default","n":"k2_82703_2","px":false,"t":{"k":"unit"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k1_96655_1","px":false,"t":{"k":"prim","p":"nz_u8"}},{"m":"default","n":"k1_96655_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_96655_3","px":false,"t":{"k":"prim","p":"i16"}}],"k":"struct","name":"R1_96655"}}],"k":"inner","n":"W","x":-1}]},{"k":"opt","t":{"fs":[{"m":"default","n":"k1_29072_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_29072_2","px":false,"t":{"k":"prim","p":"even"}},{"m":"plain","n":"k1_29072_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_29072"}}]}"##),
    rw::<()>(368, r##"{"k":"unit"}"##),
    rw::<R2_77613>(369, r##"{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_64517_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_64517_2","px":false,"t":{"k":"prim","p":"bool"}}],"k":"struct","name":"R1_64517"}},{"m":"default","n":"k2_77613_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_77613_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"R2_77613"}"##),
    rw::<R3_68604>(370, r##"{"k":"enum","name":"R3_68604","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v3_68604_1","x":-1}]}"##),
    rw::<R4_59595>(371, r##"{"k":"enum","name":"R4_59595","tag":"t4_59595","vs":[{"d":-1,"fs":[{"m":"plain","n":"k4_59595_1","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"nz_u8"}}}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x4_59595","px":false,"t":{"k":"opt","t":{"fs":[{"m":"default","n":"k2_16760_1","px":false,"t":{"k":"unit"}},{"m":"plain","n":"k2_16760_2","px":false,"t":{"k":"arr","n":3,"t":{"k":"prim","p":"nz_u8"}}},{"m":"plain","n":"k2_16760_3","px":false,"t":{"k":"enum","name":"R1_42077","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_42077_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_42077_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_42077_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_42077_4","x":-1}]}}],"k":"struct","name":"R2_16760"}}}],"k":"fields","n":"X","x":50}]}"##),
    rw::<[Option<Leaf>; 1]>(372, r##"{"k":"arr","n":1,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}"##),
    rw::<([R1_26808; 3], ())>(373, r##"{"k":"tup","ts":[{"k":"arr","n":3,"t":{"k":"enum","name":"R1_26808","tag":"t1_26808","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_26808_1","px":false,"t":{"k":"prim","p":"u32"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_26808","px":false,"t":{"k":"prim","p":"nz_u64"}}],"k":"fields","n":"X","x":50}]}},{"k":"unit"}]}"##),
    rw::<R4_32568>(374, r##"{"fs":[{"m":"plain","n":"k4_32568_1","px":false,"t":{"k":"tup","ts":[{"k":"enum","name":"R2_93881","tag":"t2_93881","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_93881_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u32"}}},{"m":"plain","n":"k2_93881_2","px":false,"t":{"k":"enum","name":"R1_10329","tag":"t1_10329","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_10329_1","px":false,"t":{"k":"prim","p":"u32"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_10329","px":false,"t":{"k":"prim","p":"bool"}}],"k":"fields","n":"X","x":50}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_93881","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"X","x":50}]},{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}]}},{"m":"plain","n":"k4_32568_2","px":false,"t":{"k":"enum","name":"R3_28978","tag":"t3_28978","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_28978_1","px":false,"t":{"k":"tup","ts":[{"k":"opt","t":{"k":"prim","p":"leaf"}},{"fs":[{"m":"default","n":"k1_32130_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_32130_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_32130_3","px":false,"t":{"k":"prim","p":"nz_i64"}}],"k":"struct","name":"R1_32130"}]}},{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R2_97203","tag":"t2_97203","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_97203_1","px":false,"t":{"fs":[{"m":"plain","n":"k1_11695_1","px":false,"t":{"k":"prim","p":"nz_u64"}}],"k":"struct","name":"R1_11695"}},{"m":"plain","n":"k2_97203_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_97203","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"X","x":50}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_27899_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_27899"}},{"m":"plain","n":"k2_5131_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"default","n":"k2_5131_3","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"leaf"}]}},{"m":"plain","n":"k2_5131_4","px":false,"t":{"k":"enum","name":"R1_51656","tag":"t1_51656","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_51656_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_51656_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_51656","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_5131"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R2_10094","tag":"t2_10094","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_10094_1","px":false,"t":{"k":"enum","name":"R1_33433","tag":"t1_33433","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_33433_1","px":false,"t":{"k":"prim","p":"i16"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_33433","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_10094_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_41352_1","px":false,"t":{"k":"prim","p":"nz_i64"}},{"m":"default","n":"k1_41352_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_41352_3","px":false,"t":{"k":"prim","p":"i16"}}],"k":"struct","name":"R1_41352"}},{"m":"plain","n":"k2_10094_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"i16"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_10094","px":false,"t":{"k":"enum","name":"R1_54234","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_54234_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_54234_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_54234_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_54234_4","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_54234_5","x":135}]}}],"k":"fields","n":"X","x":50}]}}],"k":"inner","n":"W","x":-1}]}},{"m":"plain","n":"k4_32568_3","px":false,"t":{"fs":[{"m":"plain","n":"k3_36897_1","px":false,"t":{"k":"tup","ts":[{"k":"arr","n":3,"t":{"k":"prim","p":"leaf"}},{"k":"unit"}]}},{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R2_13416","tag":"t2_13416","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_13416_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"i8"}}},{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_50637","tag":"t1_50637","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_50637_1","px":false,"t":{"k":"prim","p":"i16"}},{"m":"default","n":"k1_50637_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_50637_3","px":false,"t":{"k":"prim","p":"u64"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_50637","px":false,"t":{"k":"prim","p":"nz_i32"}}],"k":"fields","n":"X","x":50}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_58556_1","px":false,"t":{"k":"prim","p":"nz_i32"}},{"m":"plain","n":"k1_58556_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_58556"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_13416","px":false,"t":{"k":"arr","n":1,"t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k3_36897_3","px":false,"t":{"fs":[{"m":"plain","n":"k2_21335_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"i32"}}},{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_66841","tag":"t1_66841","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_66841_1","px":false,"t":{"k":"prim","p":"i32"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_66841","px":false,"t":{"k":"prim","p":"nz_u8"}}],"k":"fields","n":"X","x":50}]}},{"m":"default","n":"k2_21335_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_74760_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_74760_2","px":false,"t":{"k":"prim","p":"char"}}],"k":"struct","name":"R1_74760"}},{"m":"plain","n":"k2_21335_4","px":false,"t":{"fs":[{"m":"plain","n":"k1_82679_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_82679"}}],"k":"struct","name":"R2_21335"}},{"m":"plain","n":"k3_36897_4","px":false,"t":{"k":"unit"}}],"k":"struct","name":"R3_36897"}}],"k":"struct","name":"R4_32568"}"##),
    rw::<R2_23559>(375, r##"{"fs":[{"m":"plain","n":"k2_23559_1","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_80281_1","px":false,"t":{"k":"prim","p":"even"}},{"m":"default","n":"k1_80281_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_80281_3","px":false,"t":{"k":"prim","p":"nz_u32"}}],"k":"struct","name":"R1_80281"}},{"m":"default","n":"k2_23559_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_u64"}}},{"m":"plain","n":"k2_23559_4","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"R2_23559"}"##),
    rw::<R3_14550>(376, r##"{"k":"enum","name":"R3_14550","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v3_14550_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v3_14550_2","x":114}]}"##),
    rw::<[R3_95778; 2]>(377, r##"{"k":"arr","n":2,"t":{"fs":[{"m":"plain","n":"k3_95778_1","px":false,"t":{"k":"vec","t":{"k":"vec","t":{"k":"prim","p":"nz_i64"}}}},{"m":"plain","n":"k3_95778_2","px":false,"t":{"fs":[{"m":"plain","n":"k2_34022_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_34022_2","px":false,"t":{"k":"enum","name":"R1_44239","tag":"t1_44239","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_44239_1","px":false,"t":{"k":"prim","p":"even"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_44239","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_34022_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_52158_1","px":false,"t":{"k":"prim","p":"u32"}}],"k":"struct","name":"R1_52158"}}],"k":"struct","name":"R2_34022"}},{"m":"default","n":"k3_95778_3","px":false,"t":{"k":"unit"}},{"m":"plain","n":"k3_95778_4","px":false,"t":{"k":"arr","n":1,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}}],"k":"struct","name":"R3_95778"}}"##),
    rw::<(Option<u8>, R1_62928)>(378, r##"{"k":"tup","ts":[{"k":"opt","t":{"k":"prim","p":"u8"}},{"fs":[{"m":"plain","n":"k1_62928_1","px":false,"t":{"k":"prim","p":"nz_u32"}},{"m":"default","n":"k1_62928_2","px":false,"t":{"k":"prim","p":"str"}},{"m":"plain","n":"k1_62928_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_62928"}]}"##),
    rw::<R3_87514>(379, r##"{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_98200_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_98200_2","px":false,"t":{"k":"prim","p":"nz_u16"}},{"m":"plain","n":"k1_98200_3","px":false,"t":{"k":"prim","p":"str"}}],"k":"struct","name":"R1_98200"}},{"m":"default","n":"k2_77592_2","px":false,"t":{"k":"unit"}},{"m":"plain","n":"k2_77592_3","px":false,"t":{"k":"arr","n":1,"t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"R2_77592"}},{"m":"plain","n":"k3_87514_2","px":false,"t":{"k":"arr","n":1,"t":{"fs":[{"m":"plain","n":"k1_35214_1","px":false,"t":{"k":"prim","p":"nz_i8"}},{"m":"default","n":"k1_35214_2","px":false,"t":{"k":"prim","p":"u32"}},{"m":"plain","n":"k1_35214_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_35214"}}},{"m":"plain","n":"k3_87514_3","px":false,"t":{"k":"enum","name":"R2_93430","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v2_93430_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v2_93430_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v2_93430_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v2_93430_4","x":-1}]}}],"k":"struct","name":"R3_87514"}"##),
    rw::<R4_78505>(380, r##"{"fs":[{"m":"plain","n":"k4_78505_1","px":false,"t":{"k":"opt","t":{"k":"vec","t":{"k":"opt","t":{"k":"prim","p":"u8"}}}}},{"m":"plain","n":"k4_78505_2","px":false,"t":{"k":"enum","name":"R3_36823","tag":"t3_36823","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_36823_1","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"k1_48111_1","px":false,"t":{"k":"prim","p":"nz_u8"}}],"k":"struct","name":"R1_48111"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x3_36823","px":false,"t":{"k":"vec","t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k4_78505_3","px":false,"t":{"fs":[{"m":"default","n":"k3_44742_1","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}},{"m":"plain","n":"k3_44742_2","px":false,"t":{"k":"tup","ts":[{"k":"opt","t":{"k":"prim","p":"leaf"}},{"k":"enum","name":"R1_11185","tag":"t1_11185","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_11185_1","px":false,"t":{"k":"prim","p":"nz_i16"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_11185","px":false,"t":{"k":"prim","p":"u32"}}],"k":"fields","n":"X","x":50}]}]}}],"k":"struct","name":"R3_44742"}},{"m":"plain","n":"k4_78505_4","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"fs":[{"m":"plain","n":"k1_48108_1","px":false,"t":{"k":"prim","p":"nz_u32"}},{"m":"plain","n":"k1_48108_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_48108_3","px":false,"t":{"k":"prim","p":"i64"}},{"m":"plain","n":"k1_48108_4","px":false,"t":{"k":"prim","p":"nz_u8"}}],"k":"struct","name":"R1_48108"}}}}],"k":"struct","name":"R4_78505"}"##),
    rw::<R2_69496>(381, r##"{"k":"enum","name":"R2_69496","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v2_69496_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v2_69496_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v2_69496_3","x":-1}]}"##),
    rw::<R3_60487>(382, r##"{"k":"enum","name":"R3_60487","tag":"t3_60487","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_60487_1","px":false,"t":{"k":"vec","t":{"k":"tup","ts":[{"k":"prim","p":"char"},{"k":"prim","p":"leaf"}]}}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"default","n":"k2_39438_1","px":false,"t":{"k":"unit"}},{"m":"plain","n":"k2_39438_2","px":false,"t":{"k":"vec","t":{"k":"prim","p":"nz_u16"}}},{"m":"plain","n":"k2_39438_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_45323_1","px":false,"t":{"k":"prim","p":"nz_u64"}},{"m":"default","n":"k1_45323_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_45323_3","px":false,"t":{"k":"prim","p":"i64"}},{"m":"plain","n":"k1_45323_4","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_45323"}}],"k":"struct","name":"R2_39438"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x3_60487","px":false,"t":{"k":"enum","name":"R2_52320","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v2_52320_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v2_52320_2","x":114}]}}],"k":"fields","n":"X","x":50}]}"##),
    rw::<(R3_3632, Option<[(Leaf, Leaf); 3]>)>(383, r##"{"k":"tup","ts":[{"fs":[{"m":"plain","n":"k3_3632_1","px":false,"t":{"k":"tup","ts":[{"k":"opt","t":{"k":"prim","p":"leaf"}},{"k":"enum","name":"R1_88574","tag":"t1_88574","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_88574_1","px":false,"t":{"k":"prim","p":"i64"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_88574","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}]}},{"m":"plain","n":"k3_3632_2","px":false,"t":{"k":"enum","name":"R2_64166","tag":"t2_64166","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_68139_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_68139_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_68139_3","px":false,"t":{"k":"prim","p":"nz_u16"}},{"m":"plain","n":"k1_68139_4","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_68139"}},{"m":"plain","n":"k2_64166_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_u16"}}},{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_83977","tag":"t1_83977","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_83977_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_83977_2","px":false,"t":{"k":"prim","p":"str"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_83977","px":false,"t":{"k":"prim","p":"str"}}],"k":"fields","n":"X","x":50}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_64166","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R3_3632"},{"k":"opt","t":{"k":"arr","n":3,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"leaf"}]}}}]}"##),
    rw::<Option<R1_54935>>(384, r##"{"k":"opt","t":{"fs":[{"m":"plain","n":"k1_54935_1","px":false,"t":{"k":"prim","p":"i64"}},{"m":"plain","n":"k1_54935_2","px":false,"t":{"k":"prim","p":"nz_u8"}},{"m":"default","n":"k1_54935_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_54935_4","px":false,"t":{"k":"prim","p":"i8"}}],"k":"struct","name":"R1_54935"}}"##),
    rw::<R3_33460>(385, r##"{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_28353","tag":"t1_28353","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_28353_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_28353","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_85437"}},{"m":"plain","n":"k3_33460_2","px":false,"t":{"k":"opt","t":{"k":"enum","name":"R1_65358","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_65358_1","x":-1}]}}},{"m":"plain","n":"k3_33460_3","px":false,"t":{"k":"enum","name":"R2_1284","tag":"t2_1284","vs":[{"d":-1,"fs":[{"m":"default","n":"k2_1284_1","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_1284","px":false,"t":{"k":"enum","name":"R1_81562","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_81562_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_81562_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_81562_3","x":-1}]}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k3_33460_4","px":false,"t":{"k":"enum","name":"R2_9203","tag":"t2_9203","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_9203_1","px":false,"t":{"k":"vec","t":{"k":"prim","p":"even"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_9203","px":false,"t":{"k":"enum","name":"R1_97766","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_97766_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_97766_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_97766_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_97766_4","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_97766_5","x":135}]}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R3_33460"}"##),
    rw::<R4_24451>(386, r##"{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"default","n":"k3_36749_1","px":false,"t":{"k":"unit"}},{"m":"plain","n":"k3_36749_2","px":false,"t":{"k":"vec","t":{"k":"arr","n":3,"t":{"k":"prim","p":"leaf"}}}},{"m":"plain","n":"k3_36749_3","px":false,"t":{"fs":[{"m":"plain","n":"k2_49215_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"char"}}},{"m":"default","n":"k2_49215_2","px":false,"t":{"k":"vec","t":{"k":"prim","p":"i64"}}},{"m":"plain","n":"k2_49215_3","px":false,"t":{"k":"enum","name":"R1_76352","tag":"t1_76352","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_76352_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_76352","px":false,"t":{"k":"prim","p":"nz_u8"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_49215_4","px":false,"t":{"fs":[{"m":"plain","n":"k1_84271_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_84271"}}],"k":"struct","name":"R2_49215"}}],"k":"struct","name":"R3_36749"}}],"k":"struct","name":"R4_24451"}"##),
    rw::<R2_15442>(387, r##"{"k":"enum","name":"R2_15442","tag":"t2_15442","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_15442_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_u8"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_15442","px":false,"t":{"k":"opt","t":{"k":"prim","p":"i32"}}}],"k":"fields","n":"X","x":50}]}"##),
    rw::<R3_6433>(388, r##"{"k":"enum","name":"R3_6433","tag":"t3_6433","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_6433_1","px":false,"t":{"k":"tup","ts":[{"k":"opt","t":{"k":"prim","p":"nz_u64"}},{"k":"enum","name":"R1_80064","tag":"t1_80064","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_80064_1","px":false,"t":{"k":"prim","p":"nz_i8"}},{"m":"plain","n":"k1_80064_2","px":false,"t":{"k":"prim","p":"u16"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_80064","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x3_6433","px":false,"t":{"k":"tup","ts":[{"fs":[{"m":"default","n":"k1_2177_1","px":false,"t":{"k":"prim","p":"str"}},{"m":"plain","n":"k1_2177_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_2177_3","px":false,"t":{"k":"prim","p":"nz_i64"}}],"k":"struct","name":"R1_2177"},{"k":"vec","t":{"k":"prim","p":"str"}}]}}],"k":"fields","n":"X","x":50}]}"##),
    rw::<(Vec<Option<R1_42506>>, Option<()>)>(389, r##"{"k":"tup","ts":[{"k":"vec","t":{"k":"opt","t":{"k":"enum","name":"R1_42506","tag":"t1_42506","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_42506_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_42506","px":false,"t":{"k":"prim","p":"u16"}}],"k":"fields","n":"X","x":50}]}}},{"k":"opt","t":{"k":"unit"}}]}"##),
    rw::<Option<R1_62780>>(390, r##"{"k":"opt","t":{"k":"enum","name":"R1_62780","tag":"t1_62780","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_62780_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_62780_2","px":false,"t":{"k":"prim","p":"f32"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_62780","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}"##),
    rw::<R3_79397>(391, r##"{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k2_93282_1","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"leaf"}]}},{"m":"plain","n":"k2_93282_2","px":false,"t":{"k":"enum","name":"R1_66416","tag":"t1_66416","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_66416_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_66416_2","px":false,"t":{"k":"prim","p":"str"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_66416","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_93282_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_74335_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_74335_2","px":false,"t":{"k":"prim","p":"u8"}},{"m":"plain","n":"k1_74335_3","px":false,"t":{"k":"prim","p":"nz_u16"}},{"m":"plain","n":"k1_74335_4","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_74335"}}],"k":"struct","name":"R2_93282"}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"default","n":"k2_1210_1","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"leaf"}]}},{"m":"plain","n":"k2_1210_2","px":false,"t":{"k":"enum","name":"R1_82620","tag":"t1_82620","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_82620_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_82620_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_82620_3","px":false,"t":{"k":"prim","p":"u16"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_82620","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_1210"}},{"m":"plain","n":"k3_79397_3","px":false,"t":{"k":"opt","t":{"k":"arr","n":3,"t":{"k":"prim","p":"leaf"}}}},{"m":"plain","n":"k3_79397_4","px":false,"t":{"k":"enum","name":"R2_17048","tag":"t2_17048","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_17048_1","px":false,"t":{"k":"arr","n":1,"t":{"k":"prim","p":"i16"}}},{"m":"plain","n":"k2_17048_2","px":false,"t":{"k":"vec","t":{"k":"prim","p":"nz_i64"}}},{"m":"plain","n":"k2_17048_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_22956_1","px":false,"t":{"k":"prim","p":"nz_u8"}},{"m":"default","n":"k1_22956_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_22956_3","px":false,"t":{"k":"prim","p":"i16"}}],"k":"struct","name":"R1_22956"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_17048","px":false,"t":{"k":"arr","n":1,"t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R3_79397"}"##),
    rw::<R4_70388>(392, r##"{"fs":[{"m":"plain","n":"k4_70388_1","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_59925_1","px":false,"t":{"k":"prim","p":"u32"}},{"m":"plain","n":"k1_59925_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_59925"}},{"m":"default","n":"k2_63521_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_i8"}}},{"m":"plain","n":"k2_63521_3","px":false,"t":{"k":"enum","name":"R1_75763","tag":"t1_75763","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_75763_1","px":false,"t":{"k":"prim","p":"nz_i8"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_75763","px":false,"t":{"k":"prim","p":"u16"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_63521"}}],"k":"struct","name":"R3_44594"}}],"k":"struct","name":"R4_70388"}"##),
    rw::<R2_61379>(393, r##"{"k":"enum","name":"R2_61379","tag":"t2_61379","vs":[{"d":-1,"fs":[{"m":"default","n":"k2_61379_1","px":false,"t":{"fs":[{"m":"default","n":"k1_95897_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_95897_2","px":false,"t":{"k":"prim","p":"char"}}],"k":"struct","name":"R1_95897"}},{"m":"plain","n":"k2_61379_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_61379_3","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"unit"}}],"k":"inner","n":"W","x":-1}]}"##),
    rw::<R3_52370>(394, r##"{"k":"enum","name":"R3_52370","tag":"t3_52370","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_52370_1","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_73569_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_73569"}},{"m":"plain","n":"k2_47209_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_47209_3","px":false,"t":{"k":"enum","name":"R1_89407","tag":"t1_89407","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_89407_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_89407_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_89407_3","px":false,"t":{"k":"prim","p":"i16"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_89407","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_47209_4","px":false,"t":{"k":"enum","name":"R1_97326","tag":"t1_97326","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_97326_1","px":false,"t":{"k":"prim","p":"char"}},{"m":"plain","n":"k1_97326_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_97326","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_47209"}},{"m":"plain","n":"k3_52370_2","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"k1_10583_1","px":false,"t":{"k":"prim","p":"nz_u8"}}],"k":"struct","name":"R1_10583"}}},{"m":"plain","n":"k3_52370_3","px":false,"t":{"k":"enum","name":"R2_63047","tag":"t2_63047","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_63047_1","px":false,"t":{"k":"enum","name":"R1_5986","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_5986_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_5986_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_5986_3","x":-1}]}},{"m":"plain","n":"k2_63047_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_13905_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_13905_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_13905_3","px":false,"t":{"k":"prim","p":"even"}}],"k":"struct","name":"R1_13905"}},{"m":"plain","n":"k2_63047_3","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"even"},{"k":"prim","p":"nz_u32"}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k1_26787_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_26787"}}],"k":"inner","n":"W","x":-1}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x3_52370","px":false,"t":{"k":"opt","t":{"k":"enum","name":"R1_32321","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_32321_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_32321_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_32321_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_32321_4","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_32321_5","x":135}]}}}],"k":"fields","n":"X","x":50}]}"##),
    rw::<Option<(Option<Option<Leaf>>, R2_53183)>>(395, r##"{"k":"opt","t":{"k":"tup","ts":[{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"k":"enum","name":"R2_53183","tag":"t2_53183","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_53183_1","px":false,"t":{"fs":[{"m":"default","n":"k1_85932_1","px":false,"t":{"k":"prim","p":"i16"}},{"m":"plain","n":"k1_85932_2","px":false,"t":{"k":"prim","p":"nz_i32"}},{"m":"plain","n":"k1_85932_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_85932"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"unit"}}],"k":"inner","n":"W","x":-1}]}]}}"##),
    rw::<Option<Vec<Leaf>>>(396, r##"{"k":"opt","t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}"##),
    rw::<R3_25343>(397, r##"{"fs":[{"m":"plain","n":"k3_25343_1","px":false,"t":{"k":"arr","n":1,"t":{"k":"vec","t":{"k":"prim","p":"nz_i8"}}}}],"k":"struct","name":"R3_25343"}"##),
    rw::<R4_16334>(398, r##"{"fs":[{"m":"plain","n":"k4_16334_1","px":false,"t":{"k":"enum","name":"R3_52439","tag":"t3_52439","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_52439_1","px":false,"t":{"k":"enum","name":"R2_93665","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v2_93665_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v2_93665_2","x":114}]}},{"m":"plain","n":"k3_52439_2","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_7957","tag":"t1_7957","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_7957_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_7957_2","px":false,"t":{"k":"prim","p":"nz_i8"}},{"m":"plain","n":"k1_7957_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_7957","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"default","n":"k2_1593_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_15876_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_15876"}},{"m":"plain","n":"k2_1593_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"R2_1593"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k2_14475_1","px":false,"t":{"k":"arr","n":1,"t":{"k":"prim","p":"nz_i64"}}}],"k":"struct","name":"R2_14475"}}],"k":"inner","n":"W","x":-1}]}},{"m":"plain","n":"k4_16334_2","px":false,"t":{"fs":[{"m":"plain","n":"k3_60358_1","px":false,"t":{"k":"enum","name":"R2_9878","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v2_9878_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v2_9878_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v2_9878_3","x":-1}]}},{"m":"plain","n":"k3_60358_2","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_38980_1","px":false,"t":{"k":"prim","p":"f32"}}],"k":"struct","name":"R1_38980"}},{"m":"default","n":"k2_17797_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_i64"}}},{"m":"plain","n":"k2_17797_3","px":false,"t":{"k":"enum","name":"R1_54818","tag":"t1_54818","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_54818_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_54818_2","px":false,"t":{"k":"prim","p":"f64"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_54818","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_17797"}}],"k":"struct","name":"R3_60358"}}],"k":"struct","name":"R4_16334"}"##),
    rw::<R2_7325>(399, r##"{"k":"enum","name":"R2_7325","tag":"t2_7325","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_7325_1","px":false,"t":{"k":"enum","name":"R1_3751","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_3751_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_3751_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_3751_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_3751_4","x":-1}]}},{"m":"default","n":"k2_7325_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_11670_1","px":false,"t":{"k":"prim","p":"i16"}},{"m":"default","n":"k1_11670_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_11670_3","px":false,"t":{"k":"prim","p":"u64"}},{"m":"plain","n":"k1_11670_4","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_11670"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k1_24552_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_24552"}}],"k":"inner","n":"W","x":-1}]}"##),
    rw::<R3_98307>(400, r##"{"k":"enum","name":"R3_98307","tag":"t3_98307","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"default","n":"k2_55054_1","px":false,"t":{"fs":[{"m":"default","n":"k1_3722_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_3722_2","px":false,"t":{"k":"prim","p":"even"}}],"k":"struct","name":"R1_3722"}},{"m":"plain","n":"k2_55054_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_11641_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_11641"}}],"k":"struct","name":"R2_55054"}},{"m":"default","n":"k3_98307_2","px":false,"t":{"k":"opt","t":{"fs":[{"m":"default","n":"k1_40727_1","px":false,"t":{"k":"prim","p":"u64"}},{"m":"plain","n":"k1_40727_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_40727"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"unit"}}],"k":"inner","n":"W","x":-1}]}"##),
    ]);
}

fn part10(v: &mut Vec<Entry>) {
    v.extend([
    rw::<Option<Option<R2_67489>>>(401, r##"{"k":"opt","t":{"k":"opt","t":{"fs":[{"m":"default","n":"k2_67489_1","px":false,"t":{"fs":[{"m":"plain","n":"k1_85343_1","px":false,"t":{"k":"prim","p":"str"}},{"m":"default","n":"k1_85343_2","px":false,"t":{"k":"prim","p":"i64"}},{"m":"default","n":"k1_85343_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_85343"}},{"m":"plain","n":"k2_67489_2","px":false,"t":{"k":"unit"}}],"k":"struct","name":"R2_67489"}}}"##),
    rw::<Option<(std::num::NonZeroI16, Leaf)>>(402, r##"{"k":"opt","t":{"k":"tup","ts":[{"k":"prim","p":"nz_i16"},{"k":"prim","p":"leaf"}]}}"##),
    rw::<R3_71280>(403, r##"{"fs":[{"m":"plain","n":"k3_71280_1","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"i32"}}}},{"m":"plain","n":"k3_71280_2","px":false,"t":{"k":"enum","name":"R2_16900","tag":"t2_16900","vs":[{"d":-1,"fs":[{"m":"default","n":"k2_16900_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_16900","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R3_71280"}"##),
    rw::<R4_62271>(404, r##"{"fs":[{"m":"default","n":"k4_62271_1","px":false,"t":{"k":"arr","n":3,"t":{"fs":[{"m":"default","n":"k2_44619_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u64"}}},{"m":"plain","n":"k2_44619_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"i8"}}}],"k":"struct","name":"R2_44619"}}},{"m":"plain","n":"k4_62271_2","px":false,"t":{"k":"enum","name":"R3_68203","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v3_68203_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v3_68203_2","x":114}]}},{"m":"plain","n":"k4_62271_3","px":false,"t":{"fs":[{"m":"default","n":"k3_76122_1","px":false,"t":{"k":"arr","n":1,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}},{"m":"plain","n":"k3_76122_2","px":false,"t":{"k":"enum","name":"R2_64145","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v2_64145_1","x":-1}]}},{"m":"plain","n":"k3_76122_3","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_18035_1","px":false,"t":{"k":"prim","p":"even"}}],"k":"struct","name":"R1_18035"}},{"m":"default","n":"k2_72064_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_u16"}}},{"m":"plain","n":"k2_72064_3","px":false,"t":{"k":"enum","name":"R1_33873","tag":"t1_33873","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_33873_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_33873_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_33873_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_33873","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_72064"}}],"k":"struct","name":"R3_76122"}}],"k":"struct","name":"R4_62271"}"##),
    rw::<R2_53262>(405, r##"{"k":"enum","name":"R2_53262","tag":"t2_53262","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_11596","tag":"t1_11596","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_11596_1","px":false,"t":{"k":"prim","p":"bool"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_11596","px":false,"t":{"k":"prim","p":"nz_i16"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_53262_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_19515_1","px":false,"t":{"k":"prim","p":"nz_i16"}},{"m":"plain","n":"k1_19515_2","px":false,"t":{"k":"prim","p":"u64"}}],"k":"struct","name":"R1_19515"}},{"m":"plain","n":"k2_53262_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k1_32397_1","px":false,"t":{"k":"prim","p":"u32"}},{"m":"default","n":"k1_32397_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_32397_3","px":false,"t":{"k":"prim","p":"even"}}],"k":"struct","name":"R1_32397"}}],"k":"inner","n":"W","x":-1}]}"##),
    rw::<Vec<R2_83700>>(406, r##"{"k":"vec","t":{"k":"enum","name":"R2_83700","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v2_83700_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v2_83700_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v2_83700_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v2_83700_4","x":-1}]}}"##),
    rw::<Option<R3_35012>>(407, r##"{"k":"opt","t":{"fs":[{"m":"plain","n":"k3_35012_1","px":false,"t":{"k":"enum","name":"R2_76832","tag":"t2_76832","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_79220_1","px":false,"t":{"k":"prim","p":"nz_u32"}}],"k":"struct","name":"R1_79220"}},{"m":"default","n":"k2_76832_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_76832","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k3_35012_2","px":false,"t":{"fs":[{"m":"default","n":"k2_84751_1","px":false,"t":{"fs":[{"m":"plain","n":"k1_95424_1","px":false,"t":{"k":"prim","p":"bool"}}],"k":"struct","name":"R1_95424"}},{"m":"plain","n":"k2_84751_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u64"}}}],"k":"struct","name":"R2_84751"}}],"k":"struct","name":"R3_35012"}}"##),
    rw::<()>(408, r##"{"k":"unit"}"##),
    rw::<R3_17226>(409, r##"{"fs":[{"m":"default","n":"k3_17226_1","px":false,"t":{"k":"unit"}},{"m":"plain","n":"k3_17226_2","px":false,"t":{"k":"vec","t":{"k":"unit"}}}],"k":"struct","name":"R3_17226"}"##),
    rw::<R4_8217>(410, r##"{"fs":[{"m":"plain","n":"k4_8217_1","px":false,"t":{"k":"opt","t":{"k":"enum","name":"R2_74763","tag":"t2_74763","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_93333_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_93333"}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_1261_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_1261_2","px":false,"t":{"k":"prim","p":"nz_i16"}},{"m":"default","n":"k1_1261_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_1261_4","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_1261"}},{"m":"default","n":"k2_74763_3","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"even"}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k1_14143_1","px":false,"t":{"k":"prim","p":"nz_i8"}}],"k":"struct","name":"R1_14143"}}],"k":"inner","n":"W","x":-1}]}}},{"m":"plain","n":"k4_8217_2","px":false,"t":{"k":"enum","name":"R3_76048","tag":"t3_76048","vs":[{"d":-1,"fs":[{"m":"default","n":"k3_76048_1","px":false,"t":{"k":"opt","t":{"k":"enum","name":"R1_7224","tag":"t1_7224","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_7224_1","px":false,"t":{"k":"prim","p":"nz_u32"}},{"m":"plain","n":"k1_7224_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_7224","px":false,"t":{"k":"prim","p":"str"}}],"k":"fields","n":"X","x":50}]}}},{"m":"plain","n":"k3_76048_2","px":false,"t":{"k":"enum","name":"R2_78085","tag":"t2_78085","vs":[{"d":-1,"fs":[{"m":"default","n":"k2_78085_1","px":false,"t":{"k":"arr","n":1,"t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_78085_2","px":false,"t":{"k":"enum","name":"R1_10546","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_10546_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_10546_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_10546_3","x":-1}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_18465_1","px":false,"t":{"k":"prim","p":"bool"}},{"m":"default","n":"k1_18465_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_18465_3","px":false,"t":{"k":"prim","p":"u32"}}],"k":"struct","name":"R1_18465"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R1_23428","tag":"t1_23428","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_23428_1","px":false,"t":{"k":"prim","p":"bool"}},{"m":"plain","n":"k1_23428_2","px":false,"t":{"k":"prim","p":"even"}},{"m":"plain","n":"k1_23428_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_23428","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"inner","n":"W","x":-1}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R2_90967","tag":"t2_90967","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_90967_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"char"}}},{"m":"default","n":"k2_90967_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"i16"}}},{"m":"plain","n":"k2_90967_3","px":false,"t":{"k":"enum","name":"R1_40203","tag":"t1_40203","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_40203_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_40203_2","px":false,"t":{"k":"prim","p":"nz_i64"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_40203","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_90967","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"X","x":50}]}}],"k":"inner","n":"W","x":-1}]}},{"m":"plain","n":"k4_8217_3","px":false,"t":{"k":"enum","name":"R3_83967","tag":"t3_83967","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_83967_1","px":false,"t":{"k":"opt","t":{"fs":[{"m":"default","n":"k1_38247_1","px":false,"t":{"k":"prim","p":"u32"}},{"m":"plain","n":"k1_38247_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_38247"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R2_7180","tag":"t2_7180","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_7180_1","px":false,"t":{"k":"vec","t":{"k":"prim","p":"nz_u16"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_7180","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"X","x":50}]}}],"k":"inner","n":"W","x":-1}]}}],"k":"struct","name":"R4_8217"}"##),
    rw::<Vec<[Even; 3]>>(411, r##"{"k":"vec","t":{"k":"arr","n":3,"t":{"k":"prim","p":"even"}}}"##),
    rw::<[R2_91545; 1]>(412, r##"{"k":"arr","n":1,"t":{"k":"enum","name":"R2_91545","tag":"t2_91545","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_1961_1","px":false,"t":{"k":"prim","p":"i64"}},{"m":"plain","n":"k1_1961_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_1961_3","px":false,"t":{"k":"prim","p":"f64"}},{"m":"plain","n":"k1_1961_4","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_1961"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_91545","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"X","x":50}]}}"##),
    rw::<Option<R3_42857>>(413, r##"{"k":"opt","t":{"k":"enum","name":"R3_42857","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v3_42857_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v3_42857_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v3_42857_3","x":-1}]}}"##),
    rw::<R2_72172>(414, r##"{"fs":[{"m":"plain","n":"k2_72172_1","px":false,"t":{"k":"enum","name":"R1_73359","tag":"t1_73359","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_73359_1","px":false,"t":{"k":"prim","p":"nz_u64"}},{"m":"plain","n":"k1_73359_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_73359_3","px":false,"t":{"k":"prim","p":"u8"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_73359","px":false,"t":{"k":"prim","p":"even"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_72172_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_81278_1","px":false,"t":{"k":"prim","p":"even"}}],"k":"struct","name":"R1_81278"}}],"k":"struct","name":"R2_72172"}"##),
    rw::<R3_63163>(415, r##"{"fs":[{"m":"plain","n":"k3_63163_1","px":false,"t":{"fs":[{"m":"plain","n":"k2_24671_1","px":false,"t":{"k":"enum","name":"R1_79082","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_79082_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_79082_2","x":114}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_87001_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_87001_2","px":false,"t":{"k":"prim","p":"char"}},{"m":"plain","n":"k1_87001_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_87001"}},{"m":"default","n":"k2_24671_3","px":false,"t":{"k":"arr","n":2,"t":{"k":"prim","p":"i64"}}},{"m":"plain","n":"k2_24671_4","px":false,"t":{"k":"enum","name":"R1_2848","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_2848_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_2848_2","x":114}]}}],"k":"struct","name":"R2_24671"}},{"m":"default","n":"k3_63163_2","px":false,"t":{"k":"unit"}},{"m":"plain","n":"k3_63163_3","px":false,"t":{"k":"arr","n":1,"t":{"fs":[{"m":"plain","n":"k1_32300_1","px":false,"t":{"k":"prim","p":"nz_i8"}},{"m":"plain","n":"k1_32300_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_32300_3","px":false,"t":{"k":"prim","p":"nz_u64"}},{"m":"plain","n":"k1_32300_4","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_32300"}}}],"k":"struct","name":"R3_63163"}"##),
    rw::<R4_54154>(416, r##"{"k":"enum","name":"R4_54154","tag":"t4_54154","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k3_75974_1","px":false,"t":{"k":"opt","t":{"k":"unit"}}}],"k":"struct","name":"R3_75974"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x4_54154","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"k2_42858_1","px":false,"t":{"k":"enum","name":"R1_14904","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_14904_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_14904_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_14904_3","x":-1}]}},{"m":"default","n":"k2_42858_2","px":false,"t":{"k":"unit"}},{"m":"default","n":"k2_42858_3","px":false,"t":{"k":"arr","n":3,"t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_42858_4","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"R2_42858"}}}],"k":"fields","n":"X","x":50}]}"##),
    rw::<Vec<Option<Leaf>>>(417, r##"{"k":"vec","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}"##),
    rw::<Option<[R1_52906; 2]>>(418, r##"{"k":"opt","t":{"k":"arr","n":2,"t":{"fs":[{"m":"plain","n":"k1_52906_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_52906_2","px":false,"t":{"k":"prim","p":"even"}}],"k":"struct","name":"R1_52906"}}}"##),
    rw::<()>(419, r##"{"k":"unit"}"##),
    rw::<R2_18118>(420, r##"{"fs":[{"m":"plain","n":"k2_18118_1","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_18118_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_89123_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_89123_2","px":false,"t":{"k":"prim","p":"nz_u8"}},{"m":"plain","n":"k1_89123_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_89123"}},{"m":"plain","n":"k2_18118_3","px":false,"t":{"k":"unit"}}],"k":"struct","name":"R2_18118"}"##),
    rw::<R3_9109>(421, r##"{"k":"enum","name":"R3_9109","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v3_9109_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v3_9109_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v3_9109_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v3_9109_4","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v3_9109_5","x":135}]}"##),
    rw::<Vec<R3_4629>>(422, r##"{"k":"vec","t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R2_52201","tag":"t2_52201","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_52201_1","px":false,"t":{"fs":[{"m":"plain","n":"k1_8781_1","px":false,"t":{"k":"prim","p":"nz_u64"}}],"k":"struct","name":"R1_8781"}},{"m":"plain","n":"k2_52201_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u32"}}},{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_24619","tag":"t1_24619","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_24619_1","px":false,"t":{"k":"prim","p":"u64"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_24619","px":false,"t":{"k":"prim","p":"nz_u64"}}],"k":"fields","n":"X","x":50}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k1_29582_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_29582"}}],"k":"inner","n":"W","x":-1}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_24985_1","px":false,"t":{"k":"prim","p":"i8"}}],"k":"struct","name":"R1_24985"}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_32904_1","px":false,"t":{"k":"prim","p":"nz_i32"}},{"m":"plain","n":"k1_32904_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_32904_3","px":false,"t":{"k":"prim","p":"bool"}},{"m":"plain","n":"k1_32904_4","px":false,"t":{"k":"prim","p":"nz_i8"}}],"k":"struct","name":"R1_32904"}},{"m":"default","n":"k2_60120_3","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"bool"},{"k":"prim","p":"leaf"}]}},{"m":"plain","n":"k2_60120_4","px":false,"t":{"k":"enum","name":"R1_48742","tag":"t1_48742","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_48742_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_48742_2","px":false,"t":{"k":"prim","p":"nz_i16"}},{"m":"plain","n":"k1_48742_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_48742","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_60120"}},{"m":"default","n":"k3_4629_3","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"k1_61990_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_61990"}}},{"m":"plain","n":"k3_4629_4","px":false,"t":{"k":"enum","name":"R2_75958","tag":"t2_75958","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_75958_1","px":false,"t":{"k":"enum","name":"R1_57393","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_57393_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_57393_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_57393_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_57393_4","x":-1}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_65312_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_65312_2","px":false,"t":{"k":"prim","p":"str"}},{"m":"plain","n":"k1_65312_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_65312"}},{"m":"plain","n":"k2_75958_3","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"leaf"}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k1_78194_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_78194_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_78194_3","px":false,"t":{"k":"prim","p":"nz_i64"}},{"m":"default","n":"k1_78194_4","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_78194"}}],"k":"inner","n":"W","x":-1}]}}],"k":"struct","name":"R3_4629"}}"##),
    rw::<[Option<Leaf>; 2]>(423, r##"{"k":"arr","n":2,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}"##),
    rw::<()>(424, r##"{"k":"unit"}"##),
    rw::<R4_73064>(425, r##"{"fs":[{"m":"default","n":"k4_73064_1","px":false,"t":{"k":"opt","t":{"k":"enum","name":"R2_50132","tag":"t2_50132","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_50132_1","px":false,"t":{"k":"enum","name":"R1_22894","tag":"t1_22894","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_22894_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_22894_2","px":false,"t":{"k":"prim","p":"i8"}},{"m":"plain","n":"k1_22894_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_22894","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_30813_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_30813_2","px":false,"t":{"k":"prim","p":"nz_i16"}},{"m":"default","n":"k1_30813_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_30813_4","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_30813"}},{"m":"plain","n":"k2_50132_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k1_43695_1","px":false,"t":{"k":"prim","p":"nz_i8"}},{"m":"plain","n":"k1_43695_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_43695"}}],"k":"inner","n":"W","x":-1}]}}},{"m":"plain","n":"k4_73064_2","px":false,"t":{"k":"enum","name":"R3_45665","tag":"t3_45665","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_45665_1","px":false,"t":{"k":"arr","n":2,"t":{"k":"enum","name":"R1_36776","tag":"t1_36776","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_36776_1","px":false,"t":{"k":"prim","p":"nz_u64"}},{"m":"plain","n":"k1_36776_2","px":false,"t":{"k":"prim","p":"str"}},{"m":"plain","n":"k1_36776_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_36776","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R2_66336","tag":"t2_66336","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_53917_1","px":false,"t":{"k":"prim","p":"nz_u8"}}],"k":"struct","name":"R1_53917"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_66336","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"X","x":50}]}}],"k":"inner","n":"W","x":-1}]}},{"m":"plain","n":"k4_73064_3","px":false,"t":{"fs":[{"m":"default","n":"k3_53584_1","px":false,"t":{"k":"vec","t":{"fs":[{"m":"default","n":"k1_67799_1","px":false,"t":{"k":"prim","p":"u64"}},{"m":"plain","n":"k1_67799_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_67799"}}},{"m":"plain","n":"k3_53584_2","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_63202","tag":"t1_63202","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_63202_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_63202_2","px":false,"t":{"k":"prim","p":"nz_i64"}},{"m":"plain","n":"k1_63202_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_63202","px":false,"t":{"k":"prim","p":"nz_i64"}}],"k":"fields","n":"X","x":50}]}},{"m":"default","n":"k2_69658_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_71121_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_71121"}},{"m":"plain","n":"k2_69658_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_69658_4","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"i16"}]}}],"k":"struct","name":"R2_69658"}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k2_77577_1","px":false,"t":{"k":"enum","name":"R1_79406","tag":"t1_79406","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_79406_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_79406_2","px":false,"t":{"k":"prim","p":"nz_u16"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_79406","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_77577_2","px":false,"t":{"k":"enum","name":"R1_87325","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_87325_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_87325_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_87325_3","x":-1}]}}],"k":"struct","name":"R2_77577"}}],"k":"struct","name":"R3_53584"}}],"k":"struct","name":"R4_73064"}"##),
    rw::<R2_64055>(426, r##"{"fs":[{"m":"plain","n":"k2_64055_1","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"leaf"}]}},{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_96968","tag":"t1_96968","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_96968_1","px":false,"t":{"k":"prim","p":"nz_u8"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_96968","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_64055_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_4896_1","px":false,"t":{"k":"prim","p":"str"}},{"m":"plain","n":"k1_4896_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_4896_3","px":false,"t":{"k":"prim","p":"nz_u8"}},{"m":"plain","n":"k1_4896_4","px":false,"t":{"k":"prim","p":"f32"}}],"k":"struct","name":"R1_4896"}},{"m":"plain","n":"k2_64055_4","px":false,"t":{"k":"unit"}}],"k":"struct","name":"R2_64055"}"##),
    rw::<R3_55046>(427, r##"{"k":"enum","name":"R3_55046","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v3_55046_1","x":-1}]}"##),
    rw::<[R3_12474; 1]>(428, r##"{"k":"arr","n":1,"t":{"k":"enum","name":"R3_12474","tag":"t3_12474","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_12474_1","px":false,"t":{"k":"enum","name":"R2_82345","tag":"t2_82345","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_82345_1","px":false,"t":{"k":"enum","name":"R1_40600","tag":"t1_40600","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_40600_1","px":false,"t":{"k":"prim","p":"even"}},{"m":"plain","n":"k1_40600_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_40600","px":false,"t":{"k":"prim","p":"u16"}}],"k":"fields","n":"X","x":50}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k1_61401_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_61401"}}],"k":"inner","n":"W","x":-1}]}},{"m":"plain","n":"k3_12474_2","px":false,"t":{"fs":[{"m":"plain","n":"k2_90264_1","px":false,"t":{"k":"enum","name":"R1_56804","tag":"t1_56804","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_56804_1","px":false,"t":{"k":"prim","p":"nz_i8"}},{"m":"plain","n":"k1_56804_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_56804_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_56804","px":false,"t":{"k":"prim","p":"u64"}}],"k":"fields","n":"X","x":50}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_64723_1","px":false,"t":{"k":"prim","p":"u64"}},{"m":"plain","n":"k1_64723_2","px":false,"t":{"k":"prim","p":"bool"}},{"m":"default","n":"k1_64723_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_64723_4","px":false,"t":{"k":"prim","p":"u8"}}],"k":"struct","name":"R1_64723"}}],"k":"struct","name":"R2_90264"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R2_3155","tag":"t2_3155","vs":[{"d":-1,"fs":[{"m":"default","n":"k2_3155_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_3155_2","px":false,"t":{"k":"enum","name":"R1_86461","tag":"t1_86461","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_86461_1","px":false,"t":{"k":"prim","p":"char"}},{"m":"default","n":"k1_86461_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_86461_3","px":false,"t":{"k":"prim","p":"nz_i64"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_86461","px":false,"t":{"k":"prim","p":"i32"}}],"k":"fields","n":"X","x":50}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_3155","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"X","x":50}]}}],"k":"inner","n":"W","x":-1}]}}"##),
    rw::<(R1_63777, [std::num::NonZeroI64; 3])>(429, r##"{"k":"tup","ts":[{"fs":[{"m":"plain","n":"k1_63777_1","px":false,"t":{"k":"prim","p":"nz_i64"}},{"m":"plain","n":"k1_63777_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_63777_3","px":false,"t":{"k":"prim","p":"i16"}},{"m":"plain","n":"k1_63777_4","px":false,"t":{"k":"prim","p":"nz_i32"}}],"k":"struct","name":"R1_63777"},{"k":"arr","n":3,"t":{"k":"prim","p":"nz_i64"}}]}"##),
    rw::<()>(430, r##"{"k":"unit"}"##),
    rw::<R4_19010>(431, r##"{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"default","n":"k3_45591_1","px":false,"t":{"k":"tup","ts":[{"fs":[{"m":"default","n":"k1_37572_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_37572_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_37572_3","px":false,"t":{"k":"prim","p":"u64"}}],"k":"struct","name":"R1_37572"},{"k":"vec","t":{"k":"prim","p":"leaf"}}]}},{"m":"plain","n":"k3_45591_2","px":false,"t":{"k":"enum","name":"R2_67394","tag":"t2_67394","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_67394_1","px":false,"t":{"fs":[{"m":"plain","n":"k1_32975_1","px":false,"t":{"k":"prim","p":"nz_u32"}},{"m":"plain","n":"k1_32975_2","px":false,"t":{"k":"prim","p":"char"}},{"m":"plain","n":"k1_32975_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_32975"}},{"m":"plain","n":"k2_67394_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"i64"}}},{"m":"plain","n":"k2_67394_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_u16"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"default","n":"k1_53776_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_53776_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_53776_3","px":false,"t":{"k":"prim","p":"f64"}}],"k":"struct","name":"R1_53776"}}],"k":"inner","n":"W","x":-1}]}},{"m":"plain","n":"k3_45591_3","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_49179","tag":"t1_49179","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_49179_1","px":false,"t":{"k":"prim","p":"nz_u64"}},{"m":"plain","n":"k1_49179_2","px":false,"t":{"k":"prim","p":"even"}},{"m":"plain","n":"k1_49179_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_49179","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_57098_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_57098"}},{"m":"default","n":"k2_75313_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_75313_4","px":false,"t":{"k":"enum","name":"R1_72936","tag":"t1_72936","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_72936_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_72936_2","px":false,"t":{"k":"prim","p":"even"}},{"m":"plain","n":"k1_72936_3","px":false,"t":{"k":"prim","p":"u8"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_72936","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_75313"}}],"k":"struct","name":"R3_45591"}},{"m":"default","n":"k4_19010_2","px":false,"t":{"k":"opt","t":{"k":"tup","ts":[{"fs":[{"m":"plain","n":"k1_6546_1","px":false,"t":{"k":"prim","p":"nz_i64"}},{"m":"plain","n":"k1_6546_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_6546"},{"k":"enum","name":"R1_22384","tag":"t1_22384","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_22384_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_22384_2","px":false,"t":{"k":"prim","p":"nz_i32"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_22384","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}]}}},{"m":"default","n":"k4_19010_3","px":false,"t":{"k":"vec","t":{"k":"tup","ts":[{"k":"opt","t":{"k":"prim","p":"leaf"}},{"fs":[{"m":"default","n":"k1_53407_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_53407_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_53407_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_53407"}]}}},{"m":"plain","n":"k4_19010_4","px":false,"t":{"fs":[{"m":"plain","n":"k3_69348_1","px":false,"t":{"k":"opt","t":{"fs":[{"m":"default","n":"k1_30650_1","px":false,"t":{"k":"prim","p":"f32"}},{"m":"plain","n":"k1_30650_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_30650"}}},{"m":"default","n":"k3_69348_2","px":false,"t":{"k":"vec","t":{"fs":[{"m":"plain","n":"k1_46854_1","px":false,"t":{"k":"prim","p":"char"}},{"m":"plain","n":"k1_46854_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_46854"}}},{"m":"plain","n":"k3_69348_3","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_42257","tag":"t1_42257","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_42257_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_42257","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_23934_2","px":false,"t":{"k":"enum","name":"R1_50176","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_50176_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_50176_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_50176_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_50176_4","x":-1}]}},{"m":"plain","n":"k2_23934_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_58095_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_58095_2","px":false,"t":{"k":"prim","p":"u16"}},{"m":"plain","n":"k1_58095_3","px":false,"t":{"k":"prim","p":"nz_u16"}}],"k":"struct","name":"R1_58095"}}],"k":"struct","name":"R2_23934"}}],"k":"struct","name":"R3_69348"}}],"k":"struct","name":"R4_19010"}"##),
    rw::<R2_10001>(432, r##"{"k":"enum","name":"R2_10001","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v2_10001_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v2_10001_2","x":114}]}"##),
    rw::<R3_992>(433, r##"{"k":"enum","name":"R3_992","tag":"t3_992","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_992_1","px":false,"t":{"k":"tup","ts":[{"k":"vec","t":{"k":"prim","p":"leaf"}},{"k":"unit"}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x3_992","px":false,"t":{"k":"tup","ts":[{"fs":[{"m":"plain","n":"k1_28275_1","px":false,"t":{"k":"prim","p":"i32"}},{"m":"plain","n":"k1_28275_2","px":false,"t":{"k":"prim","p":"nz_i64"}},{"m":"plain","n":"k1_28275_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_28275"},{"k":"enum","name":"R1_44113","tag":"t1_44113","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_44113_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_44113_2","px":false,"t":{"k":"prim","p":"i16"}},{"m":"plain","n":"k1_44113_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_44113","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}]}}],"k":"fields","n":"X","x":50}]}"##),
    rw::<(Vec<Vec<Option<Leaf>>>, ())>(434, r##"{"k":"tup","ts":[{"k":"vec","t":{"k":"vec","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}},{"k":"unit"}]}"##),
    rw::<Option<R1_71622>>(435, r##"{"k":"opt","t":{"k":"enum","name":"R1_71622","tag":"t1_71622","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_71622_1","px":false,"t":{"k":"prim","p":"f64"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_71622","px":false,"t":{"k":"prim","p":"bool"}}],"k":"fields","n":"X","x":50}]}}"##),
    rw::<R3_73956>(436, r##"{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R2_2133","tag":"t2_2133","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_84595_1","px":false,"t":{"k":"prim","p":"nz_u16"}},{"m":"default","n":"k1_84595_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_84595_3","px":false,"t":{"k":"prim","p":"i64"}}],"k":"struct","name":"R1_84595"}},{"m":"default","n":"k2_2133_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_92514_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_92514_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_92514"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k1_5405_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_5405_2","px":false,"t":{"k":"prim","p":"nz_u8"}},{"m":"plain","n":"k1_5405_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_5405"}}],"k":"inner","n":"W","x":-1}]}},{"m":"plain","n":"k3_73956_2","px":false,"t":{"fs":[{"m":"plain","n":"k2_10052_1","px":false,"t":{"k":"enum","name":"R1_808","tag":"t1_808","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_808_1","px":false,"t":{"k":"prim","p":"nz_u64"}},{"m":"default","n":"k1_808_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_808","px":false,"t":{"k":"prim","p":"even"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_10052_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_8727_1","px":false,"t":{"k":"prim","p":"nz_i8"}},{"m":"plain","n":"k1_8727_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_8727"}}],"k":"struct","name":"R2_10052"}},{"m":"default","n":"k3_73956_3","px":false,"t":{"k":"opt","t":{"fs":[{"m":"default","n":"k1_37813_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_37813_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_37813_3","px":false,"t":{"k":"prim","p":"even"}}],"k":"struct","name":"R1_37813"}}}],"k":"struct","name":"R3_73956"}"##),
    rw::<R4_64947>(437, r##"{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R3_53436","tag":"t3_53436","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_53436_1","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"k1_69391_1","px":false,"t":{"k":"prim","p":"nz_i16"}},{"m":"default","n":"k1_69391_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_69391_3","px":false,"t":{"k":"prim","p":"bool"}}],"k":"struct","name":"R1_69391"}}},{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R2_97538","tag":"t2_97538","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_97538_1","px":false,"t":{"k":"enum","name":"R1_64794","tag":"t1_64794","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_64794_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_64794_2","px":false,"t":{"k":"prim","p":"i32"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_64794","px":false,"t":{"k":"prim","p":"i32"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_97538_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_72713_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_72713_2","px":false,"t":{"k":"prim","p":"nz_u8"}}],"k":"struct","name":"R1_72713"}},{"m":"plain","n":"k2_97538_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_80632_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_80632_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_80632_3","px":false,"t":{"k":"prim","p":"i16"}},{"m":"default","n":"k1_80632_4","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_80632"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R1_85595","tag":"t1_85595","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_85595_1","px":false,"t":{"k":"prim","p":"nz_i64"}},{"m":"default","n":"k1_85595_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_85595_3","px":false,"t":{"k":"prim","p":"i8"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_85595","px":false,"t":{"k":"prim","p":"f64"}}],"k":"fields","n":"X","x":50}]}}],"k":"inner","n":"W","x":-1}]}},{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R2_5466","tag":"t2_5466","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_5466_1","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"leaf"}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R1_1808","tag":"t1_1808","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_1808_1","px":false,"t":{"k":"prim","p":"nz_u8"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_1808","px":false,"t":{"k":"prim","p":"str"}}],"k":"fields","n":"X","x":50}]}}],"k":"inner","n":"W","x":-1}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x3_53436","px":false,"t":{"k":"opt","t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"leaf"}]}}}],"k":"fields","n":"X","x":50}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_79613_1","px":false,"t":{"k":"prim","p":"nz_u16"}},{"m":"default","n":"k1_79613_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_79613_3","px":false,"t":{"k":"prim","p":"i16"}}],"k":"struct","name":"R1_79613"}},{"m":"plain","n":"k2_5832_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"i64"}}},{"m":"default","n":"k2_5832_3","px":false,"t":{"k":"vec","t":{"k":"prim","p":"nz_u16"}}},{"m":"plain","n":"k2_5832_4","px":false,"t":{"fs":[{"m":"plain","n":"k1_3379_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_3379_2","px":false,"t":{"k":"prim","p":"str"}},{"m":"plain","n":"k1_3379_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_3379"}}],"k":"struct","name":"R2_5832"}},{"m":"plain","n":"k3_61355_2","px":false,"t":{"k":"tup","ts":[{"fs":[{"m":"default","n":"k1_16627_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_16627_2","px":false,"t":{"k":"prim","p":"nz_u16"}}],"k":"struct","name":"R1_16627"},{"k":"vec","t":{"k":"prim","p":"u8"}}]}},{"m":"plain","n":"k3_61355_3","px":false,"t":{"k":"enum","name":"R2_21670","tag":"t2_21670","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_21670_1","px":false,"t":{"fs":[{"m":"default","n":"k1_12030_1","px":false,"t":{"k":"prim","p":"bool"}},{"m":"plain","n":"k1_12030_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_12030"}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_19949_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_19949"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"default","n":"k1_32831_1","px":false,"t":{"k":"prim","p":"u32"}},{"m":"plain","n":"k1_32831_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_32831"}}],"k":"inner","n":"W","x":-1}]}},{"m":"plain","n":"k3_61355_4","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_28234","tag":"t1_28234","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_28234_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_28234","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_36153_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_36153"}},{"m":"default","n":"k2_29589_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_29589_4","px":false,"t":{"k":"enum","name":"R1_51991","tag":"t1_51991","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_51991_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_51991_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_51991_3","px":false,"t":{"k":"prim","p":"f32"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_51991","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_29589"}}],"k":"struct","name":"R3_61355"}},{"m":"plain","n":"k4_64947_3","px":false,"t":{"k":"tup","ts":[{"k":"opt","t":{"fs":[{"m":"plain","n":"k1_69388_1","px":false,"t":{"k":"prim","p":"nz_u8"}}],"k":"struct","name":"R1_69388"}},{"k":"enum","name":"R2_58675","tag":"t2_58675","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_58675_1","px":false,"t":{"k":"enum","name":"R1_80995","tag":"t1_80995","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_80995_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_80995_2","px":false,"t":{"k":"prim","p":"u32"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_80995","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_58675","px":false,"t":{"k":"enum","name":"R1_1805","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_1805_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_1805_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_1805_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_1805_4","x":-1}]}}],"k":"fields","n":"X","x":50}]}]}},{"m":"plain","n":"k4_64947_4","px":false,"t":{"k":"enum","name":"R3_77193","tag":"t3_77193","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_77193_1","px":false,"t":{"fs":[{"m":"plain","n":"k2_38240_1","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"leaf"}]}},{"m":"plain","n":"k2_38240_2","px":false,"t":{"k":"enum","name":"R1_49587","tag":"t1_49587","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_49587_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_49587_2","px":false,"t":{"k":"prim","p":"bool"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_49587","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_38240_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_57506_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_57506_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_57506_3","px":false,"t":{"k":"prim","p":"u64"}},{"m":"plain","n":"k1_57506_4","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_57506"}}],"k":"struct","name":"R2_38240"}},{"m":"plain","n":"k3_77193_2","px":false,"t":{"k":"tup","ts":[{"k":"enum","name":"R1_78673","tag":"t1_78673","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_78673_1","px":false,"t":{"k":"prim","p":"i16"}},{"m":"plain","n":"k1_78673_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_78673_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_78673","px":false,"t":{"k":"prim","p":"nz_i64"}}],"k":"fields","n":"X","x":50}]},{"fs":[{"m":"plain","n":"k1_94511_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_94511_2","px":false,"t":{"k":"prim","p":"i16"}},{"m":"default","n":"k1_94511_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_94511_4","px":false,"t":{"k":"prim","p":"u64"}}],"k":"struct","name":"R1_94511"}]}},{"m":"plain","n":"k3_77193_3","px":false,"t":{"k":"vec","t":{"k":"arr","n":3,"t":{"k":"prim","p":"nz_u8"}}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_79610_1","px":false,"t":{"k":"prim","p":"nz_u32"}}],"k":"struct","name":"R1_79610"}},{"m":"default","n":"k2_59041_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_59041_3","px":false,"t":{"k":"enum","name":"R1_95448","tag":"t1_95448","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_95448_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_95448_2","px":false,"t":{"k":"prim","p":"nz_u32"}},{"m":"plain","n":"k1_95448_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_95448","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_59041"}}],"k":"inner","n":"W","x":-1}]}}],"k":"struct","name":"R4_64947"}"##),
    rw::<R2_55938>(438, r##"{"k":"enum","name":"R2_55938","tag":"t2_55938","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_55938_1","px":false,"t":{"fs":[{"m":"default","n":"k1_4748_1","px":false,"t":{"k":"prim","p":"f32"}},{"m":"default","n":"k1_4748_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_4748_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_4748"}},{"m":"plain","n":"k2_55938_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_55938_3","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k1_25549_1","px":false,"t":{"k":"prim","p":"nz_i16"}},{"m":"default","n":"k1_25549_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_25549_3","px":false,"t":{"k":"prim","p":"bool"}}],"k":"struct","name":"R1_25549"}}],"k":"inner","n":"W","x":-1}]}"##),
    rw::<R3_46929>(439, r##"{"k":"enum","name":"R3_46929","tag":"t3_46929","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_46929_1","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"unit"}},{"m":"plain","n":"k2_56051_2","px":false,"t":{"k":"vec","t":{"k":"prim","p":"f64"}}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_15514_1","px":false,"t":{"k":"prim","p":"char"}},{"m":"default","n":"k1_15514_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_15514_3","px":false,"t":{"k":"prim","p":"nz_i32"}},{"m":"plain","n":"k1_15514_4","px":false,"t":{"k":"prim","p":"f32"}}],"k":"struct","name":"R1_15514"}},{"m":"default","n":"k2_56051_4","px":false,"t":{"fs":[{"m":"default","n":"k1_23433_1","px":false,"t":{"k":"prim","p":"i32"}},{"m":"plain","n":"k1_23433_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_23433"}}],"k":"struct","name":"R2_56051"}},{"m":"plain","n":"k3_46929_2","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}},{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R2_71889","tag":"t2_71889","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_71889_1","px":false,"t":{"fs":[{"m":"plain","n":"k1_32084_1","px":false,"t":{"k":"prim","p":"u32"}}],"k":"struct","name":"R1_32084"}},{"m":"plain","n":"k2_71889_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_71889","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"fields","n":"X","x":50}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x3_46929","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"k1_58419_1","px":false,"t":{"k":"prim","p":"even"}}],"k":"struct","name":"R1_58419"}}}],"k":"fields","n":"X","x":50}]}"##),
    rw::<(([R1_62990; 3], R2_79281), R3_44002)>(440, r##"{"k":"tup","ts":[{"k":"tup","ts":[{"k":"arr","n":3,"t":{"fs":[{"m":"plain","n":"k1_62990_1","px":false,"t":{"k":"prim","p":"u64"}}],"k":"struct","name":"R1_62990"}},{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_74597","tag":"t1_74597","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_74597_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_74597","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"default","n":"k2_79281_2","px":false,"t":{"fs":[{"m":"default","n":"k1_82516_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_82516_2","px":false,"t":{"k":"prim","p":"char"}},{"m":"plain","n":"k1_82516_3","px":false,"t":{"k":"prim","p":"i32"}}],"k":"struct","name":"R1_82516"}},{"m":"plain","n":"k2_79281_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"u8"}}}],"k":"struct","name":"R2_79281"}]},{"fs":[{"m":"plain","n":"k3_44002_1","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"k1_87094_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_87094"}}},{"m":"plain","n":"k3_44002_2","px":false,"t":{"k":"opt","t":{"k":"enum","name":"R1_3307","tag":"t1_3307","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_3307_1","px":false,"t":{"k":"prim","p":"i8"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_3307","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}},{"m":"plain","n":"k3_44002_3","px":false,"t":{"k":"enum","name":"R2_90888","tag":"t2_90888","vs":[{"d":-1,"fs":[{"m":"default","n":"k2_90888_1","px":false,"t":{"k":"vec","t":{"k":"prim","p":"char"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x2_90888","px":false,"t":{"k":"enum","name":"R1_19511","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_19511_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_19511_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v1_19511_3","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_19511_4","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v1_19511_5","x":135}]}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k3_44002_4","px":false,"t":{"fs":[{"m":"plain","n":"k2_98807_1","px":false,"t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"R2_98807"}}],"k":"struct","name":"R3_44002"}]}"##),
    ]);
}

fn part11(v: &mut Vec<Entry>) {
    v.extend([
    rw::<Option<Vec<Leaf>>>(441, r##"{"k":"opt","t":{"k":"vec","t":{"k":"prim","p":"leaf"}}}"##),
    rw::<R3_19902>(442, r##"{"fs":[{"m":"plain","n":"k3_19902_1","px":false,"t":{"k":"arr","n":1,"t":{"k":"enum","name":"R1_35549","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v1_35549_1","x":-1}]}}},{"m":"plain","n":"k3_19902_2","px":false,"t":{"k":"enum","name":"R2_17897","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v2_17897_1","x":-1}]}},{"m":"plain","n":"k3_19902_3","px":false,"t":{"fs":[{"m":"plain","n":"k2_25816_1","px":false,"t":{"k":"vec","t":{"k":"prim","p":"i64"}}},{"m":"default","n":"k2_25816_2","px":false,"t":{"fs":[{"m":"default","n":"k1_55075_1","px":false,"t":{"k":"prim","p":"i64"}},{"m":"default","n":"k1_55075_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_55075_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_55075"}},{"m":"plain","n":"k2_25816_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_62994_1","px":false,"t":{"k":"prim","p":"nz_u16"}}],"k":"struct","name":"R1_62994"}}],"k":"struct","name":"R2_25816"}},{"m":"plain","n":"k3_19902_4","px":false,"t":{"k":"tup","ts":[{"k":"vec","t":{"k":"prim","p":"leaf"}},{"k":"opt","t":{"k":"prim","p":"nz_u32"}}]}}],"k":"struct","name":"R3_19902"}"##),
    rw::<R4_10893>(443, r##"{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R3_61281","tag":"t3_61281","vs":[{"d":-1,"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k2_19772_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"R2_19772"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x3_61281","px":false,"t":{"k":"opt","t":{"k":"unit"}}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R4_10893"}"##),
    rw::<R2_1884>(444, r##"{"k":"enum","name":"R2_1884","tag":"t2_1884","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_1884_1","px":false,"t":{"k":"enum","name":"R1_12593","tag":"t1_12593","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_12593_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_12593_2","px":false,"t":{"k":"prim","p":"even"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_12593","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_1884_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_20512_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_20512_2","px":false,"t":{"k":"prim","p":"u32"}},{"m":"plain","n":"k1_20512_3","px":false,"t":{"k":"prim","p":"nz_u64"}},{"m":"plain","n":"k1_20512_4","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_20512"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k1_33394_1","px":false,"t":{"k":"prim","p":"u64"}}],"k":"struct","name":"R1_33394"}}],"k":"inner","n":"W","x":-1}]}"##),
    rw::<R3_92866>(445, r##"{"k":"enum","name":"R3_92866","tag":"t3_92866","vs":[{"d":-1,"fs":[{"m":"plain","n":"k3_92866_1","px":false,"t":{"fs":[{"m":"plain","n":"k2_63896_1","px":false,"t":{"fs":[{"m":"plain","n":"k1_29820_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_29820_2","px":false,"t":{"k":"prim","p":"u16"}},{"m":"plain","n":"k1_29820_3","px":false,"t":{"k":"prim","p":"nz_u32"}}],"k":"struct","name":"R1_29820"}},{"m":"plain","n":"k2_63896_2","px":false,"t":{"k":"unit"}},{"m":"plain","n":"k2_63896_3","px":false,"t":{"k":"vec","t":{"k":"prim","p":"even"}}}],"k":"struct","name":"R2_63896"}},{"m":"plain","n":"k3_92866_2","px":false,"t":{"k":"opt","t":{"fs":[{"m":"default","n":"k1_66825_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_66825_2","px":false,"t":{"k":"prim","p":"nz_i8"}},{"m":"plain","n":"k1_66825_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_66825"}}},{"m":"plain","n":"k3_92866_3","px":false,"t":{"k":"vec","t":{"fs":[{"m":"default","n":"k1_83029_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_83029_2","px":false,"t":{"k":"prim","p":"nz_i16"}},{"m":"plain","n":"k1_83029_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_83029"}}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"fs":[{"m":"plain","n":"k2_84697_1","px":false,"t":{"k":"enum","name":"R1_67762","tag":"t1_67762","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_67762_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_67762","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"default","n":"k2_84697_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_75681_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_75681"}},{"m":"plain","n":"k2_84697_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_83600_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_83600_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_83600_3","px":false,"t":{"k":"prim","p":"f64"}}],"k":"struct","name":"R1_83600"}}],"k":"struct","name":"R2_84697"}}],"k":"inner","n":"W","x":-1}]}"##),
    rw::<Option<R3_36009>>(446, r##"{"k":"opt","t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"default","n":"k2_72786_1","px":false,"t":{"fs":[{"m":"plain","n":"k1_36066_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_36066_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_36066"}},{"m":"default","n":"k2_72786_2","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_i32"}}},{"m":"plain","n":"k2_72786_3","px":false,"t":{"k":"enum","name":"R1_51904","tag":"t1_51904","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_51904_1","px":false,"t":{"k":"prim","p":"nz_i64"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_51904","px":false,"t":{"k":"prim","p":"f64"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_72786"}},{"m":"plain","n":"k3_36009_2","px":false,"t":{"k":"tup","ts":[{"fs":[{"m":"plain","n":"k1_73071_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_73071_2","px":false,"t":{"k":"prim","p":"char"}}],"k":"struct","name":"R1_73071"},{"k":"enum","name":"R1_88909","tag":"t1_88909","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_88909_1","px":false,"t":{"k":"prim","p":"i32"}},{"m":"default","n":"k1_88909_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_88909","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}]}},{"m":"plain","n":"k3_36009_3","px":false,"t":{"k":"enum","name":"R2_88624","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v2_88624_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v2_88624_2","x":114}]}},{"m":"plain","n":"k3_36009_4","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_84678","tag":"t1_84678","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_84678_1","px":false,"t":{"k":"prim","p":"nz_i16"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_84678","px":false,"t":{"k":"prim","p":"u64"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_96543_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_92597_1","px":false,"t":{"k":"prim","p":"u64"}},{"m":"plain","n":"k1_92597_2","px":false,"t":{"k":"prim","p":"nz_u64"}},{"m":"default","n":"k1_92597_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_92597_4","px":false,"t":{"k":"prim","p":"u16"}}],"k":"struct","name":"R1_92597"}},{"m":"plain","n":"k2_96543_3","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"leaf"}]}}],"k":"struct","name":"R2_96543"}}],"k":"struct","name":"R3_36009"}}"##),
    rw::<Option<()>>(447, r##"{"k":"opt","t":{"k":"unit"}}"##),
    rw::<R3_65839>(448, r##"{"fs":[{"m":"plain","n":"k3_65839_1","px":false,"t":{"k":"opt","t":{"k":"enum","name":"R1_65693","tag":"t1_65693","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_65693_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_65693","px":false,"t":{"k":"prim","p":"nz_i64"}}],"k":"fields","n":"X","x":50}]}}}],"k":"struct","name":"R3_65839"}"##),
    rw::<R4_56830>(449, r##"{"fs":[{"m":"plain","n":"k4_56830_1","px":false,"t":{"k":"arr","n":3,"t":{"fs":[{"m":"plain","n":"k2_70717_1","px":false,"t":{"k":"enum","name":"R1_50179","tag":"t1_50179","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_50179_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_50179_2","px":false,"t":{"k":"prim","p":"char"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_50179","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"default","n":"k2_70717_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_58098_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_58098"}},{"m":"plain","n":"k2_70717_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}],"k":"struct","name":"R2_70717"}}}],"k":"struct","name":"R4_56830"}"##),
    rw::<R2_47821>(450, r##"{"k":"enum","name":"R2_47821","tag":"t2_47821","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_47821_1","px":false,"t":{"k":"enum","name":"R1_20438","tag":"t1_20438","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_20438_1","px":false,"t":{"k":"prim","p":"even"}},{"m":"default","n":"k1_20438_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_20438_3","px":false,"t":{"k":"prim","p":"nz_u32"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_20438","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_47821_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_28357_1","px":false,"t":{"k":"prim","p":"u32"}},{"m":"plain","n":"k1_28357_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_28357"}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_36276_1","px":false,"t":{"k":"prim","p":"bool"}}],"k":"struct","name":"R1_36276"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R1_41239","tag":"t1_41239","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_41239_1","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_41239","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"inner","n":"W","x":-1}]}"##),
    rw::<Option<R2_92542>>(451, r##"{"k":"opt","t":{"k":"enum","name":"R2_92542","tag":"t2_92542","vs":[{"d":-1,"fs":[{"m":"plain","n":"k2_92542_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"nz_u64"}}},{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_5834","tag":"t1_5834","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_5834_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_5834_2","px":false,"t":{"k":"prim","p":"nz_i8"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_5834","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"inner","px":false,"t":{"k":"enum","name":"R1_18716","tag":"t1_18716","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_18716_1","px":false,"t":{"k":"prim","p":"even"}},{"m":"default","n":"k1_18716_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_18716_3","px":false,"t":{"k":"prim","p":"nz_u16"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_18716","px":false,"t":{"k":"prim","p":"u16"}}],"k":"fields","n":"X","x":50}]}}],"k":"inner","n":"W","x":-1}]}}"##),
    rw::<Option<R3_43854>>(452, r##"{"k":"opt","t":{"fs":[{"m":"plain","n":"k3_43854_1","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_67885","tag":"t1_67885","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_67885_1","px":false,"t":{"k":"prim","p":"i8"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_67885","px":false,"t":{"k":"prim","p":"nz_i16"}}],"k":"fields","n":"X","x":50}]}},{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_75804_1","px":false,"t":{"k":"prim","p":"nz_i32"}}],"k":"struct","name":"R1_75804"}},{"m":"default","n":"k2_2939_3","px":false,"t":{"k":"opt","t":{"k":"prim","p":"bool"}}},{"m":"plain","n":"k2_2939_4","px":false,"t":{"k":"enum","name":"R1_91642","tag":"t1_91642","vs":[{"d":-1,"fs":[{"m":"default","n":"k1_91642_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_91642_2","px":false,"t":{"k":"prim","p":"nz_i16"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_91642","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"X","x":50}]}}],"k":"struct","name":"R2_2939"}},{"m":"plain","n":"k3_43854_2","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"k":"enum","name":"R1_84089","tag":"t1_84089","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_84089_1","px":false,"t":{"k":"prim","p":"i16"}},{"m":"plain","n":"k1_84089_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_84089","px":false,"t":{"k":"prim","p":"nz_i64"}}],"k":"fields","n":"X","x":50}]}},{"m":"plain","n":"k2_10858_2","px":false,"t":{"fs":[{"m":"plain","n":"k1_92008_1","px":false,"t":{"k":"prim","p":"nz_i64"}},{"m":"plain","n":"k1_92008_2","px":false,"t":{"k":"prim","p":"f64"}},{"m":"plain","n":"k1_92008_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_92008_4","px":false,"t":{"k":"prim","p":"nz_i32"}}],"k":"struct","name":"R1_92008"}},{"m":"plain","n":"k2_10858_3","px":false,"t":{"fs":[{"m":"plain","n":"k1_99927_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_99927_2","px":false,"t":{"k":"prim","p":"i32"}},{"m":"plain","n":"k1_99927_3","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"struct","name":"R1_99927"}}],"k":"struct","name":"R2_10858"}},{"m":"plain","n":"k3_43854_3","px":false,"t":{"k":"tup","ts":[{"k":"enum","name":"R1_21103","tag":"t1_21103","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_21103_1","px":false,"t":{"k":"prim","p":"str"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_21103","px":false,"t":{"k":"prim","p":"i32"}}],"k":"fields","n":"X","x":50}]},{"k":"opt","t":{"k":"prim","p":"str"}}]}}],"k":"struct","name":"R3_43854"}}"##),
    rw::<R2_20794>(453, r##"{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_74356_1","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_74356_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"default","n":"k1_74356_3","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_74356_4","px":false,"t":{"k":"prim","p":"nz_u8"}}],"k":"struct","name":"R1_74356"}}],"k":"struct","name":"R2_20794"}"##),
    rw::<R3_11785>(454, r##"{"fs":[{"m":"plain","n":"k3_11785_1","px":false,"t":{"fs":[{"m":"plain","n":"k2_25668_1","px":false,"t":{"k":"opt","t":{"k":"prim","p":"leaf"}}},{"m":"plain","n":"k2_25668_2","px":false,"t":{"k":"tup","ts":[{"k":"prim","p":"leaf"},{"k":"prim","p":"nz_u32"}]}}],"k":"struct","name":"R2_25668"}},{"m":"plain","n":"k3_11785_2","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"k":"prim","p":"leaf"}}}}],"k":"struct","name":"R3_11785"}"##),
    rw::<R4_2776>(455, r##"{"k":"enum","name":"R4_2776","tag":"t4_2776","vs":[{"d":-1,"fs":[{"m":"plain","n":"k4_2776_1","px":false,"t":{"fs":[{"m":"plain","n":"k3_76971_1","px":false,"t":{"k":"enum","name":"R2_80060","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v2_80060_1","x":-1},{"d":-1,"fs":[],"k":"unit","n":"v2_80060_2","x":114},{"d":-1,"fs":[],"k":"unit","n":"v2_80060_3","x":-1}]}},{"m":"default","n":"k3_76971_2","px":false,"t":{"fs":[{"m":"flatten","n":"","px":false,"t":{"fs":[{"m":"plain","n":"k1_60260_1","px":false,"t":{"k":"prim","p":"u64"}},{"m":"default","n":"k1_60260_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_60260_3","px":false,"t":{"k":"prim","p":"even"}}],"k":"struct","name":"R1_60260"}},{"m":"default","n":"k2_87979_2","px":false,"t":{"k":"unit"}},{"m":"plain","n":"k2_87979_3","px":false,"t":{"k":"arr","n":2,"t":{"k":"prim","p":"u32"}}}],"k":"struct","name":"R2_87979"}},{"m":"default","n":"k3_76971_3","px":false,"t":{"k":"opt","t":{"fs":[{"m":"plain","n":"k1_97265_1","px":false,"t":{"k":"prim","p":"nz_i16"}},{"m":"default","n":"k1_97265_2","px":false,"t":{"k":"prim","p":"leaf"}},{"m":"plain","n":"k1_97265_3","px":false,"t":{"k":"prim","p":"bool"}}],"k":"struct","name":"R1_97265"}}}],"k":"struct","name":"R3_76971"}},{"m":"plain","n":"k4_2776_2","px":false,"t":{"k":"tup","ts":[{"k":"enum","name":"R2_17074","tag":"<none>","vs":[{"d":-1,"fs":[],"k":"unit","n":"v2_17074_1","x":-1}]},{"k":"tup","ts":[{"k":"enum","name":"R1_66239","tag":"t1_66239","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_66239_1","px":false,"t":{"k":"prim","p":"u64"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_66239","px":false,"t":{"k":"prim","p":"i8"}}],"k":"fields","n":"X","x":50}]},{"k":"opt","t":{"k":"prim","p":"leaf"}}]}]}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x4_2776","px":false,"t":{"k":"opt","t":{"k":"opt","t":{"k":"enum","name":"R1_92542","tag":"t1_92542","vs":[{"d":-1,"fs":[{"m":"plain","n":"k1_92542_1","px":false,"t":{"k":"prim","p":"u64"}},{"m":"plain","n":"k1_92542_2","px":false,"t":{"k":"prim","p":"leaf"}}],"k":"fields","n":"P","x":-1},{"d":-1,"fs":[],"k":"unit","n":"Q","x":-1},{"d":-1,"fs":[{"m":"plain","n":"x1_92542","px":false,"t":{"k":"prim","p":"bool"}}],"k":"fields","n":"X","x":50}]}}}}],"k":"fields","n":"X","x":50}]}"##),
    ]);
}

pub fn registry() -> Vec<Entry> {
    let mut v = Vec::new();
    part0(&mut v);
    part1(&mut v);
    part2(&mut v);
    part3(&mut v);
    part4(&mut v);
    part5(&mut v);
    part6(&mut v);
    part7(&mut v);
    part8(&mut v);
    part9(&mut v);
    part10(&mut v);
    part11(&mut v);
    v
}
