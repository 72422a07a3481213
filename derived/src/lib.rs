//! Written by tools/derived.py: sample declarations; what the derive macros make of them is verified.
#![allow(dead_code, non_snake_case)]
use serdere::{Deserialize, Serialize};
#[derive(Serialize, Deserialize)]
pub struct Empty {  }
#[derive(Serialize, Deserialize)]
pub struct UnitS;
#[derive(Serialize, Deserialize)]
pub struct P { x: i32, y: f64 }
#[derive(Serialize, Deserialize)]
pub struct Ren { #[serde(rename = "type")] kind: String, #[serde(rename = "weird \" name\n")] odd: bool, #[serde(rename = "é😀")] uni: Option<char>, #[serde(rename = "kind")] swapped: u8, #[serde(rename = "")] _under: i16 }
#[derive(Serialize, Deserialize)]
pub struct Opts { a: Option<u8>, #[serde(default)] c: u32, d: String }
#[derive(Serialize, Deserialize)]
pub struct Opts2 { #[serde(rename = "ee", default)] e: Option<Option<bool>>, #[serde(rename = "eff", default)] f: bool }
#[derive(Serialize, Deserialize)]
pub enum Tag { A, B, C }
#[derive(Serialize, Deserialize)]
pub struct Inner { #[serde(rename = "in")] i: Tag, #[serde(flatten)] u: UnitS, _z: (u8, bool) }
#[derive(Serialize, Deserialize)]
pub struct Flat { PreFix: u8, #[serde(flatten)] p: P, post: Option<String>, #[serde(flatten)] q: Inner }
#[derive(Serialize, Deserialize)]
pub struct Gen<T> { v: T, w: Vec<T>, o: Option<u8> }
#[derive(Serialize, Deserialize)]
pub enum Tag2 { First = 3, Second, #[serde(rename = "bee")] Third, #[serde(reindex = 40)] Fourth, Fifth, #[serde(rename = "Bé\n\"")] Sixth = 100, #[serde(rename = "")] Seventh = 0, #[serde(rename = "bees")] Eighth }
#[derive(Serialize, Deserialize)]
pub enum Shape { Nothing, Rect { #[serde(rename = "height")] h: u32, #[serde(default)] fill: bool }, #[serde(transparent)] Point { inner: P }, #[serde(rename = "pt", transparent)] Pt(P) }
#[derive(Serialize, Deserialize)]
#[serde(tag = "kind")]
pub enum Kinds { One, #[serde(rename = "two", reindex = 9)] Two, Three { #[serde(flatten)] t: P, v: (u8, u8) } }
#[derive(Serialize, Deserialize)]
#[serde(tag = "t", rename = "Other")]
pub enum OnlyUnits { X, Y }
#[derive(Serialize, Deserialize)]
pub struct FlatEnum { id: u32, #[serde(flatten)] shape: Shape, last: Option<u8> }
#[derive(Deserialize)]
pub struct Prox { #[serde(proxy = u8)] a: u32, #[serde(rename = "bb", default, proxy = u16)] b: u64, c: i64 }
