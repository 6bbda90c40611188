//! Byte-granular abstract memory.
use crate::bdd::{B, F, T};
use crate::dom::{byte_bits, const_byte, F8};
use crate::fx::FxHashMap;
use crate::word::W;
use rustc_public::mir::mono::Instance;
use std::rc::Rc;

pub type AId = u32;

#[derive(Clone, PartialEq, Debug)]
pub enum Off {
    C(u64),
    S(Rc<W>),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Ptr {
    pub alloc: AId,
    pub off: Off,
}

pub struct SB {
    pub bits: F8,
    pub init: B,
}

#[derive(Clone)]
pub enum Byte {
    U,
    C(u8),
    S(Rc<SB>),
    P(Rc<Ptr>, u8),
}

impl std::fmt::Debug for Byte {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Byte::U => write!(f, "__"),
            Byte::C(c) => write!(f, "{c:02x}"),
            Byte::S(_) => write!(f, "**"),
            Byte::P(p, i) => write!(f, "<{}:{:?}#{i}>", p.alloc, p.off),
        }
    }
}

impl Byte {
    pub fn from_bits(b: F8) -> Byte {
        match const_byte(&b) {
            Some(c) => Byte::C(c),
            None => Byte::S(Rc::new(SB { bits: b, init: T })),
        }
    }
    pub fn from_bits_init(b: F8, init: B) -> Byte {
        if init == T {
            return Byte::from_bits(b);
        }
        if init == F {
            return Byte::U;
        }
        Byte::S(Rc::new(SB { bits: b, init }))
    }
    pub fn bits(&self) -> Option<F8> {
        match self {
            Byte::C(c) => Some(byte_bits(*c)),
            Byte::S(s) => Some(s.bits),
            _ => None,
        }
    }
    pub fn same(&self, o: &Byte) -> bool {
        match (self, o) {
            (Byte::U, Byte::U) => true,
            (Byte::C(a), Byte::C(b)) => a == b,
            (Byte::S(a), Byte::S(b)) => Rc::ptr_eq(a, b) || (a.bits == b.bits && a.init == b.init),
            (Byte::P(a, i), Byte::P(b, j)) => i == j && (Rc::ptr_eq(a, b) || a == b),
            _ => false,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Kind {
    Local,
    Input,
    Const,
    Static,
    Fn(Instance),
}

#[derive(Clone)]
pub struct Alloc {
    pub bytes: Vec<Byte>,
    pub align: u64,
    pub kind: Kind,
    /// symbolic accessible length in bytes, if not bytes.len()
    pub len: Option<Rc<W>>,
    /// set when any byte may hold a value of a scope level above 0
    pub hot: bool,
}

#[derive(Clone)]
pub struct State {
    pub mem: FxHashMap<AId, Rc<Alloc>>,
    pub pc: B,
}
