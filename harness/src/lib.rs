//! Entry points for the analyses in /verif/engine.  Nothing here is ever run:
//! the crate is compiled so that the resolved, monomorphic MIR of the library
//! under analysis can be read, with element, hasher and data-format types that
//! are opaque to it (their methods are given meaning by the analyses).
#![cfg_attr(not(feature = "std"), no_std)]
#![allow(dead_code, unused_variables, deprecated)]

#[cfg(not(feature = "std"))]
extern crate alloc;

pub mod models;
pub mod ser;

use core::borrow::Borrow;
use core::hash::{BuildHasher, Hash, Hasher};

use hyperloglogplus::*;

macro_rules! opaque {
    () => {
        loop {}
    };
}

// Two unrelated element types; `KeyA` can be borrowed as `KeyQ`.
pub struct KeyA(u64);
pub struct KeyQ(u64);
pub struct KeyB(u64);
pub struct KeyAny(u64);

macro_rules! hashimpl {
    ($($t:ident),*) => {$(
        impl Hash for $t {
            fn hash<S: Hasher>(&self, state: &mut S) { opaque!() }
        }
    )*};
}
hashimpl!(KeyA, KeyQ, KeyB, KeyAny);

impl Borrow<KeyQ> for KeyA {
    fn borrow(&self) -> &KeyQ {
        opaque!()
    }
}

pub struct Hs(u64);
impl Hasher for Hs {
    fn finish(&self) -> u64 {
        opaque!()
    }
    fn write(&mut self, bytes: &[u8]) {
        opaque!()
    }
}

pub struct BldA(u64);
pub struct BldB(u64);

macro_rules! bldimpl {
    ($($t:ident),*) => {$(
        impl BuildHasher for $t {
            type Hasher = Hs;
            fn build_hasher(&self) -> Hs { opaque!() }
        }
        impl Clone for $t {
            fn clone(&self) -> Self { opaque!() }
        }
        impl serde::Serialize for $t {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { opaque!() }
        }
        impl<'de> serde::Deserialize<'de> for $t {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { opaque!() }
        }
    )*};
}
bldimpl!(BldA, BldB);

impl Clone for KeyA {
    fn clone(&self) -> Self {
        opaque!()
    }
}
impl core::fmt::Debug for KeyA {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        opaque!()
    }
}
impl serde::Serialize for KeyA {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        opaque!()
    }
}
impl<'de> serde::Deserialize<'de> for KeyA {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        opaque!()
    }
}

macro_rules! roots {
    ($T:ident, $new:ident, $ins:ident, $insq:ident, $add:ident, $any:ident, $merge:ident, $merge2:ident,
     $count:ident, $clone:ident, $ser:ident, $de:ident) => {
        pub fn $new(p: u8, b: BldA) -> Result<$T<KeyA, BldA>, HyperLogLogError> {
            $T::new(p, b)
        }
        pub fn $ins(s: &mut $T<KeyA, BldA>, k: &KeyA) {
            HyperLogLog::insert(s, k)
        }
        pub fn $insq(s: &mut $T<KeyA, BldA>, k: &KeyQ) {
            HyperLogLog::insert(s, k)
        }
        pub fn $add(s: &mut $T<KeyA, BldA>, k: &KeyA) {
            HyperLogLog::add(s, k)
        }
        pub fn $any(s: &mut $T<KeyA, BldA>, k: &KeyAny) {
            s.insert_any(k)
        }
        pub fn $merge(s: &mut $T<KeyA, BldA>, o: &$T<KeyA, BldA>) -> Result<(), HyperLogLogError> {
            s.merge(o)
        }
        pub fn $merge2(s: &mut $T<KeyA, BldA>, o: &$T<KeyB, BldB>) -> Result<(), HyperLogLogError> {
            s.merge(o)
        }
        pub fn $count(s: &mut $T<KeyA, BldA>) -> f64 {
            HyperLogLog::count(s)
        }
        pub fn $clone(s: &$T<KeyA, BldA>) -> $T<KeyA, BldA> {
            Clone::clone(s)
        }
        pub fn $ser(s: &$T<KeyA, BldA>, m: ser::MSer) -> Result<ser::Rec, ser::MErr> {
            serde::Serialize::serialize(s, m)
        }
        pub fn $de(m: ser::MDe) -> Result<$T<KeyA, BldA>, ser::MErr> {
            serde::Deserialize::deserialize(m)
        }
    };
}

roots!(
    HyperLogLogPF, root_pf_new, root_pf_insert, root_pf_insert_q, root_pf_add, root_pf_insert_any, root_pf_merge,
    root_pf_merge2, root_pf_count, root_pf_clone, root_pf_ser, root_pf_de
);
#[cfg(feature = "std")]
roots!(
    HyperLogLogPlus, root_pp_new, root_pp_insert, root_pp_insert_q, root_pp_add, root_pp_insert_any, root_pp_merge,
    root_pp_merge2, root_pp_count, root_pp_clone, root_pp_ser, root_pp_de
);
