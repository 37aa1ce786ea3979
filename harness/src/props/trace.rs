//! A visitor that writes down every call it gets. What it asks for at each
//! node comes from a list drawn beforehand, so that the same requests can be
//! put to several deserializers and what they said be compared.

use crate::engine::Source;
use serde::de::{self, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use std::cell::{Cell, RefCell};
use std::fmt;
use std::fmt::Write as _;

pub struct Script {
    picks: Vec<u32>,
    hook: Cell<Option<&'static dyn Fn()>>,
    at: Cell<usize>,
    left: Cell<i64>,
    log: RefCell<String>,
}

impl Script {
    pub fn draw(s: &mut Source) -> Script {
        let n = s.below(40);
        // some ask for anything nearly always, some for something else at each node
        let wild = *s.pick(&[2u64, 4, 10]);
        let mut picks = Vec::new();
        for _ in 0..n {
            let v = s.below(10_000) as u32;
            picks.push(if s.chance(wild, 12) { v } else { 0 });
        }
        Script { picks, hook: Cell::new(None), at: Cell::new(0), left: Cell::new(4000), log: RefCell::default() }
    }

    /// The same requests from the start.
    pub fn again(&self) {
        self.at.set(0);
        self.left.set(4000);
        self.log.borrow_mut().clear();
    }

    fn below(&self, n: u32) -> u32 {
        let i = self.at.get();
        self.at.set(i + 1);
        self.picks.get(i).map_or(0, |p| p % n)
    }

    /// The requests put to this deserializer: what was said, and how it ended.
    pub fn run<'de, D: de::Deserializer<'de>>(&self, d: D) -> (String, Result<(), D::Error>) {
        self.again();
        let r = Trace(self).deserialize(d);
        (self.log.borrow().clone(), r)
    }

    /// The same, with a call at everything that is noted.
    pub fn run_with<'de, D: de::Deserializer<'de>>(&self, d: D, call: &dyn Fn()) -> (String, Result<(), D::Error>) {
        struct Unhook<'a>(&'a Script);
        impl Drop for Unhook<'_> {
            fn drop(&mut self) {
                self.0.hook.set(None);
            }
        }
        // Gone again before `call` is.
        self.hook.set(Some(unsafe { std::mem::transmute::<&dyn Fn(), &'static dyn Fn()>(call) }));
        let _unhook = Unhook(self);
        self.run(d)
    }

    /// None left may be told or not.
    fn hint(&self, n: Option<usize>) {
        if let Some(n @ 1..) = n {
            self.note(format_args!("({n} left)"));
        }
    }

    fn note(&self, args: fmt::Arguments) {
        if let Some(call) = self.hook.get() {
            call();
        }
        let mut l = self.log.borrow_mut();
        let _ = l.write_fmt(args);
        l.push(' ');
    }
}

pub struct Trace<'a>(pub &'a Script);

const NAMES: &[&str] = &["a", "b", "x", "A", "B", "T", "c"];

impl<'de> DeserializeSeed<'de> for Trace<'_> {
    type Value = ();
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        let t = self.0;
        t.left.set(t.left.get() - 1);
        if t.left.get() < 0 {
            return Err(de::Error::custom("enough"));
        }
        if !d.is_human_readable() {
            t.note(format_args!("(not human readable)"));
        }
        match t.below(40) {
            1 => d.deserialize_i8(self),
            2 => d.deserialize_i64(self),
            3 => d.deserialize_i128(self),
            4 => d.deserialize_u16(self),
            5 => d.deserialize_u64(self),
            6 => d.deserialize_u128(self),
            7 => d.deserialize_f32(self),
            8 => d.deserialize_f64(self),
            9 => d.deserialize_char(self),
            10 => d.deserialize_str(self),
            11 => d.deserialize_string(self),
            12 => d.deserialize_bytes(self),
            13 => d.deserialize_byte_buf(self),
            14 => d.deserialize_option(self),
            15 => d.deserialize_unit(self),
            16 => d.deserialize_unit_struct("U", self),
            17 | 18 => d.deserialize_newtype_struct("N", self),
            19 | 20 => d.deserialize_seq(self),
            21 => d.deserialize_tuple(t.below(4) as usize, self),
            22 => d.deserialize_tuple_struct("TS", t.below(4) as usize, self),
            23 | 24 => d.deserialize_map(self),
            25 => d.deserialize_struct("S", NAMES, self),
            26 | 27 => d.deserialize_enum("E", NAMES, self),
            28 => d.deserialize_identifier(self),
            29 => d.deserialize_ignored_any(self),
            30 => d.deserialize_bool(self),
            31 => d.deserialize_i16(self),
            32 => d.deserialize_i32(self),
            33 => d.deserialize_u8(self),
            34 => d.deserialize_u32(self),
            _ => d.deserialize_any(self),
        }
    }
}

macro_rules! notes {
    ($($f:ident $t:ty)*) => {$(
        fn $f<E: de::Error>(self, v: $t) -> Result<(), E> {
            self.0.note(format_args!("{}:{v:?}", stringify!($f)));
            self.leaf()
        }
    )*};
}

impl<'de> Visitor<'de> for Trace<'_> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything at all")
    }
    notes! {
        visit_bool bool
        visit_i8 i8 visit_i16 i16 visit_i32 i32 visit_i64 i64 visit_i128 i128
        visit_u8 u8 visit_u16 u16 visit_u32 u32 visit_u64 u64 visit_u128 u128
        visit_char char
    }
    // Borrowed or not is for others to see to.
    notes! { visit_str &str visit_bytes &[u8] }
    fn visit_f32<E: de::Error>(self, v: f32) -> Result<(), E> {
        self.0.note(format_args!("f32:{:x}", v.to_bits()));
        self.leaf()
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<(), E> {
        self.0.note(format_args!("f64:{:x}", v.to_bits()));
        self.leaf()
    }
    fn visit_none<E: de::Error>(self) -> Result<(), E> {
        self.0.note(format_args!("none"));
        self.leaf()
    }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> {
        self.0.note(format_args!("unit"));
        self.leaf()
    }
    fn visit_some<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.0.note(format_args!("some"));
        Trace(self.0).deserialize(d)
    }
    fn visit_newtype_struct<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.0.note(format_args!("newtype"));
        Trace(self.0).deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let t = self.0;
        t.note(format_args!("["));
        loop {
            t.hint(a.size_hint());
            if t.below(16) == 15 {
                return self.leaf();
            }
            if a.next_element_seed(Trace(t))?.is_none() {
                t.note(format_args!("]"));
                if t.below(8) == 7 && a.next_element_seed(Trace(t))?.is_some() {
                    t.note(format_args!("(an item after the end)"));
                }
                return self.leaf();
            }
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let t = self.0;
        t.note(format_args!("{{"));
        loop {
            t.hint(a.size_hint());
            if t.below(16) == 15 {
                return self.leaf();
            }
            if a.next_key_seed(Trace(t))?.is_none() {
                t.note(format_args!("}}"));
                return self.leaf();
            }
            t.note(format_args!("=>"));
            a.next_value_seed(Trace(t))?;
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        let t = self.0;
        t.note(format_args!("enum"));
        let ((), v) = a.variant_seed(Trace(t))?;
        match t.below(5) {
            1 => {
                v.unit_variant()?;
                t.note(format_args!("unit-variant"));
                self.leaf()
            }
            2 => v.tuple_variant(t.below(3) as usize, self),
            3 => v.struct_variant(NAMES, self),
            _ => v.newtype_variant_seed(Trace(t)),
        }
    }
}

impl Trace<'_> {
    fn leaf<E: de::Error>(&self) -> Result<(), E> {
        if self.0.below(60) == 59 {
            Err(E::custom("the visitor fails"))
        } else {
            Ok(())
        }
    }
}
