// Included once per level by ty.rs: each level's types may pass through
// `serde_yaml::with` as many times (the wrappers' types would nest without end).

// ------------------------------------------------------------- serialize

pub struct TV<'a>(pub &'a Ty, pub &'a Val);

impl Serialize for TV<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (Ty::Unit, _) => s.serialize_unit(),
            (Ty::Bool, Val::Bool(b)) => s.serialize_bool(*b),
            (Ty::Int(bits, signed), Val::Int(n, m)) => {
                let i = if *n { (*m as i128).wrapping_neg() } else { *m as i128 };
                match (bits, signed) {
                    (8, true) => s.serialize_i8(i as i8),
                    (16, true) => s.serialize_i16(i as i16),
                    (32, true) => s.serialize_i32(i as i32),
                    (64, true) => s.serialize_i64(i as i64),
                    (_, true) => s.serialize_i128(i),
                    (8, false) => s.serialize_u8(*m as u8),
                    (16, false) => s.serialize_u16(*m as u16),
                    (32, false) => s.serialize_u32(*m as u32),
                    (64, false) => s.serialize_u64(*m as u64),
                    (_, false) => s.serialize_u128(*m),
                }
            }
            (Ty::F32, Val::F32(f)) => s.serialize_f32(*f),
            (Ty::F64, Val::F64(f)) => s.serialize_f64(*f),
            (Ty::Char, Val::Char(c)) => s.serialize_char(*c),
            (Ty::Str, Val::Str(t)) => s.serialize_str(t),
            (Ty::Bytes, Val::Bytes(b)) => s.serialize_bytes(b),
            (Ty::Opt(_), Val::None) => s.serialize_none(),
            (Ty::Opt(t), Val::Some(v)) => s.serialize_some(&TV(t, v)),
            (Ty::Seq(t), Val::Seq(v)) => {
                let mut q = s.serialize_seq(Some(v.len()))?;
                for x in v {
                    q.serialize_element(&TV(t, x))?;
                }
                q.end()
            }
            (Ty::Tuple(t), Val::Prod(v)) => {
                let mut q = s.serialize_tuple(v.len())?;
                for (t, x) in t.iter().zip(v) {
                    q.serialize_element(&TV(t, x))?;
                }
                q.end()
            }
            (Ty::Map(k, t), Val::Map(v)) => {
                let mut q = s.serialize_map(Some(v.len()))?;
                for (a, b) in v {
                    q.serialize_entry(&TV(k, a), &TV(t, b))?;
                }
                q.end()
            }
            (Ty::UnitStruct, _) => s.serialize_unit_struct("U"),
            (Ty::Newtype(t), Val::New(v)) => s.serialize_newtype_struct("N", &TV(t, v)),
            (Ty::TupleStruct(t), Val::Prod(v)) => {
                let mut q = s.serialize_tuple_struct("T", v.len())?;
                for (t, x) in t.iter().zip(v) {
                    q.serialize_field(&TV(t, x))?;
                }
                q.end()
            }
            (Ty::Struct(f), Val::Prod(v)) => {
                let mut q = s.serialize_struct("S", v.len())?;
                for ((n, t), x) in f.iter().zip(v) {
                    q.serialize_field(n, &TV(t, x))?;
                }
                q.end()
            }
            (Ty::Enum(vs), Val::Var(i, v)) => {
                let (name, var) = &vs[*i];
                let ix = *i as u32;
                match (var, &**v) {
                    (Var::Unit, _) => s.serialize_unit_variant("E", ix, name),
                    (Var::New(t), v) => s.serialize_newtype_variant("E", ix, name, &TV(t, v)),
                    (Var::Tuple(t), Val::Prod(v)) => {
                        let mut q = s.serialize_tuple_variant("E", ix, name, v.len())?;
                        for (t, x) in t.iter().zip(v) {
                            q.serialize_field(&TV(t, x))?;
                        }
                        q.end()
                    }
                    (Var::Struct(f), Val::Prod(v)) => {
                        let mut q = s.serialize_struct_variant("E", ix, name, v.len())?;
                        for ((n, t), x) in f.iter().zip(v) {
                            q.serialize_field(n, &TV(t, x))?;
                        }
                        q.end()
                    }
                    _ => Err(ser::Error::custom("harness: value does not fit its type")),
                }
            }
            (Ty::Any, Val::Any(m)) => m.to_value().serialize(s),
            (Ty::With(rec, t), v) => write_with(*rec, t, v, s),
            _ => Err(ser::Error::custom("harness: value does not fit its type")),
        }
    }
}

// ----------------------------------------------------------- deserialize

#[derive(Copy, Clone)]
pub struct Seed<'a>(pub &'a Ty);

struct Ident<'a>(&'a [&'static str], bool);
/// The index of a known name, or the unknown one.
enum Named {
    Known(usize),
    Unknown(()),
}
impl<'de> DeserializeSeed<'de> for Ident<'_> {
    type Value = Named;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Named, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Ident<'_> {
    type Value = Named;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(if self.1 { "variant identifier" } else { "field identifier" })
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Named, E> {
        if (v as usize) < self.0.len() {
            Ok(Named::Known(v as usize))
        } else if self.1 {
            Err(E::invalid_value(de::Unexpected::Unsigned(v), &"variant index"))
        } else {
            Ok(Named::Unknown(()))
        }
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Named, E> {
        match self.0.iter().position(|n| *n == v) {
            Some(i) => Ok(Named::Known(i)),
            None if self.1 => Err(E::unknown_variant(v, intern_list(self.0))),
            None => Ok(Named::Unknown(())),
        }
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Named, E> {
        match std::str::from_utf8(v) {
            Ok(s) => self.visit_str(s),
            Err(_) => Ok(Named::Unknown(())),
        }
    }
}

struct OptV<'a>(&'a Ty);
impl<'de> Visitor<'de> for OptV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("option")
    }
    fn visit_unit<E>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_none<E>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Ok(Val::Some(Box::new(Seed(self.0).deserialize(d)?)))
    }
}

struct SeqV<'a>(&'a Ty);
impl<'de> Visitor<'de> for SeqV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a sequence")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element_seed(Seed(self.0))? {
            v.push(x);
        }
        Ok(Val::Seq(v))
    }
}

struct TupV<'a>(&'a [Ty]);
impl<'de> Visitor<'de> for TupV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "a tuple of size {}", self.0.len())
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = Vec::new();
        for t in self.0 {
            match a.next_element_seed(Seed(t))? {
                Some(x) => v.push(x),
                None => return Err(de::Error::invalid_length(v.len(), &self)),
            }
        }
        Ok(Val::Prod(v))
    }
}

struct MapV<'a>(&'a Ty, &'a Ty);
impl<'de> Visitor<'de> for MapV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = Vec::new();
        while let Some(k) = a.next_key_seed(Seed(self.0))? {
            let x = a.next_value_seed(Seed(self.1))?;
            v.push((k, x));
        }
        Ok(Val::Map(v))
    }
}

struct UnitStructV;
impl<'de> Visitor<'de> for UnitStructV {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("unit struct U")
    }
    fn visit_unit<E>(self) -> Result<Val, E> {
        Ok(Val::Unit)
    }
}

struct NewV<'a>(&'a Ty);
impl<'de> Visitor<'de> for NewV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("tuple struct N")
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Ok(Val::New(Box::new(Seed(self.0).deserialize(d)?)))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match a.next_element_seed(Seed(self.0))? {
            Some(x) => Ok(Val::New(Box::new(x))),
            None => Err(de::Error::invalid_length(0, &"tuple struct N with 1 element")),
        }
    }
}

/// As `#[derive(Deserialize)]` without attributes: unknown fields ignored,
/// duplicate fields rejected, missing fields allowed only for options.
struct StructV<'a>(&'a [(&'static str, Ty)]);
impl<'de> Visitor<'de> for StructV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("struct S")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = Vec::new();
        for (_, t) in self.0 {
            match a.next_element_seed(Seed(t))? {
                Some(x) => v.push(x),
                None => return Err(de::Error::invalid_length(v.len(), &"struct S")),
            }
        }
        Ok(Val::Prod(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let names: Vec<&'static str> = self.0.iter().map(|f| f.0).collect();
        let mut got: Vec<Option<Val>> = vec![None; names.len()];
        while let Some(n) = a.next_key_seed(Ident(&names, false))? {
            match n {
                Named::Known(i) => {
                    if got[i].is_some() {
                        return Err(de::Error::duplicate_field(names[i]));
                    }
                    got[i] = Some(a.next_value_seed(Seed(&self.0[i].1))?);
                }
                Named::Unknown(()) => {
                    a.next_value::<IgnoredAny>()?;
                }
            }
        }
        let mut v = Vec::new();
        for (i, g) in got.into_iter().enumerate() {
            v.push(match g {
                Some(x) => x,
                None if matches!(self.0[i].1, Ty::Opt(_)) => Val::None,
                None => return Err(de::Error::missing_field(names[i])),
            });
        }
        Ok(Val::Prod(v))
    }
}

struct EnumV<'a>(&'a [(&'static str, Var)]);
impl<'de> Visitor<'de> for EnumV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("enum E")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        let names: Vec<&'static str> = self.0.iter().map(|f| f.0).collect();
        let (n, va) = a.variant_seed(Ident(&names, true))?;
        let i = match n {
            Named::Known(i) => i,
            Named::Unknown(()) => return Err(de::Error::custom("unknown variant")),
        };
        let inner = match &self.0[i].1 {
            Var::Unit => {
                va.unit_variant()?;
                Val::Unit
            }
            Var::New(t) => va.newtype_variant_seed(Seed(t))?,
            Var::Tuple(t) => va.tuple_variant(t.len(), TupV(t))?,
            Var::Struct(f) => {
                let names: Vec<&'static str> = f.iter().map(|f| f.0).collect();
                va.struct_variant(intern_list(&names), StructV(f))?
            }
        };
        Ok(Val::Var(i, Box::new(inner)))
    }
}

struct BytesV;
impl<'de> Visitor<'de> for BytesV {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("byte array")
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Val, E> {
        Ok(Val::Bytes(v.to_vec()))
    }
    fn visit_str<E>(self, v: &str) -> Result<Val, E> {
        Ok(Val::Bytes(v.as_bytes().to_vec()))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element::<u8>()? {
            v.push(x);
        }
        Ok(Val::Bytes(v))
    }
}

impl<'de> DeserializeSeed<'de> for Seed<'_> {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Ok(match self.0 {
            Ty::Unit => {
                <()>::deserialize(d)?;
                Val::Unit
            }
            Ty::Bool => Val::Bool(bool::deserialize(d)?),
            Ty::Int(8, true) => iv(i8::deserialize(d)? as i128),
            Ty::Int(16, true) => iv(i16::deserialize(d)? as i128),
            Ty::Int(32, true) => iv(i32::deserialize(d)? as i128),
            Ty::Int(64, true) => iv(i64::deserialize(d)? as i128),
            Ty::Int(_, true) => iv(i128::deserialize(d)?),
            Ty::Int(8, false) => int_val(false, u8::deserialize(d)? as u128),
            Ty::Int(16, false) => int_val(false, u16::deserialize(d)? as u128),
            Ty::Int(32, false) => int_val(false, u32::deserialize(d)? as u128),
            Ty::Int(64, false) => int_val(false, u64::deserialize(d)? as u128),
            Ty::Int(_, false) => int_val(false, u128::deserialize(d)?),
            Ty::F32 => Val::F32(f32::deserialize(d)?),
            Ty::F64 => Val::F64(f64::deserialize(d)?),
            Ty::Char => Val::Char(char::deserialize(d)?),
            Ty::Str => Val::Str(String::deserialize(d)?),
            Ty::Bytes => d.deserialize_byte_buf(BytesV)?,
            Ty::Opt(t) => d.deserialize_option(OptV(t))?,
            Ty::Seq(t) => d.deserialize_seq(SeqV(t))?,
            Ty::Tuple(t) => d.deserialize_tuple(t.len(), TupV(t))?,
            Ty::Map(k, v) => d.deserialize_map(MapV(k, v))?,
            Ty::UnitStruct => d.deserialize_unit_struct("U", UnitStructV)?,
            Ty::Newtype(t) => d.deserialize_newtype_struct("N", NewV(t))?,
            Ty::TupleStruct(t) => d.deserialize_tuple_struct("T", t.len(), TupV(t))?,
            Ty::Struct(f) => {
                let names: Vec<&'static str> = f.iter().map(|f| f.0).collect();
                d.deserialize_struct("S", intern_list(&names), StructV(f))?
            }
            Ty::Enum(v) => {
                let names: Vec<&'static str> = v.iter().map(|f| f.0).collect();
                d.deserialize_enum("E", intern_list(&names), EnumV(v))?
            }
            Ty::Any => Val::Any(MV::of(&Value::deserialize(d)?)),
            Ty::Ignored => {
                IgnoredAny::deserialize(d)?;
                Val::Ignored
            }
            Ty::With(rec, t) => read_with(*rec, t, d)?,
        })
    }
}

