use crate::engine::Prop;
use serde::Serialize;

mod access;
mod apart;
mod calls;
mod clear;
mod derive;
mod enums;
mod foreign;
mod growth;
mod io;
mod robust;
mod scale;
mod text;
pub mod trace;
mod typed;
mod values;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(text::props());
    v.extend(values::props());
    v.extend(io::props());
    v.extend(typed::props());
    v.extend(robust::props());
    v.extend(calls::props());
    v.extend(enums::props());
    v.extend(access::props());
    v.extend(foreign::props());
    v.extend(apart::props());
    v.extend(growth::props());
    v
}

/// `to_string`, with a uniform failure.
pub fn ystr<T: Serialize + ?Sized>(v: &T) -> Result<String, crate::engine::Fail> {
    serde_yaml::to_string(v).map_err(|e| crate::engine::Fail {
        sig: "serialize-error".into(),
        msg: format!("serialization failed: {e}"),
    })
}
