//! The bundled in-memory storage.
use super::vp;
use fuel_merkle::common::StorageMap;
use fuel_merkle::storage::{Mappable, StorageInspectInfallible as SI, StorageMutateInfallible as SM};
use fuel_storage::{StorageInspect, StorageMutate};

/// Values are stored converted, as the table's types say.
#[derive(Clone)]
pub struct Val(pub [u8; 8], pub u8);
impl From<[u8; 8]> for Val {
    fn from(x: [u8; 8]) -> Val {
        Val(x, 7)
    }
}
pub struct T;
impl Mappable for T {
    type Key = [u8; 32];
    type SetValue = [u8; 8];
    type GetValue = Val;
}
/// The specification: a list of (key, current value).
struct Spec(Vec<([u8; 32], Option<[u8; 8]>)>);
impl Spec {
    fn get(&self, k: &[u8; 32]) -> Option<[u8; 8]> {
        let mut r = None;
        for e in &self.0 {
            if e.0 == *k {
                r = e.1;
            }
        }
        r
    }
    fn set(&mut self, k: &[u8; 32], v: Option<[u8; 8]>) {
        self.0.push((*k, v));
    }
}
fn same(got: Option<Val>, want: Option<[u8; 8]>, id: &str) {
    match (got, want) {
        (None, None) => {}
        (Some(g), Some(w)) => {
            vp::check_eq(&g.0, &w, id);
            vp::check(g.1 == 7, id);
        }
        _ => vp::check(false, id),
    }
}

/// K01: number of operations, number of symbolic keys to look at in the end. Every history of
/// insert, remove, get and contains, through either interface, with unconstrained keys and values.
#[no_mangle]
pub extern "C" fn h_k01() {
    let n = vp::param(0);
    let mut m = StorageMap::<T>::new();
    let mut w = Spec(Vec::new());
    for i in 0..n as u32 {
        let k = vp::sym::<32>(100 + i);
        let v = vp::sym::<8>(200 + i);
        let old = w.get(&k);
        match vp::choose(10 + i, 8) {
            0 => {
                same(StorageMutate::insert(&mut m, &k, &v).unwrap(), old, "K01.insert");
                w.set(&k, Some(v));
            }
            1 => {
                same(StorageMutate::remove(&mut m, &k).unwrap(), old, "K01.remove");
                w.set(&k, None);
            }
            2 => same(StorageInspect::get(&m, &k).unwrap().map(|x| x.into_owned()), old, "K01.get"),
            3 => vp::check(StorageInspect::contains_key(&m, &k).unwrap() == old.is_some(), "K01.contains"),
            4 => {
                same(SM::insert(&mut m, &k, &v), old, "K01.insert-infallible");
                w.set(&k, Some(v));
            }
            5 => {
                same(SM::remove(&mut m, &k), old, "K01.remove-infallible");
                w.set(&k, None);
            }
            6 => same(SI::get(&m, &k).map(|x| x.into_owned()), old, "K01.get-infallible"),
            _ => vp::check(SI::contains_key(&m, &k) == old.is_some(), "K01.contains-infallible"),
        }
    }
    let k = vp::sym::<32>(99);
    let want = w.get(&k);
    vp::check(StorageInspect::contains_key(&m, &k).unwrap() == want.is_some(), "K01.other");
    if let Some(x) = &want {
        vp::observe("value", x);
    }
    same(StorageInspect::get(&m, &k).unwrap().map(|x| x.into_owned()), want, "K01.other");
    let d = StorageMap::<T>::default();
    vp::check(!StorageInspect::contains_key(&d, &k).unwrap(), "K01.default");
    vp::cover("end");
}
