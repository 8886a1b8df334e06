// Access for the harnesses in api.rs.
#[allow(unused_imports)]
use super::*;
#[allow(dead_code)]
impl<T, const CAP: usize, R> StaticThingBuf<T, CAP, R> {
    pub(crate) fn verif_core(&self) -> &Core { &self.core }
    pub(crate) fn verif_slots(&self) -> &[Slot<T>] { &self.slots }
}
