//! Data-source snapshot support: a data source with known items.
use ckb_vm::snapshot2::{DataSource, Snapshot2Context};
use ckb_vm::Bytes;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Default, Debug)]
pub struct Src { pub items: Arc<HashMap<u32, Bytes>> }
impl DataSource<u32> for Src {
    fn load_data(&self, id: &u32, offset: u64, length: u64) -> Option<(Bytes, u64)> {
        let d = self.items.get(id)?;
        let off = offset.min(d.len() as u64);
        let full = d.len() as u64 - off;
        let n = if length == 0 { full } else { full.min(length) };
        Some((d.slice(off as usize..(off + n) as usize), full))
    }
}
pub type Ctx = Snapshot2Context<u32, Src>;
pub struct S2 { pub ctx: Ctx, pub src: Src }
impl S2 { pub fn new(items: HashMap<u32, Bytes>) -> Self { let src = Src { items: Arc::new(items) }; S2 { ctx: Ctx::new(src.clone()), src } } }
