#![allow(dead_code)]
//! A NOR flash in memory
use cfg_noodle::flash::Flash;
use cfg_noodle::sequential_storage::cache::NoCache;
use cfg_noodle::sequential_storage::queue::{QueueConfig, QueueStorage};
use embedded_storage_async::nor_flash::{
    ErrorType, MultiwriteNorFlash, NorFlash, NorFlashError, NorFlashErrorKind, ReadNorFlash,
};

#[derive(Clone)]
pub struct Nor<const W: usize, const E: usize>(pub Vec<u8>);
#[derive(Debug)]
pub struct NorErr;
impl NorFlashError for NorErr {
    fn kind(&self) -> NorFlashErrorKind {
        NorFlashErrorKind::Other
    }
}
impl<const W: usize, const E: usize> ErrorType for Nor<W, E> {
    type Error = NorErr;
}
impl<const W: usize, const E: usize> ReadNorFlash for Nor<W, E> {
    const READ_SIZE: usize = 1;
    async fn read(&mut self, o: u32, b: &mut [u8]) -> Result<(), NorErr> {
        let o = o as usize;
        b.copy_from_slice(self.0.get(o..o + b.len()).ok_or(NorErr)?);
        Ok(())
    }
    fn capacity(&self) -> usize {
        self.0.len()
    }
}
impl<const W: usize, const E: usize> NorFlash for Nor<W, E> {
    const WRITE_SIZE: usize = W;
    const ERASE_SIZE: usize = E;
    async fn erase(&mut self, from: u32, to: u32) -> Result<(), NorErr> {
        self.0.get_mut(from as usize..to as usize).ok_or(NorErr)?.fill(0xff);
        Ok(())
    }
    async fn write(&mut self, o: u32, b: &[u8]) -> Result<(), NorErr> {
        let o = o as usize;
        if o % W != 0 || b.len() % W != 0 {
            return Err(NorErr);
        }
        for (m, b) in self.0.get_mut(o..o + b.len()).ok_or(NorErr)?.iter_mut().zip(b) {
            *m &= *b;
        }
        Ok(())
    }
}
impl<const W: usize, const E: usize> MultiwriteNorFlash for Nor<W, E> {}

pub type Dev<const W: usize, const E: usize> = Flash<Nor<W, E>, NoCache>;
pub fn blank<const W: usize, const E: usize>(pages: usize) -> Nor<W, E> {
    Nor(vec![0xff; pages * E])
}
pub fn dev<const W: usize, const E: usize>(nor: Nor<W, E>) -> Dev<W, E> {
    let end = nor.0.len() as u32;
    Flash::new(nor, 0..end, NoCache::new())
}
/// A part that holds the given raw queue items
pub fn with_items<const W: usize, const E: usize>(pages: usize, items: &[Vec<u8>]) -> Nor<W, E> {
    let mut q = QueueStorage::new(blank::<W, E>(pages), QueueConfig::new(0..(pages * E) as u32), NoCache::new());
    for i in items {
        super::kit::run(q.push(i, false)).expect("there is room");
    }
    q.flash().clone()
}
/// All raw queue items of a part
pub fn items<const W: usize, const E: usize>(nor: &Nor<W, E>) -> Vec<Vec<u8>> {
    let mut q = QueueStorage::new(nor.clone(), QueueConfig::new(0..nor.0.len() as u32), NoCache::new());
    super::kit::run(async {
        let mut v = vec![];
        let mut it = q.iter().await.expect("iter");
        let mut buf = vec![0; 65536];
        while let Some(e) = it.next(&mut buf).await.expect("next") {
            v.push(e.to_vec());
        }
        v
    })
}
