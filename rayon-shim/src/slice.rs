use crate::iter::*;

pub trait ParallelSlice<T: Sync> {
    fn as_par_slice(&self) -> &[T];
    fn par_chunks(&self, n: usize) -> Items<&[T]> {
        Items(self.as_par_slice().chunks(n).collect())
    }
    fn par_chunks_exact(&self, n: usize) -> Items<&[T]> {
        Items(self.as_par_slice().chunks_exact(n).collect())
    }
    fn par_windows(&self, n: usize) -> Items<&[T]> {
        Items(self.as_par_slice().windows(n).collect())
    }
}
impl<T: Sync> ParallelSlice<T> for [T] {
    fn as_par_slice(&self) -> &[T] {
        self
    }
}
pub trait ParallelSliceMut<T: Send> {
    fn as_par_slice_mut(&mut self) -> &mut [T];
    fn par_chunks_mut(&mut self, n: usize) -> Items<&mut [T]> {
        Items(self.as_par_slice_mut().chunks_mut(n).collect())
    }
    fn par_sort(&mut self)
    where
        T: Ord,
    {
        self.as_par_slice_mut().sort()
    }
    fn par_sort_by<F: Fn(&T, &T) -> std::cmp::Ordering + Sync>(&mut self, f: F) {
        self.as_par_slice_mut().sort_by(f)
    }
    fn par_sort_by_key<K: Ord, F: Fn(&T) -> K + Sync>(&mut self, f: F) {
        self.as_par_slice_mut().sort_by_key(f)
    }
    fn par_sort_by_cached_key<K: Ord, F: Fn(&T) -> K + Sync>(&mut self, f: F) {
        self.as_par_slice_mut().sort_by_cached_key(f)
    }
    fn par_sort_unstable(&mut self)
    where
        T: Ord,
    {
        self.as_par_slice_mut().sort_unstable()
    }
    fn par_sort_unstable_by<F: Fn(&T, &T) -> std::cmp::Ordering + Sync>(&mut self, f: F) {
        self.as_par_slice_mut().sort_unstable_by(f)
    }
    fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K + Sync>(&mut self, f: F) {
        self.as_par_slice_mut().sort_unstable_by_key(f)
    }
}
impl<T: Send> ParallelSliceMut<T> for [T] {
    fn as_par_slice_mut(&mut self) -> &mut [T] {
        self
    }
}
