use crate::mc;
use std::sync::Mutex;

pub fn current_num_threads() -> usize {
    mc::current().map_or(1, |s| s.cfg.threads)
}
pub fn max_num_threads() -> usize {
    1 << 16
}
pub fn current_thread_index() -> Option<usize> {
    None
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    None
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    let (ra, rb) = (Mutex::new(None), Mutex::new(None));
    {
        let (pa, pb) = (&ra, &rb);
        mc::fork_join(vec![
            Box::new(move || *pa.lock().unwrap() = Some(a())),
            Box::new(move || *pb.lock().unwrap() = Some(b())),
        ]);
    }
    (ra.into_inner().unwrap().unwrap(), rb.into_inner().unwrap().unwrap())
}

type Spawned<'s> = Box<dyn FnOnce(&Scope<'s>) + Send + 's>;
pub struct Scope<'s> {
    jobs: Mutex<Vec<Spawned<'s>>>,
}
impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) {
        self.jobs.lock().unwrap().push(Box::new(f));
    }
}
/// Spawned work starts once the scope's body has ended, in rounds.
pub fn scope<'s, F, R>(f: F) -> R
where
    F: FnOnce(&Scope<'s>) -> R + Send,
    R: Send,
{
    let s = Scope { jobs: Mutex::new(vec![]) };
    let r = f(&s);
    loop {
        let jobs = std::mem::take(&mut *s.jobs.lock().unwrap());
        if jobs.is_empty() {
            return r;
        }
        let sr = &s;
        mc::fork_join(jobs.into_iter().map(|j| Box::new(move || j(sr)) as Box<dyn FnOnce() + Send + '_>).collect());
    }
}
pub fn in_place_scope<'s, F, R>(f: F) -> R
where
    F: FnOnce(&Scope<'s>) -> R,
{
    let s = Scope { jobs: Mutex::new(vec![]) };
    let r = f(&s);
    loop {
        let jobs = std::mem::take(&mut *s.jobs.lock().unwrap());
        if jobs.is_empty() {
            return r;
        }
        let sr = &s;
        mc::fork_join(jobs.into_iter().map(|j| Box::new(move || j(sr)) as Box<dyn FnOnce() + Send + '_>).collect());
    }
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "thread pool")
    }
}
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Default, Debug)]
pub struct ThreadPoolBuilder(usize);
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self(0)
    }
    pub fn num_threads(self, n: usize) -> Self {
        Self(n)
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _: F) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool(self.0))
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
#[derive(Debug)]
pub struct ThreadPool(usize);
impl ThreadPool {
    pub fn install<R: Send, F: FnOnce() -> R + Send>(&self, f: F) -> R {
        f()
    }
    pub fn current_num_threads(&self) -> usize {
        if self.0 == 0 { current_num_threads() } else { self.0 }
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'s, F, R>(&self, f: F) -> R
    where
        F: FnOnce(&Scope<'s>) -> R + Send,
        R: Send,
    {
        scope(f)
    }
}
