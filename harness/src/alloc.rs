//! A counting allocator: what the current thread allocated, holds and held at most.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

#[derive(Clone, Copy, Default, Debug)]
pub struct Use {
  /// bytes asked for since the thread began
  pub total: u64,
  /// calls
  pub calls: u64,
  /// bytes held; may be negative where another thread allocated
  pub live: i64,
  /// the most bytes held since `mark`
  pub peak: i64,
}
thread_local! {
  static USE: Cell<Use> = const { Cell::new(Use { total: 0, calls: 0, live: 0, peak: 0 }) };
}
fn note(got: usize, gave: usize) {
  let _ = USE.try_with(|c| {
    let mut u = c.get();
    if got > 0 {
      u.total += got as u64;
      u.calls += 1;
    }
    u.live += got as i64 - gave as i64;
    u.peak = u.peak.max(u.live);
    c.set(u);
  });
}
/// the use so far; the peak counts from here again
pub fn mark() -> Use {
  USE.with(|c| {
    let mut u = c.get();
    u.peak = u.live;
    c.set(u);
    u
  })
}
pub fn now() -> Use {
  USE.with(|c| c.get())
}

unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    let p = System.alloc(l);
    if !p.is_null() {
      note(l.size(), 0);
    }
    p
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    let p = System.alloc_zeroed(l);
    if !p.is_null() {
      note(l.size(), 0);
    }
    p
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    System.dealloc(p, l);
    note(0, l.size());
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    let q = System.realloc(p, l, n);
    if !q.is_null() {
      note(n, l.size());
    }
    q
  }
}
