//! An allocator that knows which memory the server took and has not given back.
//!
//! Memory allocated on a thread while `inside` is set belongs to the server, whoever frees it and when.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
	static INSIDE: Cell<bool> = const { Cell::new(false) };
	static LIVE: Cell<isize> = const { Cell::new(0) };
}

pub struct Heap;

#[global_allocator]
static HEAP: Heap = Heap;

fn front(l: &Layout) -> usize {
	l.align().max(16)
}

fn whole(l: &Layout, size: usize) -> Option<Layout> {
	Layout::from_size_align(size.checked_add(front(l))?, l.align().max(16)).ok()
}

fn count(n: isize) {
	let live = LIVE.try_with(|l| {
		l.set(l.get() + n);
		l.get()
	});
	if n > 0 && live.unwrap_or(0) > crate::watch::MEMORY {
		crate::watch::too_much();
	}
}

unsafe impl GlobalAlloc for Heap {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		let w = match whole(&l, l.size()) {
			Some(w) => w,
			None => return std::ptr::null_mut(),
		};
		let p = System.alloc(w);
		if p.is_null() {
			return p;
		}
		let mine = INSIDE.try_with(|i| i.get()).unwrap_or(false);
		if mine {
			count(l.size() as isize);
		}
		let p = p.add(front(&l));
		*p.sub(8) = mine as u8;
		p
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		let w = match whole(&l, l.size()) {
			Some(w) => w,
			None => return std::ptr::null_mut(),
		};
		let p = System.alloc_zeroed(w);
		if p.is_null() {
			return p;
		}
		let mine = INSIDE.try_with(|i| i.get()).unwrap_or(false);
		if mine {
			count(l.size() as isize);
		}
		let p = p.add(front(&l));
		*p.sub(8) = mine as u8;
		p
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		if *p.sub(8) != 0 {
			count(-(l.size() as isize));
		}
		System.dealloc(p.sub(front(&l)), whole(&l, l.size()).unwrap());
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
		if whole(&l, new).is_none() {
			return std::ptr::null_mut();
		}
		let mine = *p.sub(8) != 0;
		let q = System.realloc(p.sub(front(&l)), whole(&l, l.size()).unwrap(), new + front(&l));
		if q.is_null() {
			return q;
		}
		if mine {
			count(new as isize - l.size() as isize);
		}
		q.add(front(&l))
	}
}

/// Bytes the server has on this thread.
pub fn live() -> isize {
	LIVE.with(|l| l.get())
}

/// Says whose allocations follow until it is dropped.
pub struct Owner(bool);

pub fn owner(server: bool) -> Owner {
	Owner(INSIDE.with(|i| i.replace(server)))
}

impl Drop for Owner {
	fn drop(&mut self) {
		let was = self.0;
		let _ = INSIDE.try_with(|i| i.set(was));
	}
}
