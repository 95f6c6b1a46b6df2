//! Memory whose neighbours are inaccessible, with a read-only view.

/// Where data is put: its end, or its start, at the edge of the accessible memory; or at
/// an offset from the start.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pos {
    End,
    Start,
    Off(usize),
}

#[cfg(not(miri))]
mod imp {
    use super::Pos;
    pub const SIZE: usize = 64 * 4096;
    pub struct Arena {
        pub rw: *mut u8,
        ro: *const u8,
    }
    impl Arena {
        pub fn new() -> Arena {
            unsafe {
                let fd = libc::memfd_create(c"verif".as_ptr(), 0);
                assert!(fd >= 0);
                assert_eq!(libc::ftruncate(fd, SIZE as i64), 0);
                let view = |prot: i32| {
                    let r = libc::mmap(std::ptr::null_mut(), SIZE + 2 * 65536, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
                    assert!(r != libc::MAP_FAILED);
                    let at = (r as *mut u8).add(65536) as *mut libc::c_void;
                    let m = libc::mmap(at, SIZE, prot, libc::MAP_SHARED | libc::MAP_FIXED, fd, 0);
                    assert!(m == at);
                    m as *mut u8
                };
                let rw = view(libc::PROT_READ | libc::PROT_WRITE);
                let ro = view(libc::PROT_READ);
                libc::close(fd);
                Arena { rw, ro }
            }
        }
        fn off(len: usize, pos: Pos) -> usize {
            assert!(len + 4096 <= SIZE);
            match pos {
                Pos::End => SIZE - len,
                Pos::Start => 0,
                Pos::Off(a) => a,
            }
        }
        /// `data`, readable only, at `pos`.
        pub fn put<'a>(&'a mut self, data: &[u8], pos: Pos) -> &'a [u8] {
            let o = Arena::off(data.len(), pos);
            unsafe {
                std::ptr::copy_nonoverlapping(data.as_ptr(), self.rw.add(o), data.len());
                std::slice::from_raw_parts(self.ro.add(o), data.len())
            }
        }
        /// Room for a T at `pos` (its size is a multiple of its alignment).
        pub fn room<T>(&mut self, pos: Pos) -> *mut T {
            let o = Arena::off(std::mem::size_of::<T>(), pos);
            let p = unsafe { self.rw.add(o) as *mut T };
            assert!(p as usize % std::mem::align_of::<T>() == 0);
            p
        }
    }
}

#[cfg(miri)]
mod imp {
    use super::Pos;
    /// Miri checks every access itself: exact allocations are enough.
    pub struct Arena {
        keep: Vec<u8>,
        boxed: Vec<u128>,
    }
    impl Arena {
        pub fn new() -> Arena { Arena { keep: vec![], boxed: vec![] } }
        pub fn put<'a>(&'a mut self, data: &[u8], pos: Pos) -> &'a [u8] {
            let a = match pos {
                Pos::End => 1,
                Pos::Start => 0,
                Pos::Off(a) => a,
            };
            let mut v = Vec::with_capacity(a + data.len());
            v.resize(a, 0);
            v.extend_from_slice(data);
            self.keep = v;
            &self.keep[a..]
        }
        pub fn room<T>(&mut self, _: Pos) -> *mut T {
            assert!(std::mem::align_of::<T>() <= 16);
            self.boxed = vec![0; std::mem::size_of::<T>() / 16 + 1];
            self.boxed.as_mut_ptr() as *mut T
        }
    }
}
pub use imp::Arena;

thread_local! {
    static A: std::cell::RefCell<Option<(Arena, Arena)>> = const { std::cell::RefCell::new(None) };
}
/// Runs `f` with this thread's two arenas.
pub fn with<R>(f: impl FnOnce(&mut Arena, &mut Arena) -> R) -> R {
    A.with(|a| {
        let mut g = a.borrow_mut();
        let (x, y) = g.get_or_insert_with(|| (Arena::new(), Arena::new()));
        f(x, y)
    })
}
