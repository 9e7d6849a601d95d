//! Model of the parts of `memchr` norm may use, written as plain loops.
//!
//! The real crate dispatches to SIMD code at run time through CPU detection;
//! this model is its documented contract (first/last index of a byte).  The
//! replay driver links the real crate and compares both on every witness.
#![no_std]

macro_rules! family {
    ($fwd:ident, $rev:ident, $iter:ident, $riter:ident, $ty:ident, $($n:ident),+) => {
        #[inline]
        pub fn $fwd($($n: u8,)+ haystack: &[u8]) -> Option<usize> {
            let mut i = 0;
            while i < haystack.len() {
                let b = haystack[i];
                if false $(|| b == $n)+ {
                    return Some(i);
                }
                i += 1;
            }
            None
        }

        #[inline]
        pub fn $rev($($n: u8,)+ haystack: &[u8]) -> Option<usize> {
            let mut i = haystack.len();
            while i > 0 {
                i -= 1;
                let b = haystack[i];
                if false $(|| b == $n)+ {
                    return Some(i);
                }
            }
            None
        }

        #[derive(Clone, Debug)]
        pub struct $ty<'h> {
            $($n: u8,)+
            haystack: &'h [u8],
            front: usize,
            back: usize,
        }

        impl<'h> $ty<'h> {
            #[inline]
            pub fn new($($n: u8,)+ haystack: &'h [u8]) -> Self {
                Self { $($n,)+ haystack, front: 0, back: haystack.len() }
            }
        }

        impl Iterator for $ty<'_> {
            type Item = usize;
            #[inline]
            fn next(&mut self) -> Option<usize> {
                while self.front < self.back {
                    let i = self.front;
                    self.front += 1;
                    let b = self.haystack[i];
                    if false $(|| b == self.$n)+ {
                        return Some(i);
                    }
                }
                None
            }
        }

        impl DoubleEndedIterator for $ty<'_> {
            #[inline]
            fn next_back(&mut self) -> Option<usize> {
                while self.front < self.back {
                    self.back -= 1;
                    let b = self.haystack[self.back];
                    if false $(|| b == self.$n)+ {
                        return Some(self.back);
                    }
                }
                None
            }
        }

        #[inline]
        pub fn $iter<'h>($($n: u8,)+ haystack: &'h [u8]) -> $ty<'h> {
            $ty::new($($n,)+ haystack)
        }

        #[inline]
        pub fn $riter<'h>(
            $($n: u8,)+
            haystack: &'h [u8],
        ) -> core::iter::Rev<$ty<'h>> {
            $ty::new($($n,)+ haystack).rev()
        }
    };
}

family!(memchr, memrchr, memchr_iter, memrchr_iter, Memchr, needle1);
family!(memchr2, memrchr2, memchr2_iter, memrchr2_iter, Memchr2, needle1, needle2);
family!(
    memchr3, memrchr3, memchr3_iter, memrchr3_iter, Memchr3, needle1, needle2, needle3
);

pub mod memmem {
    #[inline]
    pub fn find(haystack: &[u8], needle: &[u8]) -> Option<usize> {
        let mut i = 0;
        while i + needle.len() <= haystack.len() {
            if &haystack[i..i + needle.len()] == needle {
                return Some(i);
            }
            i += 1;
        }
        None
    }

    #[inline]
    pub fn rfind(haystack: &[u8], needle: &[u8]) -> Option<usize> {
        if needle.len() > haystack.len() {
            return None;
        }
        let mut i = haystack.len() - needle.len() + 1;
        while i > 0 {
            i -= 1;
            if &haystack[i..i + needle.len()] == needle {
                return Some(i);
            }
        }
        None
    }
}
