//! Harnesses for Kani. Every body reads its inputs through `Input`, so that a counterexample of the
//! solver can be run again natively, on the same code, by `src/bin/replay.rs`.

pub mod bodies;
pub mod input;

#[macro_export]
macro_rules! harnesses {
    ($($name:ident $(unwind $unwind:literal)? $(refuses $panics:ident)?;)*) => {
        /// The body of a harness by its name, and whether it has to panic.
        pub fn find(name: &str) -> Option<(fn(&mut $crate::input::Given), bool)> {
            match name {
                $(stringify!($name) => Some(($name::<$crate::input::Given>, false $(|| stringify!($panics) == "all")?)),)*
                _ => None,
            }
        }

        #[cfg(kani)]
        pub mod proofs {
            $(
                #[kani::proof]
                $(#[kani::unwind($unwind)])?
                $(#[doc = stringify!($panics)] #[kani::should_panic])?
                fn $name() {
                    super::$name(&mut $crate::input::Any);
                    kani::cover!(true, "returned");
                }
            )*
        }
    };
}
