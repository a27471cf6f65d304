#[macro_use]
mod mac {
    /// declares harness entry points and a table to run them by name
    macro_rules! harnesses {
        ($( fn $name:ident ( $($a:ident),* ) $body:block )*) => {
            $(
                #[no_mangle]
                pub extern "C" fn $name($($a: u64),*) $body
            )*
            #[allow(dead_code)]
            pub fn run(name: &str, args: &[u64]) -> bool {
                $(
                    if name == stringify!($name) {
                        let mut it = args.iter().copied();
                        $( let $a = it.next().unwrap_or(0); )*
                        $name($($a),*);
                        return true;
                    }
                )*
                let _ = args;
                false
            }
        };
    }
}
#[allow(dead_code)]
pub mod sym;
#[allow(dead_code)]
pub mod refm;
#[allow(dead_code)]
pub mod txs;
macro_rules! modules {
    ($($f:literal $m:ident)*) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        #[allow(dead_code)]
        pub fn run_harness(name: &str, args: &[u64]) -> bool {
            $( #[cfg(feature = $f)] if $m::run(name, args) { return true; } )*
            let _ = (name, args);
            false
        }
    };
}
modules! {
    "c01" c01 "c02" c02 "c03" c03 "c04" c04 "c05" c05 "c06" c06 "c07" c07 "c08" c08 "c09" c09 "c10" c10 "c11" c11 "c12" c12 "c13" c13 "c14" c14 "c15" c15 "c16" c16 "c17" c17 "c18" c18 "c19" c19 "c20" c20 "c21" c21 "c22" c22 "c23" c23 "c24" c24 "c25" c25
}
