pub mod kit;
pub mod sx;

/// Declares harness entry points and the table the native replay binary looks them up in.
#[macro_export]
macro_rules! harness {
    ($($(#[$m:meta])* $name:ident $body:block)*) => {
        $( $(#[$m])* #[no_mangle] pub extern "C" fn $name() $body )*
        pub const LIST: &[(&str, extern "C" fn())] = &[ $( (stringify!($name), $name) ),* ];
    };
}

macro_rules! modules {
    ($($feat:literal $m:ident),* $(,)?) => {
        $( #[cfg(feature = $feat)] pub mod $m; )*
        pub fn find(name: &str) -> Option<extern "C" fn()> {
            $( #[cfg(feature = $feat)]
            if let Some(x) = $m::LIST.iter().find(|x| x.0 == name) { return Some(x.1); } )*
            let _ = name;
            None
        }
    };
}

modules! {
    "c11_detect" c11_detect,
    "d_driver" d_driver,
    "d_graph" d_graph,
    "c06_filter" c06_filter,
    "c07_values" c07_values,
    "c08_dc" c08_dc,
    "c10_csv" c10_csv,
    "c12_csvout" c12_csvout,
    "c13_epoch" c13_epoch,
    "c26_http" c26_http,
    "c27_cli" c27_cli,
    "c28_fail" c28_fail,
    "c18_pick" c18_pick,
    "c25_packed" c25_packed,
    "c22_dir" c22_dir,
    "c19_zip" c19_zip,
    "c21_multi" c21_multi,
    "c17_reader" c17_reader,
    "c16_zone" c16_zone,
    "c15_begin" c15_begin,
    "c14_timecol" c14_timecol,
}
